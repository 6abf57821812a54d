//! C22: model and helper-bone data convert without loss in both directions.
use super::c18::{body, num, seq};
use super::c21::text_or_empty;
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::val::*;
use crate::{ensure, fail};

/// Strings of the file value as the editable form shows them; keeps what is no string.
fn texts(v: &Val, names: &[&str]) -> Val {
    match v {
        Val::Map(m) => Val::Map(
            m.iter().map(|(n, x)| (*n, if names.contains(n) { text_or_empty(x) } else { x.clone() })).collect(),
        ),
        _ => panic!(),
    }
}

const AIM: [&str; 7] =
    ["name", "aim_bone_name1", "aim_bone_name2", "aim_type1", "aim_type2", "target_bone_name1", "target_bone_name2"];
const ORIENT: [&str; 5] = ["name", "parent_bone_name1", "parent_bone_name2", "source_bone_name", "target_bone_name"];

/// The editable form a file value stands for.
pub fn editable(kind: DKind, file: &Val) -> Val {
    let b = body(file);
    if kind == DKind::Modl {
        let anim = match b.field("animation_file_name") {
            Val::Some(x) => Val::Some(Box::new(text_or_empty(x))),
            _ => Val::None,
        };
        return Val::Map(vec![
            ("major_version", Val::U(1)),
            ("minor_version", Val::U(7)),
            ("model_name", text_or_empty(b.field("model_name"))),
            ("skeleton_file_name", text_or_empty(b.field("skeleton_file_name"))),
            ("material_file_names", Val::Seq(seq(b.field("material_file_names")).iter().map(text_or_empty).collect())),
            ("animation_file_name", anim),
            ("mesh_file_name", text_or_empty(b.field("mesh_file_name"))),
            (
                "entries",
                Val::Seq(
                    seq(b.field("entries")).iter().map(|e| texts(e, &["mesh_object_name", "material_label"])).collect(),
                ),
            ),
        ]);
    }
    let aim = seq(b.field("aim_constraints"))
        .iter()
        .map(|a| match texts(a, &AIM) {
            Val::Map(m) => Val::Map(m.into_iter().filter(|(n, _)| !n.starts_with("unk") || n.len() == 4).collect()),
            _ => unreachable!(),
        })
        .collect();
    let orient = seq(b.field("orient_constraints")).iter().map(|a| texts(a, &ORIENT)).collect();
    Val::Map(vec![
        ("major_version", Val::U(1)),
        ("minor_version", Val::U(1)),
        ("aim_constraints", Val::Seq(aim)),
        ("orient_constraints", Val::Seq(orient)),
    ])
}

/// Field by field, whatever order the fields are listed in.
fn same(want: &Val, got: &Val, at: &str) -> R {
    match (want, got) {
        (Val::Map(w), Val::Map(g)) => {
            ensure!(w.len() == g.len(), "{at}: {} fields, expected {}", g.len(), w.len());
            for (n, x) in w {
                match g.iter().find(|(m, _)| m == n) {
                    Some((_, y)) => same(x, y, &format!("{at}.{n}"))?,
                    None => fail!("{at}: no {n}"),
                }
            }
            Ok(())
        }
        (Val::Seq(w), Val::Seq(g)) => {
            ensure!(w.len() == g.len(), "{at}: {} elements, expected {}", g.len(), w.len());
            for (i, (x, y)) in w.iter().zip(g).enumerate() {
                same(x, y, &format!("{at}[{i}]"))?;
            }
            Ok(())
        }
        _ => {
            ensure!(want == got, "{at} is {got:?}, expected {want:?}");
            Ok(())
        }
    }
}

fn parse(kind: DKind, bytes: &[u8]) -> Result<Val, Fail> {
    match parse_kind(kind.kinds()[0], bytes) {
        Ok(p) => Ok(p.val),
        Err(e) => fail!("the saved file is not readable by the format definition: {e:?}"),
    }
}

fn lists(file: &Val) -> R {
    let b = body(file);
    let (a, o) = (seq(b.field("aim_constraints")).len(), seq(b.field("orient_constraints")).len());
    let idx: Vec<u64> = seq(b.field("constraint_indices")).iter().map(num).collect();
    let ty = seq(b.field("constraint_types"));
    ensure!(idx.len() == a + o && ty.len() == a + o, "{} indices, {} types for {a} + {o} constraints", idx.len(), ty.len());
    for i in 0..a + o {
        let (n, t) = if i < a { (i, "Aim") } else { (i - a, "Orient") };
        ensure!(idx[i] == n as u64 && ty[i] == Val::Variant(t, None), "constraint {i} is listed as {:?} {}", ty[i], idx[i]);
    }
    Ok(())
}

fn pick(c: &mut Ctx) -> DKind {
    *c.src.pick(&[DKind::Modl, DKind::Hlpb])
}

fn saved(c: &mut Ctx) -> R {
    let kind = pick(c);
    let d = gen_data(&mut c.src, kind, &DK::valid());
    c.describe(|| d.debug());
    c.label(kind.name());
    let v = d.to_val()?;
    if v.size() > 12 {
        c.interesting(&v);
    }
    let bytes = d.must_bytes()?;
    match AnyData::read_bytes(kind, &bytes)? {
        Ok(x) => {
            if let Some(x) = v.diff(&x.to_val()?) {
                fail!("{}: reloaded data differs: {x}", kind.name());
            }
        }
        Err(e) => fail!("{}: saved data cannot be read: {e}", kind.name()),
    }
    let f = parse(kind, &bytes)?;
    same(&v, &editable(kind, &f), kind.name())?;
    if kind == DKind::Hlpb {
        lists(&f)?;
    }
    Ok(())
}

fn loaded(c: &mut Ctx) -> R {
    let kind = pick(c);
    let k = kind.kinds()[0];
    let v = lossy(&gen_file(&mut c.src, k, &mut Knobs::all()));
    c.describe(|| clip(format!("{v:?}")));
    c.label(kind.name());
    if v.size() > 12 {
        c.interesting(&v);
    }
    let bytes = if c.src.chance(1, 4) { scattered(&mut c.src, k, &v).bytes } else { canonical(k, &v) };
    let d = match AnyData::read_bytes(kind, &bytes)? {
        Ok(d) => d,
        Err(e) => fail!("{}: a file is refused: {e}", kind.name()),
    };
    let want = editable(kind, &v);
    same(&want, &d.to_val()?, kind.name())?;
    // and back: nothing the editable form holds is lost
    let f = parse(kind, &d.must_bytes()?)?;
    same(&want, &editable(kind, &f), &format!("{} saved again", kind.name()))?;
    if kind == DKind::Hlpb {
        lists(&f)?;
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_loaded(c: &mut Ctx) -> R {
    c.src.large = true;
    loaded(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "data or files with more than 12 parts",
        assumptions: &["text is UTF-8 and free of NUL; null strings are shown as empty text"],
        subs: vec![
            Sub { name: "saved", quick: 480_000, thorough: 20_000_000, enumerate: 2, f: saved },
            Sub { name: "large_saved", quick: 80, thorough: 4800, enumerate: 2, f: large_saved },
            Sub { name: "loaded", quick: 480_000, thorough: 20_000_000, enumerate: 2, f: loaded },
            Sub { name: "large_loaded", quick: 640, thorough: 38400, enumerate: 2, f: large_loaded },
        ],
        probes: vec![],
    }
}
