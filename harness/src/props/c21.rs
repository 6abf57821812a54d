//! C21: material parameters survive saving and loading in every type.
use super::c18::{body, num, seq};
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};

pub const GROUPS: [(&str, &str); 8] = [
    ("blend_states", "BlendState"),
    ("floats", "Float"),
    ("booleans", "Boolean"),
    ("vectors", "Vector4"),
    ("rasterizer_states", "RasterizerState"),
    ("samplers", "Sampler"),
    ("textures", "String"),
    ("uv_transforms", "UvTransform"),
];

pub fn text_or_empty(v: &Val) -> Val {
    match v {
        Val::Some(x) => text_or_empty(x),
        Val::Str(_) => v.clone(),
        Val::None => Val::Str(vec![]),
        _ => panic!("not a string: {v:?}"),
    }
}

fn get(v: &Val, names: &[&'static str]) -> Vec<(&'static str, Val)> {
    names.iter().map(|n| (*n, v.field(n).clone())).collect()
}

fn unit(n: &'static str) -> Val {
    Val::Variant(n, None)
}

/// The editable form of a stored parameter value.
fn editable(kind: &str, version: &str, v: &Val) -> Val {
    match kind {
        "Boolean" => Val::Bool(num(v) != 0),
        "String" => text_or_empty(v),
        "Sampler" => {
            let mut m = get(v, &["wraps", "wrapt", "wrapr", "min_filter", "mag_filter", "border_color", "lod_bias"]);
            let a = if *v.field("texture_filtering_type") == unit("AnisotropicFiltering") {
                v.field("max_anisotropy").clone()
            } else {
                unit("One")
            };
            m.push(("max_anisotropy", a));
            Val::Map(m)
        }
        "BlendState" => {
            let mut m = get(
                v,
                &["source_color", "color_operation", "destination_color", "source_alpha", "alpha_operation", "destination_alpha"],
            );
            let a = if version == "V16" { num(v.field("alpha_sample_to_coverage")) != 0 } else { false };
            m.push(("alpha_sample_to_coverage", Val::Bool(a)));
            Val::Map(m)
        }
        "RasterizerState" => {
            if version == "V16" {
                Val::Map(get(v, &["fill_mode", "cull_mode", "depth_bias"]))
            } else {
                Val::Map(vec![
                    ("fill_mode", unit("Solid")),
                    ("cull_mode", v.field("cull_mode").clone()),
                    ("depth_bias", Val::F(0)),
                ])
            }
        }
        _ => v.clone(),
    }
}

/// The stored form of an editable value, without the parts that only the file has.
fn stored(kind: &str, v: &Val) -> Val {
    match kind {
        "Boolean" => Val::U(if *v == Val::Bool(true) { 1 } else { 0 }),
        "Sampler" => {
            let mut m = match v {
                Val::Map(m) => m.clone(),
                _ => panic!(),
            };
            let f = if *v.field("max_anisotropy") == unit("One") { "Default" } else { "AnisotropicFiltering" };
            m.push(("texture_filtering_type", unit(f)));
            Val::Map(m)
        }
        "BlendState" => {
            let mut m = match v {
                Val::Map(m) => m.clone(),
                _ => panic!(),
            };
            let a = if m[6].1 == Val::Bool(true) { 1 } else { 0 };
            m[6].1 = Val::U(a);
            Val::Map(m)
        }
        _ => v.clone(),
    }
}

/// Does the file's value contain every part of the expected one?
fn covers(file: &Val, want: &Val) -> bool {
    match (file, want) {
        (Val::Map(f), Val::Map(w)) => {
            w.iter().all(|(n, x)| f.iter().find(|(m, _)| m == n).map(|(_, y)| covers(y, x)).unwrap_or(false))
        }
        (Val::Some(f), Val::Str(_)) => covers(f, want),
        _ => file == want,
    }
}

/// (id, kind, value) of the stored parameters of an entry.
fn params(entry: &Val) -> Vec<(Val, &'static str, Val)> {
    let mut out = vec![];
    for a in seq(entry.field("attributes")) {
        let mut p = a.field("param");
        if let Val::Map(m) = p {
            p = &m[0].1;
        }
        if let Val::Some(x) = p {
            p = x;
        }
        if let Val::Variant(k, Some(x)) = p {
            out.push((a.field("param_id").clone(), *k, (**x).clone()));
        }
    }
    out
}

fn saved(c: &mut Ctx) -> R {
    let d = gen_data(&mut c.src, DKind::Matl, &DK::valid());
    c.describe(|| d.debug());
    let v = d.to_val()?;
    if v.size() > 20 {
        c.interesting(&v);
    }
    let bytes = d.must_bytes()?;
    let got = match AnyData::read_bytes(DKind::Matl, &bytes)? {
        Ok(x) => x.to_val()?,
        Err(e) => fail!("the saved materials cannot be read: {e}"),
    };
    if let Some(x) = v.diff(&got) {
        fail!("reloaded materials differ: {x}");
    }
    let p = match parse_kind(kind("Matl", "V16"), &bytes) {
        Ok(p) => p,
        Err(e) => fail!("the saved materials are not readable by the format definition: {e:?}"),
    };
    let entries = seq(body(&p.val).field("entries"));
    let want = seq(v.field("entries"));
    ensure!(entries.len() == want.len(), "{} entries stored of {}", entries.len(), want.len());
    for (e, w) in entries.iter().zip(want) {
        for l in ["material_label", "shader_label"] {
            ensure!(text_or_empty(e.field(l)) == *w.field(l), "{l} {:?} stored as {:?}", w.field(l), e.field(l));
        }
        let ps = params(e);
        let mut total = 0;
        for (group, kind) in GROUPS {
            let st: Vec<_> = ps.iter().filter(|p| p.1 == kind).collect();
            let w = seq(w.field(group));
            total += w.len();
            ensure!(st.len() == w.len(), "{group}: {} stored of {}", st.len(), w.len());
            for (s, w) in st.iter().zip(w) {
                ensure!(s.0 == *w.field("param_id"), "{group}: id {:?} stored as {:?}", w.field("param_id"), s.0);
                let x = stored(kind, w.field("data"));
                ensure!(covers(&s.2, &x), "{group}: {x:?} stored as {:?}", s.2);
            }
        }
        ensure!(total == seq(e.field("attributes")).len(), "{} parameters stored of {total}", seq(e.field("attributes")).len());
    }
    Ok(())
}

fn check_loaded(version: &'static str, file: &Val, data: &Val) -> R {
    let entries = seq(body(file).field("entries"));
    let got = seq(data.field("entries"));
    ensure!(entries.len() == got.len(), "{} entries loaded of {}", got.len(), entries.len());
    for (e, g) in entries.iter().zip(got) {
        for l in ["material_label", "shader_label"] {
            let w = text_or_empty(e.field(l));
            ensure!(w == *g.field(l), "{l} {w:?} loaded as {:?}", g.field(l));
        }
        let ps = params(e);
        for (group, kind) in GROUPS {
            let w: Vec<_> = ps.iter().filter(|p| p.1 == kind).collect();
            let g = seq(g.field(group));
            ensure!(g.len() == w.len(), "{group}: {} loaded of {}", g.len(), w.len());
            for (w, g) in w.iter().zip(g) {
                ensure!(w.0 == *g.field("param_id"), "{group}: id {:?} loaded as {:?}", w.0, g.field("param_id"));
                let x = editable(kind, version, &w.2);
                if let Some(d) = x.diff(g.field("data")) {
                    fail!("{group}: {:?} loaded as {:?}: {d}", w.2, g.field("data"));
                }
            }
        }
    }
    Ok(())
}

fn loaded(c: &mut Ctx) -> R {
    let version = *c.src.pick(&["V15", "V16"]);
    let k = kind("Matl", version);
    let v = gen_file(&mut c.src, k, &mut Knobs::all());
    c.describe(|| clip(format!("{v:?}")));
    if v.size() > 20 {
        c.interesting(&v);
    }
    c.label(version);
    let bytes = if c.src.chance(1, 4) { scattered(&mut c.src, k, &v).bytes } else { canonical(k, &v) };
    let d = match AnyData::read_bytes(DKind::Matl, &bytes)? {
        Ok(d) => d,
        Err(e) => fail!("a material file is refused: {e}"),
    };
    let dv = d.to_val()?;
    let minor = if version == "V15" { 5 } else { 6 };
    ensure!(
        num(dv.field("major_version")) == 1 && num(dv.field("minor_version")) == minor,
        "{version} loaded as version {:?}.{:?}",
        dv.field("major_version"),
        dv.field("minor_version")
    );
    check_loaded(version, &lossy(&v), &dv)?;
    // consistent in both directions: saving what was loaded and loading it changes nothing
    match d.bytes()? {
        Ok(b) => match AnyData::read_bytes(DKind::Matl, &b)? {
            Ok(x) => {
                if let Some(x) = dv.diff(&x.to_val()?) {
                    fail!("loaded, saved and loaded materials differ: {x}");
                }
                ensure!(version == "V16", "{version} is saved although the version is unsupported");
            }
            Err(e) => fail!("saved materials cannot be loaded: {e}"),
        },
        Err(e) => ensure!(version == "V15", "{version} materials are refused: {e}"),
    }
    Ok(())
}

fn versions(c: &mut Ctx) -> R {
    let d = gen_data(&mut c.src, DKind::Matl, &DK::valid());
    let AnyData::Matl(mut d) = d else { unreachable!() };
    (d.major_version, d.minor_version) = match c.src.below(3) {
        0 => (1, c.src.below(12) as u16),
        1 => (c.src.below(4) as u16, 6),
        _ => (c.src.u64() as u16, c.src.u64() as u16),
    };
    let ok = (d.major_version, d.minor_version) == (1, 6);
    let (a, b) = (d.major_version, d.minor_version);
    c.describe(|| format!("{a}.{b}"));
    c.interesting(&(a, b));
    match AnyData::Matl(d).bytes()? {
        Ok(_) => ensure!(ok, "version {a}.{b} is saved"),
        Err(e) => {
            ensure!(!ok, "version 1.6 is refused: {e}");
            ensure!(e.contains("UnsupportedVersion") && e.contains(&a.to_string()) && e.contains(&b.to_string()), "version {a}.{b} is refused with {e:?}");
        }
    }
    Ok(())
}

/// The public entry conversions of both versions.
fn entries(c: &mut Ctx) -> R {
    use ssbh_data::matl_data::MatlEntryData;
    use ssbh_lib::formats::matl::*;
    let AnyData::Matl(d) = gen_data(&mut c.src, DKind::Matl, &DK::valid()) else { unreachable!() };
    let Some(e) = d.entries.first() else { return Ok(()) };
    let v = to_val(e).unwrap();
    c.describe(|| format!("{v:?}"));
    c.interesting(&v);
    let b = to_val(&lib(|| MatlEntryData::from(&MatlEntryV16::from(e)))?).unwrap();
    if let Some(x) = v.diff(&b) {
        fail!("entry converted to version 1.6 and back differs: {x}");
    }
    let b = to_val(&lib(|| MatlEntryData::from(&MatlEntryV15::from(e)))?).unwrap();
    for l in ["material_label", "shader_label"] {
        ensure!(v.field(l) == b.field(l), "version 1.5: {l}");
    }
    for (group, kind) in GROUPS {
        let (w, g) = (seq(v.field(group)), seq(b.field(group)));
        ensure!(w.len() == g.len(), "version 1.5: {group}: {} of {}", g.len(), w.len());
        for (w, g) in w.iter().zip(g) {
            ensure!(w.field("param_id") == g.field("param_id"), "version 1.5: {group}: id {:?}", g.field("param_id"));
            // what version 1.5 stores
            let fields: &[&'static str] = match kind {
                "BlendState" => &["source_color", "destination_color"],
                "RasterizerState" => &["cull_mode"],
                _ => {
                    if let Some(d) = w.diff(g) {
                        fail!("version 1.5: {group}: {d}");
                    }
                    &[]
                }
            };
            for f in fields {
                let (a, b) = (w.field("data").field(f), g.field("data").field(f));
                ensure!(a == b, "version 1.5: {group}: {f} {a:?} becomes {b:?}");
            }
        }
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_loaded(c: &mut Ctx) -> R {
    c.src.large = true;
    loaded(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_entries(c: &mut Ctx) -> R {
    c.src.large = true;
    entries(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "saved, loaded: materials with more than 20 parts; versions, entries: every case",
        assumptions: &["text is UTF-8; null strings load as empty text; null parameters are no parameters"],
        subs: vec![
            Sub { name: "saved", quick: 480_000, thorough: 4_000_000, enumerate: 0, f: saved },
            Sub { name: "large_saved", quick: 320, thorough: 19200, enumerate: 0, f: large_saved },
            Sub { name: "loaded", quick: 720_000, thorough: 6_000_000, enumerate: 2, f: loaded },
            Sub { name: "large_loaded", quick: 320, thorough: 19200, enumerate: 2, f: large_loaded },
            Sub { name: "versions", quick: 360_000, thorough: 300_000, enumerate: 0, f: versions },
            Sub { name: "entries", quick: 720_000, thorough: 4_000_000, enumerate: 0, f: entries },
            Sub { name: "large_entries", quick: 1200, thorough: 72000, enumerate: 0, f: large_entries },
        ],
        probes: vec![],
    }
}
