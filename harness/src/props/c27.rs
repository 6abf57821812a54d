//! C27: loading and saving a second time changes nothing.
use super::{c11, c17, c26, first_diff};
use crate::animref::flatten;
use crate::dgen::*;
use crate::engine::*;
use crate::runner::*;
use crate::{ensure, fail};
use ssbh_data::anim_data::AnimData;

/// Save the same data twice.
fn save(d: &AnyData) -> Result<Result<Vec<u8>, String>, Fail> {
    let a = d.bytes()?;
    let b = d.clone().bytes()?;
    match (&a, &b) {
        (Ok(a), Ok(b)) => {
            if let Some(x) = first_diff(a, b) {
                fail!("saving the same {} twice gives other bytes: {x}", d.kind().name());
            }
        }
        (Err(a), Err(b)) => ensure!(a == b, "saving the same data twice fails with {a}, then {b}"),
        (a, b) => fail!("saving the same data twice: {:?}, then {:?}", a.as_ref().err(), b.as_ref().err()),
    }
    Ok(a)
}

fn load(kind: DKind, b: &[u8]) -> Result<AnyData, Fail> {
    AnyData::read_bytes(kind, b)?.map_err(|e| Fail(format!("{}: the saved data cannot be loaded: {e}", kind.name())))
}

/// Two successive animations of a load and save history.
fn anim_step(a: &AnimData, b: &AnimData, bytes: &[u8]) -> Result<bool, Fail> {
    let (x, y) = (c17::structure(a), c17::structure(b));
    for i in 0..x.len().max(y.len()) {
        ensure!(x.get(i) == y.get(i), "saved {:?}, read {:?}", x.get(i), y.get(i));
    }
    let st = c17::stored_tracks(bytes, if a.minor_version == 0 { "V20" } else { "V21" })?;
    let mut exact = true;
    for ((w, g), (_, compression)) in c17::tracks(a).iter().zip(c17::tracks(b)).zip(&st) {
        let (ty, want) = flatten(&w.values);
        let (_, got) = flatten(&g.values);
        let finite = ty == "Boolean" || ty == "PatternIndex" || want.iter().flatten().all(|x| f32::from_bits(*x).is_finite());
        if compression == "Compressed" {
            exact = false;
        }
        if finite || compression != "Compressed" {
            c17::compare(ty, compression, &want, &got, &format!("{compression} {ty} track {:?}", w.name))?;
        }
    }
    Ok(exact)
}

fn history(c: &mut Ctx, d: &AnyData, cycles: usize) -> R {
    let kind = d.kind();
    let mut b = match save(d)? {
        Ok(b) => b,
        Err(_) => {
            c.label(format!("{} refused", kind.name()));
            return Ok(());
        }
    };
    c.label(format!("{} saved", kind.name()));
    let mut d = load(kind, &b)?;
    for i in 0..cycles {
        let b2 = match save(&d)? {
            Ok(b) => b,
            Err(e) => fail!("{}: saved and loaded data is refused: {e}", kind.name()),
        };
        let d2 = load(kind, &b2)?;
        if let (AnyData::Anim(x), AnyData::Anim(y)) = (&d, &d2) {
            let exact = anim_step(x, y, &b2).map_err(|Fail(e)| Fail(format!("cycle {i}: {e}")))?;
            let before = c17::stored_tracks(&b, if x.minor_version == 0 { "V20" } else { "V21" })?;
            if !exact || before.iter().any(|t| t.1 == "Compressed") {
                (b, d) = (b2, d2);
                continue;
            }
        }
        ensure!(
            b == b2,
            "{}, cycle {i}: saving what was loaded gives {} bytes after {}: {}",
            kind.name(),
            b2.len(),
            b.len(),
            first_diff(&b, &b2).unwrap_or_default()
        );
        if let Some(x) = d.to_val()?.diff(&d2.to_val()?) {
            fail!("{}, cycle {i}: what is loaded changes: {x}", kind.name());
        }
        (b, d) = (b2, d2);
    }
    Ok(())
}

fn data(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let mut k = DK::valid();
    k.finite = c.src.chance(1, 3);
    k.big = c.src.chance(1, 8);
    let cycles = c.src.range(1, 3) as usize;
    let d = gen_data(&mut c.src, kind, &k);
    c.describe(|| d.debug());
    if let AnyData::Mesh(m) = &d {
        if m.minor_version == 8 && m.objects.iter().any(c11::only_binormals) {
            c.label("Mesh 1.8 nothing but binormals");
            return Ok(());
        }
    }
    let v = d.to_val()?;
    if v.size() > 10 {
        c.interesting(&v);
    }
    history(c, &d, cycles)
}

/// Data loaded from file values of any origin.
fn file(c: &mut Ctx) -> R {
    let kind = *c.src.pick(&DKINDS);
    let (k, v) = c26::file_value(&mut c.src, kind);
    c.describe(|| clip(format!("{v:?}")));
    let cycles = c.src.range(1, 3) as usize;
    match from_file_val(kind, &v)? {
        Ok(d) => {
            let dv = d.to_val()?;
            if dv.size() > 10 {
                c.interesting(&dv);
            }
            if let AnyData::Mesh(m) = &d {
                if m.minor_version == 8 && m.objects.iter().any(c11::only_binormals) {
                    return Ok(());
                }
            }
            history(c, &d, cycles)
        }
        Err(_) => {
            c.label(format!("{} not loaded", k.name()));
            Ok(())
        }
    }
}

/// With one dimension of the generated value far larger than usual.
fn large_data(c: &mut Ctx) -> R {
    c.src.large = true;
    data(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_file(c: &mut Ctx) -> R {
    c.src.large = true;
    file(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        level: "exploration",
        rule: "the data has more than ten values",
        assumptions: &[
            "version 1.8 meshes with objects that have no attributes but binormals are left out: the version cannot store those",
            "compressed animation tracks of finite values are compared within the compression error, all else byte for byte",
        ],
        subs: vec![
            Sub { name: "data", quick: 100_000, thorough: 10_000_000, enumerate: 8, f: data },
            Sub { name: "large_data", quick: 64, thorough: 3840, enumerate: 8, f: large_data },
            Sub { name: "file", quick: 100_000, thorough: 10_000_000, enumerate: 8, f: file },
            Sub { name: "large_file", quick: 160, thorough: 9600, enumerate: 8, f: large_file },
        ],
        probes: vec![],
    }
}
