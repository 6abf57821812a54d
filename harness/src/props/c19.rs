//! C19: animation structure is kept and invalid animations are refused.
use super::c18::{body, num, seq};
use crate::animref::*;
use crate::dgen::*;
use crate::engine::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::anim_data::*;

fn unit(v: &Val) -> &'static str {
    match v {
        Val::Variant(n, None) => n,
        _ => panic!("not a plain code"),
    }
}

fn text_is(v: &Val, want: &str) -> bool {
    matches!(v, Val::Some(x) if matches!(&**x, Val::Str(s) if s == want.as_bytes()))
}

fn flags(f: &TransformFlags) -> u64 {
    f.override_translation as u64
        | (f.override_rotation as u64) << 1
        | (f.override_scale as u64) << 2
        | (f.override_compensate_scale as u64) << 3
}

/// What the documented rules say about saving.
pub fn accepted(d: &AnimData) -> Result<(), &'static str> {
    if !matches!((d.major_version, d.minor_version), (2, 0) | (2, 1)) {
        return Err("version");
    }
    let longest =
        d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
    let f = d.final_frame_index as f64;
    // not "f < 0 || f < last": undefined values are refused too
    if !(f >= 0.0 && f >= longest as f64 - 1.0) {
        return Err("final frame index");
    }
    Ok(())
}

/// The stored tracks agree with the data: descriptors, slices, values.
fn check_stored(d: &AnimData, bytes: &[u8]) -> R {
    let version = if d.minor_version == 0 { "V20" } else { "V21" };
    let p = match parse_kind(kind("Anim", version), bytes) {
        Ok(p) => p,
        Err(e) => fail!("the saved animation is not readable by the format definition: {e:?}"),
    };
    let b = body(&p.val);
    ensure!(*b.field("final_frame_index") == Val::F(d.final_frame_index.to_bits()), "final frame index {:?}", b.field("final_frame_index"));
    let Val::Bytes(buffer) = b.field("buffer") else { panic!("buffer") };
    let groups = seq(b.field("groups"));
    ensure!(groups.len() == d.groups.len(), "{} groups stored", groups.len());
    let mut at = 0u64;
    for (g, dg) in groups.iter().zip(&d.groups) {
        ensure!(*g.field("group_type") == to_val(&dg.group_type).unwrap(), "group type {:?}", g.field("group_type"));
        let nodes = seq(g.field("nodes"));
        ensure!(nodes.len() == dg.nodes.len(), "{} nodes stored", nodes.len());
        for (n, dn) in nodes.iter().zip(&dg.nodes) {
            ensure!(text_is(n.field("name"), &dn.name), "node {:?} stored as {:?}", dn.name, n.field("name"));
            let tracks = seq(n.field("tracks"));
            ensure!(tracks.len() == dn.tracks.len(), "{} tracks stored", tracks.len());
            for (t, dt) in tracks.iter().zip(&dn.tracks) {
                let (ty, frames) = flatten(&dt.values);
                let what = format!("{ty} track {:?}", dt.name);
                ensure!(text_is(t.field("name"), &dt.name), "{what}: name {:?}", t.field("name"));
                ensure!(unit(t.field("flags").field("track_type")) == ty, "{what}: type {:?}", t.field("flags"));
                ensure!(num(t.field("frame_count")) == frames.len() as u64, "{what}: {} frames of {}", num(t.field("frame_count")), frames.len());
                let fl = num(&seq(t.field("transform_flags").field("bytes"))[0]);
                ensure!(fl == flags(&dt.transform_flags), "{what}: transform flags {fl:#x}");
                let (off, size) = (num(t.field("data_offset")), num(t.field("data_size")));
                ensure!(off >= at, "{what}: data starts at {off}, the track before ends at {at}");
                ensure!(
                    off.checked_add(size).map(|e| e <= buffer.len() as u64) == Some(true),
                    "{what}: data {off}+{size} outside the {} byte buffer",
                    buffer.len()
                );
                at = off + size;
                let compression = unit(t.field("flags").field("compression_type"));
                // the slice holds the whole track, by the format's definition
                let slice = &buffer[off as usize..at as usize];
                let dec = match decode(ty, compression, frames.len() as u64, slice) {
                    Ok(d) => d,
                    Err(e) => fail!("{what}: the stored {compression} data is malformed: {e}"),
                };
                if frames.iter().flatten().all(|b| ty == "PatternIndex" || ty == "Boolean" || f32::from_bits(*b).is_finite()) {
                    let got: Vec<Vec<u32>> = dec.frames.iter().map(|f| resolve(f)).collect();
                    super::c17::compare(ty, compression, &frames, &got, &format!("stored {compression} {what}"))?;
                }
                if ty == "Transform" && !frames.is_empty() {
                    ensure!(dec.compensate == dt.compensate_scale, "{what}: compensate scale {}", dec.compensate);
                }
            }
        }
    }
    Ok(())
}

/// Concrete values of a decoded frame.
fn resolve(f: &[Exp]) -> Vec<u32> {
    let mut out: Vec<u32> = vec![];
    for e in f {
        out.push(match e {
            Exp::Bits(b) => *b,
            Exp::Lerp(v, _) => (*v as f32).to_bits(),
            Exp::W(neg) => {
                let n2: f64 = out[out.len() - 3..].iter().map(|b| (f32::from_bits(*b) as f64).powi(2)).sum();
                let w = (1.0 - n2).max(0.0).sqrt() as f32;
                (if *neg { -w } else { w }).to_bits()
            }
        });
    }
    out
}

fn save(c: &mut Ctx) -> R {
    let mut k = if c.src.chance(1, 2) { DK::valid() } else { DK::wild() };
    k.finite = c.src.chance(2, 3);
    let d = anim(&mut c.src, &k);
    let want = accepted(&d);
    c.label(match want {
        Ok(()) => "accepted",
        Err(e) => e,
    });
    let any = AnyData::Anim(d);
    c.describe(|| any.debug());
    c.interesting(&any.to_val()?);
    let AnyData::Anim(d) = &any else { unreachable!() };
    match (want, any.bytes()?) {
        (Ok(()), Ok(b)) => {
            check_stored(d, &b)?;
            let got = match AnyData::read_bytes(DKind::Anim, &b)? {
                Ok(AnyData::Anim(x)) => x,
                Ok(_) => unreachable!(),
                Err(e) => fail!("the saved animation cannot be read: {e}"),
            };
            let (x, y) = (super::c17::structure(d), super::c17::structure(&got));
            for i in 0..x.len().max(y.len()) {
                ensure!(x.get(i) == y.get(i), "saved {:?}, read {:?}", x.get(i), y.get(i));
            }
            Ok(())
        }
        (Err(w), Err(e)) => {
            let right = match w {
                "version" => e.contains(&format!("{}", d.major_version)),
                _ => e.to_lowercase().contains("frame"),
            };
            ensure!(right, "refused for its {w}, but the error is {e:?}");
            Ok(())
        }
        (Ok(()), Err(e)) => fail!("a valid animation is refused: {e}"),
        (Err(w), Ok(_)) => fail!("an animation with an invalid {w} is saved"),
    }
}

fn field_mut<'a>(v: &'a mut Val, name: &str) -> &'a mut Val {
    match v {
        Val::Map(m) => &mut m.iter_mut().find(|(n, _)| *n == name).unwrap().1,
        _ => panic!(),
    }
}
pub fn body_mut(v: &mut Val) -> &mut Val {
    match v {
        Val::Variant(_, Some(x)) => match &mut **x {
            Val::Variant(_, Some(b)) => b,
            _ => panic!(),
        },
        _ => panic!(),
    }
}

/// Descriptors outside the buffer are refused; moved ones inside are followed.
fn descriptors(c: &mut Ctx) -> R {
    let mut a = stored_anim(&mut c.src, false);
    if a.tracks.is_empty() {
        return Ok(());
    }
    let target = c.src.usize(a.tracks.len());
    let b = body_mut(&mut a.val);
    let mut len = match b.field("buffer") {
        Val::Bytes(b) => b.len() as u64,
        _ => panic!(),
    };
    let mode = c.src.below(3);
    let mut want_ok = false;
    if mode == 0 {
        // the buffer itself is too short for the last track
        let Val::Bytes(buf) = field_mut(b, "buffer") else { panic!() };
        let n = c.src.usize(buf.len() + 1);
        buf.truncate(n);
        len = n as u64;
    }
    let mut i = 0;
    let mut what = String::new();
    let Val::Seq(gs) = field_mut(b, "groups") else { panic!() };
    let mut all_in = true;
    for g in gs {
        let Val::Seq(ns) = field_mut(g, "nodes") else { panic!() };
        for n in ns {
            let Val::Seq(ts) = field_mut(n, "tracks") else { panic!() };
            for t in ts {
                if i == target && mode > 0 {
                    let (off, size) = (num(t.field("data_offset")), num(t.field("data_size")));
                    let (o, s) = match c.src.below(5) {
                        0 => (off, (len - off) + 1 + c.src.below(20)),
                        1 => (((len - size) + 1 + c.src.below(20)).min(u32::MAX as u64), size),
                        2 => (u32::MAX as u64 - c.src.below(3), size),
                        3 => (off, u64::MAX - c.src.below(1 + off)),
                        _ => (off, (1 << 32) * (1 + c.src.below(4)) + size),
                    };
                    *field_mut(t, "data_offset") = Val::U(o);
                    *field_mut(t, "data_size") = Val::U(s);
                }
                i += 1;
                let (off, size) = (num(t.field("data_offset")), num(t.field("data_size")));
                if off.checked_add(size).map(|e| e <= len) != Some(true) {
                    all_in = false;
                    what = format!("{off}+{size} in a buffer of {len} bytes");
                }
            }
        }
    }
    if all_in {
        want_ok = true;
    }
    c.label(if want_ok { "inside" } else { "outside" });
    let k = kind("Anim", a.version);
    let bytes = canonical(k, &a.val);
    c.interesting(&bytes);
    c.describe(|| clip(format!("{what} {}", hex(&bytes))));
    let r = AnyData::read_bytes(DKind::Anim, &bytes)?;
    if !want_ok {
        ensure!(r.is_err(), "a track at {what} is read");
    } else if let Err(e) = r {
        fail!("every track lies inside the buffer but reading fails: {e}");
    }
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_save(c: &mut Ctx) -> R {
    c.src.large = true;
    save(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "every case: a generated animation, valid or not, saved; or a stored animation with changed track ranges",
        assumptions: &["animref.rs states the track format independently"],
        subs: vec![
            Sub { name: "save", quick: 500_000, thorough: 20_000_000, enumerate: 6, f: save },
            Sub { name: "large_save", quick: 800, thorough: 48000, enumerate: 6, f: large_save },
            Sub { name: "descriptors", quick: 750_000, thorough: 10_000_000, enumerate: 0, f: descriptors },
        ],
        probes: vec![],
    }
}
