//! C17: animation values survive saving, exactly or within the compression error.
use super::c18::{body, num, seq};
use crate::animref::flatten;
use crate::dgen::*;
use crate::engine::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::anim_data::*;

const STEPS: f64 = 16777215.0;

fn f(b: u32) -> f64 {
    f32::from_bits(b) as f64
}

/// Allowed error for one component of a compressed track.
fn tolerance(values: &[Vec<u32>], i: usize) -> f64 {
    let it = || values.iter().map(|v| f(v[i]));
    let min = it().fold(f64::INFINITY, f64::min);
    let max = it().fold(f64::NEG_INFINITY, f64::max);
    // the documented step, a few roundings to 32 bit floats
    2.1 * (max - min) / STEPS + 6.1e-8 * min.abs().max(max.abs()) + 3e-45
}

/// Compare the loaded frames of a track with the saved ones.
pub fn compare(ty: &str, compression: &str, want: &[Vec<u32>], got: &[Vec<u32>], what: &str) -> R {
    if compression == "Compressed" && ty != "Boolean" && ty != "PatternIndex" && got.len() == 1 && want.len() > 1 {
        // every frame is the same: stored as a single repeated frame
        ensure!(
            want.iter().all(|w| w.iter().zip(&want[0]).all(|(a, b)| f32::from_bits(*a) == f32::from_bits(*b))),
            "{what}: {} different frames read as one",
            want.len()
        );
        ensure!(
            ty != "Transform" && want[0].iter().zip(&got[0]).all(|(a, b)| f32::from_bits(*a) == f32::from_bits(*b)),
            "{what}: the repeated frame changed"
        );
        return Ok(());
    }
    ensure!(want.len() == got.len(), "{what}: {} frames read, {} saved", got.len(), want.len());
    if compression != "Compressed" || ty == "Boolean" || ty == "PatternIndex" {
        for (j, (w, g)) in want.iter().zip(got).enumerate() {
            ensure!(w == g, "{what}: frame {j} is {g:x?}, saved {w:x?}");
        }
        return Ok(());
    }
    if want.is_empty() {
        return Ok(());
    }
    let tol: Vec<f64> = (0..want[0].len()).map(|i| tolerance(want, i)).collect();
    for (j, (w, g)) in want.iter().zip(got).enumerate() {
        for i in 0..w.len() {
            let (a, b) = (f(w[i]), f(g[i]));
            if ty == "Transform" && i == 6 {
                // the fourth rotation component: root of what is left, with the sign kept
                let n2: f64 = (3..6).map(|k| f(g[k]) * f(g[k])).sum();
                let w2 = (1.0 - n2).max(0.0);
                ensure!(
                    b == 0.0 || b.is_sign_negative() == f32::from_bits(w[6]).is_sign_negative(),
                    "{what}: frame {j}: rotation w {a} read as {b}"
                );
                ensure!(
                    n2 > 1e30 || (b * b - w2).abs() <= 4e-7 * (1.0 + n2),
                    "{what}: frame {j}: rotation w is {b}, the other components leave {w2}"
                );
                let unit: f64 = (3..7).map(|k| f(w[k]) * f(w[k])).sum();
                if (unit - 1.0).abs() < 1e-6 {
                    let t: f64 = (3..6).map(|k| (2.0 * f(w[k]).abs() + tol[k]) * tol[k]).sum();
                    ensure!(
                        (b * b - a * a).abs() <= t + 2e-6,
                        "{what}: frame {j}: unit rotation w {a} read as {b}"
                    );
                }
                continue;
            }
            ensure!(
                (a - b).abs() <= tol[i],
                "{what}: frame {j} component {i}: {a:?} read as {b:?} (off by {:e}, allowed {:e})",
                (a - b).abs(),
                tol[i]
            );
        }
    }
    Ok(())
}

/// (type, compression) of every track in a saved file, in order.
pub fn stored_tracks(bytes: &[u8], version: &str) -> Result<Vec<(String, String)>, Fail> {
    let p = match parse_kind(kind("Anim", version), bytes) {
        Ok(p) => p,
        Err(e) => fail!("the saved animation is not readable by the format definition: {e:?}"),
    };
    let mut out = vec![];
    for g in seq(body(&p.val).field("groups")) {
        for n in seq(g.field("nodes")) {
            for t in seq(n.field("tracks")) {
                let fl = t.field("flags");
                let name = |v: &Val| match v {
                    Val::Variant(n, None) => n.to_string(),
                    _ => panic!(),
                };
                out.push((name(fl.field("track_type")), name(fl.field("compression_type"))));
            }
        }
    }
    let _ = num;
    Ok(out)
}

pub fn tracks(d: &AnimData) -> Vec<&TrackData> {
    d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).collect()
}

/// Everything but the values of the tracks.
pub fn structure(d: &AnimData) -> Vec<String> {
    let mut out = vec![format!("{}.{} {:?}", d.major_version, d.minor_version, d.final_frame_index.to_bits())];
    for g in &d.groups {
        out.push(format!("group {:?}", g.group_type));
        for n in &g.nodes {
            out.push(format!("node {:?}", n.name));
            for t in &n.tracks {
                out.push(format!(
                    "track {:?} {} {:?} {}",
                    t.name,
                    flatten(&t.values).0,
                    t.transform_flags,
                    // compensate scale only exists for transforms with values
                    t.compensate_scale && matches!(&t.values, TrackValues::Transform(v) if !v.is_empty())
                ));
            }
        }
    }
    out
}

fn check(c: &mut Ctx, d: AnimData) -> R {
    let version = if d.minor_version == 0 { "V20" } else { "V21" };
    let any = AnyData::Anim(d);
    c.describe(|| any.debug());
    c.interesting(&any.to_val()?);
    let bytes = any.must_bytes()?;
    let got = match AnyData::read_bytes(DKind::Anim, &bytes)? {
        Ok(AnyData::Anim(x)) => x,
        Ok(_) => unreachable!(),
        Err(e) => fail!("the saved animation cannot be read: {e}"),
    };
    let AnyData::Anim(d) = &any else { unreachable!() };
    let (a, b) = (structure(d), structure(&got));
    for i in 0..a.len().max(b.len()) {
        ensure!(a.get(i) == b.get(i), "saved {:?}, read {:?}", a.get(i), b.get(i));
    }
    let st = stored_tracks(&bytes, version)?;
    let (a, b) = (tracks(d), tracks(&got));
    ensure!(st.len() == a.len(), "{} tracks stored, {} saved", st.len(), a.len());
    for ((w, g), (_, compression)) in a.iter().zip(&b).zip(&st) {
        let (ty, want) = flatten(&w.values);
        let (_, got) = flatten(&g.values);
        c.label(format!("{ty} {compression}"));
        compare(ty, compression, &want, &got, &format!("{compression} {ty} track {:?}", w.name))?;
    }
    Ok(())
}

fn whole(c: &mut Ctx) -> R {
    let d = anim(&mut c.src, &DK::json());
    check(c, d)
}

/// One track at a time, many frames, all kinds.
fn single(c: &mut Ctx) -> R {
    let k = DK::json();
    let n = match c.src.weighted(&[1, 6, 2]) {
        0 => c.src.below(3) as usize,
        1 => c.src.range(2, 40) as usize,
        _ => c.src.range(40, 600) as usize,
    };
    let ty = c.src.usize(6);
    let values = track_values(&mut c.src, &k, n, ty);
    let d = AnimData {
        major_version: 2,
        minor_version: c.src.below(2) as u16,
        final_frame_index: n as f32,
        groups: vec![GroupData {
            group_type: GroupType::Transform,
            nodes: vec![NodeData {
                name: "n".into(),
                tracks: vec![TrackData {
                    name: "t".into(),
                    compensate_scale: c.src.chance(1, 2),
                    transform_flags: TransformFlags::default(),
                    values,
                }],
            }],
        }],
    };
    check(c, d)
}

/// With one dimension of the generated value far larger than usual.
fn large_whole(c: &mut Ctx) -> R {
    c.src.large = true;
    whole(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "every case: an animation with finite values saved and loaded",
        assumptions: &[
            "finite values; a compressed component may be off by 2.1 quantisation steps (one for truncation, two half roundings of the ratio) plus one rounding of the largest value",
            "a compressed track of equal frames that needs no bits is read as one repeated frame",
        ],
        subs: vec![
            Sub { name: "whole", quick: 600_000, thorough: 20_000_000, enumerate: 4, f: whole },
            Sub { name: "large_whole", quick: 1600, thorough: 96000, enumerate: 4, f: large_whole },
            Sub { name: "single", quick: 1_200_000, thorough: 40_000_000, enumerate: 6, f: single },
        ],
        probes: vec![],
    }
}
