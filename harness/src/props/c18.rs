//! C18: stored tracks decode by the format's bit-level definition.
use crate::alloc;
use crate::animref::*;
use crate::dgen::*;
use crate::engine::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};

fn text_of(v: &Val) -> String {
    match v {
        Val::Some(x) => match &**x {
            Val::Str(s) => String::from_utf8(s.clone()).unwrap_or_default(),
            _ => panic!(),
        },
        _ => String::new(),
    }
}

pub fn seq(v: &Val) -> &Vec<Val> {
    match v {
        Val::Seq(s) => s,
        _ => panic!("not a list"),
    }
}
pub fn num(v: &Val) -> u64 {
    match v {
        Val::U(x) => *x,
        _ => panic!("not a number"),
    }
}
pub fn body(v: &Val) -> &Val {
    match v {
        Val::Variant(_, Some(x)) => match &**x {
            Val::Variant(_, Some(b)) => b,
            _ => panic!(),
        },
        _ => panic!(),
    }
}

fn check(c: &mut Ctx, may_break: bool) -> R {
    let a = stored_anim(&mut c.src, may_break);
    let k = kind("Anim", a.version);
    let bytes = if c.src.chance(1, 4) { scattered(&mut c.src, k, &a.val).bytes } else { canonical(k, &a.val) };
    for (t, d) in &a.tracks {
        c.label(format!("{} {}", t.ty, t.compression));
        if d.is_err() {
            c.label("malformed");
        }
    }
    c.interesting(&bytes);
    c.describe(|| clip(format!("{:?}", a.tracks.iter().map(|(t, d)| (t.ty, t.compression, t.count, hex(&t.bytes), d.is_ok())).collect::<Vec<_>>())));
    let limit = 64 << 20;
    let (r, _) = alloc::guarded(limit, limit, || AnyData::read_bytes(DKind::Anim, &bytes));
    let r = r?;
    if let Some((t, Err(e))) = a.tracks.iter().find(|(_, d)| d.is_err()) {
        ensure!(
            r.is_err(),
            "{} {} track with {} frames in {} bytes is malformed ({e}) but was read",
            t.compression,
            t.ty,
            t.count,
            t.bytes.len()
        );
        return Ok(());
    }
    let data = match r {
        Ok(AnyData::Anim(d)) => d,
        Ok(_) => unreachable!(),
        Err(e) => fail!("a well-formed animation is refused: {e}"),
    };
    let b = body(&a.val);
    let want_version = if a.version == "V20" { (2, 0) } else { (2, 1) };
    ensure!((data.major_version, data.minor_version) == want_version, "version {}.{}", data.major_version, data.minor_version);
    match b.field("final_frame_index") {
        Val::F(f) => ensure!(*f == data.final_frame_index.to_bits(), "final frame index is {}", data.final_frame_index),
        _ => panic!(),
    }
    let groups = seq(b.field("groups"));
    ensure!(groups.len() == data.groups.len(), "{} groups, expected {}", data.groups.len(), groups.len());
    let mut i = 0;
    for (g, dg) in groups.iter().zip(&data.groups) {
        let gt = to_val(&dg.group_type).unwrap();
        ensure!(*g.field("group_type") == gt, "group type {gt:?}");
        let nodes = seq(g.field("nodes"));
        ensure!(nodes.len() == dg.nodes.len(), "{} nodes, expected {}", dg.nodes.len(), nodes.len());
        for (n, dn) in nodes.iter().zip(&dg.nodes) {
            ensure!(text_of(n.field("name")) == dn.name, "node name {:?}", dn.name);
            let tracks = seq(n.field("tracks"));
            ensure!(tracks.len() == dn.tracks.len(), "{} tracks, expected {}", dn.tracks.len(), tracks.len());
            for (t, dt) in tracks.iter().zip(&dn.tracks) {
                ensure!(text_of(t.field("name")) == dt.name, "track name {:?}", dt.name);
                let fl = num(&seq(t.field("transform_flags").field("bytes"))[0]);
                let f = dt.transform_flags;
                let got = f.override_translation as u64
                    | (f.override_rotation as u64) << 1
                    | (f.override_scale as u64) << 2
                    | (f.override_compensate_scale as u64) << 3;
                ensure!(got == fl, "transform flags {fl:#x} read as {got:#x}");
                let (st, d) = &a.tracks[i];
                let d = d.as_ref().unwrap();
                i += 1;
                let (ty, frames) = flatten(&dt.values);
                let what = format!("{} {} track", st.compression, st.ty);
                ensure!(ty == st.ty, "{what}: read as {ty}");
                ensure!(frames.len() == d.frames.len(), "{what}: {} frames, expected {}", frames.len(), d.frames.len());
                for (j, (e, g)) in d.frames.iter().zip(&frames).enumerate() {
                    if let Err(e) = matches(e, g) {
                        fail!("{what}: frame {j}: {e}");
                    }
                }
                ensure!(dt.compensate_scale == d.compensate, "{what}: compensate scale {}", dt.compensate_scale);
            }
        }
    }
    Ok(())
}

fn well_formed(c: &mut Ctx) -> R {
    check(c, false)
}
fn malformed(c: &mut Ctx) -> R {
    check(c, true)
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "every case: an animation file with one to four stored tracks of random kinds",
        assumptions: &["animref.rs states the track format independently; interpolated values may differ by one unit in the last place"],
        subs: vec![
            Sub { name: "well_formed", quick: 900_000, thorough: 9_000_000, enumerate: 0, f: well_formed },
            Sub { name: "malformed", quick: 900_000, thorough: 9_000_000, enumerate: 0, f: malformed },
        ],
        probes: vec![],
    }
}
