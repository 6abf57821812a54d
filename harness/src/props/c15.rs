//! C15: skinning weights are kept exactly and attached to the right object.
use super::c11::same_influences;
use super::c12::{foreign, loads_as};
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::meshfile::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;
use std::collections::BTreeMap;

/// The most influences any vertex has.
fn most(o: &MeshObjectData) -> u64 {
    let mut n: BTreeMap<u32, u64> = BTreeMap::new();
    for b in &o.bone_influences {
        let mut seen: Vec<u32> = b.vertex_weights.iter().map(|w| w.vertex_index).collect();
        seen.sort();
        seen.dedup();
        for v in seen {
            *n.entry(v).or_default() += 1;
        }
    }
    n.values().copied().max().unwrap_or(0)
}

fn weight(s: &mut Src) -> f32 {
    match s.weighted(&[4, 3, 1, 1]) {
        0 => s.below(1001) as f32 / 1000.0,
        1 => *s.pick(&[1.0, 0.5, 0.25, 0.0, 0.1, 1.0 / 3.0]),
        2 => -0.0,
        _ => f32_any(s),
    }
}

fn skinned(s: &mut Src, i: usize, v10: bool, names: &[String]) -> MeshObjectData {
    let n = s.range(0, 12) as usize;
    let mut o = MeshObjectData {
        name: s.pick(names).clone(),
        subindex: match s.below(3) {
            0 => i as u64,
            1 => 40 - i as u64,
            _ => (1 << 40) + (i as u64 ^ 3),
        },
        positions: vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(vec![[i as f32, 0.0, 1.0]; n]) }],
        ..Default::default()
    };
    if s.chance(1, 4) {
        return o;
    }
    let bones = if s.chance(1, 60) { s.range(250, 270) } else { s.below(7) };
    for b in 0..bones {
        let bone_name = if s.chance(1, 2) { name(s, &BONES) } else { format!("b{b}") };
        if bones > 100 {
            // all at the same vertex
            let vertex_weights = vec![VertexWeight { vertex_index: 1, vertex_weight: 0.5 }];
            o.bone_influences.push(BoneInfluence { bone_name, vertex_weights });
            continue;
        }
        let vertex_weights = (0..s.below(6))
            .map(|_| VertexWeight {
                vertex_index: match s.weighted(&[12, 1, 1]) {
                    0 => s.below(n as u64 + 1) as u32,
                    1 => *s.pick(&[255, 256, 65535, 32768]),
                    _ if v10 => int(s, 2) as u32,
                    _ => int(s, 4) as u32,
                },
                vertex_weight: weight(s),
            })
            .collect();
        o.bone_influences.push(BoneInfluence { bone_name, vertex_weights });
    }
    o
}

fn groups(b: &[u8], m: &MeshData) -> R {
    let f = match parse_kind(kind("Mesh", &format!("V{}", m.minor_version)), b) {
        Ok(p) => mesh_file(&p.val),
        Err(e) => fail!("the saved file is not readable by the format definition: {e:?}"),
    };
    ensure!(f.groups.len() == m.objects.len(), "{} rigging groups for {} objects", f.groups.len(), m.objects.len());
    let keys: Vec<(String, u64)> = f.groups.iter().map(|g| (g.name.clone().unwrap_or_default(), g.subindex)).collect();
    for w in keys.windows(2) {
        ensure!(w[0] < w[1], "rigging group {:?} is stored before {:?}", w[0], w[1]);
    }
    for (g, k) in f.groups.iter().zip(&keys) {
        let Some(o) = m.objects.iter().find(|o| (&o.name, o.subindex) == (&k.0, k.1)) else {
            fail!("rigging group {k:?} has no object");
        };
        let want: Vec<(Option<String>, Vec<(u32, u32)>)> = o
            .bone_influences
            .iter()
            .map(|b| {
                (
                    Some(b.bone_name.clone()),
                    b.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect(),
                )
            })
            .collect();
        ensure!(g.bones == want, "object {k:?}: influences {want:?} are stored as {:?}", g.bones);
        // the field has 8 bits
        let n = most(o).min(255);
        ensure!(g.max_influences == n, "object {k:?}: at most {n} influences for a vertex, recorded as {}", g.max_influences);
    }
    Ok(())
}

fn check(c: &mut Ctx, m: MeshData) -> R {
    c.label(format!("1.{}", m.minor_version));
    let any = AnyData::Mesh(m);
    c.describe(|| any.debug());
    let AnyData::Mesh(m) = &any else { unreachable!() };
    if m.objects.iter().filter(|o| o.bone_influences.iter().any(|b| !b.vertex_weights.is_empty())).count() > 1 {
        c.interesting(&any.to_val()?);
    }
    let b = any.must_bytes()?;
    groups(&b, m)?;
    let back = |b: &[u8]| match AnyData::read_bytes(DKind::Mesh, b)? {
        Ok(AnyData::Mesh(g)) => Ok(g),
        Ok(_) => unreachable!(),
        Err(e) => fail!("the saved mesh cannot be loaded: {e}"),
    };
    let g = back(&b)?;
    ensure!(g.objects.len() == m.objects.len(), "{} objects come back as {}", m.objects.len(), g.objects.len());
    for (o, d) in m.objects.iter().zip(&g.objects) {
        same_influences(&o.bone_influences, &d.bone_influences)
            .map_err(|Fail(e)| Fail(format!("object {:?} {}: {e}", o.name, o.subindex)))?;
    }
    // in any order of the objects
    let mut p = m.clone();
    c.src.shuffle(&mut p.objects);
    let p = AnyData::Mesh(p);
    let b = p.must_bytes()?;
    let AnyData::Mesh(p) = &p else { unreachable!() };
    groups(&b, p)?;
    let g = back(&b)?;
    for (o, d) in p.objects.iter().zip(&g.objects) {
        same_influences(&o.bone_influences, &d.bone_influences)
            .map_err(|Fail(e)| Fail(format!("other order: object {:?} {}: {e}", o.name, o.subindex)))?;
    }
    c.evals = 2;
    Ok(())
}

fn saved(c: &mut Ctx) -> R {
    let minor = *c.src.pick(&[10u16, 9, 8]);
    let names: Vec<String> = (0..c.src.range(1, 3)).map(|_| name(&mut c.src, &["body", "Body", "body1", "bodz", "", "é"])).collect();
    let n = c.src.below(6) as usize;
    let objects = (0..n).map(|i| skinned(&mut c.src, i, minor == 10, &names)).collect::<Vec<_>>();
    let mut m = MeshData { major_version: 1, minor_version: minor, objects };
    for i in 0..m.objects.len() {
        while m.objects[..i].iter().any(|p| p.name == m.objects[i].name && p.subindex == m.objects[i].subindex) {
            m.objects[i].subindex += 1;
        }
    }
    check(c, m)
}

fn general(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.big = false;
    let m = mesh(&mut c.src, &k);
    check(c, m)
}

/// Rigging groups in any order, for no object, for several objects, several for one object.
fn loaded(c: &mut Ctx) -> R {
    let (k, v) = foreign(&mut c.src);
    c.describe(|| clip(format!("{v:?}")));
    let m = mesh_file(&v);
    let hits =
        m.objects.iter().flat_map(|o| m.groups.iter().filter(|g| g.name.as_deref() == Some(&o.name) && g.subindex == o.subindex)).count();
    if hits > 0 {
        c.interesting(&v);
    }
    let ok = loads_as(&v, &canonical(k, &v))?;
    c.label(if ok { "loaded" } else { "refused" });
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_general(c: &mut Ctx) -> R {
    c.src.large = true;
    general(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "saved, general: two objects have weights; loaded: an object has a rigging group",
        assumptions: &["names are UTF-8 and free of NUL", "a vertex with more than 255 influences counts as 255"],
        subs: vec![
            Sub { name: "saved", quick: 360_000, thorough: 10_000_000, enumerate: 0, f: saved },
            Sub { name: "general", quick: 90_000, thorough: 3_000_000, enumerate: 0, f: general },
            Sub { name: "large_general", quick: 400, thorough: 24000, enumerate: 0, f: large_general },
            Sub { name: "loaded", quick: 240_000, thorough: 6_000_000, enumerate: 0, f: loaded },
        ],
        probes: vec![],
    }
}
