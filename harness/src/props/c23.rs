//! C23: MeshEx group data keeps groups, flags and names across saving.
use super::c18::{num, seq};
use super::c21::text_or_empty;
use crate::bounds;
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::*;

fn inner(v: &Val) -> &Val {
    match v {
        Val::Some(x) => x,
        _ => panic!("null"),
    }
}

/// A list behind a pointer; null is empty.
fn list(v: &Val) -> Vec<Val> {
    match v {
        Val::Some(x) => list(x),
        Val::Seq(s) => s.clone(),
        Val::Map(m) => list(&m[0].1),
        Val::None => vec![],
        _ => panic!("{v:?}"),
    }
}

fn flag_bits(v: &Val) -> u64 {
    let b = seq(v.field("bytes"));
    num(&b[0]) | num(&b[1]) << 8
}

fn flags(v: &Val) -> (bool, bool) {
    let b = flag_bits(v);
    (b & 1 != 0, b & 2 != 0)
}

fn check_saved(d: &MeshExData, bytes: &[u8], what: &str) -> R {
    let p = match parse_meshex(bytes) {
        Ok(p) => p,
        Err(e) => fail!("{what}: the saved file is not readable by the format definition: {e:?}"),
    };
    let u64_at = |i: usize| u64::from_le_bytes(bytes[i..i + 8].try_into().unwrap());
    let u32_at = |i: usize| u32::from_le_bytes(bytes[i..i + 4].try_into().unwrap());
    ensure!(u64_at(0) == bytes.len() as u64, "{what}: file length {} stored as {}", bytes.len(), u64_at(0));
    let gs = &d.mesh_object_groups;
    let total: usize = gs.iter().map(|g| g.entry_flags.len()).sum();
    ensure!(u32_at(8) as usize == total, "{what}: {} entries stored as {}", total, u32_at(8));
    ensure!(u32_at(12) as usize == gs.len(), "{what}: {} groups stored as {}", gs.len(), u32_at(12));
    let groups = list(p.val.field("mesh_object_groups"));
    ensure!(groups.len() == gs.len(), "{what}: {} groups", groups.len());
    for (g, w) in groups.iter().zip(gs) {
        for (f, w) in [("mesh_object_full_name", &w.mesh_object_full_name), ("mesh_object_name", &w.mesh_object_name)] {
            ensure!(text_or_empty(g.field(f)) == Val::Str(w.as_bytes().to_vec()), "{what}: {f} {w:?} stored as {:?}", g.field(f));
        }
        let s = to_val(&w.bounding_sphere).unwrap();
        ensure!(*g.field("bounding_sphere") == s, "{what}: sphere {s:?} stored as {:?}", g.field("bounding_sphere"));
    }
    let entries = list(p.val.field("entries"));
    let fl = list(p.val.field("entry_flags"));
    ensure!(entries.len() == total && fl.len() == total, "{what}: {} entries, {} flags for {total}", entries.len(), fl.len());
    let mut i = 0;
    for (gi, g) in gs.iter().enumerate() {
        for f in &g.entry_flags {
            ensure!(num(entries[i].field("mesh_object_group_index")) == gi as u64, "{what}: entry {i} points at group {:?}", entries[i]);
            ensure!(flags(&fl[i]) == (f.draw_model, f.cast_shadow), "{what}: entry {i} flags {f:?} stored as {:?}", fl[i]);
            i += 1;
        }
    }
    Ok(())
}

fn saved(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.finite = c.src.chance(1, 2);
    let d = meshex(&mut c.src, &k);
    let any = AnyData::MeshEx(d);
    c.describe(|| any.debug());
    let v = any.to_val()?;
    if v.size() > 10 {
        c.interesting(&v);
    }
    let bytes = any.must_bytes()?;
    match AnyData::read_bytes(DKind::MeshEx, &bytes)? {
        Ok(x) => {
            if let Some(x) = v.diff(&x.to_val()?) {
                fail!("reloaded data differs: {x}");
            }
        }
        Err(e) => fail!("saved data cannot be read: {e}"),
    }
    let AnyData::MeshEx(d) = &any else { unreachable!() };
    check_saved(d, &bytes, "saved")
}

/// Any file: entries are grouped by their index, flags stay with their entry.
fn loaded(c: &mut Ctx) -> R {
    let mut v = lossy(&gen_file(&mut c.src, Kind::MeshEx, &mut Knobs::all()));
    // mostly indices of existing groups
    let n = list(v.field("mesh_object_groups")).len() as u64;
    let keep = c.src.chance(1, 6);
    if let Val::Map(m) = &mut v {
        for (name, x) in m.iter_mut() {
            if *name == "entries" && !keep {
                let Val::Some(x) = x else { continue };
                let Val::Seq(es) = &mut **x else { panic!() };
                for e in es {
                    let Val::Map(e) = e else { panic!() };
                    e[0].1 = Val::U(c.src.below(n + 1));
                }
            }
        }
    }
    c.describe(|| clip(format!("{v:?}")));
    if v.size() > 10 {
        c.interesting(&v);
    }
    let bytes = if c.src.chance(1, 4) { scattered(&mut c.src, Kind::MeshEx, &v).bytes } else { canonical(Kind::MeshEx, &v) };
    let d = match AnyData::read_bytes(DKind::MeshEx, &bytes)? {
        Ok(AnyData::MeshEx(d)) => d,
        Ok(_) => unreachable!(),
        Err(e) => fail!("a file is refused: {e}"),
    };
    let groups = list(v.field("mesh_object_groups"));
    let entries = list(v.field("entries"));
    let fl = list(v.field("entry_flags"));
    ensure!(groups.len() == d.mesh_object_groups.len(), "{} groups loaded of {}", d.mesh_object_groups.len(), groups.len());
    for (i, (w, g)) in groups.iter().zip(&d.mesh_object_groups).enumerate() {
        ensure!(text_or_empty(w.field("mesh_object_full_name")) == Val::Str(g.mesh_object_full_name.clone().into()), "group {i}: full name {:?}", g.mesh_object_full_name);
        ensure!(text_or_empty(w.field("mesh_object_name")) == Val::Str(g.mesh_object_name.clone().into()), "group {i}: name {:?}", g.mesh_object_name);
        ensure!(*w.field("bounding_sphere") == to_val(&g.bounding_sphere).unwrap(), "group {i}: sphere {:?}", g.bounding_sphere);
        let want: Vec<(bool, bool)> = entries
            .iter()
            .zip(&fl)
            .filter(|(e, _)| num(e.field("mesh_object_group_index")) == i as u64)
            .map(|(_, f)| flags(f))
            .collect();
        let got: Vec<(bool, bool)> = g.entry_flags.iter().map(|f| (f.draw_model, f.cast_shadow)).collect();
        ensure!(want == got, "group {i}: flags {want:?} loaded as {got:?}");
    }
    Ok(())
}

/// The documented short name.
pub fn short(name: &str) -> &str {
    let b = name.as_bytes();
    let at = |tag: &str| (0..b.len()).find(|i| b[*i..].starts_with(tag.as_bytes()));
    match at("_VIS").into_iter().chain(at("_O_")).min() {
        Some(i) => &name[..i],
        None => name.strip_suffix("Shape").unwrap_or(name),
    }
}

fn tagged_name(s: &mut Src) -> String {
    let parts = ["face", "Shape", "_VIS", "_O_", "_O", "O_", "VIS", "_", "é", "OBJ", "_VIS_O_OBJShape", "hape", "日本", ""];
    (0..s.below(5)).map(|_| *s.pick(&parts)).collect()
}

fn built(c: &mut Ctx) -> R {
    let k = DK { finite: true, valid: true, big: false };
    let mut objects: Vec<MeshObjectData> = vec![];
    let mut name = tagged_name(&mut c.src);
    for _ in 0..c.src.below(9) {
        if c.src.chance(1, 2) {
            name = match c.src.below(4) {
                0 if !objects.is_empty() => objects[c.src.usize(objects.len())].name.clone(),
                _ => tagged_name(&mut c.src),
            };
        }
        let n = c.src.below(6) as usize;
        let dim = [1, 1, 1, 0, 2][c.src.usize(5)];
        let mut positions = vec![];
        if c.src.chance(9, 10) {
            for _ in 0..c.src.range(1, 2) {
                positions.push(AttributeData { name: "Position0".into(), data: vectors(&mut c.src, &k, dim, n, 0) });
            }
        }
        objects.push(MeshObjectData { name: name.clone(), subindex: c.src.below(4), positions, ..Default::default() });
    }
    c.describe(|| clip(format!("{objects:?}")));
    if !objects.is_empty() {
        c.interesting(&to_val(&objects).unwrap());
    }
    let d = lib(|| MeshExData::from_mesh_objects(&objects))?;
    // runs of equal names
    let mut runs: Vec<Vec<&MeshObjectData>> = vec![];
    for o in &objects {
        match runs.last_mut() {
            Some(r) if r[0].name == o.name => r.push(o),
            _ => runs.push(vec![o]),
        }
    }
    ensure!(runs.len() == d.mesh_object_groups.len(), "{} groups for {} runs of names", d.mesh_object_groups.len(), runs.len());
    for (r, g) in runs.iter().zip(&d.mesh_object_groups) {
        let name = &r[0].name;
        ensure!(g.mesh_object_full_name == *name, "full name {:?} of {name:?}", g.mesh_object_full_name);
        ensure!(g.mesh_object_name == short(name), "short name {:?} of {name:?}", g.mesh_object_name);
        ensure!(g.entry_flags.len() == r.len(), "{} flags for {} objects", g.entry_flags.len(), r.len());
        ensure!(g.entry_flags.iter().all(|f| f.draw_model && f.cast_shadow), "default flags {:?}", g.entry_flags);
        let ps = group_points(r);
        if bounds::size(&ps) < 1e15 {
            let s = &g.bounding_sphere;
            if let Err(e) = bounds::sphere([s.center.x as f64, s.center.y as f64, s.center.z as f64], s.radius as f64, &ps) {
                fail!("group {name:?}: {e}");
            }
        }
    }
    let any = AnyData::MeshEx(d);
    let bytes = any.must_bytes()?;
    let AnyData::MeshEx(d) = &any else { unreachable!() };
    check_saved(d, &bytes, "built")
}

pub fn points(v: &VectorData) -> Vec<bounds::P> {
    match v {
        VectorData::Vector2(v) => v.iter().map(|p| [p[0] as f64, p[1] as f64, 0.0]).collect(),
        VectorData::Vector3(v) => v.iter().map(|p| [p[0] as f64, p[1] as f64, p[2] as f64]).collect(),
        VectorData::Vector4(v) => v.iter().map(|p| [p[0] as f64, p[1] as f64, p[2] as f64]).collect(),
    }
}

fn group_points(r: &[&MeshObjectData]) -> Vec<bounds::P> {
    r.iter().filter_map(|o| o.positions.first()).flat_map(|p| points(&p.data)).collect()
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_loaded(c: &mut Ctx) -> R {
    c.src.large = true;
    loaded(c)
}

pub fn prop() -> Prop {
    let _ = inner;
    Prop {
        id: "C23",
        level: "exploration",
        rule: "saved, loaded: values with more than 10 parts; built: at least one object",
        assumptions: &["text is UTF-8 and free of NUL"],
        subs: vec![
            Sub { name: "saved", quick: 900_000, thorough: 20_000_000, enumerate: 0, f: saved },
            Sub { name: "large_saved", quick: 64, thorough: 3840, enumerate: 0, f: large_saved },
            Sub { name: "loaded", quick: 600_000, thorough: 20_000_000, enumerate: 0, f: loaded },
            Sub { name: "large_loaded", quick: 800, thorough: 48000, enumerate: 0, f: large_loaded },
            Sub { name: "built", quick: 900_000, thorough: 20_000_000, enumerate: 0, f: built },
        ],
        probes: vec![],
    }
}
