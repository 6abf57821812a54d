//! C24: adjacency data round-trips and lists exactly the adjacent vertices.
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::adj_data::*;
use ssbh_data::mesh_data::*;

fn saved(c: &mut Ctx) -> R {
    let d = adj(&mut c.src, &DK::valid());
    let any = AnyData::Adj(d);
    c.describe(|| any.debug());
    let v = any.to_val()?;
    if v.size() > 5 {
        c.interesting(&v);
    }
    let bytes = any.must_bytes()?;
    match AnyData::read_bytes(DKind::Adj, &bytes)? {
        Ok(x) => {
            if let Some(x) = v.diff(&x.to_val()?) {
                fail!("reloaded data differs: {x}");
            }
        }
        Err(e) => fail!("saved data cannot be read: {e}"),
    }
    // the file: a count, index and byte offset of each entry, then all indices
    let AnyData::Adj(d) = &any else { unreachable!() };
    let mut want = (d.entries.len() as u32).to_le_bytes().to_vec();
    let mut at = 0u32;
    for e in &d.entries {
        want.extend((e.mesh_object_index as u32).to_le_bytes());
        want.extend(at.to_le_bytes());
        at += 2 * e.vertex_adjacency.len() as u32;
    }
    for e in &d.entries {
        for i in &e.vertex_adjacency {
            want.extend(i.to_le_bytes());
        }
    }
    ensure!(want == bytes, "saved as {}, expected {}", hex(&bytes), hex(&want));
    Ok(())
}

/// Object indices that need more than 32 bits are refused, not cut.
fn indices(c: &mut Ctx) -> R {
    let mut d = adj(&mut c.src, &DK { finite: true, valid: false, big: false });
    if !d.entries.is_empty() && c.src.chance(1, 2) {
        let i = c.src.usize(d.entries.len());
        d.entries[i].mesh_object_index = (1 << 32) - 2 + c.src.usize(4);
    }
    let ok = d.entries.iter().all(|e| e.mesh_object_index <= u32::MAX as usize);
    let any = AnyData::Adj(d);
    c.describe(|| any.debug());
    let v = any.to_val()?;
    if v.size() > 5 {
        c.interesting(&v);
    }
    c.label(if ok { "fits" } else { "does not fit" });
    match any.bytes()? {
        Err(e) => ensure!(!ok, "valid data is refused: {e}"),
        Ok(b) => {
            ensure!(ok, "an object index above 32 bits is saved as {}", hex(&b));
            match AnyData::read_bytes(DKind::Adj, &b)? {
                Ok(x) => {
                    if let Some(x) = v.diff(&x.to_val()?) {
                        fail!("reloaded data differs: {x}");
                    }
                }
                Err(e) => fail!("saved data cannot be read: {e}"),
            }
        }
    }
    Ok(())
}

/// Any offsets: consistent ones cut the indices into entries, others are errors.
fn loaded(c: &mut Ctx) -> R {
    let n = c.src.len(3, 12);
    let m = c.src.len(8, 40);
    let indices: Vec<i16> = (0..m).map(|_| int(&mut c.src, 2) as i16).collect();
    let mut offsets: Vec<u32> = (0..n).map(|_| 2 * c.src.below(m as u64 + 1) as u32).collect();
    if c.src.chance(3, 4) {
        offsets.sort();
    }
    if c.src.chance(1, 3) && n > 0 {
        let i = c.src.usize(n);
        offsets[i] = match c.src.below(3) {
            0 => offsets[i].wrapping_add(2 * c.src.range(1, 8) as u32),
            1 => 2 * m as u32 + 2 * c.src.below(4) as u32,
            _ => int(&mut c.src, 4) as u32 & !1,
        };
    }
    let ids: Vec<u32> = (0..n).map(|_| int(&mut c.src, 4) as u32).collect();
    let mut b = (n as u32).to_le_bytes().to_vec();
    for (i, o) in ids.iter().zip(&offsets) {
        b.extend(i.to_le_bytes());
        b.extend(o.to_le_bytes());
    }
    for i in &indices {
        b.extend(i.to_le_bytes());
    }
    c.describe(|| format!("offsets {offsets:?} in {m} indices {ids:?} {indices:?}"));
    if n > 0 {
        c.interesting(&b);
    }
    let mut ends = offsets.clone();
    ends.push(2 * m as u32);
    let consistent = ends.windows(2).all(|w| w[0] <= w[1]) || n == 0;
    match AnyData::read_bytes(DKind::Adj, &b)? {
        Err(e) => ensure!(!consistent, "consistent offsets are refused: {e}"),
        Ok(AnyData::Adj(d)) => {
            c.label("read");
            ensure!(consistent, "offsets {offsets:?} with {m} indices are read as {:?}", d.entries);
            ensure!(d.entries.len() == n, "{} entries", d.entries.len());
            for (i, e) in d.entries.iter().enumerate() {
                let w = &indices[ends[i] as usize / 2..ends[i + 1] as usize / 2];
                ensure!(e.mesh_object_index == ids[i] as usize, "entry {i}: object {}", e.mesh_object_index);
                ensure!(e.vertex_adjacency == w, "entry {i}: {:?}, expected {w:?}", e.vertex_adjacency);
            }
        }
        Ok(_) => unreachable!(),
    }
    Ok(())
}

/// For every vertex the other two of each face touching it or a vertex at the same place.
fn expected<T: PartialEq>(ps: &[T], faces: &[u32]) -> Vec<i16> {
    let mut out = vec![];
    for p in ps {
        let mut a = vec![];
        for (j, q) in ps.iter().enumerate() {
            if p != q {
                continue;
            }
            for f in faces.chunks_exact(3) {
                for k in 0..3 {
                    if f[k] as usize == j {
                        a.push(f[(k + 1) % 3] as i16);
                        a.push(f[(k + 2) % 3] as i16);
                    }
                }
            }
        }
        a.truncate(18);
        while a.len() < 18 {
            a.push(-1);
        }
        out.extend(a);
    }
    out
}

fn triangles(c: &mut Ctx) -> R {
    let n = match c.src.weighted(&[8, 2]) {
        0 => c.src.below(9) as usize,
        _ => c.src.range(9, 40) as usize,
    };
    let faces = if n < 3 { 0 } else { c.src.below(if n < 9 { 14 } else { 60 }) };
    let mut idx: Vec<u32> = vec![];
    let degenerate = c.src.chance(1, 10);
    for _ in 0..faces {
        let mut f: Vec<u32> = (0..3).map(|_| c.src.usize(n) as u32).collect();
        if !degenerate {
            while f[1] == f[0] {
                f[1] = (f[1] + 1) % n as u32;
            }
            while f[2] == f[0] || f[2] == f[1] {
                f[2] = (f[2] + 1) % n as u32;
            }
        }
        idx.extend(f);
    }
    // few distinct places, signed zeros, undefined numbers sometimes
    let places = c.src.range(1, n as u64 + 3);
    let coord = |s: &mut Src| match s.weighted(&[12, 1, 1]) {
        0 => s.below(places) as f32,
        1 => -0.0,
        _ => f32_any(s),
    };
    let data = match c.src.below(3) {
        0 => VectorData::Vector2((0..n).map(|_| [coord(&mut c.src), 0.0]).collect()),
        1 => VectorData::Vector3((0..n).map(|_| [coord(&mut c.src), 1.0, 0.0]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [1.0, 0.0, coord(&mut c.src), 0.5]).collect()),
    };
    c.describe(|| format!("{data:?} {idx:?}"));
    if !idx.is_empty() {
        c.interesting(&(to_val(&data).unwrap(), idx.clone()));
    }
    let object_index = int(&mut c.src, 4) as usize;
    let want = match &data {
        VectorData::Vector2(v) => expected(v, &idx),
        VectorData::Vector3(v) => expected(v, &idx),
        VectorData::Vector4(v) => expected(v, &idx),
    };
    let object = MeshObjectData {
        name: "a".into(),
        vertex_indices: idx.clone(),
        positions: vec![
            AttributeData { name: "Position0".into(), data: data.clone() },
            AttributeData { name: "Position1".into(), data: VectorData::Vector3(vec![]) },
        ],
        ..Default::default()
    };
    let got = [
        ("positions", lib(|| AdjEntryData::from_vector_data(object_index, &data, &idx))?),
        ("mesh object", lib(|| AdjEntryData::from_mesh_object(object_index, &object))?),
        (
            "faces",
            lib(|| match &data {
                VectorData::Vector2(v) => AdjEntryData::from_triangle_faces(object_index, v, &idx),
                VectorData::Vector3(v) => AdjEntryData::from_triangle_faces(object_index, v, &idx),
                VectorData::Vector4(v) => AdjEntryData::from_triangle_faces(object_index, v, &idx),
            })?,
        ),
    ];
    for (what, e) in got {
        ensure!(e.mesh_object_index == object_index, "{what}: object index {}", e.mesh_object_index);
        ensure!(e.vertex_adjacency.len() == 18 * n, "{what}: {} values for {n} vertices", e.vertex_adjacency.len());
        for v in 0..n {
            let (w, g) = (&want[18 * v..18 * v + 18], &e.vertex_adjacency[18 * v..18 * v + 18]);
            ensure!(w == g, "{what}: vertex {v} has {g:?}, expected {w:?}");
        }
    }
    let empty = lib(|| AdjEntryData::from_mesh_object(object_index, &MeshObjectData { positions: vec![], ..object.clone() }))?;
    ensure!(empty.vertex_adjacency.is_empty() && empty.mesh_object_index == object_index, "no positions: {empty:?}");
    Ok(())
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

pub fn prop() -> Prop {
    let _ = (canonical, Kind::Adj);
    Prop {
        id: "C24",
        level: "exploration",
        rule: "saved, indices, loaded: at least one entry; triangles: at least one face",
        assumptions: &["buffers of at most 4 GiB, vertex indices of adjacency input are in range and fit 15 bits", "byte offsets are even"],
        subs: vec![
            Sub { name: "saved", quick: 2_000_000, thorough: 20_000_000, enumerate: 0, f: saved },
            Sub { name: "large_saved", quick: 1600, thorough: 96000, enumerate: 0, f: large_saved },
            Sub { name: "indices", quick: 500_000, thorough: 5_000_000, enumerate: 0, f: indices },
            Sub { name: "loaded", quick: 3_000_000, thorough: 30_000_000, enumerate: 0, f: loaded },
            Sub { name: "triangles", quick: 1_500_000, thorough: 20_000_000, enumerate: 0, f: triangles },
        ],
        probes: vec![],
    }
}
