//! C11: mesh geometry survives saving within the version's precision.
use crate::dgen::*;
use crate::engine::*;
use crate::meshfile::*;
use crate::runner::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;

/// Attributes of one use: what is loaded for what was saved.
fn attributes(usage: &'static str, minor: u16, want: &[AttributeData], got: &[AttributeData]) -> R {
    let names: Vec<String> = match (minor, usage) {
        (8, "Binormal") => {
            ensure!(got.is_empty(), "binormals appear in version 1.8");
            return Ok(());
        }
        (8, "ColorSet") => (0..want.len()).map(|i| format!("colorSet{i}")).collect(),
        (8, u) => (0..want.len()).map(|i| format!("{u}{i}")).collect(),
        _ => want.iter().map(|a| a.name.clone()).collect(),
    };
    ensure!(got.len() == want.len(), "{} {usage} attributes instead of {}", got.len(), want.len());
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        ensure!(g.name == names[i], "{usage} {i} is named {:?}, not {:?}", g.name, names[i]);
        ensure!(dim(&w.data) == dim(&g.data), "{usage} {i} has {} components, not {}", dim(&g.data), dim(&w.data));
        ensure!(w.data.len() == g.data.len(), "{usage} {i} has {} elements, not {}", g.data.len(), w.data.len());
        for (e, (a, b)) in rows(&w.data).iter().zip(&rows(&g.data)).enumerate() {
            for (k, (x, y)) in a.iter().zip(b).enumerate() {
                ensure!(
                    kept(usage, minor == 10, a.len(), *x, *y),
                    "{usage} {i}, element {e}, component {k}: {x:?} ({:08x}) comes back as {y:?}",
                    x.to_bits()
                );
            }
        }
    }
    Ok(())
}

pub fn same_influences(want: &[BoneInfluence], got: &[BoneInfluence]) -> R {
    let f = |v: &[BoneInfluence]| -> Vec<(String, Vec<(u32, u32)>)> {
        v.iter()
            .map(|b| {
                (b.bone_name.clone(), b.vertex_weights.iter().map(|w| (w.vertex_index, w.vertex_weight.to_bits())).collect())
            })
            .collect()
    };
    let (w, g) = (f(want), f(got));
    ensure!(w == g, "influences {w:?} come back as {g:?}");
    Ok(())
}

fn object(minor: u16, w: &MeshObjectData, g: &MeshObjectData) -> R {
    macro_rules! eq {
        ($($f:ident)*) => {$(
            ensure!(w.$f == g.$f, "{}: {:?} comes back as {:?}", stringify!($f), w.$f, g.$f);
        )*};
    }
    eq!(name subindex parent_bone_name sort_bias disable_depth_write disable_depth_test vertex_indices);
    attributes("Position", minor, &w.positions, &g.positions)?;
    attributes("Normal", minor, &w.normals, &g.normals)?;
    attributes("Binormal", minor, &w.binormals, &g.binormals)?;
    attributes("Tangent", minor, &w.tangents, &g.tangents)?;
    attributes("TextureCoordinate", minor, &w.texture_coordinates, &g.texture_coordinates)?;
    attributes("ColorSet", minor, &w.color_sets, &g.color_sets)?;
    same_influences(&w.bone_influences, &g.bone_influences)
}

pub fn compare(w: &MeshData, g: &MeshData) -> R {
    ensure!(
        (w.major_version, w.minor_version) == (g.major_version, g.minor_version),
        "version {}.{} comes back as {}.{}",
        w.major_version,
        w.minor_version,
        g.major_version,
        g.minor_version
    );
    ensure!(w.objects.len() == g.objects.len(), "{} objects come back as {}", w.objects.len(), g.objects.len());
    for (i, (a, b)) in w.objects.iter().zip(&g.objects).enumerate() {
        object(w.minor_version, a, b).map_err(|Fail(e)| Fail(format!("object {i} ({:?}): {e}", a.name)))?;
    }
    Ok(())
}

/// Nothing but binormals describes the vertices.
pub fn only_binormals(o: &MeshObjectData) -> bool {
    !o.binormals.is_empty()
        && o.positions.is_empty()
        && o.normals.is_empty()
        && o.tangents.is_empty()
        && o.texture_coordinates.is_empty()
        && o.color_sets.is_empty()
}

fn reload(b: &[u8]) -> Result<MeshData, Fail> {
    match AnyData::read_bytes(DKind::Mesh, b)? {
        Ok(AnyData::Mesh(m)) => Ok(m),
        Ok(_) => unreachable!(),
        Err(e) => fail!("the saved mesh cannot be loaded: {e}"),
    }
}

fn check(c: &mut Ctx, m: MeshData) -> R {
    c.label(format!("1.{}", m.minor_version));
    let n: usize = m.objects.iter().map(|o| o.vertex_count().unwrap_or(0)).sum();
    let any = AnyData::Mesh(m);
    c.describe(|| any.debug());
    if n > 2 {
        c.interesting(&any.to_val()?);
    }
    let AnyData::Mesh(m) = &any else { unreachable!() };
    let b = any.must_bytes()?;
    let g = reload(&b)?;
    compare(m, &g)?;
    // binormals that version 1.8 leaves out may have been all there was
    if m.minor_version == 8 && m.objects.iter().any(only_binormals) {
        return Ok(());
    }
    // what was loaded is saved without any further change
    let b2 = AnyData::Mesh(g.clone()).must_bytes()?;
    let h = reload(&b2)?;
    if let Some(d) = AnyData::Mesh(g).to_val()?.diff(&AnyData::Mesh(h).to_val()?) {
        fail!("saving what was loaded changes it: {d}");
    }
    Ok(())
}

fn saved(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.finite = c.src.chance(1, 2);
    let m = mesh(&mut c.src, &k);
    check(c, m)
}

/// One object whose attributes together hold every half precision number and the numbers
/// between two of them: a block of 256 per case.
fn halves(c: &mut Ctx) -> R {
    let block = c.src.below(256) as u16;
    let minor = *c.src.pick(&[10u16, 9, 8]);
    let mut xs: Vec<f32> = vec![];
    for i in 0..=255u16 {
        let h = block << 8 | i;
        let x = from_half(h);
        if x.is_nan() {
            continue;
        }
        xs.push(x);
        // halfway to the next number, and just beside it
        let y = from_half(h.wrapping_add(1));
        if y.is_finite() && x.is_finite() && (x < 0.0) == (y < 0.0) {
            let mid = ((x as f64 + y as f64) / 2.0) as f32;
            xs.extend([mid, f32::from_bits(mid.to_bits() + 1), f32::from_bits(mid.to_bits().saturating_sub(1))]);
        }
    }
    while xs.len() % 4 != 0 || xs.len() < 12 {
        xs.push(0.0);
    }
    c.src.shuffle(&mut xs);
    let v2 = VectorData::Vector2(xs.chunks_exact(4).map(|p| [p[0], p[1]]).collect());
    let v3 = VectorData::Vector3(xs.chunks_exact(4).map(|p| [p[3], p[2], p[1]]).collect());
    let v4 = VectorData::Vector4(xs.chunks_exact(4).map(|p| [p[0], p[1], p[2], p[3]]).collect());
    let a = |name: &str, d: &VectorData| AttributeData { name: name.into(), data: d.clone() };
    let o = MeshObjectData {
        name: "halves".into(),
        positions: vec![a("Position0", &v3)],
        normals: vec![a("Normal0", &v4)],
        tangents: vec![a("Tangent0", &v4), a("Tangent1", &v2)],
        texture_coordinates: vec![a("map1", &v2), a("uvSet", &v4)],
        color_sets: vec![a("colorSet1", &v2), a("colorSet2", &v3)],
        vertex_indices: vec![0, 1, 2],
        ..Default::default()
    };
    c.evals = xs.len() as u64;
    check(c, MeshData { major_version: 1, minor_version: minor, objects: vec![o] })
}

/// Every 8-bit color, and numbers around the steps between them.
fn colors(c: &mut Ctx) -> R {
    let minor = *c.src.pick(&[10u16, 9, 8]);
    let mut xs: Vec<f32> = vec![];
    for i in 0..256 {
        let x = i as f32 / 255.0;
        xs.push(x);
        let mid = (i as f32 + 0.5) / 255.0;
        xs.push(f32::from_bits(mid.to_bits() + c.src.below(9) as u32 - 4));
    }
    for _ in 0..64 {
        xs.push(c.src.below(1 << 24) as f32 / (1 << 23) as f32 - 0.5);
    }
    c.src.shuffle(&mut xs);
    let v4 = VectorData::Vector4(xs.chunks_exact(4).map(|p| [p[0], p[1], p[2], p[3]]).collect());
    let n = v4.len();
    let o = MeshObjectData {
        name: "colors".into(),
        positions: vec![AttributeData { name: "Position0".into(), data: VectorData::Vector3(vec![[0.0; 3]; n]) }],
        color_sets: vec![AttributeData { name: "colorSet1".into(), data: v4 }],
        ..Default::default()
    };
    c.evals = xs.len() as u64;
    check(c, MeshData { major_version: 1, minor_version: minor, objects: vec![o] })
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "the mesh has more than two vertices in all",
        assumptions: &["names are UTF-8 and free of NUL", "undefined numbers (NaN) may change their payload in half precision"],
        subs: vec![
            Sub { name: "saved", quick: 84_000, thorough: 6_000_000, enumerate: 8, f: saved },
            Sub { name: "large_saved", quick: 160, thorough: 9600, enumerate: 8, f: large_saved },
            Sub { name: "halves", quick: 2_100, thorough: 100_000, enumerate: 256, f: halves },
            Sub { name: "colors", quick: 700, thorough: 100_000, enumerate: 0, f: colors },
        ],
        probes: vec![],
    }
}
