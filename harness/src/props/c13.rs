//! C13: invalid mesh data is refused with the right error, valid data accepted.
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::runner::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::error::Error;
use ssbh_data::mesh_data::*;
use ssbh_lib::formats::mesh::Mesh;

fn lens(o: &MeshObjectData) -> Vec<usize> {
    [&o.positions, &o.normals, &o.binormals, &o.tangents, &o.texture_coordinates, &o.color_sets]
        .iter()
        .flat_map(|l| l.iter())
        .map(|a| a.data.len())
        .collect()
}

/// The faults the data has, as the names of the errors.
pub fn faults(m: &MeshData) -> Vec<&'static str> {
    let mut f = vec![];
    let mut add = |x: &'static str| {
        if !f.contains(&x) {
            f.push(x)
        }
    };
    for (i, o) in m.objects.iter().enumerate() {
        if m.objects[..i].iter().any(|p| p.name == o.name && p.subindex == o.subindex) {
            add("DuplicateSubindex");
        }
        if o.vertex_indices.len() % 3 != 0 {
            add("NonTriangulatedFaces");
        }
        let l = lens(o);
        if l.iter().any(|x| *x != l[0]) {
            add("AttributeDataLengthMismatch");
        } else {
            let n = l.first().copied().unwrap_or(0);
            if o.vertex_indices.iter().any(|x| *x as usize >= n) {
                add("VertexIndexOutOfRange");
            }
        }
        let v10 = (m.major_version, m.minor_version) == (1, 10);
        if v10 && o.bone_influences.iter().any(|b| b.vertex_weights.iter().any(|w| w.vertex_index > 65535)) {
            add("SkinWeightVertexIndexExceedsLimit");
        }
    }
    if !(m.major_version == 1 && (8..=10).contains(&m.minor_version)) {
        add("UnsupportedVersion");
    }
    f
}

/// Does the error say something true about the data?
fn judge(m: &MeshData, e: &Error) -> Result<&'static str, Fail> {
    Ok(match e {
        Error::AttributeDataLengthMismatch => "AttributeDataLengthMismatch",
        Error::VertexIndexOutOfRange { vertex_index, vertex_count } => {
            let true_of = |o: &MeshObjectData| {
                let l = lens(o);
                let n = l.first().copied().unwrap_or(0);
                l.iter().all(|x| *x == n)
                    && n == *vertex_count
                    && vertex_index >= vertex_count
                    && o.vertex_indices.iter().any(|i| *i as usize == *vertex_index)
            };
            ensure!(m.objects.iter().any(true_of), "no object has what is reported: {e:?}");
            "VertexIndexOutOfRange"
        }
        Error::NonTriangulatedFaces { vertex_index_count } => {
            ensure!(
                vertex_index_count % 3 != 0 && m.objects.iter().any(|o| o.vertex_indices.len() == *vertex_index_count),
                "no object has what is reported: {e:?}"
            );
            "NonTriangulatedFaces"
        }
        Error::SkinWeightVertexIndexExceedsLimit { vertex_index, limit, major_version, minor_version } => {
            let mut all = m.objects.iter().flat_map(|o| &o.bone_influences).flat_map(|b| &b.vertex_weights);
            ensure!(
                *limit == 65535
                    && (*major_version, *minor_version) == (1, 10)
                    && vertex_index > limit
                    && all.any(|w| w.vertex_index as usize == *vertex_index),
                "no influence has what is reported: {e:?}"
            );
            "SkinWeightVertexIndexExceedsLimit"
        }
        Error::UnsupportedVersion { major_version, minor_version } => {
            ensure!(
                (*major_version, *minor_version) == (m.major_version, m.minor_version),
                "the data is of version {}.{}: {e:?}",
                m.major_version,
                m.minor_version
            );
            "UnsupportedVersion"
        }
        Error::DuplicateSubindex { mesh_object_name, mesh_object_subindex } => {
            let n =
                m.objects.iter().filter(|o| o.name == *mesh_object_name && o.subindex == *mesh_object_subindex).count();
            ensure!(n > 1, "{n} objects have what is reported: {e:?}");
            "DuplicateSubindex"
        }
        e => fail!("unexpected error {e:?}"),
    })
}

fn check(c: &mut Ctx, m: MeshData) -> R {
    let f = faults(&m);
    let any = AnyData::Mesh(m);
    c.describe(|| format!("faults {f:?}: {}", any.debug()));
    if !f.is_empty() {
        c.interesting(&any.to_val()?);
    }
    c.label(match f.len() {
        0 => "valid",
        1 => f[0],
        _ => "several faults",
    });
    let AnyData::Mesh(m) = &any else { unreachable!() };
    match lib(|| Mesh::try_from(m))? {
        Ok(_) => ensure!(f.is_empty(), "data with {f:?} is accepted"),
        Err(e) => {
            ensure!(!f.is_empty(), "valid data is refused: {e:?}");
            let name = judge(m, &e)?;
            ensure!(f.contains(&name), "data with {f:?} is refused with {e:?}");
            // the same error when saving, with some text
            match any.bytes()? {
                Ok(_) => fail!("data with {f:?} is saved"),
                Err(s) => ensure!(s.contains(name), "converting gives {e:?}, saving {s}"),
            }
            ensure!(!lib(|| e.to_string())?.is_empty(), "{name} has no message");
        }
    }
    // the count of an object alone
    for o in &m.objects {
        let l = lens(o);
        match lib(|| o.vertex_count())? {
            Ok(n) => ensure!(l.iter().all(|x| *x == n) && (n == 0 || !l.is_empty()), "vertex count {n} for attributes of {l:?}"),
            Err(Error::AttributeDataLengthMismatch) => {
                ensure!(l.iter().any(|x| *x != l[0]), "attributes of {l:?} have no vertex count")
            }
            Err(e) => fail!("vertex count of {l:?}: {e:?}"),
        }
    }
    Ok(())
}

fn wild(c: &mut Ctx) -> R {
    let m = mesh(&mut c.src, &DK::wild());
    check(c, m)
}

/// Valid data with exactly one fault somewhere.
fn one_fault(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.big = false;
    let mut m = mesh(&mut c.src, &k);
    if m.objects.is_empty() {
        m.objects.push(mesh_object(&mut c.src, &k, true));
    }
    let i = c.src.usize(m.objects.len());
    let n = m.objects.len();
    match c.src.below(8) {
        0 => {
            // one element more or fewer in one attribute of any kind
            let o = &mut m.objects[i];
            let count = lens(o).first().copied().unwrap_or(0);
            let off = if c.src.chance(1, 2) { count + 1 } else { count.saturating_sub(1) };
            let which = c.src.usize(6);
            let list = [
                &mut o.positions,
                &mut o.normals,
                &mut o.binormals,
                &mut o.tangents,
                &mut o.texture_coordinates,
                &mut o.color_sets,
            ]
            .into_iter()
            .nth(which)
            .unwrap();
            let dim = c.src.below(3);
            let data = vectors(&mut c.src, &k, dim, off, 0);
            let a = AttributeData { name: "x".into(), data };
            if list.is_empty() || c.src.chance(1, 2) {
                list.push(a);
            } else {
                *list.last_mut().unwrap() = a;
            }
        }
        1 => {
            let o = &mut m.objects[i];
            let count = o.vertex_count().unwrap_or(0) as u32;
            for _ in 0..c.src.range(1, 2) {
                o.vertex_indices.push(count.saturating_sub(1));
            }
        }
        2 => {
            let o = &mut m.objects[i];
            let count = o.vertex_count().unwrap_or(0) as u32;
            let past = c.src.below(3) as u32;
            if o.vertex_indices.is_empty() {
                o.vertex_indices = vec![count.saturating_sub(1); 3];
            }
            let at = c.src.usize(o.vertex_indices.len());
            o.vertex_indices[at] = (count + past).saturating_sub(1);
        }
        3 if n > 1 => {
            let mut j = c.src.usize(n - 1);
            if j >= i {
                j += 1;
            }
            m.objects[j].name = m.objects[i].name.clone();
            m.objects[j].subindex = m.objects[i].subindex;
        }
        4 => {
            let v = *c.src.pick(&[65534u32, 65535, 65536, 65537, 131071, u32::MAX]);
            m.objects[i].bone_influences.push(BoneInfluence {
                bone_name: "b".into(),
                vertex_weights: vec![
                    VertexWeight { vertex_index: 0, vertex_weight: 1.0 },
                    VertexWeight { vertex_index: v, vertex_weight: 0.5 },
                ],
            });
        }
        5 => {
            (m.major_version, m.minor_version) = *c.src.pick(&[
                (0, 8),
                (0, 10),
                (1, 7),
                (1, 8),
                (1, 9),
                (1, 10),
                (1, 11),
                (2, 8),
                (2, 10),
                (10, 1),
                (8, 1),
                (1, 0),
                (1, 266),
                (257, 10),
                (0, 0),
            ])
        }
        6 => m.minor_version = int(&mut c.src, 2) as u16,
        _ => {}
    }
    check(c, m)
}

/// With one dimension of the generated value far larger than usual.
fn large_one_fault(c: &mut Ctx) -> R {
    c.src.large = true;
    one_fault(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "the data has at least one fault",
        assumptions: &["the list of faults in C13's statement is complete"],
        subs: vec![
            Sub { name: "one_fault", quick: 400_000, thorough: 10_000_000, enumerate: 0, f: one_fault },
            Sub { name: "large_one_fault", quick: 600, thorough: 36000, enumerate: 0, f: large_one_fault },
            Sub { name: "wild", quick: 120_000, thorough: 6_000_000, enumerate: 0, f: wild },
        ],
        probes: vec![],
    }
}
