//! C14: recalculated bounding volumes enclose all vertices.
use super::c23::points;
use crate::bounds as bv;
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::meshfile::*;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;
use ssbh_data::meshex_data::*;

fn enclosed(b: &Bounds, ps: &[bv::P]) -> R {
    bv::sphere(b.center, b.radius, ps).map_err(Fail)?;
    if ps.is_empty() {
        ensure!(b.min == [0.0; 3] && b.max == [0.0; 3], "no points, volume {:?} to {:?}", b.min, b.max);
        ensure!(b.obb_center == [0.0; 3] && b.obb_size == [0.0; 3], "no points, box {:?} {:?}", b.obb_center, b.obb_size);
        return Ok(());
    }
    for k in 0..3 {
        let lo = ps.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min);
        let hi = ps.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max);
        ensure!(
            b.min[k] == lo && b.max[k] == hi,
            "axis {k}: the points go from {lo} to {hi}, the volume from {} to {}",
            b.min[k],
            b.max[k]
        );
    }
    let t = bv::slack(bv::size(ps), 4);
    // the box's axes have unit length and are orthogonal
    for i in 0..3 {
        for j in 0..3 {
            let d: f64 = (0..3).map(|k| b.obb_axes[i][k] * b.obb_axes[j][k]).sum();
            let want = if i == j { 1.0 } else { 0.0 };
            ensure!((d - want).abs() < 1e-4, "the box's axes are {:?}", b.obb_axes);
        }
    }
    for p in ps {
        for (i, a) in b.obb_axes.iter().enumerate() {
            let d: f64 = (0..3).map(|k| (p[k] - b.obb_center[k]) * a[k]).sum();
            ensure!(
                d.abs() <= b.obb_size[i] + t,
                "point {p:?} is {d} from the box's center {:?} along axis {i}, the size is {}",
                b.obb_center,
                b.obb_size[i]
            );
        }
    }
    Ok(())
}

fn comfortable(ps: &[bv::P]) -> bool {
    // squares of larger numbers do not fit in 32 bit floats
    ps.iter().flatten().all(|x| x.is_finite() && x.abs() < 1e15)
}

fn cloud(s: &mut Src, n: usize) -> VectorData {
    // points around one place, on a line, in a plane, on a sphere or anywhere
    let style = s.below(6);
    let base = [f32_geo(s), f32_geo(s), f32_geo(s)];
    let scale = *s.pick(&[1.0f32, 1e-3, 100.0, 1e6, 1e-12, 1e10]);
    let dim = [1, 1, 1, 0, 2][s.usize(5)];
    let one = |s: &mut Src| -> [f32; 4] {
        let u = |s: &mut Src| s.below(2001) as f32 / 1000.0 - 1.0;
        let (x, y, z) = (u(s), u(s), u(s));
        let p = match style {
            0 => [x, y, z],
            1 => [x, 0.0, 0.0],
            2 => [x, x, -x],
            3 => {
                let r = (x * x + y * y + z * z).sqrt().max(1e-3);
                [x / r, y / r, z / r]
            }
            4 => [x.signum(), y.signum(), z.signum()],
            _ => [x, y, 0.0],
        };
        [base[0] + p[0] * scale, base[1] + p[1] * scale, base[2] + p[2] * scale, f32_any(s)]
    };
    match dim {
        0 => VectorData::Vector2((0..n).map(|_| one(s)).map(|p| [p[0], p[1]]).collect()),
        1 => VectorData::Vector3((0..n).map(|_| one(s)).map(|p| [p[0], p[1], p[2]]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| one(s)).collect()),
    }
}

fn saved(c: &mut Ctx) -> R {
    let mut k = DK::valid();
    k.finite = true;
    let mut m = mesh(&mut c.src, &k);
    if c.src.chance(2, 3) {
        for o in m.objects.iter_mut() {
            let n = o.vertex_count().unwrap_or(0);
            if let Some(p) = o.positions.first_mut() {
                if n < 1000 {
                    p.data = cloud(&mut c.src, n);
                }
            }
        }
    }
    let minor = m.minor_version;
    let any = AnyData::Mesh(m);
    c.describe(|| any.debug());
    let AnyData::Mesh(m) = &any else { unreachable!() };
    let b = any.must_bytes()?;
    let f = match parse_kind(kind("Mesh", &format!("V{minor}")), &b) {
        Ok(p) => mesh_file(&p.val),
        Err(e) => fail!("the saved file is not readable by the format definition: {e:?}"),
    };
    ensure!(f.objects.len() == m.objects.len(), "{} objects", f.objects.len());
    let mut all = vec![];
    for (i, (o, d)) in f.objects.iter().zip(&m.objects).enumerate() {
        let ps = d.positions.first().map(|p| points(&p.data)).unwrap_or_default();
        if comfortable(&ps) {
            enclosed(&o.bounds, &ps).map_err(|Fail(e)| Fail(format!("object {i}: {e}")))?;
        }
        all.extend(ps);
    }
    if comfortable(&all) {
        c.label(match all.len() {
            0 => "no points",
            1 => "one point",
            _ => "points",
        });
        if all.len() > 2 {
            c.interesting(&any.to_val()?);
        }
        enclosed(&f.bounds, &all).map_err(|Fail(e)| Fail(format!("whole mesh: {e}")))?;
    } else {
        c.label("too large");
    }
    Ok(())
}

fn overall(v: &Val) -> Result<(bv::P, f64), Fail> {
    fn inner(v: &Val) -> &Val {
        match v {
            Val::Some(x) => x,
            v => v,
        }
    }
    let s = inner(v.field("all_data")).field("bounding_sphere");
    let c = s.field("center");
    Ok(([flt(c.field("x")), flt(c.field("y")), flt(c.field("z"))], flt(s.field("radius"))))
}

fn overall_encloses(d: &MeshExData) -> R {
    let b = AnyData::MeshEx(d.clone()).must_bytes()?;
    let p = match parse_meshex(&b) {
        Ok(p) => p,
        Err(e) => fail!("the saved file is not readable by the format definition: {e:?}"),
    };
    let (center, radius) = overall(&p.val)?;
    let gs: Vec<(bv::P, f64)> = d
        .mesh_object_groups
        .iter()
        .map(|g| {
            let s = &g.bounding_sphere;
            ([s.center.x as f64, s.center.y as f64, s.center.z as f64], s.radius as f64)
        })
        .collect();
    if gs.is_empty() {
        ensure!(center == [0.0; 3] && radius == 0.0, "no groups, sphere {center:?} {radius}");
        return Ok(());
    }
    let scale = gs.iter().map(|g| bv::size(&[g.0]).max(g.1.abs())).fold(0.0, f64::max);
    let t = 2.0 * bv::slack(scale, gs.len());
    for (i, g) in gs.iter().enumerate() {
        let need = bv::dist(center, g.0) + g.1;
        ensure!(need <= radius + t, "the sphere of group {i} reaches {need} from {center:?}, the radius is {radius}");
    }
    Ok(())
}

fn groups(c: &mut Ctx) -> R {
    let k = DK { finite: true, valid: true, big: false };
    let mut objects = vec![];
    for _ in 0..c.src.below(8) {
        let n = c.src.below(7) as usize;
        let mut positions = vec![];
        if c.src.chance(9, 10) {
            let data = cloud(&mut c.src, n);
            positions.push(AttributeData { name: "Position0".into(), data });
        }
        objects.push(MeshObjectData {
            name: c.src.pick(&NAMES).to_string(),
            subindex: objects.len() as u64,
            positions,
            ..Default::default()
        });
    }
    c.describe(|| clip(format!("{objects:?}")));
    let d = lib(|| MeshExData::from_mesh_objects(&objects))?;
    let mut at = 0;
    let mut fit = true;
    let mut total = 0;
    for (i, g) in d.mesh_object_groups.iter().enumerate() {
        let n = g.entry_flags.len();
        ensure!(at + n <= objects.len(), "more flags than objects");
        let ps: Vec<bv::P> =
            objects[at..at + n].iter().filter_map(|o| o.positions.first()).flat_map(|p| points(&p.data)).collect();
        at += n;
        total += ps.len();
        if !comfortable(&ps) {
            fit = false;
            continue;
        }
        let s = &g.bounding_sphere;
        bv::sphere([s.center.x as f64, s.center.y as f64, s.center.z as f64], s.radius as f64, &ps)
            .map_err(|e| Fail(format!("group {i}: {e}")))?;
    }
    if total > 2 {
        c.interesting(&to_val(&objects).unwrap());
    }
    if fit {
        overall_encloses(&d)?;
    }
    // any groups
    let mut e = meshex(&mut c.src, &k);
    for g in e.mesh_object_groups.iter_mut() {
        let f = |s: &mut Src| f32_geo(s);
        g.bounding_sphere.center = ssbh_lib::Vector3::new(f(&mut c.src), f(&mut c.src), f(&mut c.src));
        g.bounding_sphere.radius = f(&mut c.src).abs();
    }
    c.evals = 2;
    overall_encloses(&e)
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_groups(c: &mut Ctx) -> R {
    c.src.large = true;
    groups(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "more than two points in all",
        assumptions: &["positions below 1e15, whose squares fit in 32 bit floats", "an object's positions are its first position attribute"],
        subs: vec![
            Sub { name: "saved", quick: 160_000, thorough: 6_000_000, enumerate: 0, f: saved },
            Sub { name: "large_saved", quick: 400, thorough: 24000, enumerate: 0, f: large_saved },
            Sub { name: "groups", quick: 300_000, thorough: 10_000_000, enumerate: 0, f: groups },
            Sub { name: "large_groups", quick: 400, thorough: 24000, enumerate: 0, f: large_groups },
        ],
        probes: vec![],
    }
}
