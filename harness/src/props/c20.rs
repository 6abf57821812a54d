//! C20: skeleton matrices follow the parent hierarchy.
use super::c18::{body, num, seq};
use crate::dgen::*;
use crate::engine::*;
use crate::mat;
use crate::refcodec::*;
use crate::runner::*;
use crate::schema::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::skel_data::*;

fn matrix_of(v: &Val) -> mat::F {
    let mut o = [[0.0f32; 4]; 4];
    fn walk(v: &Val, out: &mut Vec<f32>) {
        match v {
            Val::F(b) => out.push(f32::from_bits(*b)),
            Val::Seq(s) => s.iter().for_each(|x| walk(x, out)),
            Val::Map(m) => m.iter().for_each(|(_, x)| walk(x, out)),
            _ => panic!("not a matrix"),
        }
    }
    let mut all = vec![];
    walk(v, &mut all);
    for (i, x) in all.iter().enumerate() {
        o[i / 4][i % 4] = *x;
    }
    assert_eq!(all.len(), 16);
    o
}

/// The bones a bone hangs from, nearest first; Err when that never ends.
pub fn chain(d: &SkelData, start: &BoneData) -> Result<Vec<usize>, Vec<usize>> {
    let mut path: Vec<usize> = vec![];
    let mut next = start.parent_index;
    while let Some(p) = next {
        if p >= d.bones.len() {
            break;
        }
        if let Some(at) = path.iter().position(|x| *x == p) {
            return Err(path[at..].to_vec());
        }
        path.push(p);
        next = d.bones[p].parent_index;
    }
    Ok(path)
}

/// The bone's world transform with a bound for 32 bit arithmetic, None when out of range.
fn world(d: &SkelData, b: &BoneData, path: &[usize]) -> Option<(mat::M, mat::M)> {
    let ok = |m: &mat::F| mat::finite(m) && m.iter().flatten().all(|x| *x == 0.0 || (1e-12..1e12).contains(&x.abs()));
    if !ok(&b.transform) {
        return None;
    }
    let mut m = mat::up(&b.transform);
    let mut mag = mat::abs(&m);
    let mut err = [[0.0; 4]; 4];
    for p in path {
        let t = &d.bones[*p].transform;
        if !ok(t) {
            return None;
        }
        let t = mat::up(t);
        let ta = mat::abs(&t);
        m = mat::mul(&t, &m);
        mag = mat::mul(&ta, &mag);
        err = mat::mul(&ta, &err);
        for j in 0..4 {
            for i in 0..4 {
                err[j][i] += 4.0 * mat::EPS * mag[j][i] + 1e-44;
            }
        }
        if mat::largest(&mag) > 1e35 {
            return None;
        }
    }
    // any order of multiplication
    let n = path.len() as f64;
    for j in 0..4 {
        for i in 0..4 {
            err[j][i] = 2.0 * err[j][i] + n * 4.0 * mat::EPS * mag[j][i];
        }
    }
    Some((m, err))
}

fn generate(c: &mut Ctx, wild: bool) -> Result<AnyData, Fail> {
    let k = DK { finite: c.src.chance(2, 3), valid: !wild, big: true };
    let mut d = skel(&mut c.src, &k);
    if c.src.chance(2, 3) {
        for b in &mut d.bones {
            b.transform = trs(&mut c.src);
        }
    }
    let any = AnyData::Skel(d);
    c.describe(|| any.debug());
    Ok(any)
}

fn saved(c: &mut Ctx) -> R {
    let any = generate(c, false)?;
    let AnyData::Skel(d) = &any else { unreachable!() };
    if d.bones.iter().any(|b| b.parent_index.is_some()) {
        c.interesting(&any.to_val()?);
    }
    let bytes = any.must_bytes()?;
    // reloading
    let got = match AnyData::read_bytes(DKind::Skel, &bytes)? {
        Ok(x) => x,
        Err(e) => fail!("the saved skeleton cannot be read: {e}"),
    };
    if let Some(x) = any.to_val()?.diff(&got.to_val()?) {
        fail!("reloaded skeleton differs: {x}");
    }
    // the stored matrices
    let p = match parse_kind(kind("Skel", "V10"), &bytes) {
        Ok(p) => p,
        Err(e) => fail!("the saved skeleton is not readable by the format definition: {e:?}"),
    };
    let b = body(&p.val);
    let entries = seq(b.field("bone_entries"));
    ensure!(entries.len() == d.bones.len(), "{} entries for {} bones", entries.len(), d.bones.len());
    for f in ["world_transforms", "inv_world_transforms", "transforms", "inv_transforms"] {
        ensure!(seq(b.field(f)).len() == d.bones.len(), "{} {f} for {} bones", seq(b.field(f)).len(), d.bones.len());
    }
    for (i, bone) in d.bones.iter().enumerate() {
        let e = &entries[i];
        ensure!(
            matches!(e.field("name"), Val::Some(x) if matches!(&**x, Val::Str(s) if s == bone.name.as_bytes())),
            "bone {i} {:?} stored as {:?}",
            bone.name,
            e.field("name")
        );
        ensure!(num(e.field("index")) == i as u64, "bone {i} stored with index {:?}", e.field("index"));
        let parent = match e.field("parent_index") {
            Val::I(x) => *x,
            Val::U(x) => *x as i64,
            x => panic!("{x:?}"),
        };
        let want = bone.parent_index.map(|p| p as i64).unwrap_or(-1);
        ensure!(parent == want, "bone {i}: parent {want} stored as {parent}");
        let billboard = e.field("flags").field("billboard_type");
        ensure!(*billboard == to_val(&bone.billboard_type).unwrap(), "bone {i}: billboard {billboard:?}");
        let at = |f: &str| matrix_of(&seq(b.field(f))[i]);
        let t = at("transforms");
        ensure!(
            t.iter().flatten().zip(bone.transform.iter().flatten()).all(|(a, b)| a.to_bits() == b.to_bits()),
            "bone {i}: transform {t:?}"
        );
        let w = at("world_transforms");
        let path = chain(d, bone).expect("valid data has no cycles");
        if path.len() > 1 {
            c.label("grandparents");
        }
        if let Some((m, tol)) = world(d, bone, &path) {
            c.label("world checked");
            if let Err(e) = mat::within(&w, &m, &tol) {
                fail!("bone {i} with {} ancestors: world transform: {e}", path.len());
            }
        }
        for (m, inv, what) in [(w, at("inv_world_transforms"), "world"), (t, at("inv_transforms"), "local")] {
            if let Some((want, tol)) = mat::inverse(&m) {
                c.label("inverse checked");
                if let Err(e) = mat::within(&inv, &want, &tol) {
                    fail!("bone {i}: inverse of the {what} transform {m:?}: {e}");
                }
            }
        }
    }
    Ok(())
}

fn hierarchy(c: &mut Ctx) -> R {
    let any = generate(c, true)?;
    let AnyData::Skel(d) = &any else { unreachable!() };
    let mut cyclic = 0;
    for (i, bone) in d.bones.iter().enumerate() {
        let r = lib(|| d.calculate_world_transform(bone))?;
        match (chain(d, bone), r) {
            (Ok(path), Ok(w)) => {
                if let Some((m, tol)) = world(d, bone, &path) {
                    if let Err(e) = mat::within(&w, &m, &tol) {
                        fail!("bone {i} with {} ancestors: {e}", path.len());
                    }
                }
            }
            (Err(cycle), Err(BoneTransformError::CycleDetected { index })) => {
                cyclic += 1;
                ensure!(cycle.contains(&index), "bone {i}: the cycle {cycle:?} is reported at {index}");
            }
            (Ok(_), Err(e)) => fail!("bone {i} reaches no cycle but: {e}"),
            (Err(cycle), Ok(_)) => fail!("bone {i} reaches the cycle {cycle:?} but got a transform"),
        }
    }
    // a bone that is not part of the skeleton
    if !d.bones.is_empty() {
        let extra = BoneData {
            name: String::new(),
            transform: trs(&mut c.src),
            parent_index: Some(c.src.usize(d.bones.len())),
            billboard_type: BillboardType::Disabled,
        };
        match (chain(d, &extra), lib(|| d.calculate_world_transform(&extra))?) {
            (Ok(path), Ok(w)) => {
                if let Some((m, tol)) = world(d, &extra, &path) {
                    if let Err(e) = mat::within(&w, &m, &tol) {
                        fail!("a new bone with {} ancestors: {e}", path.len());
                    }
                }
            }
            (Err(_), Err(_)) => {}
            (a, b) => fail!("a new bone: ancestors {a:?}, result {b:?}"),
        }
    }
    let version_ok = (d.major_version, d.minor_version) == (1, 0);
    let too_far = d.bones.iter().filter(|b| b.parent_index.is_some_and(|p| p > 32767)).count();
    match any.bytes()? {
        Ok(b) => {
            ensure!(
                cyclic == 0 && version_ok && too_far == 0,
                "a skeleton of version {}.{} with {cyclic} bones on cycles and {too_far} parents above 32767 is saved",
                d.major_version,
                d.minor_version
            );
            match AnyData::read_bytes(DKind::Skel, &b)? {
                Ok(AnyData::Skel(r)) => {
                    ensure!(r.bones.len() == d.bones.len(), "{} bones reloaded as {}", d.bones.len(), r.bones.len());
                    for (i, (a, b)) in d.bones.iter().zip(&r.bones).enumerate() {
                        ensure!(a.parent_index == b.parent_index, "bone {i}: parent {:?} is reloaded as {:?}", a.parent_index, b.parent_index);
                    }
                }
                Ok(_) => unreachable!(),
                Err(e) => fail!("the saved skeleton cannot be read: {e}"),
            }
        }
        Err(e) => ensure!(cyclic > 0 || !version_ok || too_far > 0, "a valid skeleton is refused: {e}"),
    }
    if too_far > 0 {
        c.label("parent above 32767");
    }
    c.label(if cyclic > 0 { "cyclic" } else { "acyclic" });
    if cyclic > 0 || !d.bones.is_empty() {
        c.interesting(&any.to_val()?);
    }
    Ok(())
}

fn relative(c: &mut Ctx) -> R {
    let k = DK { finite: c.src.chance(2, 3), valid: true, big: false };
    let w = if c.src.chance(3, 4) { trs(&mut c.src) } else { matrix(&mut c.src, &k) };
    let p = match c.src.below(5) {
        0 => None,
        1 => Some(matrix(&mut c.src, &k)),
        _ => Some(trs(&mut c.src)),
    };
    c.describe(|| format!("world {w:?} parent {p:?}"));
    let r = lib(|| calculate_relative_transform(&w, p.as_ref()))?;
    let Some(p) = p else {
        ensure!(
            r.iter().flatten().zip(w.iter().flatten()).all(|(a, b)| a.to_bits() == b.to_bits()),
            "without parent the transform changes to {r:?}"
        );
        return Ok(());
    };
    let Some((inv, tol)) = mat::inverse(&p) else { return Ok(()) };
    if !mat::finite(&w) || w.iter().flatten().any(|x| *x != 0.0 && !(1e-12..1e12).contains(&x.abs())) {
        return Ok(());
    }
    c.interesting(&r.map(|c| c.map(f32::to_bits)));
    // composed with the parent in one of the two orders it gives the world transform back
    let wd = mat::up(&w);
    let wa = mat::abs(&wd);
    let bound = |left: &mat::M, right: &mat::M, e: mat::M| {
        let mut t = mat::mul(&mat::abs(left), &mat::abs(right));
        for j in 0..4 {
            for i in 0..4 {
                t[j][i] = 1.1 * e[j][i] + 8.0 * mat::EPS * t[j][i] + 1e-40;
            }
        }
        t
    };
    let a = mat::mul(&wd, &inv);
    let ta = bound(&wd, &inv, mat::mul(&wa, &tol));
    let b = mat::mul(&inv, &wd);
    let tb = bound(&inv, &wd, mat::mul(&tol, &wa));
    if let (Err(x), Err(y)) = (mat::within(&r, &a, &ta), mat::within(&r, &b, &tb)) {
        fail!("relative transform {r:?} composed with its parent is not the world transform: {x}; other order: {y}");
    }
    Ok(())
}

/// The composition order that world transforms use: parent, then own.
fn relative_order() -> R {
    let s = [[2.0f32, 0.0, 0.0, 0.0], [0.0, 4.0, 0.0, 0.0], [0.0, 0.0, 8.0, 0.0], [0.0, 0.0, 0.0, 1.0]];
    let p = [[1.0f32, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [1.0, 2.0, 3.0, 1.0]];
    let r = lib(|| calculate_relative_transform(&s, Some(&p)))?;
    let bone = |t, parent_index| BoneData { name: String::new(), transform: t, parent_index, billboard_type: BillboardType::Disabled };
    let d = SkelData { major_version: 1, minor_version: 0, bones: vec![bone(p, None), bone(r, Some(0))] };
    let w = lib(|| d.calculate_world_transform(&d.bones[1]))?.map_err(|e| Fail(e.to_string()))?;
    ensure!(w == s, "a bone with the transform relative to its parent {p:?} of the world transform {s:?} has the world transform {w:?}");
    Ok(())
}

/// More bones than parent indices can express.
fn many_bones(c: &mut Ctx) -> R {
    c.src.large = true;
    hierarchy(c)
}

/// With one dimension of the generated value far larger than usual.
fn large_saved(c: &mut Ctx) -> R {
    c.src.large = true;
    saved(c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        level: "exploration",
        rule: "saved: a skeleton with a bone that has a parent; hierarchy: a skeleton with bones; relative: an invertible parent",
        assumptions: &[
            "matrices are compared with double precision within elementwise bounds for 32 bit arithmetic; entries outside 1e-12..1e12, overflowing chains and (nearly) singular matrices are not compared",
        ],
        subs: vec![
            Sub { name: "saved", quick: 150_000, thorough: 6_000_000, enumerate: 0, f: saved },
            Sub { name: "large_saved", quick: 320, thorough: 19200, enumerate: 0, f: large_saved },
            Sub { name: "hierarchy", quick: 300_000, thorough: 10_000_000, enumerate: 0, f: hierarchy },
            Sub { name: "many_bones", quick: 160, thorough: 9600, enumerate: 0, f: many_bones },
            Sub { name: "relative", quick: 750_000, thorough: 30_000_000, enumerate: 0, f: relative },
        ],
        probes: vec![Probe { key: "relative-order", f: relative_order }],
    }
}
