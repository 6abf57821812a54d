//! C16: vector transforms and normal and tangent calculation match their definition.
use crate::dgen::*;
use crate::engine::*;
use crate::gen::*;
use crate::meshfile::*;
use crate::runner::*;
use crate::val::*;
use crate::{ensure, fail};
use ssbh_data::mesh_data::*;

type V = [f64; 3];
fn sub(a: V, b: V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
fn add(a: V, b: V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
fn scale(a: V, s: f64) -> V {
    a.map(|x| x * s)
}
fn cross(a: V, b: V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
fn dot(a: V, b: V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn len(a: V) -> f64 {
    dot(a, a).sqrt()
}

fn p3(r: &[f32]) -> V {
    [r[0] as f64, r[1] as f64, r.get(2).copied().unwrap_or(0.0) as f64]
}

fn transform(c: &mut Ctx) -> R {
    let k = DK { finite: c.src.chance(1, 2), valid: true, big: false };
    let n = c.src.below(6) as usize;
    let dimension = c.src.below(3);
    let d = vectors(&mut c.src, &k, dimension, n, 1);
    let m = match c.src.below(4) {
        0 => trs(&mut c.src),
        1 => std::array::from_fn(|_| std::array::from_fn(|_| c.src.below(21) as f32 - 10.0)),
        _ => matrix(&mut c.src, &k),
    };
    c.describe(|| format!("{d:?} by {m:?}"));
    if n > 0 {
        c.interesting(&format!("{d:?} {m:?}"));
    }
    let (dr, dd) = (rows(&d), dim(&d));
    let mut compared = 0;
    for (what, w) in [("points", 1.0f64), ("vectors", 0.0)] {
        let g = if w == 1.0 { lib(|| transform_points(&d, &m))? } else { lib(|| transform_vectors(&d, &m))? };
        ensure!(dim(&g) == dd && g.len() == d.len(), "{what}: {} of {} components instead of {} of {dd}", g.len(), dim(&g), d.len());
        for (e, (x, y)) in dr.iter().zip(&rows(&g)).enumerate() {
            let p = [x[0] as f64, x[1] as f64, if dd > 2 { x[2] as f64 } else { 0.0 }, w];
            for r in 0..dd.min(3) {
                let t: Vec<f64> = (0..4).map(|c| m[c][r] as f64 * p[c]).collect();
                let (sum, mag): (f64, f64) = (t.iter().sum(), t.iter().map(|x| x.abs()).sum());
                if !mag.is_finite() || mag > 1e37 || p.iter().any(|x| !x.is_finite()) {
                    continue;
                }
                compared += 1;
                ensure!(
                    (y[r] as f64 - sum).abs() <= 1e-6 * mag + 1e-37,
                    "{what}, element {e}, component {r}: {} instead of {sum}",
                    y[r]
                );
            }
            if dd == 4 {
                ensure!(same(x[3], y[3]), "{what}, element {e}: the fourth component {} becomes {}", x[3], y[3]);
            }
        }
    }
    let w = k.f32(&mut c.src);
    let p = lib(|| d.to_vec4_with_w(w))?;
    ensure!(p.len() == n, "{} padded elements for {n}", p.len());
    for (x, y) in dr.iter().zip(&p) {
        let want = [x[0], x[1], if dd > 2 { x[2] } else { 0.0 }, w];
        ensure!(want.iter().zip(y).all(|(a, b)| same(*a, *b)), "{x:?} padded with {w}: {y:?}");
    }
    ensure!(d.is_empty() == (n == 0), "emptiness of {n} elements");
    c.evals = compared + 1;
    Ok(())
}

struct Model {
    positions: VectorData,
    normals: VectorData,
    uvs: VectorData,
    indices: Vec<u32>,
}

fn coordinate(s: &mut Src, style: u64) -> f32 {
    match style {
        // exact in 32 bits throughout
        0 => s.below(17) as f32 - 8.0,
        1 => (s.below(65) as f32 - 32.0) / 4.0,
        _ => (s.below(200_001) as f32 - 100_000.0) / 1000.0,
    }
}

fn model(s: &mut Src) -> Model {
    let style = s.below(3);
    let n = s.range(0, 9) as usize;
    let with_dim = |s: &mut Src, dim: usize, f: &mut dyn FnMut(&mut Src) -> f32| match dim {
        2 => VectorData::Vector2((0..n).map(|_| [f(s), f(s)]).collect()),
        3 => VectorData::Vector3((0..n).map(|_| [f(s), f(s), f(s)]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [f(s), f(s), f(s), f(s)]).collect()),
    };
    let d = *s.pick(&[3usize, 3, 3, 2, 4]);
    let mut positions = with_dim(s, d, &mut |s| coordinate(s, style));
    if s.chance(1, 4) {
        // vertices at the same place
        if let VectorData::Vector3(p) = &mut positions {
            for i in 1..p.len() {
                if s.chance(1, 3) {
                    let j = s.usize(i);
                    p[i] = p[j];
                }
            }
        }
    }
    let d = *s.pick(&[3usize, 4, 4]);
    let mut normals = with_dim(s, d, &mut |s| coordinate(s, 1));
    match &mut normals {
        VectorData::Vector4(v) => v.iter_mut().for_each(|v| unit(&mut v[..3])),
        VectorData::Vector3(v) => v.iter_mut().for_each(|v| unit(&mut v[..])),
        _ => {}
    }
    let d = *s.pick(&[2usize, 2, 3, 4]);
    let uvs = with_dim(s, d, &mut |s| match style {
        0 => s.below(5) as f32,
        1 => s.below(17) as f32 / 16.0,
        _ => s.below(10_001) as f32 / 10_000.0,
    });
    let mut indices: Vec<u32> = vec![];
    if n > 0 {
        let faces = s.below(8);
        for _ in 0..faces {
            match s.below(4) {
                0 if indices.len() >= 3 => {
                    // a face and its reverse cancel
                    let at = s.usize(indices.len() / 3) * 3;
                    let f = [indices[at], indices[at + 2], indices[at + 1]];
                    indices.extend(f);
                }
                _ => {
                    for _ in 0..3 {
                        indices.push(s.usize(n) as u32);
                    }
                }
            }
        }
    }
    Model { positions, normals, uvs, indices }
}

fn unit(v: &mut [f32]) {
    let l = v.iter().map(|x| x * x).sum::<f32>().sqrt();
    if l > 0.0 {
        v.iter_mut().for_each(|x| *x /= l);
    } else {
        v[0] = 1.0;
    }
}

fn direction(what: &str, got: &[f32], want: V, err: f64) -> R {
    let l = len(want);
    // too close to zero for its direction to be known
    if l <= 200.0 * err {
        return Ok(());
    }
    let want = scale(want, 1.0 / l);
    let t = 4.0 * err / l + 1e-5;
    for k in 0..3 {
        ensure!((got[k] as f64 - want[k]).abs() <= t, "{what} is {:?}, by definition {want:?} (within {t:e})", &got[..3]);
    }
    Ok(())
}

fn length(what: &str, got: &[f32]) -> R {
    let l = len(p3(got));
    ensure!((l - 1.0).abs() < 1e-5, "{what} {got:?} has the length {l}");
    Ok(())
}

fn normals(c: &mut Ctx) -> R {
    let m = model(&mut c.src);
    let n = m.positions.len();
    c.describe(|| format!("{:?} {:?}", m.positions, m.indices));
    if !m.indices.is_empty() {
        c.interesting(&format!("{:?} {:?}", m.positions, m.indices));
    }
    let g = lib(|| calculate_smooth_normals(&m.positions, &m.indices))?;
    if n == 0 || m.indices.is_empty() {
        ensure!(g.is_empty(), "{} normals without faces", g.len());
        return Ok(());
    }
    ensure!(g.len() == n, "{} normals for {n} vertices", g.len());
    let ps: Vec<V> = rows(&m.positions).iter().map(|r| p3(r)).collect();
    let mut sum = vec![[0.0; 3]; n];
    let mut mag = vec![0.0; n];
    for f in m.indices.chunks_exact(3) {
        let [a, b, d] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let (u, v) = (sub(ps[b], ps[a]), sub(ps[d], ps[a]));
        let x = cross(u, v);
        for i in [a, b, d] {
            sum[i] = add(sum[i], x);
            mag[i] += len(u) * len(v) + 1e-5 * (len(ps[a]) + len(ps[b]) + len(ps[d])) * (len(u) + len(v));
        }
    }
    for i in 0..n {
        let what = format!("normal {i}");
        if mag[i] == 0.0 {
            ensure!(g[i] == [0.0; 3], "{what} is {:?} though the vertex has no area", g[i]);
            continue;
        }
        direction(&what, &g[i], sum[i], 1e-6 * mag[i])?;
        if len(sum[i]) > 200e-6 * mag[i] {
            length(&what, &g[i])?;
        } else {
            let l = len(p3(&g[i]));
            ensure!(l < 1e-5 || (l - 1.0).abs() < 1e-5, "{what} {:?} has the length {l}", g[i]);
        }
    }
    c.evals = n as u64;
    Ok(())
}

fn tangents(c: &mut Ctx) -> R {
    let mut m = model(&mut c.src);
    let n = m.positions.len();
    // sometimes unacceptable
    let mut refuse = false;
    if c.src.chance(1, 8) {
        match c.src.below(3) {
            0 => {
                m.indices.push(0);
                refuse = true;
            }
            1 => {
                let d = vectors(&mut c.src, &DK::json(), 1, n + 1, 1);
                m.normals = d;
                refuse = true;
            }
            _ => {
                let d = vectors(&mut c.src, &DK::json(), 0, n + 1, 1);
                m.uvs = d;
                refuse = true;
            }
        }
    }
    c.describe(|| format!("{:?} {:?} {:?} {:?}", m.positions, m.normals, m.uvs, m.indices));
    if !m.indices.is_empty() {
        c.interesting(&format!("{:?} {:?} {:?} {:?}", m.positions, m.normals, m.uvs, m.indices));
    }
    let g = lib(|| calculate_tangents_vec4(&m.positions, &m.normals, &m.uvs, &m.indices).map_err(|e| e.to_string()))?;
    c.label(if refuse { "refused" } else { "calculated" });
    let g = match g {
        Ok(_) if refuse => fail!("tangents are calculated from lists that do not fit together"),
        Err(_) if refuse => return Ok(()),
        Ok(g) => g,
        Err(e) => fail!("no tangents: {e}"),
    };
    ensure!(g.len() == n, "{} tangents for {n} vertices", g.len());
    let ps: Vec<V> = rows(&m.positions).iter().map(|r| p3(r)).collect();
    let ns: Vec<V> = rows(&m.normals).iter().map(|r| p3(r)).collect();
    let us: Vec<[f64; 2]> = rows(&m.uvs).iter().map(|r| [r[0] as f64, r[1] as f64]).collect();
    // sums for tangents and bitangents with what rounding may make of them
    let mut t = vec![([0.0; 3], 0.0f64); n];
    let mut b = vec![([0.0; 3], 0.0f64); n];
    for f in m.indices.chunks_exact(3) {
        let [i, j, k] = [f[0] as usize, f[1] as usize, f[2] as usize];
        let (pa, pb) = (sub(ps[j], ps[i]), sub(ps[k], ps[i]));
        let ua = [us[j][0] - us[i][0], us[j][1] - us[i][1]];
        let ub = [us[k][0] - us[i][0], us[k][1] - us[i][1]];
        let div = ua[0] * ub[1] - ub[0] * ua[1];
        let dmag = (ua[0] * ub[1]).abs() + (ub[0] * ua[1]).abs();
        let r = if div != 0.0 { 1.0 / div } else { 1.0 };
        // how far the factor may be off
        let rel = if div != 0.0 { 1e-6 * dmag / div.abs() + 1e-6 } else { 0.0 };
        let unclear = dmag > 0.0 && div.abs() <= 1e-5 * dmag && {
            // exact zero only counts when the numbers are exact
            !(div == 0.0 && exact(&us))
        };
        let one = |x: V, mag: f64, default: V| -> (V, f64) {
            let v = scale(x, r);
            let e = 1e-6 * mag * r.abs() + len(v) * rel;
            if len(x) == 0.0 && exact(&us) && exact3(&ps) {
                (default, 0.0)
            } else if unclear || len(x) <= 1e-5 * mag {
                (v, 1e30)
            } else {
                (v, e)
            }
        };
        let tm = len(pa) * ub[1].abs() + len(pb) * ua[1].abs();
        let bm = len(pb) * ua[0].abs() + len(pa) * ub[0].abs();
        let tv = one(sub(scale(pa, ub[1]), scale(pb, ua[1])), tm, [1.0, 0.0, 0.0]);
        let bv = one(sub(scale(pb, ua[0]), scale(pa, ub[0])), bm, [0.0, 1.0, 0.0]);
        for x in [i, j, k] {
            t[x].0 = add(t[x].0, tv.0);
            t[x].1 += tv.1 + 1e-6 * len(tv.0);
            b[x].0 = add(b[x].0, bv.0);
            b[x].1 += bv.1 + 1e-6 * len(bv.0);
        }
    }
    let mut judged = 0;
    for i in 0..n {
        let what = format!("tangent {i}");
        ensure!(g[i][3] == 1.0 || g[i][3] == -1.0, "{what}: w is {}", g[i][3]);
        length(&what, &g[i][..3])?;
        let used = m.indices.contains(&(i as u32));
        let (tv, te) = if used { t[i] } else { ([1.0, 0.0, 0.0], 0.0) };
        let (bv, be) = if used { b[i] } else { ([0.0, 1.0, 0.0], 0.0) };
        direction(&what, &g[i], tv, te)?;
        // the handedness
        if len(tv) > 200.0 * te && len(bv) > 200.0 * be {
            let (tv, bv) = (scale(tv, 1.0 / len(tv)), scale(bv, 1.0 / len(bv)));
            let h = dot(cross(tv, bv), ns[i]);
            let unsure = 4.0 * te / 1.0_f64.max(len(t[i].0)) + 4.0 * be / 1.0_f64.max(len(b[i].0)) + 1e-3;
            if h.abs() > unsure && h.abs() > 0.02 {
                judged += 1;
                ensure!(
                    (h > 0.0) == (g[i][3] > 0.0),
                    "{what}: w is {}, tangent {tv:?}, bitangent {bv:?}, normal {:?}",
                    g[i][3],
                    ns[i]
                );
            }
        }
    }
    c.evals = 1 + judged;
    Ok(())
}

/// Small multiples of 1/16: sums and products of a few are exact in 32 bit floats.
fn exact(u: &[[f64; 2]]) -> bool {
    u.iter().flatten().all(|x| (x * 16.0).fract() == 0.0 && x.abs() < 64.0)
}
fn exact3(u: &[V]) -> bool {
    u.iter().flatten().all(|x| (x * 16.0).fract() == 0.0 && x.abs() < 64.0)
}

pub fn prop() -> Prop {
    let _ = (hex, f32_any);
    Prop {
        id: "C16",
        level: "exploration",
        rule: "transform: at least one element; normals, tangents: at least one face",
        assumptions: &[
            "indices are in range (documented precondition)",
            "directions are compared where rounding leaves them defined, transforms where the sums fit in 32 bit floats",
        ],
        subs: vec![
            Sub { name: "transform", quick: 2_400_000, thorough: 30_000_000, enumerate: 0, f: transform },
            Sub { name: "normals", quick: 1_600_000, thorough: 20_000_000, enumerate: 0, f: normals },
            Sub { name: "tangents", quick: 2_400_000, thorough: 20_000_000, enumerate: 0, f: tangents },
        ],
        probes: vec![],
    }
}
