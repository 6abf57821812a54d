//! 4x4 matrices in double precision with error bounds (column-major like the library).

pub type M = [[f64; 4]; 4];
pub type F = [[f32; 4]; 4];

pub const EPS: f64 = 1.1920929e-7;

pub fn up(m: &F) -> M {
    let mut o = [[0.0; 4]; 4];
    for j in 0..4 {
        for i in 0..4 {
            o[j][i] = m[j][i] as f64;
        }
    }
    o
}

pub fn finite(m: &F) -> bool {
    m.iter().flatten().all(|x| x.is_finite())
}

pub fn abs(m: &M) -> M {
    m.map(|c| c.map(f64::abs))
}

pub fn mul(a: &M, b: &M) -> M {
    let mut o = [[0.0; 4]; 4];
    for j in 0..4 {
        for i in 0..4 {
            o[j][i] = (0..4).map(|k| a[k][i] * b[j][k]).sum();
        }
    }
    o
}

pub fn largest(m: &M) -> f64 {
    m.iter().flatten().fold(0.0, |a, x| a.max(x.abs()))
}

fn minor(a: &M, r: usize, c: usize, absolute: bool) -> f64 {
    let rows: Vec<usize> = (0..4).filter(|x| *x != r).collect();
    let cols: Vec<usize> = (0..4).filter(|x| *x != c).collect();
    let g = |i: usize, j: usize| a[cols[j]][rows[i]];
    let sign = if absolute { 1.0 } else { -1.0 };
    g(0, 0) * (g(1, 1) * g(2, 2) + sign * g(1, 2) * g(2, 1))
        + sign * g(0, 1) * (g(1, 0) * g(2, 2) + sign * g(1, 2) * g(2, 0))
        + g(0, 2) * (g(1, 0) * g(2, 1) + sign * g(1, 1) * g(2, 0))
}

/// The inverse and an elementwise bound for computing it in 32 bit floats by cofactors;
/// None when the matrix is (nearly) singular or the numbers leave the comfortable range.
pub fn inverse(m: &F) -> Option<(M, M)> {
    if !finite(m) {
        return None;
    }
    let a = up(m);
    let big = largest(&a);
    if !(1e-8..=1e6).contains(&big) {
        return None;
    }
    // products below the smallest float vanish
    let lost = 1e-43 * (1.0 + big);
    let aa = abs(&a);
    let mut cof = [[0.0; 4]; 4];
    let mut mag = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            let s = if (r + c) % 2 == 0 { 1.0 } else { -1.0 };
            cof[c][r] = s * minor(&a, r, c, false);
            mag[c][r] = minor(&aa, r, c, true);
        }
    }
    let det: f64 = (0..4).map(|c| a[c][0] * cof[c][0]).sum();
    let det_mag: f64 = (0..4).map(|c| aa[c][0] * mag[c][0]).sum();
    let err_det = 32.0 * EPS * det_mag + 4.0 * big * lost + 1e-43;
    if !(1e-34..=1e34).contains(&det.abs()) || !det.is_finite() || err_det > 0.05 * det.abs() {
        return None;
    }
    let mut inv = [[0.0; 4]; 4];
    let mut tol = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            inv[c][r] = cof[r][c] / det;
            tol[c][r] = (32.0 * EPS * mag[r][c] + lost) / det.abs() + 1.1 * cof[r][c].abs() / det.abs() * (err_det / det.abs()) + 1e-30;
        }
    }
    // results beyond the largest float
    if !inv.iter().flatten().chain(tol.iter().flatten()).all(|x| x.abs() < 1e36) {
        return None;
    }
    Some((inv, tol))
}

/// Every element within its bound?
pub fn within(got: &F, want: &M, tol: &M) -> Result<(), String> {
    for j in 0..4 {
        for i in 0..4 {
            let d = (got[j][i] as f64 - want[j][i]).abs();
            // not "d > tol": undefined values are wrong too
            if !(d <= tol[j][i]) {
                return Err(format!(
                    "column {j} row {i} is {:?}, expected {:?} (off by {d:e}, allowed {:e})",
                    got[j][i], want[j][i], tol[j][i]
                ));
            }
        }
    }
    Ok(())
}
