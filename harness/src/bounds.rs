//! Bounding volumes in double precision.

pub type P = [f64; 3];

pub fn dist(a: P, b: P) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}

pub fn size(ps: &[P]) -> f64 {
    ps.iter().flatten().fold(0.0, |a, x| a.max(x.abs()))
}

/// Rounding of a few 32 bit operations on numbers of this size, n of them summed.
pub fn slack(scale: f64, n: usize) -> f64 {
    scale * 1.2e-7 * (8.0 + n as f64) + 1e-22
}

/// Does the sphere hold every point, and is it no larger than reasonable?
pub fn sphere(center: P, radius: f64, ps: &[P]) -> Result<(), String> {
    let scale = size(ps).max(size(&[center]));
    if ps.is_empty() {
        return if center == [0.0; 3] && radius == 0.0 { Ok(()) } else { Err(format!("no points, sphere {center:?} {radius}")) };
    }
    let t = slack(scale, 0) * 2.0;
    for p in ps {
        let d = dist(center, *p);
        // not "d > radius + t": undefined values are wrong too
        if !(d <= radius + t) {
            return Err(format!("point {p:?} is {d} from the center {center:?}, the radius is {radius}"));
        }
    }
    let far = ps.iter().map(|p| dist(center, *p)).fold(0.0, f64::max);
    if !(radius <= far + t) {
        return Err(format!("radius {radius}, but the farthest point is at {far}"));
    }
    Ok(())
}
