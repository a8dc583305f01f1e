use linestring::linestring_2d::Line2;
use vector_traits::{GenericVector2, GenericVector3, HasXY, HasXYZ};
use vector_traits::glam::{DVec2, DVec3, Vec2, Vec3, Vec3A};

pub type P = (i64, i64);
pub type P3 = (i64, i64, i64);

thread_local! { static SCALE: std::cell::Cell<f64> = const { std::cell::Cell::new(1.0) }; }
/// the factor (a power of two) between the integer grid of a case and the coordinates handed to the code
pub fn sc() -> f64 { SCALE.with(|s| s.get()) }
/// splits a tag `t:k`, sets the factor to 2^k (1 without `:k`)
pub fn scaled(tag: &str) -> &str {
    let (t, k) = tag.split_once(':').map_or((tag, 0), |(t, k)| (t, k.parse().unwrap_or(0)));
    SCALE.with(|s| s.set(2f64.powi(k)));
    t
}
/// `mk`, `s`, `f`: points and lengths, with the factor; `sx`, `u`: plain numbers; `u2`: squared lengths
pub trait Mk2: GenericVector2 {
    fn mk(p: P) -> Self;
    fn f(self) -> (f64, f64);
    fn s(v: f64) -> Self::Scalar;
    fn sx(v: f64) -> Self::Scalar;
    fn u2(v: Self::Scalar) -> f64 { Self::u(v) / (sc() * sc()) }
    fn u(v: Self::Scalar) -> f64;
    const TOL: f64;
}
impl Mk2 for DVec2 {
    fn mk(p: P) -> Self { DVec2::new(p.0 as f64 * sc(), p.1 as f64 * sc()) }
    fn f(self) -> (f64, f64) { (self.x / sc(), self.y / sc()) }
    fn s(v: f64) -> f64 { v * sc() }
    fn sx(v: f64) -> f64 { v }
    fn u(v: f64) -> f64 { v }
    const TOL: f64 = 1e-9;
}
impl Mk2 for Vec2 {
    fn mk(p: P) -> Self { Vec2::new((p.0 as f64 * sc()) as f32, (p.1 as f64 * sc()) as f32) }
    fn f(self) -> (f64, f64) { (self.x as f64 / sc(), self.y as f64 / sc()) }
    fn s(v: f64) -> f32 { (v * sc()) as f32 }
    fn sx(v: f64) -> f32 { v as f32 }
    fn u(v: f32) -> f64 { v as f64 }
    const TOL: f64 = 2e-4;
}
pub trait Mk3: GenericVector3 {
    fn mk(p: P3) -> Self;
    fn f(self) -> (f64, f64, f64);
    fn s(v: f64) -> Self::Scalar;
    fn sx(v: f64) -> Self::Scalar;
    fn u2(v: Self::Scalar) -> f64 { Self::u(v) / (sc() * sc()) }
    fn u(v: Self::Scalar) -> f64;
    const TOL: f64;
}
impl Mk3 for DVec3 {
    fn mk(p: P3) -> Self { DVec3::new(p.0 as f64 * sc(), p.1 as f64 * sc(), p.2 as f64 * sc()) }
    fn f(self) -> (f64, f64, f64) { (self.x / sc(), self.y / sc(), self.z / sc()) }
    fn s(v: f64) -> f64 { v * sc() }
    fn sx(v: f64) -> f64 { v }
    fn u(v: f64) -> f64 { v }
    const TOL: f64 = 1e-9;
}
impl Mk3 for Vec3 {
    fn mk(p: P3) -> Self { Vec3::new((p.0 as f64 * sc()) as f32, (p.1 as f64 * sc()) as f32, (p.2 as f64 * sc()) as f32) }
    fn f(self) -> (f64, f64, f64) { (self.x as f64 / sc(), self.y as f64 / sc(), self.z as f64 / sc()) }
    fn s(v: f64) -> f32 { (v * sc()) as f32 }
    fn sx(v: f64) -> f32 { v as f32 }
    fn u(v: f32) -> f64 { v as f64 }
    const TOL: f64 = 2e-4;
}
impl Mk3 for Vec3A {
    fn mk(p: P3) -> Self { Vec3A::new((p.0 as f64 * sc()) as f32, (p.1 as f64 * sc()) as f32, (p.2 as f64 * sc()) as f32) }
    fn f(self) -> (f64, f64, f64) { (HasXY::x(self) as f64 / sc(), HasXY::y(self) as f64 / sc(), HasXYZ::z(self) as f64 / sc()) }
    fn s(v: f64) -> f32 { (v * sc()) as f32 }
    fn sx(v: f64) -> f32 { v as f32 }
    fn u(v: f32) -> f64 { v as f64 }
    const TOL: f64 = 2e-4;
}

pub fn pts(v: &[i64]) -> Vec<P> { v.chunks_exact(2).map(|c| (c[0], c[1])).collect() }
pub fn pts3(v: &[i64]) -> Vec<P3> { v.chunks_exact(3).map(|c| (c[0], c[1], c[2])).collect() }
pub fn mkv<T: Mk2>(p: &[P]) -> Vec<T> { p.iter().map(|p| T::mk(*p)).collect() }
pub fn mkv3<T: Mk3>(p: &[P3]) -> Vec<T> { p.iter().map(|p| T::mk(*p)).collect() }
pub fn cross(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.1 - a.1) as i128 - (b.1 - a.1) as i128 * (c.0 - a.0) as i128
}
pub fn dot(a: P, b: P, c: P) -> i128 {
    (b.0 - a.0) as i128 * (c.0 - a.0) as i128 + (b.1 - a.1) as i128 * (c.1 - a.1) as i128
}
pub fn d2(a: P, b: P) -> i128 { dot(a, b, b) }
pub fn on_seg(a: P, b: P, p: P) -> bool { cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1) }
pub fn l2<T: Mk2>(a: P, b: P) -> Line2<T> { Line2::new(T::mk(a), T::mk(b)) }

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Isect {
    None,
    /// exact rational point (nx/d, ny/d)
    Pt(i128, i128, i128),
    Overlap(P, P),
}
/// exact intersection of two closed segments with integer end points
pub fn seg_seg(a: P, b: P, c: P, d: P) -> Isect {
    if a == b {
        return if on_seg(c, d, a) { Isect::Pt(a.0 as i128, a.1 as i128, 1) } else { Isect::None };
    }
    if c == d {
        return if on_seg(a, b, c) { Isect::Pt(c.0 as i128, c.1 as i128, 1) } else { Isect::None };
    }
    let r = ((b.0 - a.0) as i128, (b.1 - a.1) as i128);
    let s = ((d.0 - c.0) as i128, (d.1 - c.1) as i128);
    let rxs = r.0 * s.1 - r.1 * s.0;
    let qp = ((c.0 - a.0) as i128, (c.1 - a.1) as i128);
    if rxs == 0 {
        if qp.0 * r.1 - qp.1 * r.0 != 0 {
            return Isect::None;
        }
        let (a0, a1) = if a <= b { (a, b) } else { (b, a) };
        let (c0, c1) = if c <= d { (c, d) } else { (d, c) };
        let lo = a0.max(c0);
        let hi = a1.min(c1);
        if lo > hi {
            Isect::None
        } else if lo == hi {
            Isect::Pt(lo.0 as i128, lo.1 as i128, 1)
        } else {
            Isect::Overlap(lo, hi)
        }
    } else {
        let mut t = qp.0 * s.1 - qp.1 * s.0;
        let mut u = qp.0 * r.1 - qp.1 * r.0;
        let mut den = rxs;
        if den < 0 {
            t = -t;
            u = -u;
            den = -den;
        }
        if t < 0 || t > den || u < 0 || u > den {
            Isect::None
        } else {
            Isect::Pt(a.0 as i128 * den + r.0 * t, a.1 as i128 * den + r.1 * t, den)
        }
    }
}
/// strict convex hull, CCW, starting at lowest x then lowest y, not closed
pub fn hull_ref(p: &[P]) -> Vec<P> {
    let mut v = p.to_vec();
    v.sort();
    v.dedup();
    if v.len() <= 2 {
        return v;
    }
    let half = |it: &mut dyn Iterator<Item = P>| {
        let mut h: Vec<P> = vec![];
        for q in it {
            while h.len() >= 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                let _ = h.pop();
            }
            h.push(q);
        }
        h
    };
    let mut lo = half(&mut v.iter().copied());
    let mut up = half(&mut v.iter().rev().copied());
    let _ = lo.pop();
    let _ = up.pop();
    lo.extend(up);
    lo
}
pub fn close(a: f64, b: f64, tol: f64) -> bool { a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) }
