use crate::fw::*;
use crate::geo::*;
use crate::hull::{flat, grid_seqs};
use linestring::linestring_2d::{self as l2d, convex_hull as ch, Aabb2, Line2, SimpleAffine, VoronoiParabolicArc};
use linestring::linestring_3d::{self as l3d, Aabb3, Line3, Plane};
use linestring::prelude::{LineString2, LineString3};
use vector_traits::approx::{AbsDiffEq, UlpsEq};
use vector_traits::glam::{DVec2, DVec3, Vec2, Vec3, Vec3A};

fn f2<T: Mk2>(v: &[T]) -> Vec<(f64, f64)> { v.iter().map(|p| p.f()).collect() }
fn fp(p: P) -> (f64, f64) { (p.0 as f64, p.1 as f64) }
fn fp3(p: P3) -> (f64, f64, f64) { (p.0 as f64, p.1 as f64, p.2 as f64) }

// ---------------------------------------------------------------- boxes
type B2 = Option<(P, P)>;
fn bx(p: &[P]) -> B2 {
    if p.is_empty() { return None; }
    Some(((p.iter().map(|p| p.0).min().unwrap(), p.iter().map(|p| p.1).min().unwrap()), (p.iter().map(|p| p.0).max().unwrap(), p.iter().map(|p| p.1).max().unwrap())))
}
fn box_is<T: Mk2>(b: &Aabb2<T>, w: B2) -> bool { b.min_max().map(|(a, b)| (a.f(), b.f())) == w.map(|(a, b)| (fp(a), fp(b))) && b.low().map(|a| a.f()) == w.map(|w| fp(w.0)) && b.high().map(|a| a.f()) == w.map(|w| fp(w.1)) }
fn aabb2<T: Mk2>(split: usize, p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let w = bx(p);
    let split = split.min(p.len());
    let e = |m: &str, b: &Aabb2<T>| Err(format!("{} over {:?} (split {}) gives {:?}, exact box {:?}", m, p, split, b.min_max().map(|(a, b)| (a.f(), b.f())), w));
    let b = Aabb2::<T>::with_points(&v);
    if !box_is(&b, w) { return e("Aabb2::with_points", &b); }
    let mut b = Aabb2::<T>::default();
    for q in &v { b.update_with_point(*q); }
    if !box_is(&b, w) { return e("Aabb2::update_with_point", &b); }
    let mut b = Aabb2::<T>::with_points(&v[..split]);
    b.update_with_points(&v[split..]);
    if !box_is(&b, w) { return e("Aabb2::update_with_points", &b); }
    let mut b = Aabb2::<T>::with_points(&v[..split]);
    b.update_with_aabb(Aabb2::with_points(&v[split..]));
    if !box_is(&b, w) { return e("Aabb2::update_with_aabb", &b); }
    let b: Aabb2<T> = v.iter().into();
    if !box_is(&b, w) { return e("Aabb2::from(iter)", &b); }
    if !v.is_empty() { let b = Aabb2::new(v[0]); if !box_is(&b, bx(&p[..1])) { return Err(format!("Aabb2::new({:?})", p[0])); } }
    let b = Aabb2::<T>::with_points(&v);
    let x = b.extents().map(|(a, b, c)| (a.f(), b.f(), c.f()));
    if x != w.map(|(a, b)| (fp(a), fp(b), fp((b.0 - a.0, b.1 - a.1)))) { return Err(format!("Aabb2::extents over {:?} = {:?}", p, x)); }
    let x = b.center().map(|c| c.f());
    if x != w.map(|(a, b)| ((a.0 + b.0) as f64 / 2.0, (a.1 + b.1) as f64 / 2.0)) { return Err(format!("Aabb2::center over {:?} = {:?}", p, x)); }
    let want: Vec<(f64, f64)> = w.map_or(vec![], |(a, b)| [a, (b.0, a.1), b, (a.0, b.1), a].iter().map(|q| fp(*q)).collect());
    let h = b.convex_hull::<T>().map(|h| f2(&h));
    if h != w.map(|_| want.clone()) { return Err(format!("Aabb2::convex_hull over {:?} = {:?}", p, h)); }
    let l: Vec<T> = b.into();
    if f2(&l) != want { return Err(format!("Vec::from(Aabb2) over {:?} = {:?}", p, f2(&l))); }
    let part = Aabb2::<T>::with_points(&v[..split]);
    let rest = Aabb2::<T>::with_points(&v[split..]);
    for (x, y, same) in [(&b, &b, true), (&b, &part, w == bx(&p[..split])), (&part, &rest, bx(&p[..split]) == bx(&p[split..]))] {
        if (x == y) != same { return Err(format!("Aabb2 equality of the boxes of {:?} (split {}) is not {}", p, split, same)); }
    }
    // apply
    let mut c = b;
    c.apply(&|q: T| T::new_2d(q.y(), q.x()));
    if !box_is(&c, w.map(|(a, b)| ((a.1, a.0), (b.1, b.0)))) { return e("Aabb2::apply(swap xy)", &c); }
    Ok(())
}
type B3 = Option<(P3, P3)>;
fn bx3(p: &[P3]) -> B3 {
    if p.is_empty() { return None; }
    let f = |g: &dyn Fn(&P3) -> i64| (p.iter().map(g).min().unwrap(), p.iter().map(g).max().unwrap());
    let (x, y, z) = (f(&|p| p.0), f(&|p| p.1), f(&|p| p.2));
    Some(((x.0, y.0, z.0), (x.1, y.1, z.1)))
}
fn box3_is<T: Mk3>(b: &Aabb3<T>, w: B3) -> bool { b.get_low().map(|a| a.f()) == w.map(|w| fp3(w.0)) && b.get_high().map(|a| a.f()) == w.map(|w| fp3(w.1)) }
fn aabb3<T: Mk3>(split: usize, p: &[P3]) -> Result<(), String> {
    let v: Vec<T> = mkv3(p);
    let w = bx3(p);
    let split = split.min(p.len());
    let e = |m: &str, b: &Aabb3<T>| Err(format!("{} over {:?} (split {}) gives {:?} {:?}, exact box {:?}", m, p, split, b.get_low().map(|a| a.f()), b.get_high().map(|a| a.f()), w));
    let b = Aabb3::<T>::with_points(&v);
    if !box3_is(&b, w) { return e("Aabb3::with_points", &b); }
    let mut b = Aabb3::<T>::default();
    for q in &v { b.update_with_point(*q); }
    if !box3_is(&b, w) { return e("Aabb3::update_with_point", &b); }
    let mut b = Aabb3::<T>::with_points(&v[..split]);
    b.update_with_points(&v[split..]);
    if !box3_is(&b, w) { return e("Aabb3::update_with_points", &b); }
    let mut b = Aabb3::<T>::with_points(&v[..split]);
    b.update_with_aabb(Aabb3::with_points(&v[split..]));
    if !box3_is(&b, w) { return e("Aabb3::update_with_aabb", &b); }
    let b = Aabb3::<T>::with_points(&v);
    let x = b.extents().map(|(a, b, c)| (a.f(), b.f(), c.f()));
    if x != w.map(|(a, b)| (fp3(a), fp3(b), fp3((b.0 - a.0, b.1 - a.1, b.2 - a.2)))) { return Err(format!("Aabb3::extents over {:?} = {:?}", p, x)); }
    let x = b.center().map(|c| c.f());
    if x != w.map(|(a, b)| ((a.0 + b.0) as f64 / 2.0, (a.1 + b.1) as f64 / 2.0, (a.2 + b.2) as f64 / 2.0)) { return Err(format!("Aabb3::center over {:?} = {:?}", p, x)); }
    if let Some((l, h)) = w {
        let c = Aabb3::<T>::from([T::mk(l), T::mk(h)]);
        if !box3_is(&c, w) { return e("Aabb3::from([low, high])", &c); }
        let (l, h): (T, T) = (T::mk(l), T::mk(h));
        let c = Aabb3::<T>::from([l.x(), l.y(), l.z(), h.x(), h.y(), h.z()]);
        if !box3_is(&c, w) { return e("Aabb3::from([six numbers])", &c); }
    }
    let mut c = b;
    c.apply(&|q: T| T::new_3d(q.y(), q.z(), q.x()));
    if !box3_is(&c, w.map(|(a, b)| ((a.1, a.2, a.0), (b.1, b.2, b.0)))) { return e("Aabb3::apply(rotate axes)", &c); }
    Ok(())
}
fn inb(b: B2, q: P) -> bool { b.map_or(false, |(a, b)| a.0 <= q.0 && q.0 <= b.0 && a.1 <= q.1 && q.1 <= b.1) }
fn in3(b: B3, q: P3) -> bool { b.map_or(false, |(a, b)| a.0 <= q.0 && q.0 <= b.0 && a.1 <= q.1 && q.1 <= b.1 && a.2 <= q.2 && q.2 <= b.2) }
fn inside2<T: Mk2>(n: usize, p: &[P]) -> Result<(), String> {
    let (a, b) = p.split_at(n.min(p.len()));
    let (wa, wb) = (bx(a), bx(b));
    let ba = Aabb2::<T>::with_points(&mkv::<T>(a));
    let bb = Aabb2::<T>::with_points(&mkv::<T>(b));
    for q in b {
        let r = ba.contains_point_inclusive(T::mk(*q));
        if r != inb(wa, *q) { return Err(format!("Aabb2 {:?} contains_point_inclusive({:?}) = {}", wa, q, r)); }
    }
    for w in b.windows(2) {
        let r = ba.contains_line_inclusive(&l2::<T>(w[0], w[1]));
        if r != (inb(wa, w[0]) && inb(wa, w[1])) { return Err(format!("Aabb2 {:?} contains_line_inclusive({:?}) = {}", wa, w, r)); }
    }
    let r = ba.contains_aabb_inclusive(&bb);
    let want = wb.map_or(false, |(l, h)| inb(wa, l) && inb(wa, h));
    if r != want { return Err(format!("Aabb2 {:?} contains_aabb_inclusive({:?}) = {}", wa, wb, r)); }
    Ok(())
}
fn inside3<T: Mk3>(n: usize, p: &[P3]) -> Result<(), String> {
    let (a, b) = p.split_at(n.min(p.len()));
    let (wa, wb) = (bx3(a), bx3(b));
    let ba = Aabb3::<T>::with_points(&mkv3::<T>(a));
    let bb = Aabb3::<T>::with_points(&mkv3::<T>(b));
    for q in b {
        let r = ba.contains_point_inclusive(T::mk(*q));
        if r != in3(wa, *q) { return Err(format!("Aabb3 {:?} contains_point_inclusive({:?}) = {}", wa, q, r)); }
    }
    for w in b.windows(2) {
        let r = ba.contains_line_inclusive(&Line3::new(T::mk(w[0]), T::mk(w[1])));
        if r != (in3(wa, w[0]) && in3(wa, w[1])) { return Err(format!("Aabb3 {:?} contains_line_inclusive({:?}) = {}", wa, w, r)); }
    }
    let r = ba.contains_aabb_inclusive(&bb);
    let want = wb.map_or(false, |(l, h)| in3(wa, l) && in3(wa, h));
    if r != want { return Err(format!("Aabb3 {:?} contains_aabb_inclusive({:?}) = {}", wa, wb, r)); }
    Ok(())
}
fn check_aabb(tag: &str, v: &[i64]) -> Result<(), String> {
    let n = v[0] as usize;
    match tag {
        "2f64" => aabb2::<DVec2>(n, &pts(&v[1..])),
        "2f32" => aabb2::<Vec2>(n, &pts(&v[1..])),
        "3f64" => aabb3::<DVec3>(n, &pts3(&v[1..])),
        "3f32" => aabb3::<Vec3>(n, &pts3(&v[1..])),
        "3A" => aabb3::<Vec3A>(n, &pts3(&v[1..])),
        "in2f64" => inside2::<DVec2>(n, &pts(&v[1..])),
        "in2f32" => inside2::<Vec2>(n, &pts(&v[1..])),
        "in3f64" => inside3::<DVec3>(n, &pts3(&v[1..])),
        "in3f32" => inside3::<Vec3>(n, &pts3(&v[1..])),
        _ => Err("tag".into()),
    }
}
fn flat3(p: &[P3]) -> Vec<i64> { p.iter().flat_map(|p| [p.0, p.1, p.2]).collect() }
fn cube(n: usize, f: &mut dyn FnMut(&[P3])) {
    fn rec(n: usize, cur: &mut Vec<P3>, f: &mut dyn FnMut(&[P3])) {
        if cur.len() == n { f(cur); return; }
        for k in 0..27i64 { cur.push((k % 3 - 1, k / 3 % 3 - 1, k / 9 - 1)); rec(n, cur, f); let _ = cur.pop(); }
    }
    rec(n, &mut vec![], f)
}
fn gen_aabb_b(g: &mut Gen) { gen_aabb(g, false) }
fn gen_aabb_c(g: &mut Gen) { gen_aabb(g, true) }
fn gen_aabb(g: &mut Gen, inside: bool) {
    for n in 0..=4usize { grid_seqs(3, n, true, &mut |p| {
        let p: Vec<P> = p.iter().map(|p| (p.0 - 1, p.1 - 1)).collect();
        for s in 0..=n as i64 { let mut v = vec![s]; v.extend(flat(&p)); if inside { g.ex("in2f64", &v); g.ex("in2f32", &v); } else { g.ex("2f64", &v); g.ex("2f32", &v); } } }); }
    for n in 0..=3usize { cube(n, &mut |p| for s in 0..=n as i64 { let mut v = vec![s]; v.extend(flat3(p)); if inside { g.ex("in3f64", &v); g.ex("in3f32", &v); } else { g.ex("3f64", &v); g.ex("3A", &v); } }); }
    for _ in 0..g.scale(100_000, 4_000_000) {
        if g.stop { return; }
        let n = g.rng.r(0, 12);
        let k = *g.rng.pick(&[2, 20, 1000, 1 << 20]);
        let s = g.rng.r(0, n);
        let mut v = vec![s];
        let three = g.rng.chance(2);
        for _ in 0..n * if three { 3 } else { 2 } { let x = g.rng.r(-k, k); v.push(x); }
        let t = match (inside, three, g.rng.r(0, 2)) {
            (false, false, 0) => "2f64", (false, false, _) => "2f32", (false, true, 0) => "3f64", (false, true, 1) => "3f32", (false, true, _) => "3A",
            (true, false, 0) => "in2f64", (true, false, _) => "in2f32", (true, true, 0) => "in3f64", (true, true, _) => "in3f32",
        };
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- planes
const PL: [Plane; 3] = [Plane::XY, Plane::XZ, Plane::YZ];
fn plane<T3: Mk3>(v: &[i64]) -> Result<(), String> where T3::Vector2: Mk2 {
    let pl = PL[v[0] as usize];
    let p = pts(&v[1..]);
    let ps: Vec<T3::Vector2> = mkv(&p);
    for q in &ps {
        let back = pl.point_to_2d::<T3>(pl.point_to_3d::<T3>(*q));
        if back.f() != q.f() { return Err(format!("{:?}: point {:?} comes back as {:?}", pl, q.f(), back.f())); }
        let r3 = pl.point_to_3d::<T3>(*q).f();
        let zero = match pl { Plane::XY => r3.2, Plane::XZ => r3.1, Plane::YZ => r3.0 };
        if zero != 0.0 { return Err(format!("{:?}: point {:?} leaves the plane: {:?}", pl, q.f(), r3)); }
        let want = match pl { Plane::XY => (q.f().0, q.f().1, 0.0), Plane::XZ => (q.f().0, 0.0, q.f().1), Plane::YZ => (0.0, q.f().0, q.f().1) };
        if r3 != want { return Err(format!("{:?}: point {:?} maps to {:?}", pl, q.f(), r3)); }
    }
    for w in ps.windows(2) {
        let l = Line2::new(w[0], w[1]);
        let l3 = Line3::<T3>::new(pl.point_to_3d::<T3>(w[0]), pl.point_to_3d::<T3>(w[1]));
        let b = l3.copy_to_2d(pl);
        if (b.start.f(), b.end.f()) != (l.start.f(), l.end.f()) { return Err(format!("{:?}: Line3::copy_to_2d {:?} comes back as {:?}", pl, (l.start.f(), l.end.f()), (b.start.f(), b.end.f()))); }
    }
    Ok(())
}
/// polylines and lines through copy_to_3d / copy_to_2d
fn plane_ls(v: &[i64]) -> Result<(), String> {
    let pl = PL[v[0] as usize];
    let p = pts(&v[1..]);
    macro_rules! go { ($t:ty) => {{
        let ls: Vec<$t> = mkv(&p);
        let up = LineString2::copy_to_3d(&ls, pl);
        for (q, u) in ls.iter().zip(&up) {
            let u = (u.x as f64, u.y as f64, u.z as f64);
            let q = q.f();
            let want = match pl { Plane::XY => (q.0, q.1, 0.0), Plane::XZ => (q.0, 0.0, q.1), Plane::YZ => (0.0, q.1, q.0) };
            if u != want { return Err(format!("LineString2::copy_to_3d({:?}) maps {:?} to {:?}", pl, q, u)); }
        }
        let back = LineString3::copy_to_2d(&up, pl);
        if up.len() != ls.len() || f2(&back) != f2(&ls) { return Err(format!("{:?}: polyline {:?} comes back as {:?}", pl, p, f2(&back))); }
        for w in ls.windows(2) {
            let l = Line2::new(w[0], w[1]);
            let b = l.copy_to_3d(pl).copy_to_2d(pl);
            if (b.start.f(), b.end.f()) != (l.start.f(), l.end.f()) { return Err(format!("{:?}: line {:?} comes back as {:?}", pl, (l.start.f(), l.end.f()), (b.start.f(), b.end.f()))); }
        }
    }} }
    if v[0] >= 3 { return Err("tag".into()); }
    go!(DVec2);
    go!(Vec2);
    Ok(())
}
fn get_plane<T: Mk3>(p: &[P3]) -> Result<(), String> {
    let v: Vec<T> = mkv3(p);
    let got = Plane::get_plane(Aabb3::with_points(&v));
    let want = bx3(p).and_then(|(a, b)| match (a.0 == b.0, a.1 == b.1, a.2 == b.2) { (true, false, false) => Some(Plane::YZ), (false, true, false) => Some(Plane::XZ), (false, false, true) => Some(Plane::XY), _ => None });
    if got != want { return Err(format!("Plane::get_plane of the box of {:?} = {:?}, exact answer {:?}", p, got, want)); }
    Ok(())
}
/// sides of very different size: side i is 2^v[i], or 0 for v[i] = -999, from the origin
fn get_plane_rel<T: Mk3>(e: &[i64]) -> Result<(), String> {
    let d: Vec<f64> = e.iter().map(|&e| if e == -999 { 0.0 } else { 2f64.powi(e as i32) }).collect();
    let hi = T::new_3d(T::s(d[0]), T::s(d[1]), T::s(d[2]));
    let lo = T::new_3d(T::s(0.0), T::s(0.0), T::s(0.0));
    let got = Plane::get_plane(Aabb3::with_points(&[lo, hi]));
    let m = d[0].max(d[1]).max(d[2]);
    let flat: Vec<bool> = d.iter().map(|x| m > 0.0 && x / m < 1e-12).collect();
    let want = match (flat[0], flat[1], flat[2]) { (true, false, false) => Some(Plane::YZ), (false, true, false) => Some(Plane::XZ), (false, false, true) => Some(Plane::XY), _ => None };
    if got != want { return Err(format!("Plane::get_plane of a box with sides {:?} = {:?}, exact answer {:?}", d, got, want)); }
    Ok(())
}
fn check_plane(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "pt64" => plane::<DVec3>(v),
        "pt32" => plane::<Vec3>(v),
        "ls" => plane_ls(v),
        "get64" => get_plane::<DVec3>(&pts3(v)),
        "get32" => get_plane::<Vec3>(&pts3(v)),
        "rel64" => get_plane_rel::<DVec3>(v),
        "rel32" => get_plane_rel::<Vec3>(v),
        _ => Err("tag".into()),
    }
}
fn gen_plane(g: &mut Gen) {
    for pl in 0..3 { for n in 0..=3 { grid_seqs(3, n, true, &mut |p| { let p: Vec<P> = p.iter().map(|p| (p.0 - 1, 2 * p.1 - 1)).collect(); let mut v = vec![pl]; v.extend(flat(&p)); for t in ["pt64", "pt32", "ls"] { g.ex(t, &v) } }); } }
    let es = [-999, -85, -80, -3, 0, 2, 60];
    for a in es { for b in es { for c in es { for t in ["rel64", "rel32"] { g.ex(t, &[a, b, c]); } } } }
    for n in 0..=3 { cube(n, &mut |p| { g.ex("get64", &flat3(p)); g.ex("get32", &flat3(p)); }); }
    for _ in 0..g.scale(30_000, 1_000_000) {
        if g.stop { return; }
        let mut v = vec![g.rng.r(0, 2)];
        for _ in 0..2 * g.rng.r(0, 9) { let x = g.rng.r(-1000, 1000); v.push(x); }
        let t = *g.rng.pick(&["pt64", "pt32", "ls"]);
        g.rnd(t, &v);
        let mut p = vec![];
        let fl = g.rng.r(0, 8);
        let c = g.rng.r(-50, 50);
        for _ in 0..g.rng.r(1, 9) { for ax in 0..3 { let x = if fl == ax { c } else { g.rng.r(-100, 100) }; p.push(x); } }
        g.rnd("get64", &p);
    }
}

// ---------------------------------------------------------------- affine
fn affine<T: Mk2>(v: &[i64]) -> Result<(), String> {
    let p = pts(v);
    let (a, b) = (bx(&p[..2]).unwrap(), bx(&p[2..4]).unwrap());
    let ba = Aabb2::<T>::with_points(&mkv::<T>(&p[..2]));
    let bb = Aabb2::<T>::with_points(&mkv::<T>(&p[2..4]));
    let t = SimpleAffine::new(&ba, &bb).map_err(|e| format!("{:?}", e))?;
    let fl = |p: P| fp(p);
    let scale_of = |l: P, h: P| (((h.0 - l.0).max(1)) as f64, ((h.1 - l.1).max(1)) as f64);
    let (sa, sb) = (scale_of(a.0, a.1), scale_of(b.0, b.1));
    let s = sb.0.min(sb.1) / sa.0.max(sa.1);
    let (ca, cb) = (((a.0 .0 + a.1 .0) as f64 / 2.0, (a.0 .1 + a.1 .1) as f64 / 2.0), ((b.0 .0 + b.1 .0) as f64 / 2.0, (b.0 .1 + b.1 .1) as f64 / 2.0));
    let tol = T::TOL * 4.0;
    let big = 1.0 + [a.0, a.1, b.0, b.1].iter().map(|p| (p.0.abs() + p.1.abs()) as f64).sum::<f64>();
    let near = |x: f64, y: f64, m: f64| (x - y).abs() <= tol * m;
    for q in &p {
        let r = t.transform_ab(T::mk(*q)).map_err(|e| format!("{:?}", e))?;
        let q = fl(*q);
        let w = ((q.0 - ca.0) * s + cb.0, (q.1 - ca.1) * s + cb.1);
        let m = big * (1.0 + s);
        if !near(r.f().0, w.0, m) || !near(r.f().1, w.1, m) { return Err(format!("SimpleAffine {:?} -> {:?}: transform_ab({:?}) = {:?}, exact {:?}", a, b, q, r.f(), w)); }
        let r = t.transform_ba(r).map_err(|e| format!("{:?}", e))?;
        let m = m * (1.0 + 1.0 / s);
        if !near(r.f().0, q.0, m) || !near(r.f().1, q.1, m) { return Err(format!("SimpleAffine {:?} -> {:?}: {:?} comes back as {:?}", a, b, q, r.f())); }
    }
    for w in p.windows(2) {
        let arr = [T::s(w[0].0 as f64), T::s(w[0].1 as f64), T::s(w[1].0 as f64), T::s(w[1].1 as f64)];
        let (x, y) = (t.transform_ab(T::mk(w[0])).unwrap().f(), t.transform_ab(T::mk(w[1])).unwrap().f());
        let g = t.transform_ab_a(arr).map_err(|e| format!("{:?}", e))?.map(|x| T::u(x));
        if g != [x.0, x.1, y.0, y.1] { return Err(format!("transform_ab_a({:?}) = {:?} differs from transform_ab {:?} {:?}", w, g, x, y)); }
        let (x, y) = (t.transform_ba(T::mk(w[0])).unwrap().f(), t.transform_ba(T::mk(w[1])).unwrap().f());
        let g = t.transform_ba_a(arr).map_err(|e| format!("{:?}", e))?.map(|x| T::u(x));
        if g != [x.0, x.1, y.0, y.1] { return Err(format!("transform_ba_a({:?}) = {:?} differs from transform_ba {:?} {:?}", w, g, x, y)); }
    }
    let d = SimpleAffine::<T>::default();
    for q in &p { if d.transform_ab(T::mk(*q)).map_err(|e| format!("{:?}", e))?.f() != fl(*q) || d.transform_ba(T::mk(*q)).map_err(|e| format!("{:?}", e))?.f() != fl(*q) { return Err(format!("SimpleAffine::default moves {:?}", q)); } }
    // any scale and offsets: each coordinate has its own (powers of two, so exact)
    let u = |v: i64| T::s(v as f64);
    let (s0, s1) = ((1 << (p[0].0.rem_euclid(4))) as f64, (1 << (p[0].1.rem_euclid(3))) as f64);
    let t = SimpleAffine::<T> { a_offset: [u(p[1].0), u(p[1].1)], scale: [T::sx(s0), T::sx(-s1)], b_offset: [u(p[2].0), u(p[2].1)] };
    for w in p.windows(2) {
        let f = |q: P| ((q.0 + p[1].0) as f64 * s0 + p[2].0 as f64, (q.1 + p[1].1) as f64 * -s1 + p[2].1 as f64);
        let i = |q: P| ((q.0 - p[2].0) as f64 / s0 - p[1].0 as f64, (q.1 - p[2].1) as f64 / -s1 - p[1].1 as f64);
        let arr = [u(w[0].0), u(w[0].1), u(w[1].0), u(w[1].1)];
        let (ab, ba) = (t.transform_ab(T::mk(w[0])), t.transform_ba(T::mk(w[0])));
        let (ab4, ba4) = (t.transform_ab_a(arr), t.transform_ba_a(arr));
        let flat4 = |x: (f64, f64), y: (f64, f64)| [x.0, x.1, y.0, y.1];
        let ok = ab.map_or(false, |r| r.f() == f(w[0])) && ba.map_or(false, |r| r.f() == i(w[0]))
            && ab4.map_or(false, |r| r.map(|x| T::u(x) / sc()) == flat4(f(w[0]), f(w[1])))
            && ba4.map_or(false, |r| r.map(|x| T::u(x) / sc()) == flat4(i(w[0]), i(w[1])));
        if !ok { return Err(format!("offsets {:?} {:?}, scales {} {}: a transform of {:?} is not (p + a_offset) * scale + b_offset or its inverse", p[1], p[2], s0, -s1, w)); }
    }
    let none = Aabb2::<T>::default();
    if SimpleAffine::new(&none, &bb).is_ok() || SimpleAffine::new(&ba, &none).is_ok() { return Err("SimpleAffine::new accepts an empty box".into()); }
    Ok(())
}
/// overflow must be reported as an error, never as a non finite point
fn affine_inf(v: &[i64]) -> Result<(), String> {
    let x = (v[0] as f32) * 1e32;
    let y = (v[1] as f32) * 1e32;
    let t = SimpleAffine::<Vec2> { a_offset: [0.0, 0.0], scale: [v[2] as f32, v[2] as f32], b_offset: [0.0, 0.0] };
    for r in [t.transform_ab(Vec2::new(x, y)), t.transform_ba(Vec2::new(x, y))] { if let Ok(p) = r { if !p.x.is_finite() || !p.y.is_finite() { return Err(format!("transform returned the non finite point {:?}", p)); } } }
    for r in [t.transform_ab_a([x, y, y, x]), t.transform_ba_a([y, x, x, y])] { if let Ok(p) = r { if p.iter().any(|c| !c.is_finite()) { return Err(format!("transform returned non finite {:?}", p)); } } }
    let inf = |i: usize| { let mut a = [1.0f32, 2.0, 3.0, 4.0]; a[i % 4] = if v[0] & 1 == 0 { f32::INFINITY } else { f32::NAN }; a };
    for i in 0..4 { if t.transform_ab_a(inf(i)).is_ok() || t.transform_ba_a(inf(i)).is_ok() { return Err(format!("non finite component {} accepted", i)); } }
    Ok(())
}
fn check_affine(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag { "f64" => affine::<DVec2>(v), "f32" => affine::<Vec2>(v), "inf" => affine_inf(v), _ => Err("tag".into()) }
}
fn gen_affine(g: &mut Gen) {
    for a in 0..20 { for b in 0..5 { g.ex("inf", &[a * 500_001, b * 1_000_003, 1 + a * 7]); } }
    grid_seqs(3, 4, true, &mut |p| { let mut v = flat(p); v.extend([3, 1]); g.ex("f64", &v); });
    for _ in 0..g.scale(60_000, 3_000_000) {
        if g.stop { return; }
        let mut v = vec![];
        let k = *g.rng.pick(&[3, 30, 200]);
        for _ in 0..2 * g.rng.r(4, 8) { let x = g.rng.r(-k, k); v.push(x); }
        let t = *g.rng.pick(&["f64", "f32"]);
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- discretize
fn disc_judge(n: usize, p: &dyn Fn(usize) -> (f64, f64, f64), out: &[(f64, f64, f64)], d: f64, tol: f64) -> Result<(), String> {
    let sub = |a: (f64, f64, f64), b: (f64, f64, f64)| (a.0 - b.0, a.1 - b.1, a.2 - b.2);
    let len = |a: (f64, f64, f64)| (a.0 * a.0 + a.1 * a.1 + a.2 * a.2).sqrt();
    if n == 0 { return if out.is_empty() { Ok(()) } else { Err("points out of nothing".into()) }; }
    let mut i = 0;
    for s in 0..n - 1 {
        let (a, b) = (p(s), p(s + 1));
        let l = len(sub(b, a));
        let q = l / d;
        let (lo, hi) = if l == 0.0 { (1, 1) } else { ((q - tol * (1.0 + q)).ceil().max(1.0) as usize, (q + tol * (1.0 + q)).ceil().max(1.0) as usize) };
        // accept any admissible count that continues with the next vertex
        let mut ok = false;
        for k in lo..=hi {
            if i + k > out.len() - 1 { continue; }
            let all = (0..k).all(|j| { let f = j as f64 / k as f64; let w = (a.0 + (b.0 - a.0) * f, a.1 + (b.1 - a.1) * f, a.2 + (b.2 - a.2) * f); len(sub(out[i + j], w)) <= tol * 0.05 * (1.0 + len(a) + len(b)) })
                && len(sub(out[i + k], b)) <= tol * 0.05 * (1.0 + len(b));
            if all { i += k; ok = true; break; }
        }
        if !ok { return Err(format!("segment {} is not cut into {} equal steps", s, lo)); }
    }
    if i + 1 != out.len() { return Err("wrong number of points".into()); }
    if out[i] != p(n - 1) { return Err("the last point is not the last input point".into()); }
    Ok(())
}
fn disc2<T: Mk2>(d: i64, p: &[P]) -> Result<(), String> where usize: vector_traits::num_traits::AsPrimitive<T::Scalar> {
    let v: Vec<T> = mkv(p);
    let dd = T::u(T::sx(d as f64 / 8.0));
    let mut it = LineString2::discretize(&v, T::s(dd));
    let mut out: Vec<(f64, f64, f64)> = vec![];
    while let Some(q) = it.next() { out.push((q.f().0, q.f().1, 0.0)); if out.len() > 200_000 { return Err("endless".into()); } }
    if it.next().is_some() || it.next().is_some() { return Err(format!("discretize of {:?} continues after None", p)); }
    disc_judge(p.len(), &|i| (v[i].f().0, v[i].f().1, 0.0), &out, dd, T::TOL).map_err(|m| format!("{:?}.discretize({}) = {} points {:?}..: {}", p, dd, out.len(), &out[..out.len().min(12)], m))
}
fn disc3<T: Mk3>(d: i64, p: &[P3]) -> Result<(), String> where usize: vector_traits::num_traits::AsPrimitive<T::Scalar> {
    let v: Vec<T> = mkv3(p);
    let dd = T::u(T::sx(d as f64 / 8.0));
    let mut it = LineString3::discretize(&v, T::s(dd));
    let mut out: Vec<(f64, f64, f64)> = vec![];
    while let Some(q) = it.next() { out.push(q.f()); if out.len() > 200_000 { return Err("endless".into()); } }
    if it.next().is_some() || it.next().is_some() { return Err(format!("discretize of {:?} continues after None", p)); }
    disc_judge(p.len(), &|i| v[i].f(), &out, dd, T::TOL).map_err(|m| format!("{:?}.discretize({}) = {} points {:?}..: {}", p, dd, out.len(), &out[..out.len().min(12)], m))
}
fn check_disc(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "2f64" => disc2::<DVec2>(v[0], &pts(&v[1..])),
        "2f32" => disc2::<Vec2>(v[0], &pts(&v[1..])),
        "3f64" => disc3::<DVec3>(v[0], &pts3(&v[1..])),
        "3f32" => disc3::<Vec3>(v[0], &pts3(&v[1..])),
        _ => Err("tag".into()),
    }
}
fn gen_disc(g: &mut Gen) {
    for d in [4, 8, 12, 24] { for n in 0..=3 { grid_seqs(3, n, true, &mut |p| { let mut v = vec![d]; v.extend(flat(p)); g.ex("2f64", &v); g.ex("2f32", &v); let mut v = vec![d]; v.extend(p.iter().flat_map(|p| [p.0, p.1, p.0 + 1])); g.ex("3f64", &v); }); } }
    for _ in 0..g.scale(60_000, 2_000_000) {
        if g.stop { return; }
        let k = *g.rng.pick(&[1, 5, 40]);
        let three = g.rng.chance(2);
        let mut v = vec![*g.rng.pick(&[1, 3, 8, 10, 16, 40, 400])];
        for _ in 0..g.rng.r(0, 7) * if three { 3 } else { 2 } { let x = g.rng.r(-k, k); v.push(x); }
        if g.rng.chance(4) { let l = v.len(); let w = if three { 3 } else { 2 }; if l > 2 * w { for i in 0..w { v[l - 1 - i] = v[l - 1 - i - w]; } } }
        let t = match (three, g.rng.chance(2)) { (true, true) => "3f64", (true, false) => "3f32", (false, true) => "2f64", (false, false) => "2f32" };
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- distances, orientation
fn dist2<T: Mk2>(p: &[P]) -> Result<(), String> {
    let (a, b, q) = (p[0], p[1], p[2]);
    let l = d2(a, b);
    let want = if l == 0 { d2(a, q) as f64 } else {
        let t = dot(a, b, q);
        if t < 0 { d2(a, q) as f64 } else if t > l { d2(b, q) as f64 } else { let c = cross(a, b, q); (c * c) as f64 / l as f64 }
    };
    let tol = T::TOL * 10.0 * (1.0 + d2(a, q) as f64 + l as f64);
    let g = T::u2(l2d::distance_to_line_squared_safe(T::mk(a), T::mk(b), T::mk(q)));
    if !((g - want).abs() <= tol) { return Err(format!("2D distance_to_line_squared_safe({:?},{:?},{:?}) = {}, exact {}", a, b, q, g, want)); }
    if l > 0 { let g = T::u2(l2d::distance_to_line_squared(T::mk(a), T::mk(b), T::mk(q))); if !((g - want).abs() <= tol) { return Err(format!("2D distance_to_line_squared({:?},{:?},{:?}) = {}, exact {}", a, b, q, g, want)); } }
    let c = cross(a, b, q);
    let o = ch::point_orientation(T::mk(a), T::mk(b), T::mk(q));
    let w = if c > 0 { ch::Orientation::Left } else if c < 0 { ch::Orientation::Right } else { ch::Orientation::Collinear };
    if o != w { return Err(format!("point_orientation({:?},{:?},{:?}) is wrong, cross product {}", a, b, q, c)); }
    if o.is_left() != (c > 0) || o.is_left_or_collinear() != (c >= 0) { return Err(format!("Orientation::is_left* wrong for cross product {}", c)); }
    if ch::is_point_left(T::mk(a), T::mk(b), T::mk(q)) != (c > 0) { return Err(format!("is_point_left({:?},{:?},{:?}), cross product {}", a, b, q, c)); }
    if ch::is_point_left_allow_collinear(T::mk(a), T::mk(b), T::mk(q)) != (c >= 0) { return Err(format!("is_point_left_allow_collinear({:?},{:?},{:?}), cross product {}", a, b, q, c)); }
    if T::u2(ch::cross_2d(T::mk(a), T::mk(b), T::mk(q))) != c as f64 { return Err(format!("cross_2d({:?},{:?},{:?}), exact {}", a, b, q, c)); }
    let s = l2d::scale_to_coordinate(T::mk(a), T::mk(b), T::sx(q.0 as f64)).f();
    if s != fp((a.0 + b.0 * q.0, a.1 + b.1 * q.0)) { return Err(format!("scale_to_coordinate({:?},{:?},{}) = {:?}", a, b, q.0, s)); }
    Ok(())
}
fn dist3<T: Mk3>(p: &[P3]) -> Result<(), String> {
    let (a, b, q) = (p[0], p[1], p[2]);
    let u = (b.0 - a.0, b.1 - a.1, b.2 - a.2);
    let w = (q.0 - a.0, q.1 - a.1, q.2 - a.2);
    let l = u.0 * u.0 + u.1 * u.1 + u.2 * u.2;
    let ww = w.0 * w.0 + w.1 * w.1 + w.2 * w.2;
    let c = (u.1 * w.2 - u.2 * w.1, u.2 * w.0 - u.0 * w.2, u.0 * w.1 - u.1 * w.0);
    let want = if l == 0 { ww as f64 } else { (c.0 * c.0 + c.1 * c.1 + c.2 * c.2) as f64 / l as f64 };
    let tol = T::TOL * 10.0 * (1.0 + (ww + l) as f64);
    let g = T::u2(l3d::distance_to_line_squared_safe(T::mk(a), T::mk(b), T::mk(q)));
    if !((g - want).abs() <= tol) { return Err(format!("3D distance_to_line_squared_safe({:?},{:?},{:?}) = {}, exact {}", a, b, q, g, want)); }
    if l > 0 { let g = T::u2(l3d::distance_to_line_squared(T::mk(a), T::mk(b), T::mk(q))); if !((g - want).abs() <= tol) { return Err(format!("3D distance_to_line_squared({:?},{:?},{:?}) = {}, exact {}", a, b, q, g, want)); } }
    Ok(())
}
fn check_dist(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "2f64" => dist2::<DVec2>(&pts(v)), "2f32" => dist2::<Vec2>(&pts(v)),
        "3f64" => dist3::<DVec3>(&pts3(v)), "3f32" => dist3::<Vec3>(&pts3(v)), "3A" => dist3::<Vec3A>(&pts3(v)),
        _ => Err("tag".into()),
    }
}
fn gen_dist(g: &mut Gen) {
    grid_seqs(4, 3, true, &mut |p| { let p: Vec<P> = p.iter().map(|p| (p.0 - 2, p.1 - 1)).collect(); g.ex("2f64", &flat(&p)); g.ex("2f32", &flat(&p)); });
    cube(3, &mut |p| { g.ex("3f64", &flat3(p)); g.ex("3A", &flat3(p)); });
    for _ in 0..g.scale(200_000, 8_000_000) {
        if g.stop { return; }
        let k = *g.rng.pick(&[2, 10, 200]);
        let three = g.rng.chance(2);
        let mut v = vec![];
        for _ in 0..if three { 9 } else { 6 } { let x = g.rng.r(-k, k); v.push(x); }
        if g.rng.chance(6) { for i in 0..if three { 3 } else { 2 } { v[i + if three { 3 } else { 2 }] = v[i]; } }
        let t = match (three, g.rng.r(0, 2)) { (true, 0) => "3f64", (true, 1) => "3f32", (true, _) => "3A", (false, 0) => "2f64", (false, _) => "2f32" };
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- polyline views
fn views2<T: Mk2>(p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let n = p.len();
    let conn = n == 0 || p[0] == p[n - 1];
    let bad = |m: String| Err(format!("{:?}: {}", p, m));
    if LineString2::is_connected(&v) != conn { return bad("2D is_connected".into()); }
    let want = if n > 2 && conn { n - 1 } else { n };
    if LineString2::point_count(&v) != want { return bad(format!("point_count = {}", LineString2::point_count(&v))); }
    let w = LineString2::window_iter(&v);
    let (len, empty) = (w.len(), w.is_empty());
    let ws: Vec<_> = w.map(|l| (l.start.f(), l.end.f())).collect();
    let want: Vec<_> = p.windows(2).map(|w| (fp(w[0]), fp(w[1]))).collect();
    if ws != want || len != want.len() || empty != want.is_empty() { return bad(format!("2D window_iter = {:?} len {}", ws, len)); }
    let w = LineString2::chunk_iter(&v);
    let (len, empty, rem) = (w.len(), w.is_empty(), f2(w.remainder()));
    let ws: Vec<_> = w.map(|l| (l.start.f(), l.end.f())).collect();
    let want: Vec<_> = p.chunks_exact(2).map(|w| (fp(w[0]), fp(w[1]))).collect();
    if ws != want || len != want.len() || empty != want.is_empty() { return bad(format!("2D chunk_iter = {:?} len {}", ws, len)); }
    if rem != p.chunks_exact(2).remainder().iter().map(|q| fp(*q)).collect::<Vec<_>>() { return bad(format!("2D chunk_iter remainder = {:?}", rem)); }
    for (i, w) in v.windows(2).enumerate() {
        let want = (fp(p[i]), fp(p[i + 1]));
        let is = |l: Line2<T>, how: &str| if (l.start.f(), l.end.f()) != want { Err(format!("Line2 {} of {:?} is {:?} {:?}", how, want, l.start.f(), l.end.f())) } else { Ok(()) };
        is(Line2::new(w[0], w[1]), "new")?;
        is(Line2::from([w[0].x(), w[0].y(), w[1].x(), w[1].y()]), "from four numbers")?;
        is(Line2::from([[w[0].x(), w[0].y()], [w[1].x(), w[1].y()]]), "from two pairs")?;
    }
    let mut a = v.clone();
    LineString2::apply(&mut a, &|q: T| T::new_2d(q.y() + q.y(), q.x()));
    if f2(&a) != p.iter().map(|q| fp((2 * q.1, q.0))).collect::<Vec<_>>() { return bad(format!("2D apply = {:?}", f2(&a))); }
    Ok(())
}
fn views3<T: Mk3>(p: &[P3]) -> Result<(), String> {
    let v: Vec<T> = mkv3(p);
    let n = p.len();
    let conn = n == 0 || p[0] == p[n - 1];
    let bad = |m: String| Err(format!("{:?}: {}", p, m));
    if LineString3::is_connected(&v) != conn { return bad("3D is_connected".into()); }
    let w = LineString3::window_iter(&v);
    let (len, empty) = (w.len(), w.is_empty());
    let ws: Vec<_> = w.map(|l| (l.start.f(), l.end.f())).collect();
    let want: Vec<_> = p.windows(2).map(|w| (fp3(w[0]), fp3(w[1]))).collect();
    if ws != want || len != want.len() || empty != want.is_empty() { return bad(format!("3D window_iter = {:?} len {}", ws, len)); }
    let w = LineString3::chunk_iter(&v);
    let (len, empty) = (w.len(), w.is_empty());
    let rem: Vec<_> = w.remainder().iter().map(|q| q.f()).collect();
    let ws: Vec<_> = w.map(|l| (l.start.f(), l.end.f())).collect();
    let want: Vec<_> = p.chunks_exact(2).map(|w| (fp3(w[0]), fp3(w[1]))).collect();
    if ws != want || len != want.len() || empty != want.is_empty() { return bad(format!("3D chunk_iter = {:?} len {}", ws, len)); }
    if rem != p.chunks_exact(2).remainder().iter().map(|q| fp3(*q)).collect::<Vec<_>>() { return bad(format!("3D chunk_iter remainder = {:?}", rem)); }
    for (i, w) in v.windows(2).enumerate() {
        let want = (fp3(p[i]), fp3(p[i + 1]));
        let is = |l: Line3<T>, want: ((f64, f64, f64), (f64, f64, f64)), how: &str| if (l.start.f(), l.end.f()) != want { Err(format!("Line3 {} of {:?} is {:?} {:?}", how, want, l.start.f(), l.end.f())) } else { Ok(()) };
        is(Line3::new(w[0], w[1]), want, "new")?;
        is(Line3::<T>::from([w[0], w[1]]), want, "from two points")?;
        is(Line3::<T>::from([w[0].x(), w[0].y(), w[0].z(), w[1].x(), w[1].y(), w[1].z()]), want, "from six numbers")?;
        let turn = |q: (f64, f64, f64)| (q.1, q.2, q.0);
        is(Line3::new(w[0], w[1]).apply(|q: T| T::new_3d(q.y(), q.z(), q.x())), (turn(want.0), turn(want.1)), "apply(rotate axes)")?;
    }
    let mut a = v.clone();
    LineString3::apply(&mut a, &|q: T| T::new_3d(q.y() + q.y(), q.z(), q.x()));
    if a.iter().map(|q| q.f()).collect::<Vec<_>>() != p.iter().map(|q| fp3((2 * q.1, q.2, q.0))).collect::<Vec<_>>() { return bad("3D apply".into()); }
    Ok(())
}
fn eqs(v: &[i64]) -> Result<(), String> {
    // two polylines: approximately equal exactly when same length and all points equal (integer coordinates)
    let n = v[0] as usize;
    let p = pts(&v[1..]);
    let (a, b) = p.split_at(n.min(p.len()));
    let want = a == b;
    macro_rules! go { ($t:ty, $s:ty) => {{
        let (x, y): (Vec<$t>, Vec<$t>) = (mkv(a), mkv(b));
        if l2d::Approx::ulps_eq(&x, &y, <$s>::EPSILON, 4) != want { return Err(format!("2D Approx::ulps_eq({:?}, {:?}) is not {}", a, b, want)); }
        if l2d::Approx::abs_diff_eq(&x, &y, <$s>::EPSILON) != want { return Err(format!("2D Approx::abs_diff_eq({:?}, {:?}) is not {}", a, b, want)); }
        for (i, p) in a.windows(2).enumerate() { for q in b.windows(2).skip(i).take(2) {
            let (l, m) = (l2::<$t>(p[0], p[1]), l2::<$t>(q[0], q[1]));
            if (l == m) != (p[0] == q[0] && p[1] == q[1]) { return Err(format!("Line2 {:?} == {:?} is wrong", p, q)); }
            let want = p[0] == q[0] && p[1] == q[1] || p[0] == q[1] && p[1] == q[0];
            let r = (UlpsEq::ulps_eq(&l, &m, <$s>::EPSILON, 4), AbsDiffEq::abs_diff_eq(&l, &m, <$s>::EPSILON));
            if r != (want, want) { return Err(format!("Line2 {:?} approximately {:?}: ulps_eq, abs_diff_eq = {:?}", p, q, r)); }
            let back = l2::<$t>(p[1], p[0]);
            if !UlpsEq::ulps_eq(&l, &back, <$s>::EPSILON, 4) || !AbsDiffEq::abs_diff_eq(&l, &back, <$s>::EPSILON) { return Err(format!("Line2 {:?} is not approximately itself reversed", p)); }
        } }
    }} }
    go!(DVec2, f64);
    go!(Vec2, f32);
    let up = |p: &[P]| -> Vec<P3> { p.iter().map(|p| (p.0, 1, p.1)).collect() };
    let (x, y): (Vec<DVec3>, Vec<DVec3>) = (mkv3(&up(a)), mkv3(&up(b)));
    if l3d::Approx::ulps_eq(&x, &y, f64::EPSILON, 4) != want { return Err(format!("3D Approx::ulps_eq({:?}, {:?}) is not {}", a, b, want)); }
    if l3d::Approx::abs_diff_eq(&x, &y, f64::EPSILON) != want { return Err(format!("3D Approx::abs_diff_eq({:?}, {:?}) is not {}", a, b, want)); }
    Ok(())
}
fn check_views(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "2f64" => views2::<DVec2>(&pts(v)), "2f32" => views2::<Vec2>(&pts(v)),
        "3f64" => views3::<DVec3>(&pts3(v)), "3A" => views3::<Vec3A>(&pts3(v)),
        "eq" => eqs(v),
        _ => Err("tag".into()),
    }
}
fn gen_views(g: &mut Gen) {
    for n in 0..=4 { grid_seqs(3, n, true, &mut |p| { g.ex("2f64", &flat(p)); g.ex("2f32", &flat(p)); }); }
    for n in 0..=3 { cube(n, &mut |p| { g.ex("3f64", &flat3(p)); g.ex("3A", &flat3(p)); }); }
    for n in 0..=4usize { for s in 0..=n as i64 { grid_seqs(2, n, true, &mut |p| { let mut v = vec![s]; v.extend(flat(p)); g.ex("eq", &v); }); } }
    for _ in 0..g.scale(60_000, 2_000_000) {
        if g.stop { return; }
        let n = g.rng.r(0, 20);
        let k = *g.rng.pick(&[1, 5, 1000]);
        let mut v: Vec<i64> = (0..n * 2).map(|_| g.rng.r(-k, k)).collect();
        if n > 1 && g.rng.chance(3) { let l = v.len(); v[l - 2] = v[0]; v[l - 1] = v[1]; }
        let t = *g.rng.pick(&["2f64", "2f32"]);
        g.rnd(t, &v);
        let mut w = vec![n];
        w.extend(v.iter());
        let mut u = v.clone();
        if !u.is_empty() && g.rng.chance(2) { let i = g.rng.r(0, u.len() as i64 - 1) as usize; u[i] += 1; }
        if g.rng.chance(4) && !u.is_empty() { u.truncate(u.len() - 2); }
        w.extend(u.iter());
        g.rnd("eq", &w);
        let mut v: Vec<i64> = (0..n * 3).map(|_| g.rng.r(-k, k)).collect();
        if n > 1 && g.rng.chance(3) { let l = v.len(); for i in 0..3 { v[l - 3 + i] = v[i]; } }
        let t = *g.rng.pick(&["3f64", "3A"]);
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- OBJ files
/// v = [how numbers are made, number of groups, lines per group.., six numbers per line..]
fn obj<T: Mk3>(v: &[i64], put: fn(f64) -> T::Scalar, get: fn(&str) -> Option<f64>, back: fn(T::Scalar) -> f64) -> Result<(), String> {
    let (mode, k) = (v[0], v[1] as usize);
    let num = |n: i64| put(match mode { 0 => n as f64, 1 => n as f64 / 7.0, 2 => n as f64 / 3.0 * 1e-20, _ => n as f64 * 1.1e15 });
    let mut at = 2 + k;
    let mut groups: Vec<Vec<Line3<T>>> = vec![];
    for g in 0..k {
        let mut l = vec![];
        for _ in 0..v[2 + g] {
            let c: Vec<_> = v[at..at + 6].iter().map(|n| num(*n)).collect();
            l.push(Line3::new(T::new_3d(c[0], c[1], c[2]), T::new_3d(c[3], c[4], c[5])));
            at += 6;
        }
        groups.push(l);
    }
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let file = std::env::temp_dir().join(format!("lsprobe-{}-{}.obj", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let r = l3d::save_to_obj_file(&file, "some object", &groups);
    let text = std::fs::read_to_string(&file);
    let _ = std::fs::remove_file(&file);
    let bad = |m: String| Err(format!("save_to_obj_file of {:?}: {}", v, m));
    if std::path::Path::new("/dev/full").exists() && l3d::save_to_obj_file("/dev/full", "some object", &groups).is_ok() {
        return bad("reports success on a device that takes no data".into());
    }
    if let Err(e) = r { return bad(format!("{:?}", e)); }
    let text = match text { Ok(t) => t, Err(e) => return bad(format!("no file: {}", e)) };
    let (mut vs, mut ls, mut os) = (vec![], vec![], 0);
    for row in text.lines() {
        let w: Vec<&str> = row.split('#').next().unwrap().split_whitespace().collect();
        match w.as_slice() {
            [] => {}
            ["o", "some", "object"] => os += 1,
            ["v", x, y, z] => match (get(x), get(y), get(z)) { (Some(x), Some(y), Some(z)) => vs.push((x, y, z)), _ => return bad(format!("row {:?}", row)) },
            ["l", a, b] => match (a.parse::<usize>(), b.parse::<usize>()) { (Ok(a), Ok(b)) => ls.push((a, b)), _ => return bad(format!("row {:?}", row)) },
            _ => return bad(format!("row {:?}", row)),
        }
    }
    let want: Vec<Line3<T>> = groups.iter().flatten().copied().collect();
    let p = |q: T| (back(q.x()), back(q.y()), back(q.z()));
    if os != 1 { return bad(format!("{} objects", os)); }
    if ls.len() != want.len() { return bad(format!("{} lines instead of {}: {:?}", ls.len(), want.len(), text)); }
    for (i, ((a, b), l)) in ls.iter().zip(&want).enumerate() {
        let end = |i: usize| if i >= 1 && i <= vs.len() { Some(vs[i - 1]) } else { None };
        if end(*a) != Some(p(l.start)) || end(*b) != Some(p(l.end)) { return bad(format!("line {} is {:?} to {:?} instead of {:?} to {:?}", i, end(*a), end(*b), p(l.start), p(l.end))); }
    }
    for (i, q) in vs.iter().enumerate() {
        if vs[..i].contains(q) { return bad(format!("vertex {:?} is repeated", q)); }
        if !want.iter().any(|l| p(l.start) == *q || p(l.end) == *q) { return bad(format!("vertex {:?} is of no line", q)); }
    }
    Ok(())
}
fn check_obj(tag: &str, v: &[i64]) -> Result<(), String> {
    let (g64, g32): (fn(&str) -> Option<f64>, fn(&str) -> Option<f64>) = (|s| s.parse().ok(), |s| s.parse::<f32>().ok().map(|x| x as f64));
    match tag {
        "f64" => obj::<DVec3>(v, |x| x, g64, |x| x),
        "f32" => obj::<Vec3>(v, |x| x as f32, g32, |x| x as f64),
        "A" => obj::<Vec3A>(v, |x| x as f32, g32, |x| x as f64),
        _ => Err("tag".into()),
    }
}
fn gen_obj(g: &mut Gen) {
    // up to 2 lines in one or two groups between points of a 2x2x1 grid, numbers made in each way
    for n in 0..=4usize { if n % 2 == 0 { grid_seqs(2, n, true, &mut |p| {
        let c: Vec<i64> = p.iter().flat_map(|p| [p.0, p.1, 1]).collect();
        for mode in 0..4 { for split in 0..=n as i64 / 2 {
            let mut v = vec![mode, 2, split, n as i64 / 2 - split]; v.extend(&c); g.ex("f64", &v); if mode > 0 { g.ex("f32", &v); }
        } }
    }); } }
    g.ex("f64", &[0, 0]); g.ex("f64", &[0, 1, 0]); g.ex("f32", &[0, 3, 0, 0, 0]);
    for _ in 0..g.scale(20_000, 400_000) {
        if g.stop { return; }
        let k = g.rng.r(1, 4);
        let m = *g.rng.pick(&[1, 2, 5, 1_000_000]);
        let mode = g.rng.r(0, 3);
        let mut v = vec![mode, k];
        let mut n = 0;
        for _ in 0..k { let s = g.rng.r(0, 6); v.push(s); n += s; }
        let mut last = [0i64; 3];
        for _ in 0..n {
            // half of the lines go on where the one before ended
            let a = if g.rng.chance(2) { last } else { [g.rng.r(-m, m), g.rng.r(-m, m), g.rng.r(-m, m)] };
            let b = [g.rng.r(-m, m), g.rng.r(-m, m), g.rng.r(-m, m)];
            v.extend(a); v.extend(b); last = b;
        }
        let t = *g.rng.pick(&["f64", "f32", "A"]);
        g.rnd(t, &v);
    }
}

// ---------------------------------------------------------------- parabolic arcs
/// segment along a direction, focus point above it; start and end on the parabola of points
/// equidistant to the segment's line and the point
fn arc(v: &[i64]) -> Result<(), String> {
    let (sx, sy, dir, len, fx, h, t0, t1, md) = (v[0] as f64, v[1] as f64, v[2] as usize % 6, v[3] as f64, v[4] as f64, v[5] as f64, v[6] as f64, v[7] as f64, v[8] as f64 / 16.0);
    let (ux, uy) = [(1.0, 0.0), (0.0, 1.0), (0.6, 0.8), (-0.6, 0.8), (-1.0, 0.0), (0.28, -0.96)][dir];
    let at = |x: f64, y: f64| DVec2::new(sx + ux * x - uy * y, sy + uy * x + ux * y);
    let par = |x: f64| ((x - fx) * (x - fx) + h * h) / (2.0 * h);
    let seg = Line2::new(at(0.0, 0.0), at(len, 0.0));
    let cell = at(fx, h);
    let (s, e) = (at(t0, par(t0)), at(t1, par(t1)));
    let a = VoronoiParabolicArc::new(seg, cell, s, e);
    let p = a.discretize_2d(md);
    let q = a.discretize_3d(md);
    let what = format!("arc of focus {:?} and segment {:?}-{:?} from {:?} to {:?}, max_dist {}", cell, seg.start, seg.end, s, e, md);
    let big = 1.0 + sx.abs() + sy.abs() + t0.abs() + t1.abs() + par(t0).abs() + par(t1).abs() + len.abs();
    let tol = 1e-7 * big;
    let local = |p: DVec2| { let d = p - DVec2::new(sx, sy); (d.x * ux + d.y * uy, -d.x * uy + d.y * ux) };
    if p.len() < 2 || p[0] != s || p[p.len() - 1] != e { return Err(format!("discretize_2d of the {}: {:?} does not start and end in the given points", what, p)); }
    if q.len() != p.len() || q[0].truncate() != s || q[q.len() - 1].truncate() != e { return Err(format!("discretize_3d of the {}: {:?} does not start and end in the given points / has another length than 2D {:?}", what, q, p)); }
    for (i, x) in p.iter().enumerate() {
        let l = local(*x);
        if (l.1 - par(l.0)).abs() > tol { return Err(format!("discretize_2d of the {}: point {:?} is not on the parabola", what, x)); }
        if (q[i].truncate() - *x).length() > tol || (q[i].z + (*x - cell).length()).abs() > tol { return Err(format!("discretize_3d of the {}: point {:?} (2D {:?}), expected depth {}", what, q[i], x, -(*x - cell).length())); }
    }
    for w in p.windows(2) {
        let (a, b) = (local(w[0]), local(w[1]));
        if t0 < t1 && b.0 < a.0 - tol || t0 > t1 && b.0 > a.0 + tol { return Err(format!("discretize_2d of the {}: {:?} goes backwards", what, p)); }
        // every point of the curve over the chord is at most max_dist from the polyline; candidates: the point
        // with the chord's slope and a sample
        let dx = b.0 - a.0;
        if dx.abs() < 1e-9 { continue; }
        for k in 0..=12 {
            let mx = if k == 12 { (b.1 - a.1) / dx * h + fx } else { a.0 + dx * (k as f64 + 0.5) / 12.0 };
            let m = (mx, par(mx));
            let to_seg = |a: (f64, f64), b: (f64, f64)| {
                let (ex, ey) = (b.0 - a.0, b.1 - a.1);
                let l = ex * ex + ey * ey;
                let t = if l > 0.0 { (((m.0 - a.0) * ex + (m.1 - a.1) * ey) / l).clamp(0.0, 1.0) } else { 0.0 };
                ((a.0 + t * ex - m.0).powi(2) + (a.1 + t * ey - m.1).powi(2)).sqrt()
            };
            let lim = md * (1.0 + 1e-6) + tol;
            if to_seg(a, b) > lim && p.windows(2).all(|v| to_seg(local(v[0]), local(v[1])) > lim) { return Err(format!("discretize_2d of the {}: between {:?} and {:?} the curve is {} away at {:?}", what, w[0], w[1], to_seg(a, b), at(m.0, m.1))); }
        }
    }
    if t0 == t1 && p.len() != 2 { return Err(format!("discretize_2d of the {}: {:?}", what, p)); }
    let st = a.discretize_3d_straight_line();
    let ds = l2d::distance_to_line_squared_safe(seg.start, seg.end, s).sqrt();
    if st.len() != 2 || st[0].truncate() != s || st[1].truncate() != e || (st[0].z + ds).abs() > tol || (st[1].z + (e - cell).length()).abs() > tol { return Err(format!("discretize_3d_straight_line of the {} = {:?}", what, st)); }
    Ok(())
}
fn check_arc(tag: &str, v: &[i64]) -> Result<(), String> { if tag == "arc" { arc(v) } else { Err("tag".into()) } }
fn gen_arc(g: &mut Gen) {
    for dir in 0..6 { for h in [1, -1, 3] { for fx in [0, 2] { for t0 in -3..=3 { for t1 in -3..=3 { g.ex("arc", &[1, -2, dir, 4, fx, h, t0, t1, 4]); } } } } }
    for _ in 0..g.scale(60_000, 2_000_000) {
        if g.stop { return; }
        let k = *g.rng.pick(&[5, 50]);
        let mut h = g.rng.r(-k, k);
        if h == 0 { h = 1; }
        let (t0, mut t1) = (g.rng.r(-k, k), g.rng.r(-k, k));
        if t0 == t1 { t1 = t0 + 1; }
        let v = [g.rng.r(-k, k), g.rng.r(-k, k), g.rng.r(0, 5), g.rng.r(1, k), g.rng.r(-k, k), h, t0, t1, *g.rng.pick(&[1, 4, 16, 100, 2000])];
        g.rnd("arc", &v);
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "aabb_bounds", scales: &[-4, 5], gen: gen_aabb_b, check: check_aabb, bound: "exhaustive: up to 4 points on a 3x3(x3) grid and every split between the ways to add; random: up to 12 integer points; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "aabb_contains", scales: &[-4, 5], gen: gen_aabb_c, check: check_aabb, bound: "exhaustive: boxes, points, lines and boxes on a 3x3(x3) grid; random: integer boxes; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "plane", scales: &[], gen: gen_plane, check: check_plane, bound: "exhaustive: up to 3 points on a 3x3 grid, each plane, boxes on a 3x3x3 grid; random: up to 9 integer points; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "affine", scales: &[], gen: gen_affine, check: check_affine, bound: "exhaustive: pairs of boxes on a 3x3 grid; random: integer boxes and points; selected overflowing transforms; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "discretize", scales: &[-4, 5], gen: gen_disc, check: check_disc, bound: "exhaustive: up to 3 points on a 3x3 grid, 4 distances; random: up to 7 integer points; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "distance", scales: &[-4, 5], gen: gen_dist, check: check_dist, bound: "exhaustive: point triples on a 4x4 (3x3x3) grid; random: integer triples; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "obj", scales: &[0], gen: gen_obj, check: check_obj, bound: "exhaustive: up to 2 lines in 2 groups between points of a 2x2 grid, four kinds of numbers; random: up to 24 lines in up to 4 groups; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "views", scales: &[-4, 5], gen: gen_views, check: check_views, bound: "exhaustive: up to 4 points on a 3x3 (3x3x3) grid; random: up to 20 integer points; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "parabola", scales: &[], gen: gen_arc, check: check_arc, bound: "enumerated small arcs; random integer segments, foci, end points on the parabola and distances; a case is non-trivial when its numbers are not all equal" },
    ]
}
