use crate::fw::*;
use crate::geo::*;
use crate::hull::{flat, grid_seqs};
use linestring::linestring_2d::{self, Intersection, Line2};
use linestring::prelude::LineString2;
use vector_traits::glam::{DVec2, Vec2};

/// is the (float) point `p` the exact rational point?
fn is_pt<T: Mk2>(p: T, nx: i128, ny: i128, d: i128) -> bool {
    let (x, y) = p.f();
    close(x, nx as f64 / d as f64, T::TOL) && close(y, ny as f64 / d as f64, T::TOL)
}
fn same<T: Mk2>(p: T, q: P) -> bool { is_pt(p, q.0 as i128, q.1 as i128, 1) }
fn show<T: Mk2>(i: &Option<Intersection<T>>) -> String {
    match i {
        None => "None".into(),
        Some(Intersection::Intersection(p)) => format!("Intersection{:?}", p.f()),
        Some(Intersection::Overlap(l)) => format!("Overlap{:?}-{:?}", l.start.f(), l.end.f()),
    }
}
pub fn judge_isect<T: Mk2>(got: &Option<Intersection<T>>, want: Isect) -> bool {
    match (got, want) {
        (None, Isect::None) => true,
        (Some(Intersection::Intersection(p)), Isect::Pt(x, y, d)) => is_pt(*p, x, y, d),
        (Some(Intersection::Overlap(l)), Isect::Overlap(a, b)) => {
            (same(l.start, a) && same(l.end, b)) || (same(l.start, b) && same(l.end, a))
        }
        _ => false,
    }
}
fn seg<T: Mk2>(p: &[P]) -> Result<(), String> {
    // single precision takes a point very near a long segment as on it (its distances to the ends add up
    // to the length within the tolerance): decided here only where no other grid point is that near
    let ext = |a: P, b: P| (a.0 - b.0).abs().max((a.1 - b.1).abs());
    let (e1, e2) = (ext(p[0], p[1]), ext(p[2], p[3]));
    if T::TOL > 1e-6 && e1.min(e2) == 0 && e1.max(e2) > 20 { return Ok(()); }
    let want = seg_seg(p[0], p[1], p[2], p[3]);
    let got = l2::<T>(p[0], p[1]).intersection_point(l2::<T>(p[2], p[3]));
    if !judge_isect(&got, want) {
        return Err(format!("Line2 {:?}-{:?} intersection_point {:?}-{:?} returned {}, exact answer {:?}", p[0], p[1], p[2], p[3], show(&got), want));
    }
    // the one point asked for: the only one, or the end of the overlap nearest to q
    let far = (2 * p[1].0 - p[0].0 + 3, 2 * p[1].1 - p[0].1 - 2);
    if let Some(i) = &got {
        for q in [p[0], p[1], p[2], p[3], far] {
            let c = i.closest(T::mk(q));
            let d2 = |a: P| (a.0 - q.0).pow(2) + (a.1 - q.1).pow(2);
            let ok = match want {
                Isect::Pt(x, y, d) => is_pt(c, x, y, d),
                Isect::Overlap(a, b) => (same(c, a) && d2(a) <= d2(b)) || (same(c, b) && d2(b) <= d2(a)),
                Isect::None => true,
            };
            if !ok { return Err(format!("{}.closest({:?}) = {:?}", show(&got), q, c.f())); }
        }
        let c = i.single();
        let ok = match want { Isect::Pt(x, y, d) => is_pt(c, x, y, d), Isect::Overlap(a, b) => same(c, a) || same(c, b), Isect::None => true };
        if !ok { return Err(format!("{}.single() = {:?}", show(&got), c.f())); }
    }
    Ok(())
}
fn line_pt<T: Mk2>(p: &[P]) -> Result<(), String> {
    let want = on_seg(p[0], p[1], p[2]);
    let got = linestring_2d::intersect_line_point(l2::<T>(p[0], p[1]), T::mk(p[2]));
    let ok = match &got { None => !want, Some(Intersection::Intersection(q)) => want && same(*q, p[2]), _ => false };
    if !ok { return Err(format!("intersect_line_point({:?}-{:?}, {:?}) = {}, exact answer {}", p[0], p[1], p[2], show(&got), want)); }
    Ok(())
}
fn check_seg(tag: &str, v: &[i64]) -> Result<(), String> {
    let p = pts(v);
    match tag {
        "seg64" => seg::<DVec2>(&p),
        "seg32" => seg::<Vec2>(&p),
        "pt64" => line_pt::<DVec2>(&p),
        "pt32" => line_pt::<Vec2>(&p),
        _ => Err("tag".into()),
    }
}
fn rnd_pt(r: &mut Rng, k: i64) -> P { (r.r(-k, k), r.r(-k, k)) }
/// two segments with an interesting relation
pub fn rnd_segs(r: &mut Rng) -> [P; 4] {
    let k = *r.pick(&[2, 4, 10, 60]);
    let (a, b) = (rnd_pt(r, k), rnd_pt(r, k));
    let d = (b.0 - a.0, b.1 - a.1);
    let along = |r: &mut Rng, m: i64| (a.0 + d.0 * m, a.1 + d.1 * m + if r.chance(12) { 1 } else { 0 });
    match r.r(0, 7) {
        0 | 1 => [a, b, rnd_pt(r, k), rnd_pt(r, k)],
        2 => { let (m, n) = (r.r(-3, 3), r.r(-3, 3)); let (c, e) = (along(r, m), along(r, n)); [a, along(r, 2), c, e] }
        3 => { let c = rnd_pt(r, k); [a, b, b, c] }
        4 => { let c = rnd_pt(r, k); [a, (a.0 + 2 * d.0, a.1 + 2 * d.1), b, c] } // T junction
        5 => { let c = rnd_pt(r, k); [c, b, a, (a.0 + 4 * d.0, a.1 + 4 * d.1)] }
        6 => { let c = rnd_pt(r, k); [a, b, c, (c.0 + d.0, c.1 + d.1)] } // parallel
        _ => { let c = rnd_pt(r, k); let x = r.r(-k, k); [(a.0, x), (b.0, x), c, (c.0, c.1 + r.r(-k, k))] }
    }
}
fn gen_seg(g: &mut Gen) {
    for p in 0..1 { let _ = p; grid_seqs(3, 4, true, &mut |p| { let v = flat(p); g.ex("seg64", &v); g.ex("seg32", &v); }); }
    grid_seqs(4, 3, true, &mut |p| { let v = flat(p); g.ex("pt64", &v); g.ex("pt32", &v); });
    if g.thorough { grid_seqs(5, 4, true, &mut |p| { let v = flat(p); g.ex("seg64", &v); }); }
    for _ in 0..g.scale(300_000, 20_000_000) {
        if g.stop { return; }
        let s = rnd_segs(&mut g.rng);
        let t = if g.rng.chance(2) { "seg64" } else { "seg32" };
        g.rnd(t, &flat(&s));
        if g.rng.chance(3) {
            // a point on, near or off the segment; pythagorean directions are exact in floats
            let (dx, dy) = *g.rng.pick(&[(3, 4), (1, 0), (0, 1), (5, 12), (8, 15), (4, 3)]);
            let (m, n) = (g.rng.r(-5, 5), g.rng.r(-9, 9));
            let a = rnd_pt(&mut g.rng, 10);
            let q = match g.rng.r(0, 3) { 0 => (a.0 + dx * n, a.1 + dy * n + g.rng.r(-1, 1)), _ => (a.0 + dx * n, a.1 + dy * n) };
            g.rnd(if t == "seg64" { "pt64" } else { "pt32" }, &flat(&[a, (a.0 + dx * m, a.1 + dy * m), q]));
        }
    }
}

// ------------------------------------------------ line queries on a polyline
fn queries<T: Mk2>(v: &[i64]) -> Result<(), String> {
    let p = pts(v);
    let (q, line) = (&p[..2], &p[2..]);
    let ls: Vec<T> = mkv(line);
    let other = l2::<T>(q[0], q[1]);
    let want: Vec<Isect> = line.windows(2).map(|w| seg_seg(w[0], w[1], q[0], q[1])).filter(|i| *i != Isect::None).collect();
    let got = ls.find_all_intersections(&other);
    if got.len() != want.len() || !got.iter().zip(&want).all(|(g, w)| judge_isect(&Some(match g { Intersection::Intersection(p) => Intersection::Intersection(*p), Intersection::Overlap(l) => Intersection::Overlap(*l) }), *w)) {
        return Err(format!("{:?}.find_all_intersections({:?}) = {:?}, exact answer {:?}", line, q, got, want));
    }
    let one = ls.intersection(&other);
    if !judge_isect(&one, want.first().copied().unwrap_or(Isect::None)) {
        return Err(format!("{:?}.intersection({:?}) = {}, exact answer {:?}", line, q, show(&one), want.first()));
    }
    let (a, b) = ls.find_two_intersections(&other);
    // distinct points
    let mut pts: Vec<(i128, i128, i128)> = vec![];
    let mut push = |x: i128, y: i128, d: i128| if !pts.iter().any(|p| p.0 * d == x * p.2 && p.1 * d == y * p.2) { pts.push((x, y, d)) };
    for w in &want {
        match w { Isect::Pt(x, y, d) => push(*x, *y, *d), Isect::Overlap(a, b) => { push(a.0 as i128, a.1 as i128, 1); push(b.0 as i128, b.1 as i128, 1) } _ => () }
    }
    let bad = |m: &str| Err(format!("{:?}.find_two_intersections({:?}) = {:?} {:?}: {} (exact points {:?})", line, q, a.map(|p| p.f()), b.map(|p| p.f()), m, pts));
    if a.is_none() != pts.is_empty() { return bad("first point missing / spurious"); }
    if a.is_none() && b.is_some() { return bad("second without first"); }
    for x in [a, b].into_iter().flatten() { if !pts.iter().any(|p| is_pt(x, p.0, p.1, p.2)) { return bad("not an intersection point"); } }
    if let (Some(a), Some(b)) = (a, b) { if a == b { return bad("the two points are equal"); } }
    // rounding may split one rational point in two: only exact cases decide the count
    if b.is_none() && pts.len() >= 2 { return bad("a second intersection point exists"); }
    let apart = match (a, b) { (Some(a), Some(b)) => !(close(a.f().0, b.f().0, T::TOL) && close(a.f().1, b.f().1, T::TOL)), _ => false };
    if apart && pts.len() < 2 { return bad("there is only one intersection point"); }
    Ok(())
}
fn check_queries(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag { "f64" => queries::<DVec2>(v), "f32" => queries::<Vec2>(v), _ => Err("tag".into()) }
}
fn gen_queries(g: &mut Gen) {
    grid_seqs(3, 4, true, &mut |p| g.ex("f64", &flat(p)));
    if g.thorough { grid_seqs(3, 5, true, &mut |p| g.ex("f64", &flat(p))); }
    for _ in 0..g.scale(150_000, 8_000_000) {
        if g.stop { return; }
        let s = rnd_segs(&mut g.rng);
        let mut p = vec![s[0], s[1]];
        let k = *g.rng.pick(&[2, 4, 10]);
        for _ in 0..g.rng.r(0, 9) {
            let q = match g.rng.r(0, 4) { 0 => s[2], 1 => s[3], 2 => { let m = g.rng.r(-2, 2); (s[0].0 + m * (s[1].0 - s[0].0), s[0].1 + m * (s[1].1 - s[0].1)) } _ => rnd_pt(&mut g.rng, k) };
            p.push(q);
        }
        let degenerate = p[0] == p[1] || p[2..].windows(2).any(|w| w[0] == w[1]);
        let t = if degenerate || g.rng.chance(2) { "f64" } else { "f32" };
        g.rnd(t, &flat(&p));
    }
}

// ------------------------------------------------ rays
/// smallest t in the open interval (0,inf) with o + t d on an edge: exact rational; None if none
fn ray<T: Mk2>(v: &[i64]) -> Result<(), String> {
    let p = pts(v);
    let (o, d, line) = (p[0], p[1], &p[2..]);
    let ls: Vec<T> = mkv(line);
    let mut best: Option<(i128, i128)> = None;
    for w in line.windows(2) {
        let s = ((w[1].0 - w[0].0) as i128, (w[1].1 - w[0].1) as i128);
        let q = ((w[0].0 - o.0) as i128, (w[0].1 - o.1) as i128);
        let dd = (d.0 as i128, d.1 as i128);
        let den = dd.0 * s.1 - dd.1 * s.0;
        let mut want: Option<(i128, i128)> = None;
        if den != 0 {
            let (mut t, mut u, mut n) = (q.0 * s.1 - q.1 * s.0, q.0 * dd.1 - q.1 * dd.0, den);
            if n < 0 { t = -t; u = -u; n = -n; }
            if t >= 0 && u >= 0 && u <= n { want = Some((t, n)); }
        } else if q.0 * dd.1 - q.1 * dd.0 == 0 {
            let rr = dd.0 * dd.0 + dd.1 * dd.1;
            let t0 = q.0 * dd.0 + q.1 * dd.1;
            let t1 = t0 + s.0 * dd.0 + s.1 * dd.1;
            want = Some((t0.min(t1), rr));
        }
        let got = <Vec<T> as LineString2<T>>::ray_edge_intersection(T::mk(o), T::mk(d), T::mk(w[0]), T::mk(w[1])).map(|x| T::u(x));
        let ok = match (got, want) { (None, None) => true, (Some(g), Some(w)) => close(g, w.0 as f64 / w.1 as f64, T::TOL), _ => false };
        if !ok { return Err(format!("ray_edge_intersection(origin {:?}, dir {:?}, {:?}) = {:?}, exact answer {:?}", o, d, w, got, want)); }
        if let Some(w) = want { if w.0 > 0 && best.map_or(true, |b| w.0 * b.1 < b.0 * w.1) { best = Some(w) } }
    }
    let got = ls.closest_ray_intersection(T::mk(d), T::mk(o));
    let ok = match (got, best) { (None, None) => true, (Some(g), Some(b)) => is_pt(g, o.0 as i128 * b.1 + d.0 as i128 * b.0, o.1 as i128 * b.1 + d.1 as i128 * b.0, b.1), _ => false };
    if !ok { return Err(format!("{:?}.closest_ray_intersection(dir {:?}, origin {:?}) = {:?}, exact parameter {:?}", line, d, o, got.map(|g| g.f()), best)); }
    Ok(())
}
fn check_ray(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag { "f64" => ray::<DVec2>(v), "f32" => ray::<Vec2>(v), _ => Err("tag".into()) }
}
fn gen_ray(g: &mut Gen) {
    for dx in -1..=1i64 { for dy in -1..=1i64 { if (dx, dy) != (0, 0) { for n in [1, 3, 4] { grid_seqs(3, n, true, &mut |p| {
        let mut v = vec![p[0].0, p[0].1, dx, dy]; v.extend(flat(&p[1..])); g.ex("f64", &v); }); } } } }
    for _ in 0..g.scale(200_000, 10_000_000) {
        if g.stop { return; }
        let k = *g.rng.pick(&[2, 4, 10]);
        let o = rnd_pt(&mut g.rng, k);
        let mut d = rnd_pt(&mut g.rng, 4);
        if d == (0, 0) { d = (1, 0); }
        let mut p = vec![o, d];
        for _ in 0..g.rng.r(0, 9) {
            let q = match g.rng.r(0, 3) { 0 => { let m = g.rng.r(-4, 4); (o.0 + m * d.0, o.1 + m * d.1) } _ => rnd_pt(&mut g.rng, k) };
            p.push(q);
        }
        let t = if g.rng.chance(2) { "f64" } else { "f32" }; g.rnd(t, &flat(&p));
    }
}

// ------------------------------------------------ self intersection
/// exact: do two non-adjacent edges share a point that is not an end point of both, or overlap,
/// or do two consecutive edges overlap (fold back)?
pub fn self_isect_ref(p: &[P]) -> bool {
    let n = p.len();
    if n < 3 { return false; }
    for i in 0..n - 1 {
        for j in i + 1..n - 1 {
            match seg_seg(p[i], p[i + 1], p[j], p[j + 1]) {
                Isect::None => (),
                Isect::Overlap(..) => return true,
                Isect::Pt(x, y, d) => {
                    let at = |q: P| x == q.0 as i128 * d && y == q.1 as i128 * d;
                    if !((at(p[i]) || at(p[i + 1])) && (at(p[j]) || at(p[j + 1]))) { return true; }
                }
            }
        }
    }
    false
}
fn selfi<T: Mk2>(p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let want = self_isect_ref(p);
    match v.is_self_intersecting() {
        Ok(x) if x == want => Ok(()),
        r => Err(format!("{:?}.is_self_intersecting() = {:?}, exact answer {}", p, r, want)),
    }
}
fn check_self(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag { "f64" => selfi::<DVec2>(&pts(v)), "f32" => selfi::<Vec2>(&pts(v)), "big64" => sound_self::<DVec2>(&pts(v)), _ => Err("tag".into()) }
}
fn nodup(p: &[P]) -> bool { p.windows(2).all(|w| w[0] != w[1]) }
fn gen_self(g: &mut Gen) {
    for n in 3..=4 { grid_seqs(3, n, true, &mut |p| if nodup(p) { g.ex("f64", &flat(p)); g.ex("f32", &flat(p)) }); }
    grid_seqs(3, 5, true, &mut |p| if nodup(p) { g.ex("f64", &flat(p)) });
    for _ in 0..g.scale(200_000, 5_000_000) {
        if g.stop { return; }
        let n = g.rng.r(3, 9) as usize;
        let p = path(&mut g.rng, n);
        if nodup(&p) { let t = if g.rng.chance(2) { "f64" } else { "f32" }; g.rnd(t, &flat(&p)); }
        let n = g.rng.r(10, 20) as usize;
        let p = path(&mut g.rng, n);
        if nodup(&p) { g.rnd("big64", &flat(&p)); }
        // general position: large coordinates, local steps so that about half of them do not cross
        let n = g.rng.r(10, 16) as usize;
        let step = *g.rng.pick(&[30, 100, 1000]);
        let mut p: Vec<P> = vec![(0, 0)];
        let drift = g.rng.r(0, step);
        while p.len() < n {
            let l = p[p.len() - 1];
            if g.rng.chance(12) && p.len() > 3 { let i = g.rng.r(0, p.len() as i64 - 3) as usize; p.push(p[i]); continue; }
            let w = if g.rng.chance(8) { 0 } else { g.rng.r(-step, step) + drift };
            p.push((l.0 + w, l.1 + g.rng.r(-step, step)));
        }
        if g.rng.chance(4) { p.push(p[0]); }
        if nodup(&p) { g.rnd("big64", &flat(&p)); }
    }
}
pub fn path(r: &mut Rng, n: usize) -> Vec<P> {
    let mut p: Vec<P> = vec![];
    let mode = r.r(0, 3);
    let k = *r.pick(&[3, 8, 30]);
    for i in 0..n {
        let q = match mode {
            0 => rnd_pt(r, k),
            1 => { let l = p.last().copied().unwrap_or((0, 0)); (l.0 + r.r(0, 4), l.1 + r.r(-4, 4)) }
            2 => { let l = p.last().copied().unwrap_or((0, 0)); *r.pick(&[(l.0 + 1, l.1), (l.0 - 1, l.1), (l.0, l.1 + 1), (l.0, l.1 - 1), (l.0 + 2, l.1), (l.0, l.1 + 3)]) }
            _ => { // star shaped loop
                let a = i as f64 / (n - 1) as f64 * 6.283185307179586; let rad = r.r(3, 40) as f64;
                if i + 1 == n { p[0] } else { ((rad * a.cos()).round() as i64, (rad * a.sin()).round() as i64) } }
        };
        p.push(q);
    }
    if r.chance(6) && n > 3 { p[n - 1] = p[0]; }
    p
}
/// no edge is horizontal, a common point of two edges is an end of both or of neither, no two meet along a
/// segment, different vertices and crossings have well separated heights
pub fn general_path(p: &[P]) -> bool {
    let n = p.len();
    let mut es = p.to_vec();
    es.sort();
    es.dedup();
    let mut ys: Vec<i64> = es.iter().map(|p| p.1).collect();
    ys.sort();
    if ys.windows(2).any(|w| w[0] == w[1]) || p.windows(2).any(|w| w[0].1 == w[1].1) { return false; }
    let mut pts: Vec<f64> = vec![];
    for i in 0..n - 1 { for j in i + 1..n - 1 {
        match seg_seg(p[i], p[i + 1], p[j], p[j + 1]) {
            Isect::None => (),
            Isect::Overlap(..) => return false,
            Isect::Pt(x, y, d) => {
                let at = |q: P| x == q.0 as i128 * d && y == q.1 as i128 * d;
                match (at(p[i]) || at(p[i + 1]), at(p[j]) || at(p[j + 1])) {
                    (true, true) => continue,
                    (false, false) => (),
                    _ => return false,
                }
                let f = y as f64 / d as f64;
                if pts.iter().any(|p| (p - f).abs() < 1e-3) || ys.iter().any(|y| (*y as f64 - f).abs() < 1e-3) { return false; }
                pts.push(f);
            }
        }
    } }
    true
}
fn sound_self<T: Mk2>(p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let want = self_isect_ref(p);
    let exact = general_path(p);
    match v.is_self_intersecting() {
        Ok(x) if x == want => Ok(()),
        Ok(false) if !exact => Ok(()),
        r => Err(format!("{:?}.is_self_intersecting() = {:?}, exact answer {} (general position: {})", p, r, want, exact)),
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "seg_intersection", scales: &[-4, 5], gen: gen_seg, check: check_seg, bound: "exhaustive: pairs of segments on a small integer grid; random: integer segments of mixed kinds (crossing, collinear, touching, degenerate); a case is non-trivial when its numbers are not all equal" },
        Prop { id: "line_queries", scales: &[-4, 5], gen: gen_queries, check: check_queries, bound: "exhaustive: short polylines and lines on a small integer grid; random: up to about 12 integer points; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "ray", scales: &[-4, 5], gen: gen_ray, check: check_ray, bound: "exhaustive: rays, edges and short polylines on a small integer grid; random: larger integer polylines; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "self_intersection", scales: &[-4, 5], gen: gen_self, check: check_self, bound: "exhaustive: polylines of up to 5 points on a small integer grid; random: 3..40 integer points, general position from 10 points on; a case is non-trivial when its numbers are not all equal" },
    ]
}
