use crate::fw::*;
use crate::geo::*;
use linestring::linestring_2d::convex_hull as ch;
use linestring::prelude::LineString2;
use vector_traits::glam::{DVec2, Vec2};


fn cyc_eq(a: &[P], b: &[P]) -> bool {
    a.len() == b.len() && (a.is_empty() || (0..a.len()).any(|k| (0..a.len()).all(|i| a[(i + k) % a.len()] == b[i])))
}

/// judge one hull result (points) against the exact strict hull of the input
fn judge(name: &str, input: &[P], out: Vec<P>) -> Result<(), String> {
    let want = hull_ref(input);
    let bad = |m: String| Err(format!("{} of {:?} returned {:?}: {} (exact hull {:?})", name, input, out, m, want));
    if want.is_empty() {
        return if out.is_empty() { Ok(()) } else { bad("no points, no hull".into()) };
    }
    if want.len() < 3 {
        // degenerate: a point or a line, open or closed
        let mut o = out.clone();
        o.sort();
        o.dedup();
        return if o == want && out.len() <= 3 { Ok(()) } else { bad("not the extreme points of a degenerate input".into()) };
    }
    if out.len() < 2 || out[0] != out[out.len() - 1] {
        return bad("not a closed loop".into());
    }
    let ring = &out[..out.len() - 1];
    if !cyc_eq(ring, &want) {
        return bad("not the counter clockwise strict convex hull of the input".into());
    }
    Ok(())
}
fn toi<T: Mk2>(v: &[T]) -> Vec<P> { v.iter().map(|p| (p.f().0 as i64, p.f().1 as i64)).collect() }

#[allow(deprecated)]
fn seq<T: Mk2>(p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let e = |e| format!("{:?} for {:?}", e, p);
    judge("graham_scan", p, toi(&ch::graham_scan(&v).map_err(e)?))?;
    judge("gift_wrap", p, toi(&ch::gift_wrap(&v).map_err(e)?))?;
    judge("convex_hull", p, toi(&v.convex_hull().map_err(e)?))?;
    let idx: Vec<usize> = (0..v.len()).collect();
    let g: Vec<T> = ch::indexed_graham_scan(&v, &idx).map_err(e)?.into_iter().map(|i| v[i]).collect();
    judge("indexed_graham_scan", p, toi(&g))?;
    let g: Vec<T> = ch::indexed_gift_wrap(&v, &idx).map_err(e)?.into_iter().map(|i| v[i]).collect();
    judge("indexed_gift_wrap", p, toi(&g))?;
    judge("graham_scan_wo_atan2", p, toi(&ch::graham_scan_wo_atan2(&v).map_err(e)?))?;
    // indices in another order than the vertices, vertices no index names, a closed list
    let (w, idx) = renamed::<T>(p);
    for closed in [false, true] {
        let mut ix = idx.clone();
        if closed && !ix.is_empty() { ix.push(ix[0]); }
        let named = |r: Vec<usize>, name: &str| -> Result<Vec<T>, String> {
            match r.iter().find(|i| !idx.contains(i)) { Some(i) => Err(format!("{} of {:?} returned index {} that is not one of {:?}", name, p, i, ix)), None => Ok(r.into_iter().map(|i| w[i]).collect()) }
        };
        judge("indexed_graham_scan of renamed points", p, toi(&named(ch::indexed_graham_scan(&w, &ix).map_err(e)?, "indexed_graham_scan")?))?;
        judge("indexed_gift_wrap of renamed points", p, toi(&named(ch::indexed_gift_wrap(&w, &ix).map_err(e)?, "indexed_gift_wrap")?))?;
    }
    Ok(())
}
/// vertices and the indices that name the points p in order; some vertices are not named
fn renamed<T: Mk2>(p: &[P]) -> (Vec<T>, Vec<usize>) {
    let mut q: Vec<P> = vec![(-9000, -9000)];
    q.extend(p.iter().rev());
    q.push((9000, 9000));
    (mkv(&q), (0..p.len()).map(|i| p.len() - i).collect())
}
fn par<T: Mk2>(chunk: usize, p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let e = |e| format!("{:?} for {:?}", e, p);
    judge("convex_hull_par", p, toi(&v.convex_hull_par(chunk).map_err(e)?))?;
    let (w, idx) = renamed::<T>(p);
    judge("convex_hull_par of renamed points", p, toi(&ch::convex_hull_par(&w, &idx, chunk).map_err(e)?.into_iter().map(|i| w[i]).collect::<Vec<T>>()))?;
    // the pool's size decides how many partial hulls are combined one after the other
    for (name, pool) in pools() {
        let h = pool.install(|| v.convex_hull_par(chunk)).map_err(e)?;
        judge(name, p, toi(&h))?;
    }
    Ok(())
}
fn pools() -> &'static [(&'static str, rayon::ThreadPool)] {
    static P: std::sync::OnceLock<Vec<(&'static str, rayon::ThreadPool)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        [("convex_hull_par on one thread", 1), ("convex_hull_par on two threads", 2)]
            .into_iter()
            .map(|(n, k)| (n, rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap()))
            .collect()
    })
}
fn check_seq(tag: &str, v: &[i64]) -> Result<(), String> {
    let p = pts(v);
    match tag {
        "f64" => seq::<DVec2>(&p),
        "f32" => seq::<Vec2>(&p),
        "one" => {
            let which = v[0];
            let p = pts(&v[1..]);
            let v: Vec<DVec2> = mkv(&p);
            let idx: Vec<usize> = (0..v.len()).collect();
            match which {
                0 => judge("graham_scan", &p, toi(&ch::graham_scan(&v).unwrap())),
                1 => judge("gift_wrap", &p, toi(&ch::gift_wrap(&v).unwrap())),
                2 => judge("indexed_graham_scan", &p, toi(&ch::indexed_graham_scan(&v, &idx).unwrap().into_iter().map(|i| v[i]).collect::<Vec<_>>())),
                _ => judge("indexed_gift_wrap", &p, toi(&ch::indexed_gift_wrap(&v, &idx).unwrap().into_iter().map(|i| v[i]).collect::<Vec<_>>())),
            }
        }
        _ => Err("tag".into()),
    }
}
fn check_par(tag: &str, v: &[i64]) -> Result<(), String> {
    let p = pts(&v[1..]);
    match tag {
        "f64" => par::<DVec2>(v[0] as usize, &p),
        "f32" => par::<Vec2>(v[0] as usize, &p),
        _ => Err("tag".into()),
    }
}

pub fn flat(p: &[P]) -> Vec<i64> { p.iter().flat_map(|p| [p.0, p.1]).collect() }

/// all sequences of length n over the w x w grid (dup: allow repeated points)
pub fn grid_seqs(w: i64, n: usize, dup: bool, f: &mut dyn FnMut(&[P])) {
    fn rec(w: i64, n: usize, dup: bool, cur: &mut Vec<P>, f: &mut dyn FnMut(&[P])) {
        if cur.len() == n {
            f(cur);
            return;
        }
        for x in 0..w {
            for y in 0..w {
                if dup || !cur.contains(&(x, y)) {
                    cur.push((x, y));
                    rec(w, n, dup, cur, f);
                    let _ = cur.pop();
                }
            }
        }
    }
    rec(w, n, dup, &mut vec![], f)
}
pub fn random_pts(r: &mut Rng, n: usize) -> Vec<P> {
    match r.r(0, 5) {
        0 => (0..n).map(|_| (r.r(0, 3), r.r(0, 3))).collect(),
        1 => (0..n).map(|_| (r.r(-10, 10), r.r(-10, 10))).collect(),
        2 => {
            // integer points close to a circle: many hull vertices
            let rad = r.r(5, 300) as f64;
            (0..n).map(|_| { let a = r.r(0, 359) as f64; ((rad * a.to_radians().cos()).round() as i64, (rad * a.to_radians().sin()).round() as i64) }).collect()
        }
        3 => {
            // parabola arms + axis aligned runs
            (0..n).map(|_| { let t = r.r(-12, 12); if r.chance(3) { (t, 144) } else { (t, t * t) } }).collect()
        }
        4 => (0..n).map(|_| (r.r(-300, 300), r.r(-300, 300))).collect(),
        _ => {
            let k = r.r(1, 4);
            (0..n).map(|_| (r.r(-k, k) * r.r(1, 3), r.r(-k, k))).collect()
        }
    }
}
fn gen_seq(g: &mut Gen) { gen_hull(g, false) }
fn gen_par(g: &mut Gen) { gen_hull(g, true) }
fn gen_hull(g: &mut Gen, par: bool) {
    let mut send = |g: &mut Gen, ex: bool, p: &[P]| {
        let tags: &[&str] = &["f64", "f32"];
        for t in tags {
            if par {
                for c in 2..=(p.len() as i64).min(if ex { 4 } else { 6 }) {
                    let mut v = vec![c];
                    v.extend(flat(p));
                    if ex { g.ex(t, &v) } else { g.rnd(t, &v) }
                }
            } else {
                let v = flat(p);
                if ex { g.ex(t, &v) } else { g.rnd(t, &v) }
            }
        }
    };
    for n in 0..=5 {
        grid_seqs(3, n, true, &mut |p| send(g, true, p));
    }
    if g.thorough {
        grid_seqs(3, 6, false, &mut |p| send(g, true, p));
    }
    for _ in 0..g.scale(60_000, 3_000_000) {
        let n = if par && g.rng.chance(6) { g.rng.r(25, 120) as usize } else { g.rng.r(4, 24) as usize };
        let mut p = random_pts(&mut g.rng, n);
        if g.rng.chance(2) {
            let mut seen = std::collections::HashSet::new();
            p.retain(|q| seen.insert(*q));
        }
        if g.rng.chance(8) { p.push(p[0]); }
        send(g, false, &p);
        if g.stop { break; }
    }
}

// ---------------------------------------------------------------- containment
fn contains<T: Mk2>(closed: bool, p: &[P], q: P) -> Result<(), String> {
    // p: the strictly convex CCW ring
    let n = p.len();
    let incl = (0..n).all(|i| cross(p[i], p[(i + 1) % n], q) >= 0);
    let excl = (0..n).all(|i| cross(p[i], p[(i + 1) % n], q) > 0);
    let mut v: Vec<T> = mkv(p);
    if closed { v.push(v[0]); }
    let qq = T::mk(q);
    let a = ch::contains_point_inclusive(&v, qq);
    let b = ch::contains_point_exclusive(&v, qq);
    if a != incl { return Err(format!("contains_point_inclusive({:?}, {:?}) = {}, exact answer {}", v.iter().map(|x| x.f()).collect::<Vec<_>>(), q, a, incl)); }
    if b != excl { return Err(format!("contains_point_exclusive({:?}, {:?}) = {}, exact answer {}", v.iter().map(|x| x.f()).collect::<Vec<_>>(), q, b, excl)); }
    let a = LineString2::contains_point_inclusive(&v, qq);
    let b = LineString2::contains_point_exclusive(&v, qq);
    if a != (incl && closed) || b != (excl && closed) { return Err(format!("LineString2::contains_point_* ({:?}, {:?}) = {} {}, exact answer {} {}", p, q, a, b, incl && closed, excl && closed)); }
    Ok(())
}
fn contains_hull<T: Mk2>(a: &[P], b: &[P]) -> Result<(), String> {
    let n = a.len();
    // nothing and a single point contain no hull
    for k in 0..2 {
        let (va, vb): (Vec<T>, Vec<T>) = (mkv(&a[..k]), mkv(b));
        if ch::contains_convex_hull(&va, &vb) || ch::contains_convex_hull_par(&va, &vb) { return Err(format!("contains_convex_hull({:?}, {:?}): {} points contain a hull", &a[..k], b, k)); }
    }
    let want = b.iter().all(|q| (0..n).all(|i| cross(a[i], a[(i + 1) % n], *q) >= 0));
    for (ca, cb) in [(true, true), (true, false), (false, true), (false, false)] {
        let mut va: Vec<T> = mkv(a);
        if ca { va.push(va[0]); }
        let mut vb: Vec<T> = mkv(b);
        if cb && !vb.is_empty() { vb.push(vb[0]); }
        let x = ch::contains_convex_hull(&va, &vb);
        let y = ch::contains_convex_hull_par(&va, &vb);
        if x != want || y != want { return Err(format!("contains_convex_hull({:?}{},{:?}{}) = {} / par {}, exact answer {}", a, if ca { " closed" } else { "" }, b, if cb { " closed" } else { "" }, x, y, want)); }
    }
    Ok(())
}
fn check_contains(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "pt64" => contains::<DVec2>(v[0] == 1, &pts(&v[3..]), (v[1], v[2])),
        "pt32" => contains::<Vec2>(v[0] == 1, &pts(&v[3..]), (v[1], v[2])),
        "hull" => { let n = v[0] as usize; contains_hull::<DVec2>(&pts(&v[1..1 + 2 * n]), &pts(&v[1 + 2 * n..])) }
        _ => Err("tag".into()),
    }
}
fn gen_contains(g: &mut Gen) {
    let rounds = g.scale(2_500, 120_000);
    // exhaustive: all convex rings from subsets of the 3x3 / 4x4 grid, all rotations, all grid points
    let w = 4i64;
    let all: Vec<P> = (0..w).flat_map(|x| (0..w).map(move |y| (x, y))).collect();
    for m in 1u32..(1 << all.len()) {
        if g.stop { return; }
        let k = m.count_ones();
        if !(3..=8).contains(&k) { continue; }
        if k > 4 && !g.thorough && m % 7 != 0 { continue; }
        let sub: Vec<P> = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, p)| *p).collect();
        let h = hull_ref(&sub);
        if h.len() != k as usize { continue; }
        for rot in 0..h.len() {
            let ring: Vec<P> = (0..h.len()).map(|i| h[(i + rot) % h.len()]).collect();
            for q in &all {
                for closed in [1, 0] {
                    let mut v = vec![closed, q.0, q.1];
                    v.extend(flat(&ring));
                    g.ex("pt64", &v);
                    if closed == 1 { g.ex("pt32", &v); }
                }
            }
        }
    }
    for _ in 0..rounds {
        if g.stop { return; }
        let n = g.rng.r(3, 60) as usize;
        let h = hull_ref(&random_pts(&mut g.rng, n));
        if h.len() < 3 { continue; }
        let rot = g.rng.r(0, h.len() as i64 - 1) as usize;
        let ring: Vec<P> = (0..h.len()).map(|i| h[(i + rot) % h.len()]).collect();
        // probes: vertices, edge neighbours, centre and random points
        let mut qs: Vec<P> = vec![];
        for i in 0..ring.len() {
            let (a, b) = (ring[i], ring[(i + 1) % ring.len()]);
            qs.push(a);
            let m = ((a.0 + b.0) / 2, (a.1 + b.1) / 2);
            qs.push(m);
            qs.push((m.0 + g.rng.r(-1, 1), m.1 + g.rng.r(-1, 1)));
            qs.push((a.0 + g.rng.r(-1, 1), a.1 + g.rng.r(-1, 1)));
            qs.push((a.0 + 2 * (b.0 - a.0), a.1 + 2 * (b.1 - a.1)));
        }
        for _ in 0..4 { qs.push((g.rng.r(-20, 20), g.rng.r(-20, 20))); }
        for q in qs {
            let closed = if g.rng.chance(4) { 0 } else { 1 };
            let mut v = vec![closed, q.0, q.1];
            v.extend(flat(&ring));
            g.rnd(if g.rng.0 & 1 == 0 { "pt64" } else { "pt32" }, &v);
        }
        for _ in 0..3 {
            let n = g.rng.r(1, 12) as usize;
            let b = match g.rng.r(0, 2) {
                0 => hull_ref(&random_pts(&mut g.rng, n)),
                1 => { // subset of a, possibly nudged
                    let mut s: Vec<P> = ring.iter().copied().filter(|_| g.rng.chance(2)).collect();
                    if !s.is_empty() && g.rng.chance(2) { let k = g.rng.r(0, s.len() as i64 - 1) as usize; s[k] = (s[k].0 + g.rng.r(-1, 1), s[k].1 + g.rng.r(-1, 1)); }
                    hull_ref(&s)
                }
                _ => vec![],
            };
            let mut b = b;
            if !b.is_empty() { let k = g.rng.r(0, b.len() as i64 - 1) as usize; b.rotate_left(k); }
            let mut v = vec![ring.len() as i64];
            v.extend(flat(&ring));
            v.extend(flat(&b));
            g.rnd("hull", &v);
        }
    }
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "hull_seq", scales: &[-4, 5], gen: gen_seq, check: check_seq, bound: "exhaustive: short point lists on a small integer grid incl. duplicates; random: up to about 60 integer points, f32/f64, collinear and duplicate runs; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "hull_par", scales: &[-4, 5], gen: gen_par, check: check_par, bound: "exhaustive: short point lists on a small integer grid, several chunk sizes; random: up to about 60 integer points and chunk sizes from 2; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "hull_contains", scales: &[-4, 5], gen: gen_contains, check: check_contains, bound: "random and enumerated strictly convex integer hulls, every rotation, open and closed, query points around every corner, edge and diagonal; a case is non-trivial when its numbers are not all equal" },
    ]
}
