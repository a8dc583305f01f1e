use crate::fw::*;
use crate::geo::*;
use crate::hull::flat;
use crate::isect::{path, rnd_segs, self_isect_ref};
use linestring::linestring_2d::{indexed_intersection::IntersectionTester, intersection::IntersectionData, Line2};
use linestring::prelude::LineString2;
use vector_traits::glam::{DVec2, Vec2};

fn dist2(a: (f64, f64), l: (P, P)) -> f64 {
    let (x0, y0, x1, y1) = (l.0 .0 as f64, l.0 .1 as f64, l.1 .0 as f64, l.1 .1 as f64);
    let (dx, dy) = (x1 - x0, y1 - y0);
    let n = dx * dx + dy * dy;
    let t = if n == 0.0 { 0.0 } else { (((a.0 - x0) * dx + (a.1 - y0) * dy) / n).clamp(0.0, 1.0) };
    let (ex, ey) = (a.0 - x0 - t * dx, a.1 - y0 - t * dy);
    ex * ex + ey * ey
}
fn cut(p: &[P], n: usize) -> usize { if p[0].0 % 2 == 0 { n } else { n / 2 } }
type R = Vec<((f64, f64), Vec<usize>)>;
fn run<T: Mk2>(p: &[P], ign: bool, stop: bool) -> Result<R, String> {
    let mut lines: Vec<Line2<T>> = p.chunks_exact(2).map(|c| l2::<T>(c[0], c[1])).collect();
    // half of the cases add the lines in two calls
    let rest = lines.split_off(cut(p, lines.len()));
    let r = IntersectionData::<T>::default()
        .with_ignore_end_point_intersections(ign)
        .and_then(|x| x.with_stop_at_first_intersection(stop))
        .and_then(|x| x.with_lines(lines.into_iter()))
        .and_then(|x| if rest.is_empty() { Ok(x) } else { x.with_lines(rest.into_iter()) })
        .and_then(|x| x.compute());
    match r {
        Ok(it) => Ok(it.map(|(p, l)| (p.f(), l)).collect()),
        Err(e) => Err(format!("{:?}", e)),
    }
}
fn run_ix<T: Mk2>(p: &[P], e: &[(usize, usize)], ign: bool, stop: bool) -> Result<R, String> {
    let r = IntersectionTester::<T>::new(mkv(p))
        .with_ignore_end_point_intersections(ign)
        .and_then(|x| x.with_stop_at_first_intersection(stop))
        .and_then(|x| x.with_edges(e[..cut(p, e.len())].iter()))
        .and_then(|x| if cut(p, e.len()) == e.len() { Ok(x) } else { x.with_edges(e[cut(p, e.len())..].iter()) })
        .and_then(|x| x.compute());
    match r {
        Ok((vs, it)) => {
            for (i, q) in p.iter().enumerate() { if vs[i].f() != (q.0 as f64, q.1 as f64) { return Err(format!("vertex {} changed", i)); } }
            Ok(it.map(|(p, l)| (vs[p].f(), l)).collect())
        }
        Err(e) => Err(format!("{:?}", e)),
    }
}
/// soundness of one result
fn sound(what: &str, l: &[(P, P)], r: &R, ign: bool, tol: f64) -> Result<(), String> {
    for (pt, ls) in r {
        let bad = |m: String| Err(format!("{} of {:?} (ignore end points {}) reported {:?} at {:?}: {}", what, l, ign, ls, pt, m));
        for i in ls {
            if *i >= l.len() { return bad(format!("line {} does not exist", i)); }
            let d = dist2(*pt, l[*i]).sqrt();
            if d > tol * (1.0 + pt.0.abs() + pt.1.abs()) { return bad(format!("line {} is {} away from the point", i, d)); }
        }
        let mut u = ls.clone();
        u.sort();
        u.dedup();
        if u.len() < 2 { return bad("fewer than two lines".into()); }
    }
    Ok(())
}
/// general position: no segment is horizontal, a common point of two segments is an end of both or of neither, different
/// event points have well separated heights (`strict`: and all x differ, no shared ends). The crossing pairs.
fn general(l: &[(P, P)], strict: bool) -> Option<Vec<(usize, usize)>> {
    let mut es: Vec<P> = l.iter().flat_map(|l| [l.0, l.1]).collect();
    es.sort();
    if strict && es.windows(2).any(|w| w[0].0 == w[1].0) { return None; }
    es.dedup();
    let mut ys: Vec<i64> = es.iter().map(|p| p.1).collect();
    ys.sort();
    if ys.windows(2).any(|w| w[0] == w[1]) || l.iter().any(|l| l.0 .1 == l.1 .1) { return None; }
    let mut pts: Vec<(f64, f64)> = vec![];
    let mut v = vec![];
    for i in 0..l.len() { for j in i + 1..l.len() {
        match seg_seg(l[i].0, l[i].1, l[j].0, l[j].1) {
            Isect::None => (),
            Isect::Overlap(..) => return None,
            Isect::Pt(x, y, d) => {
                let at = |q: P| x == q.0 as i128 * d && y == q.1 as i128 * d;
                match (at(l[i].0) || at(l[i].1), at(l[j].0) || at(l[j].1)) {
                    (true, true) => continue,
                    (false, false) => (),
                    _ => return None,
                }
                let f = (x as f64 / d as f64, y as f64 / d as f64);
                if pts.iter().any(|p| (p.1 - f.1).abs() < 1e-3 || strict && (p.0 - f.0).abs() < 1e-3) { return None; }
                if es.iter().any(|e| (e.1 as f64 - f.1).abs() < 1e-3 || strict && (e.0 as f64 - f.0).abs() < 1e-3) { return None; }
                pts.push(f);
                v.push((i, j));
            }
        }
    } }
    Some(v)
}
fn pairs(r: &R) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = r.iter().flat_map(|(_, l)| { let mut o = vec![]; for i in 0..l.len() { for j in i + 1..l.len() { if l[i] != l[j] { o.push((l[i].min(l[j]), l[i].max(l[j]))); } } } o }).collect();
    v.sort(); v.dedup();
    v
}
fn case<T: Mk2>(ign: bool, stop: bool, p: &[P]) -> Result<(), String> {
    let l: Vec<(P, P)> = p.chunks_exact(2).map(|c| (c[0], c[1])).collect();
    let r = run::<T>(p, ign, stop).map_err(|e| format!("IntersectionData of {:?} failed: {}", l, e))?;
    sound("IntersectionData", &l, &r, ign, T::TOL * 10.0)?;
    // shared vertices in the indexed version
    let mut vs: Vec<P> = p.to_vec(); vs.sort(); vs.dedup();
    let e: Vec<(usize, usize)> = l.iter().map(|l| (vs.binary_search(&l.0).unwrap(), vs.binary_search(&l.1).unwrap())).collect();
    let ri = run_ix::<T>(&vs, &e, ign, stop).map_err(|e| format!("IntersectionTester of {:?} failed: {}", l, e))?;
    sound("IntersectionTester", &l, &ri, ign, T::TOL * 10.0)?;
    let touch = (0..l.len()).any(|i| (i + 1..l.len()).any(|j| seg_seg(l[i].0, l[i].1, l[j].0, l[j].1) != Isect::None));
    if !touch && (!r.is_empty() || !ri.is_empty()) { return Err(format!("{:?}: reported an intersection where there is none", l)); }
    if let Some(want) = general(&l, T::TOL > 1e-7) {
        for (name, r) in [("IntersectionData", &r), ("IntersectionTester", &ri)] {
            let got = pairs(r);
            for (p, ls) in r.iter() { if ls.iter().any(|i| ls.iter().filter(|j| *j == i).count() > 1) { return Err(format!("{} of {:?} (ignore {}) reported {:?} at {:?}: a line is named twice", name, l, ign, ls, p)); } }
            let all = || want.iter().all(|p| got.contains(p)) && got.iter().all(|p| seg_seg(l[p.0].0, l[p.0].1, l[p.1].0, l[p.1].1) != Isect::None);
            if !stop && !all() { return Err(format!("{} of {:?} (ignore {}) reported the pairs {:?}, exact crossing pairs {:?}", name, l, ign, got, want)); }
            if stop && (got.is_empty() && !want.is_empty() || r.len() > 1) { return Err(format!("{} of {:?} (ignore {}, stop at first) reported {:?}, exact crossing pairs {:?}", name, l, ign, r, want)); }
        }
    }
    Ok(())
}
fn sound_self<T: Mk2>(p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    match v.is_self_intersecting() { Ok(false) => Ok(()), Ok(true) if self_isect_ref(p) => Ok(()), r => Err(format!("{:?}.is_self_intersecting() = {:?}, exact answer false", p, r)) }
}
/// a segment with one coordinate that is not finite is refused, by both testers, wherever it stands
fn infinite(v: &[i64]) -> Result<(), String> {
    let p = pts(&v[3..]);
    let mut f: Vec<DVec2> = mkv(&p);
    let at = v[0] as usize % f.len();
    let bad = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][v[1] as usize % 3];
    if v[2] % 2 == 0 { f[at].x = bad } else { f[at].y = bad }
    let lines: Vec<Line2<DVec2>> = f.chunks_exact(2).map(|c| Line2::new(c[0], c[1])).collect();
    if IntersectionData::<DVec2>::default().with_lines(lines.into_iter()).is_ok() { return Err(format!("IntersectionData::with_lines accepts {:?}", f)); }
    let e: Vec<(usize, usize)> = (0..f.len() / 2).map(|i| (2 * i, 2 * i + 1)).collect();
    if IntersectionTester::<DVec2>::new(f.clone()).with_edges(e.iter()).is_ok() { return Err(format!("IntersectionTester::with_edges accepts {:?}", f)); }
    // a vertex no edge uses does not matter
    let e: Vec<(usize, usize)> = (0..f.len() / 2).filter(|i| *i != at / 2).map(|i| (2 * i, 2 * i + 1)).collect();
    if IntersectionTester::<DVec2>::new(f.clone()).with_edges(e.iter()).is_err() { return Err(format!("IntersectionTester::with_edges refuses {:?} {:?}", f, e)); }
    Ok(())
}
fn check(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "nan64" => infinite(v),
        "f64" => case::<DVec2>(v[0] == 1, v[1] == 1, &pts(&v[2..])),
        "f32" => case::<Vec2>(v[0] == 1, v[1] == 1, &pts(&v[2..])),
        "self64" => sound_self::<DVec2>(&pts(v)),
        _ => Err("tag".into()),
    }
}
fn gen(g: &mut Gen) {
    for _ in 0..g.scale(200_000, 5_000_000) {
        if g.stop { return; }
        let n = g.rng.r(1, 12) as usize;
        let mut p: Vec<P> = vec![];
        let k = *g.rng.pick(&[3, 10, 100]);
        let mode = g.rng.r(0, 6);
        while p.len() < 2 * n {
            match mode {
                0 => p.extend(rnd_segs(&mut g.rng)),
                1 => { let q = path(&mut g.rng, n + 1); for w in q.windows(2) { p.extend(w); } }
                2 => { for _ in 0..2 { p.push((g.rng.r(-k, k), g.rng.r(-k, k))); } }
                // short segments, one in six is vertical, one in six starts where another one ends
                4 | 5 => {
                    let c = if !p.is_empty() && g.rng.chance(6) { let i = g.rng.r(0, p.len() as i64 - 1) as usize; p[i] } else { (g.rng.r(-300, 300), g.rng.r(-1000, 1000)) };
                    let w = if g.rng.chance(6) { 0 } else { g.rng.r(-300, 300) };
                    p.push(c); p.push((c.0 + w, c.1 + g.rng.r(-600, 600)));
                }
                _ => { let c = (g.rng.r(-1000, 1000), g.rng.r(-1000, 1000)); let l = *g.rng.pick(&[200, 1000]); p.push(c); p.push((c.0 + g.rng.r(-l, l), c.1 + g.rng.r(-l, l))); }
            }
        }
        p.truncate(2 * n);
        if p.chunks(2).any(|c| c[0] == c[1]) { continue; }
        let ign = g.rng.r(0, 1);
        let stop = if g.rng.chance(4) { 1 } else { 0 };
        let mut v = vec![ign, stop];
        v.extend(flat(&p));
        g.rnd("f64", &v);
        if g.rng.chance(8) {
            let mut v = vec![g.rng.r(0, 2 * p.len() as i64), g.rng.r(0, 2), g.rng.r(0, 1)];
            v.extend(flat(&p));
            g.rnd("nan64", &v);
        }
        let n = g.rng.r(10, 20) as usize;
        let p = path(&mut g.rng, n);
        if p.windows(2).all(|w| w[0] != w[1]) { g.rnd("self64", &flat(&p)); }
    }
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "sweep", scales: &[-4, 5], gen, check, bound: "random sets of integer segments and edge lists, in general and in degenerate position, both flags; a case is non-trivial when its numbers are not all equal" }]
}
