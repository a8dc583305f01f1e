use crate::fw::*;
use crate::geo::*;
use crate::hull::{flat, grid_seqs};
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d, LineString2, LineString3};
use std::collections::HashSet;
use vector_traits::glam::{DVec2, DVec3, Vec2, Vec3};

type Q = (i128, i128); // rational, positive denominator
/// exact squared distance of p to the segment ab
fn sd2(a: P, b: P, p: P) -> Q {
    let l = d2(a, b);
    if l == 0 { return (d2(a, p), 1); }
    let t = dot(a, b, p);
    if t < 0 { (d2(a, p), 1) } else if t > l { (d2(b, p), 1) } else { let c = cross(a, b, p); (c * c, l) }
}
/// exact squared distance of p to the infinite line ab (point distance if a==b)
fn sd3(a: P3, b: P3, p: P3) -> Q {
    let u = ((b.0 - a.0) as i128, (b.1 - a.1) as i128, (b.2 - a.2) as i128);
    let w = ((p.0 - a.0) as i128, (p.1 - a.1) as i128, (p.2 - a.2) as i128);
    let l = u.0 * u.0 + u.1 * u.1 + u.2 * u.2;
    if l == 0 { return (w.0 * w.0 + w.1 * w.1 + w.2 * w.2, 1); }
    let c = (u.1 * w.2 - u.2 * w.1, u.2 * w.0 - u.0 * w.2, u.0 * w.1 - u.1 * w.0);
    (c.0 * c.0 + c.1 * c.1 + c.2 * c.2, l)
}
fn qf(q: Q) -> f64 { q.0 as f64 / q.1 as f64 }
/// does `kept` (positions, ascending, first and last included) follow the RDP rule? memo over sub-ranges
fn rdp_ok(d: &dyn Fn(usize, usize, usize) -> Q, kept: &[usize], eps2: f64, tol: f64) -> Result<(), String> {
    fn rec(d: &dyn Fn(usize, usize, usize) -> Q, kept: &[usize], a: usize, b: usize, eps2: f64, tol: f64, memo: &mut std::collections::HashMap<(usize, usize), Result<(), String>>) -> Result<(), String> {
        if let Some(r) = memo.get(&(a, b)) { return r.clone(); }
        let (lo, hi) = (kept[a], kept[b]);
        let r = if hi - lo < 2 { Ok(()) } else {
            let m = (lo + 1..hi).map(|i| qf(d(lo, hi, i))).fold(-1.0, f64::max);
            let slack = tol * (1.0 + m.abs().max(eps2));
            if b == a + 1 {
                if m > eps2 + slack { Err(format!("the points between positions {} and {} deviate by {} (squared), more than allowed", lo, hi, m)) } else { Ok(()) }
            } else if m <= eps2 - slack {
                Err(format!("points kept between positions {} and {} although all deviate by at most {} (squared)", lo, hi, m))
            } else {
                let mut r = Err(format!("no farthest point between positions {} and {} was kept", lo, hi));
                for k in a + 1..b {
                    if qf(d(lo, hi, kept[k])) >= m - slack {
                        r = rec(d, kept, a, k, eps2, tol, memo);
                        if r.is_ok() { r = rec(d, kept, k, b, eps2, tol, memo); }
                        if r.is_ok() { break; }
                    }
                }
                r
            }
        };
        let _ = memo.insert((a, b), r.clone());
        r
    }
    rec(d, kept, 0, kept.len() - 1, eps2, tol, &mut Default::default())
}
fn eps_of(code: i64) -> f64 { code as f64 / 8.0 }
/// rdp on points and on indices (identity indices): they must agree
fn rdp2<T: Mk2>(eps: i64, p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let e = eps_of(eps);
    let out = v.simplify_rdp(T::s(e));
    if p.len() <= 2 { return if out.iter().map(|x| x.f()).eq(v.iter().map(|x| x.f())) { Ok(()) } else { Err(format!("{:?}.simplify_rdp({}) = {:?}", p, e, out.iter().map(|x| x.f()).collect::<Vec<_>>())) }; }
    let idx: Vec<usize> = (0..p.len()).collect();
    let io = indexed_simplify_rdp_2d(&v, &idx, T::s(e));
    judge_ix("simplify_rdp", &io, p.len(), &|a, b, c| sd2(p[a], p[b], p[c]), e * e, T::TOL).map_err(|m| format!("2D indexed rdp of {:?} with distance {} returned {:?}: {}", p, e, io, m))?;
    if !out.iter().map(|x| x.f()).eq(io.iter().map(|i| v[*i].f())) {
        return Err(format!("{:?}.simplify_rdp({}) = {:?} but the indexed version kept the positions {:?}", p, e, out.iter().map(|x| x.f()).collect::<Vec<_>>(), io));
    }
    Ok(())
}
fn judge_ix(_n: &str, out: &[usize], n: usize, d: &dyn Fn(usize, usize, usize) -> Q, eps2: f64, tol: f64) -> Result<(), String> {
    if out.is_empty() || out[0] != 0 || out[out.len() - 1] != n - 1 || !out.windows(2).all(|w| w[0] < w[1]) { return Err("not a subsequence keeping both end points".into()); }
    rdp_ok(d, out, eps2, tol)
}
fn rdp3<T: Mk3>(eps: i64, p: &[P3]) -> Result<(), String> {
    let v: Vec<T> = mkv3(p);
    let e = eps_of(eps);
    let out = v.simplify_rdp(T::s(e));
    if p.len() <= 2 { return if out.iter().map(|x| x.f()).eq(v.iter().map(|x| x.f())) { Ok(()) } else { Err(format!("{:?}.simplify_rdp({}) changed a short polyline", p, e)) }; }
    let idx: Vec<usize> = (0..p.len()).collect();
    let io = indexed_simplify_rdp_3d(&v, &idx, T::s(e));
    judge_ix("simplify_rdp", &io, p.len(), &|a, b, c| sd3(p[a], p[b], p[c]), e * e, T::TOL).map_err(|m| format!("3D indexed rdp of {:?} with distance {} returned {:?}: {}", p, e, io, m))?;
    if !out.iter().map(|x| x.f()).eq(io.iter().map(|i| v[*i].f())) {
        return Err(format!("{:?}.simplify_rdp({}) = {:?} but the indexed version kept the positions {:?}", p, e, out.iter().map(|x| x.f()).collect::<Vec<_>>(), io));
    }
    Ok(())
}
/// indexed rdp with an arbitrary index list: the same as running on the pointed-at polyline with the indices mapped back
fn rdpix(eps: i64, idx: &[usize], p: &[P], p3: &[P3]) -> Result<(), String> {
    let v: Vec<DVec2> = mkv(p);
    let e = eps_of(eps);
    let io = indexed_simplify_rdp_2d(&v, idx, DVec2::s(e));
    let judge = |io: &[usize], d: &dyn Fn(usize, usize, usize) -> Q, n: usize| -> Result<(), String> {
        if n <= 2 { return if io == idx { Ok(()) } else { Err("changed".into()) }; }
        // recover positions: greedy leftmost matching can be ambiguous with repeated indices, so try all
        fn rec(io: &[usize], idx: &[usize], at: usize, cur: &mut Vec<usize>, ok: &mut dyn FnMut(&[usize]) -> bool, budget: &mut usize) -> bool {
            if *budget == 0 { return true; }
            *budget -= 1;
            if cur.len() == io.len() { return ok(cur); }
            for k in at..idx.len() { if idx[k] == io[cur.len()] { cur.push(k); if rec(io, idx, k + 1, cur, ok, budget) { return true; } let _ = cur.pop(); } }
            false
        }
        let mut last = "not a subsequence keeping both end points".to_string();
        let mut ok = |pos: &[usize]| -> bool {
            match judge_ix("", pos, idx.len(), d, e * e, 1e-9) { Ok(()) => true, Err(m) => { last = m; false } }
        };
        if idx.len() == 1 { return if io.len() == 2 && io[0] == idx[0] && io[1] == idx[0] { Ok(()) } else { Err("single".into()) }; }
        if rec(io, idx, 0, &mut vec![], &mut ok, &mut 5000) { Ok(()) } else { Err(last) }
    };
    judge(&io, &|a, b, c| sd2(p[idx[a]], p[idx[b]], p[idx[c]]), p.len()).map_err(|m| format!("indexed_simplify_rdp(2D) of {:?} indices {:?} distance {} = {:?}: {}", p, idx, e, io, m))?;
    let v: Vec<DVec3> = mkv3(p3);
    let io = indexed_simplify_rdp_3d(&v, idx, DVec3::s(e));
    judge(&io, &|a, b, c| sd3(p3[idx[a]], p3[idx[b]], p3[idx[c]]), p3.len()).map_err(|m| format!("indexed_simplify_rdp(3D) of {:?} indices {:?} distance {} = {:?}: {}", p3, idx, e, io, m))
}
fn to3(p: &[P], z: i64) -> Vec<P3> { p.iter().enumerate().map(|(i, p)| (p.0, p.1, (p.0 * 3 + p.1 * 7 + i as i64 * z) % 5)).collect() }
fn check_rdp(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "2f64" => rdp2::<DVec2>(v[0], &pts(&v[1..])),
        "2f32" => rdp2::<Vec2>(v[0], &pts(&v[1..])),
        "3f64" => rdp3::<DVec3>(v[0], &pts3(&v[1..])),
        "3f32" => rdp3::<Vec3>(v[0], &pts3(&v[1..])),
        "ix" => { let n = v[1] as usize; let idx: Vec<usize> = v[2..2 + n].iter().map(|i| *i as usize).collect(); let p = pts(&v[2 + n..]); rdpix(v[0], &idx, &p, &to3(&p, 2)) }
        _ => Err("tag".into()),
    }
}
fn wiggle(r: &mut Rng, n: usize) -> Vec<P> {
    let mode = r.r(0, 4);
    let k = *r.pick(&[1, 3, 20, 200]);
    let mut p: Vec<P> = vec![];
    for i in 0..n as i64 {
        p.push(match mode {
            0 => (r.r(-k, k), r.r(-k, k)),
            1 => (i * 5, r.r(-k, k)),
            2 => (i, (i * i) % (k + 7)),
            3 => { let l = p.last().copied().unwrap_or((0, 0)); (l.0 + r.r(-1, 2), l.1 + r.r(-1, 1)) }
            _ => (i * 3, if r.chance(3) { r.r(-1, 1) } else { 0 }),
        });
    }
    if n > 1 && r.chance(5) { p[n - 1] = p[0]; }
    p
}
fn gen_rdp(g: &mut Gen) {
    for n in 1..=4 { for e in [0, 4, 8, 12] { grid_seqs(3, n, true, &mut |p| {
        let mut v = vec![e]; v.extend(flat(p)); g.ex("2f64", &v); g.ex("2f32", &v);
        let mut v = vec![e]; v.extend(to3(p, 0).iter().flat_map(|p| [p.0, p.1, 0])); g.ex("3f64", &v);
    }); } }
    if g.thorough { grid_seqs(3, 5, true, &mut |p| { let mut v = vec![8]; v.extend(flat(p)); g.ex("2f64", &v); }); }
    for _ in 0..g.scale(120_000, 6_000_000) {
        if g.stop { return; }
        let n = if g.rng.chance(50) { g.rng.r(50, 200) } else { g.rng.r(1, 20) } as usize;
        let p = wiggle(&mut g.rng, n);
        let e = *g.rng.pick(&[0, 1, 4, 8, 9, 16, 24, 80, 800]);
        let mut v = vec![e];
        match g.rng.r(0, 4) {
            0 => { v.extend(flat(&p)); g.rnd("2f64", &v) }
            1 => { v.extend(flat(&p)); g.rnd("2f32", &v) }
            2 => { let z = g.rng.r(0, 4); v.extend(to3(&p, z).iter().flat_map(|p| [p.0, p.1, p.2])); g.rnd("3f64", &v) }
            3 => { let z = g.rng.r(0, 4); v.extend(to3(&p, z).iter().flat_map(|p| [p.0, p.1, p.2])); g.rnd("3f32", &v) }
            _ => {
                let n = g.rng.r(1, 12);
                v.push(n);
                let perm = g.rng.chance(2);
                for i in 0..n { v.push(if perm { g.rng.r(0, p.len() as i64 - 1) } else { i.min(p.len() as i64 - 1) }); }
                v.extend(flat(&p));
                g.rnd("ix", &v)
            }
        }
    }
}

// ------------------------------------------------ Visvalingam-Whyatt
/// the documented process on positions: nodes 0..n, removable set `rem`, position n stands for position 0 (closed 2D)
fn vw_ok(n: usize, wrap: bool, floor2: bool, del: usize, area: &dyn Fn(usize, usize, usize) -> i128, accept: &dyn Fn(&[usize]) -> bool, trace: &mut String) -> bool {
    // removable nodes
    let last = if wrap { n } else { n - 1 };
    let start: Vec<usize> = (1..last).collect();
    let mut seen: HashSet<Vec<usize>> = HashSet::new();
    let mut stack = vec![(start, 0usize)];
    let mut first = true;
    while let Some((rem, k)) = stack.pop() {
        if rem.is_empty() || (floor2 && rem.len() == 2) || k >= del {
            if first { *trace = format!("{:?}", rem); first = false; }
            if accept(&rem) { return true; }
            continue;
        }
        if !seen.insert(rem.clone()) { continue; }
        if seen.len() > 3000 { return true; }
        let ar: Vec<i128> = (0..rem.len()).map(|i| { let a = if i == 0 { 0 } else { rem[i - 1] }; let b = if i + 1 == rem.len() { last } else { rem[i + 1] }; area(a % n, rem[i], b % n) }).collect();
        let m = *ar.iter().min().unwrap();
        for i in 0..rem.len() { if ar[i] == m { let mut r = rem.clone(); let _ = r.remove(i); stack.push((r, k + 1)); } }
    }
    false
}
fn vw2<T: Mk2>(del: usize, p: &[P]) -> Result<(), String> {
    let v: Vec<T> = mkv(p);
    let out = v.simplify_vw(del);
    let o: Vec<(f64, f64)> = out.iter().map(|x| x.f()).collect();
    let n = p.len();
    let pf: Vec<(f64, f64)> = v.iter().map(|x| x.f()).collect();
    if n <= 2 { return if o == pf { Ok(()) } else { Err(format!("{:?}.simplify_vw({}) = {:?}", p, del, o)) }; }
    let wrap = p[0] == p[n - 1];
    let mut tr = String::new();
    let ok = vw_ok(n, wrap, true, del, &|a, b, c| { let x = cross(p[a], p[b], p[c]); x * x }, &|rem| {
        let mut w = vec![pf[0]]; w.extend(rem.iter().map(|i| pf[*i])); if !wrap { w.push(pf[n - 1]); } w == o }, &mut tr);
    if ok { Ok(()) } else { Err(format!("{:?}.simplify_vw({}) = {:?}: not the result of removing the smallest triangles (expected interior positions e.g. {})", p, del, o, tr)) }
}
fn a3(a: P3, b: P3, c: P3) -> i128 {
    let u = ((a.0 - b.0) as i128, (a.1 - b.1) as i128, (a.2 - b.2) as i128);
    let w = ((c.0 - b.0) as i128, (c.1 - b.1) as i128, (c.2 - b.2) as i128);
    let x = u.1 * w.2 - u.2 * w.1; let y = u.2 * w.0 - u.0 * w.2; let z = u.0 * w.1 - u.1 * w.0;
    x * x + y * y + z * z
}
fn vw3<T: Mk3>(del: usize, p: &[P3]) -> Result<(), String> {
    let v: Vec<T> = mkv3(p);
    let o: Vec<(f64, f64, f64)> = v.simplify_vw(del).iter().map(|x| x.f()).collect();
    let n = p.len();
    let pf: Vec<(f64, f64, f64)> = v.iter().map(|x| x.f()).collect();
    if n <= 2 { return if o == pf { Ok(()) } else { Err(format!("{:?}.simplify_vw({}) = {:?}", p, del, o)) }; }
    let mut tr = String::new();
    // known finding: the last point is dropped; nothing else may be
    let ok = vw_ok(n, false, false, del, &|a, b, c| a3(p[a], p[b], p[c]), &|rem| {
        let mut w = vec![pf[0]]; w.extend(rem.iter().map(|i| pf[*i]));
        if w == o { return true; }
        w.push(pf[n - 1]); w == o }, &mut tr);
    if ok { Ok(()) } else { Err(format!("{:?}.simplify_vw({}) = {:?}: not the result of removing the smallest triangles (expected interior positions e.g. {})", p, del, o, tr)) }
}
fn check_vw(tag: &str, v: &[i64]) -> Result<(), String> {
    match tag {
        "2f64" => vw2::<DVec2>(v[0] as usize, &pts(&v[1..])),
        "2f32" => vw2::<Vec2>(v[0] as usize, &pts(&v[1..])),
        "3f64" => vw3::<DVec3>(v[0] as usize, &pts3(&v[1..])),
        "3f32" => vw3::<Vec3>(v[0] as usize, &pts3(&v[1..])),
        _ => Err("tag".into()),
    }
}
fn gen_vw(g: &mut Gen) {
    for n in 1..=5 { for d in [0, 1, 2, 5] { if n == 5 && d == 5 { continue; } if n == 5 && !g.thorough && d != 1 { continue; }
        grid_seqs(3, n, true, &mut |p| { let mut v = vec![d]; v.extend(flat(p)); g.ex("2f64", &v);
            if p.len() < 5 { let mut v = vec![d]; v.extend(p.iter().flat_map(|p| [p.0, p.1, p.0 * p.1])); g.ex("3f64", &v); } }); } }
    for _ in 0..g.scale(60_000, 3_000_000) {
        if g.stop { return; }
        let n = g.rng.r(1, 24) as usize;
        let k = *g.rng.pick(&[5, 30, 60]);
        let mut p: Vec<P> = match g.rng.r(0, 2) { 0 => wiggle(&mut g.rng, n).iter().map(|p| (p.0 % 60, p.1 % 60)).collect(), _ => (0..n).map(|_| (g.rng.r(-k, k), g.rng.r(-k, k))).collect() };
        if n > 3 && g.rng.chance(3) { p[n - 1] = p[0]; }
        let d = g.rng.r(0, n as i64 + 1);
        let mut v = vec![d];
        match g.rng.r(0, 3) {
            0 => { v.extend(flat(&p)); g.rnd("2f64", &v) }
            1 => { v.extend(flat(&p)); g.rnd("2f32", &v) }
            2 => { let z = g.rng.r(0, 4); v.extend(to3(&p, z).iter().flat_map(|p| [p.0, p.1, p.2])); g.rnd("3f64", &v) }
            _ => { let z = g.rng.r(0, 4); v.extend(to3(&p, z).iter().flat_map(|p| [p.0 % 20, p.1 % 20, p.2])); g.rnd("3f32", &v) }
        }
    }
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "rdp", scales: &[-4, 5], gen: gen_rdp, check: check_rdp, bound: "exhaustive: short polylines on a small grid, several distances; random: longer integer polylines, 2D and 3D; a case is non-trivial when its numbers are not all equal" },
        Prop { id: "vw", scales: &[-4, 5], gen: gen_vw, check: check_vw, bound: "exhaustive: short polylines on a small grid, every count; random: longer integer polylines, 2D and 3D; a case is non-trivial when its numbers are not all equal" },
    ]
}
