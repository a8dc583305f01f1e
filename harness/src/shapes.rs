use crate::fw::*;
use linestring::prelude::divide_into_shapes;
use std::collections::{BTreeMap, BTreeSet};

fn check(tag: &str, v: &[i64]) -> Result<(), String> {
    if tag != "e" { return Err("tag".into()); }
    let ix: Vec<usize> = v.iter().map(|i| *i as usize).collect();
    let mut adj: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut edges: BTreeSet<(usize, usize)> = BTreeSet::new();
    for c in ix.chunks_exact(2) {
        let _ = edges.insert((c[0].min(c[1]), c[0].max(c[1])));
        let _ = adj.entry(c[0]).or_default().insert(c[1]);
        let _ = adj.entry(c[1]).or_default().insert(c[0]);
    }
    let (shapes, _vob) = divide_into_shapes(&ix);
    let bad = |m: String| Err(format!("divide_into_shapes({:?}) = {:?}: {}", ix, shapes, m));
    let mut used: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    for s in &shapes {
        if s.len() < 2 { return bad(format!("shape {:?} has no edge", s)); }
        for w in s.windows(2) {
            let e = (w[0].min(w[1]), w[0].max(w[1]));
            if !edges.contains(&e) { return bad(format!("edge {:?} of shape {:?} is not an input edge", e, s)); }
            *used.entry(e).or_insert(0) += 1;
        }
        for (i, x) in s.iter().enumerate() {
            if i > 0 && i + 1 < s.len() && adj[x].len() != 2 { return bad(format!("shape {:?} continues through the junction or end vertex {}", s, x)); }
        }
        let closed = s[0] == s[s.len() - 1];
        if !closed {
            for x in [s[0], s[s.len() - 1]] { if adj[&x].len() == 2 { return bad(format!("open shape {:?} stops at vertex {} which has two neighbours", s, x)); } }
        }
    }
    for e in &edges {
        match used.get(e) { Some(1) => (), Some(n) => return bad(format!("edge {:?} is used {} times", e, n)), None => return bad(format!("edge {:?} is lost", e)) }
    }
    Ok(())
}
fn gen(g: &mut Gen) {
    // all edge lists of up to 4 (5) edges over 5 vertices, no self loops
    fn rec(g: &mut Gen, v: &mut Vec<i64>, left: usize, nv: i64) {
        g.ex("e", v);
        if left == 0 || g.stop { return; }
        for a in 0..nv { for b in 0..nv { if a != b { v.push(a); v.push(b); rec(g, v, left - 1, nv); let _ = v.pop(); let _ = v.pop(); } } }
    }
    let d = if g.thorough { 5 } else { 4 };
    rec(g, &mut vec![], d, 5);
    for _ in 0..g.scale(300_000, 10_000_000) {
        if g.stop { return; }
        let nv = *g.rng.pick(&[4, 6, 9, 14, 40]);
        let off = if g.rng.chance(4) { g.rng.r(0, 70) } else { 0 };
        let mut v: Vec<i64> = vec![];
        for _ in 0..g.rng.r(1, 5) {
            match g.rng.r(0, 3) {
                0 => { let (a, b) = (g.rng.r(0, nv), g.rng.r(0, nv)); if a != b { v.extend([a, b]); } }
                1 => { // a path
                    let mut a = g.rng.r(0, nv);
                    for _ in 0..g.rng.r(1, 6) { let b = g.rng.r(0, nv); if a != b { v.extend([a, b]); a = b; } }
                }
                2 => { // a cycle over a contiguous range
                    let (a, l) = (g.rng.r(0, nv), g.rng.r(3, 8));
                    for i in 0..l { v.extend([a + i, a + (i + 1) % l]); }
                }
                _ => { let a = g.rng.r(0, nv); for _ in 0..g.rng.r(1, 4) { let b = g.rng.r(0, nv); if a != b { v.extend([a, b]); } } }
            }
        }
        for x in v.iter_mut() { *x += off; }
        // shuffle edges and directions
        let m = v.len() / 2;
        for i in (1..m).rev() { let j = g.rng.r(0, i as i64) as usize; v.swap(2 * i, 2 * j); v.swap(2 * i + 1, 2 * j + 1); }
        for i in 0..m { if g.rng.chance(2) { v.swap(2 * i, 2 * i + 1); } }
        if g.rng.chance(9) { let x = g.rng.r(0, nv); v.push(x); } // an odd trailing index is ignored
        g.rnd("e", &v);
    }
}
pub fn props() -> Vec<Prop> { vec![Prop { id: "shapes", scales: &[], gen, check, bound: "exhaustive: short edge lists on few vertices; random: larger edge lists with loops, junctions and duplicates; a case is non-trivial when its numbers are not all equal" }] }
