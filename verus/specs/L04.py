from vgen import Spec, sub_rule, r_enumerate
import L05
import L18
from L02 import GHOST as L02_GHOST

R2 = "src/linestring_2d.rs"

PURE = """
pub proof fn lemma_zero_sq(r: V) requires r.x != 0real || r.y != 0real ensures vdot(r, r) > 0real { lemma_sq2(r.x, r.y); }
pub open spec fn folds(a: V, m: V, b: V) -> bool { vcross(vsub(a, m), vsub(b, m)) == 0real && vdot(vsub(a, m), vsub(b, m)) > 0real }
/// two segments overlap in more than a point
pub open spec fn two_common(a: V, b: V, c: V, d: V) -> bool {
    exists|x: V, y: V| x != y && #[trigger] on_seg(a, b, x) && on_seg(c, d, x) && #[trigger] on_seg(a, b, y) && on_seg(c, d, y)
}
pub proof fn lemma_ends(a: V, b: V) ensures on_seg(a, b, a), on_seg(a, b, b) {
    let d = vsub(b, a);
    assert(d.x * 0real == 0real && d.y * 0real == 0real && d.x * 1real == d.x && d.y * 1real == d.y);
    assert(a == vat(a, d, 0real)); assert(b == vat(a, d, 1real));
}
pub proof fn lemma_fold(a: V, m: V, b: V)
    requires a != m, b != m,
    ensures folds(a, m, b) ==> two_common(a, m, m, b),
        !folds(a, m, b) ==> one_common(a, m, m, b, m),
{
    let (p, q) = (vsub(a, m), vsub(b, m));
    lemma_zero_sq(p); lemma_zero_sq(q);
    lemma_ends(a, m); lemma_ends(m, b);
    if vcross(p, q) != 0real {
        assert forall|x: V| (#[trigger] on_seg(a, m, x) && on_seg(m, b, x)) <==> x == m by {
            if on_seg(a, m, x) && on_seg(m, b, x) {
                lemma_seg_sym(a, m, x);
                let t = choose|t: real| 0real <= t <= 1real && x == #[trigger] vat(m, p, t);
                let u = choose|u: real| 0real <= u <= 1real && x == #[trigger] vat(m, q, u);
                assert(vsub(m, m).x == 0real && vsub(m, m).y == 0real);
                assert(m == vat(m, p, 0real)) by { assert(p.x * 0real == 0real && p.y * 0real == 0real); }
                let o = vsub(m, m);
                assert(0real * vcross(p, q) == 0real) by(nonlinear_arith);
                assert(vcross(o, q) == 0real && vcross(o, p) == 0real) by(nonlinear_arith) requires o.x == 0real, o.y == 0real,
                    vcross(o, q) == o.x * q.y - o.y * q.x, vcross(o, p) == o.x * p.y - o.y * p.x;
                lemma_cramer_unique(m, p, m, q, 0real, 0real, t, u);
            }
        }
    } else {
        let k = vdot(q, p) / vdot(p, p);
        assert(vcross(q, p) == 0real) by(nonlinear_arith) requires vcross(p, q) == 0real, vcross(p, q) == p.x * q.y - p.y * q.x, vcross(q, p) == q.x * p.y - q.y * p.x;
        lemma_multiple(q, p, k);
        lemma_quot(vdot(q, p), vdot(p, p));
        let (n, w) = (vdot(p, p), vdot(q, p));
        assert(vdot(p, q) == w) by(nonlinear_arith) requires vdot(p, q) == p.x * q.x + p.y * q.y, w == q.x * p.x + q.y * p.y;
        if w > 0real {
            assert(k > 0real) by(nonlinear_arith) requires k * n == w, w > 0real, n > 0real;
            if k >= 1real {
                // a lies on the segment m b
                let t = 1real / k;
                assert(t * k == 1real && 0real <= t <= 1real) by(nonlinear_arith) requires t == 1real / k, k >= 1real;
                assert(p.x == q.x * t) by(nonlinear_arith) requires q.x == p.x * k, t * k == 1real;
                assert(p.y == q.y * t) by(nonlinear_arith) requires q.y == p.y * k, t * k == 1real;
                assert(a == vat(m, q, t));
                assert(on_seg(m, b, a));
                assert(on_seg(a, m, a)); assert(on_seg(a, m, m));
            } else {
                assert(b == vat(m, p, k));
                assert(on_seg(m, a, b));
                lemma_seg_sym(m, a, b);
                assert(on_seg(a, m, b)); assert(on_seg(a, m, m));
            }
        } else {
            assert(k <= 0real) by(nonlinear_arith) requires k * n == w, w <= 0real, n > 0real;
            assert forall|x: V| (#[trigger] on_seg(a, m, x) && on_seg(m, b, x)) <==> x == m by {
                if on_seg(a, m, x) && on_seg(m, b, x) {
                    lemma_seg_sym(a, m, x);
                    let t = choose|t: real| 0real <= t <= 1real && x == #[trigger] vat(m, p, t);
                    let u = choose|u: real| 0real <= u <= 1real && x == #[trigger] vat(m, q, u);
                    let g = k * u;
                    assert(g <= 0real) by(nonlinear_arith) requires g == k * u, k <= 0real, u >= 0real;
                    assert(q.x * u == p.x * g) by(nonlinear_arith) requires q.x == p.x * k, g == k * u;
                    assert(q.y * u == p.y * g) by(nonlinear_arith) requires q.y == p.y * k, g == k * u;
                    if p.x != 0real { assert(t == g) by(nonlinear_arith) requires p.x != 0real, p.x * t == p.x * g; }
                    else { assert(t == g) by(nonlinear_arith) requires p.y != 0real, p.y * t == p.y * g; }
                    assert(t == 0real);
                    assert(p.x * t == 0real && p.y * t == 0real) by(nonlinear_arith) requires t == 0real;
                }
            }
        }
    }
}
"""

GHOST = """
pub open spec fn no_rep<T>(s: Seq<T>) -> bool { forall|i: int| 0 <= i < s.len() - 1 ==> vv(#[trigger] s[i]) != vv(s[i + 1]) }
pub open spec fn is_end<T>(l: Line2<T>, x: V) -> bool { x == vv(l.start) || x == vv(l.end) }
/// the lines overlap in more than a point, or share a point that is not an end point of both
pub open spec fn conf<T>(a: Line2<T>, b: Line2<T>) -> bool {
    ||| two_common(vv(a.start), vv(a.end), vv(b.start), vv(b.end))
    ||| exists|x: V| #[trigger] on(a, x) && on(b, x) && !(is_end(a, x) && is_end(b, x))
}
pub open spec fn cross<T>(s: Seq<T>, i: int, j: int) -> bool { conf(edge_at(s, i), edge_at(s, j)) }
pub open spec fn self_cross<T>(s: Seq<T>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() - 1 && #[trigger] cross(s, i, j) }
/// the answer for two edges that are not consecutive, from the points they share
pub open spec fn verdict<T>(a: Line2<T>, b: Line2<T>, r: Option<Intersection<T>>) -> bool {
    match r {
        None => false,
        Some(Intersection::Intersection(p)) => !(is_end(a, vv(p)) && is_end(b, vv(p))),
        Some(Intersection::Overlap(_)) => true,
    }
}
pub proof fn lemma_verdict<T>(a: Line2<T>, b: Line2<T>)
    ensures forall|r: Option<Intersection<T>>| #[trigger] isect(a, b, r) ==> (verdict(a, b, r) <==> conf(a, b))
{
    assert forall|r: Option<Intersection<T>>| #[trigger] isect(a, b, r) implies (verdict(a, b, r) <==> conf(a, b)) by {
        if true {
                if two_common(vv(a.start), vv(a.end), vv(b.start), vv(b.end)) {
                    let (y, z) = choose|y: V, z: V| y != z && #[trigger] on_seg(vv(a.start), vv(a.end), y) && on_seg(vv(b.start), vv(b.end), y)
                        && #[trigger] on_seg(vv(a.start), vv(a.end), z) && on_seg(vv(b.start), vv(b.end), z);
                    assert(on(a, y)); assert(on(b, y)); assert(on(a, z)); assert(on(b, z));
                }
        }
        match r {
            None => {}
            Some(Intersection::Intersection(p)) => {
                let x = vv(p);
                assert(on(a, x)); assert(on(b, x));
            }
            Some(Intersection::Overlap(l)) => {
                lemma_ends_on(l);
                let (x, y) = (vv(l.start), vv(l.end));
                assert(on(a, x)); assert(on(b, x)); assert(on(a, y)); assert(on(b, y));
                assert(x != y && on_seg(vv(a.start), vv(a.end), x) && on_seg(vv(b.start), vv(b.end), x)
                    && on_seg(vv(a.start), vv(a.end), y) && on_seg(vv(b.start), vv(b.end), y));
            }
        }
    }
}
pub proof fn lemma_next<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len() - 2, no_rep(s)
    ensures cross(s, i, i + 1) <==> folds(vv(s[i]), vv(s[i + 1]), vv(s[i + 2]))
{
    assert(vv(s[i]) != vv(s[i + 1])); assert(vv(s[i + 1]) != vv(s[i + 2]));
    let (e, f) = (edge_at(s, i), edge_at(s, i + 1));
    let (a, m, b) = (vv(s[i]), vv(s[i + 1]), vv(s[i + 2]));
    lemma_fold(a, m, b);
    if !folds(a, m, b) && cross(s, i, i + 1) {
        if two_common(a, m, m, b) {
            let (y, z) = choose|y: V, z: V| y != z && #[trigger] on_seg(a, m, y) && on_seg(m, b, y) && #[trigger] on_seg(a, m, z) && on_seg(m, b, z);
            assert(y == m && z == m);
        } else {
            let x = choose|x: V| #[trigger] on(e, x) && on(f, x) && !(is_end(e, x) && is_end(f, x));
            assert(on_seg(a, m, x) && on_seg(m, b, x));
        }
    }
}
pub open spec fn clear_row<T>(s: Seq<T>, i: int, n: int) -> bool { forall|j: int| i < j < n ==> !(#[trigger] cross(s, i, j)) }
pub open spec fn clear_rows<T>(s: Seq<T>, m: int) -> bool { forall|i: int, j: int| 0 <= i < m && i < j < s.len() - 1 ==> !(#[trigger] cross(s, i, j)) }
"""

SWEEP = """
/// l is the edge e as it is or reversed
pub proof fn lemma_same<T>(l: Line2<T>, e: Line2<T>)
    requires same_line(e, l)
    ensures forall|p: V| #[trigger] on(l, p) <==> on(e, p), forall|p: V| #[trigger] interior(l, p) ==> !is_end(e, p)
{
    assert forall|p: V| #[trigger] on(l, p) <==> on(e, p) by {
        if l.start != e.start || l.end != e.end { lemma_seg_sym(vv(l.start), vv(l.end), p); lemma_seg_sym(vv(e.start), vv(e.end), p); }
    }
}
pub open spec fn edges_of<T>(s: Seq<T>, l: Seq<Line2<T>>) -> bool { l.len() == max0(s.len() - 1) && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == edge_at(s, i) }
/// a report of the sweep line over the edges is a crossing of the polyline
pub broadcast proof fn lemma_some<T>(s: Seq<T>, old_: Seq<Line2<T>>, input: Seq<Line2<T>>, k: int, ls: Seq<Line2<T>>)
    requires #[trigger] some_report(ls, true), #[trigger] taken(old_, input, k, ls), #[trigger] edges_of(s, input), old_.len() == 0, k == input.len()
    ensures self_cross(s)
{
    let (p, ids) = choose|p: V, ids: Seq<usize>| genuine(ls, p, ids, true);
    let x = choose|x: usize| #[trigger] ids.contains(x) && interior(ls[x as int], p);
    let (a, b) = choose|a: usize, b: usize| a != b && #[trigger] ids.contains(a) && #[trigger] ids.contains(b);
    let y = if a == x { b } else { a };
    let (i, j) = (x as int, y as int);
    assert(ids.contains(y) && i != j && j < ls.len());
    assert(same_line(input[i], ls[old_.len() + i]) && same_line(input[j], ls[old_.len() + j]));
    lemma_same(ls[i], edge_at(s, i)); lemma_same(ls[j], edge_at(s, j));
    assert(on(edge_at(s, i), p) && on(edge_at(s, j), p) && !is_end(edge_at(s, i), p));
    if i < j { assert(cross(s, i, j)); } else { assert(cross(s, j, i)); }
}
/// the edges of s
pub open spec fn edges<T>(s: Seq<T>) -> Seq<Line2<T>> { Seq::new(max0(s.len() - 1) as nat, |i: int| edge_at(s, i)) }
pub open spec fn general<T>(s: Seq<T>) -> bool { gp(sgs(edges(s))) }
/// the lines of the sweep are the edges, and a crossing of the polyline is one of theirs
pub broadcast proof fn lemma_full<T>(s: Seq<T>, old_: Seq<Line2<T>>, input: Seq<Line2<T>>, k: int, ls: Seq<Line2<T>>)
    requires #[trigger] taken(old_, input, k, ls), #[trigger] edges_of(s, input), old_.len() == 0, k == input.len(), no_rep(s)
    ensures general(s) ==> gp(sgs(ls)), general(s) && self_cross(s) ==> some_cross(ls)
{
    let (f, g) = (sgs(edges(s)), sgs(ls));
    assert forall|i: int| 0 <= i < f.len() implies f[i] == g[i] by {
        assert(same_line(input[i], ls[old_.len() + i]));
        assert(vv(s[i]) != vv(s[i + 1]));
        assert(edge_at(s, i) == input[i]);
    }
    assert(f =~= g);
    if general(s) && self_cross(s) {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() - 1 && #[trigger] cross(s, i, j);
        let (a, b) = (edge_at(s, i), edge_at(s, j));
        g_up(f, i); g_up(f, j);
        assert(f[i] == sg(a) && f[j] == sg(b));
        let x = if two_common(vv(a.start), vv(a.end), vv(b.start), vv(b.end)) {
            let (y, z) = choose|y: V, z: V| y != z && #[trigger] on_seg(vv(a.start), vv(a.end), y) && on_seg(vv(b.start), vv(b.end), y) && #[trigger] on_seg(vv(a.start), vv(a.end), z) && on_seg(vv(b.start), vv(b.end), z);
            lemma_on(a, y); lemma_on(b, y); lemma_on(a, z); lemma_on(b, z);
            assert(on(a, y) && on(b, y) && on(a, z) && on(b, z));
            g_once(f, i, j, y, z);
            y
        } else { choose|x: V| #[trigger] on(a, x) && on(b, x) && !(is_end(a, x) && is_end(b, x)) };
        lemma_on(a, x); lemma_on(b, x);
        g_meet(f, i, j, x);
        assert(xing(g, i, j, x));
    }
}
/// the items of a pair iterator over s
pub fn wlist_<T: GenericVector2>(w: WindowIterator<'_, T>, s: Ghost<Seq<T>>) -> (r: Vec<Line2<T>>)
    requires win_at(w, s@, 0)
    ensures edges_of(s@, r@)
{
    let mut w = w; let mut r = Vec::new();
    loop
        invariant win_at(w, s@, r@.len() as int), r@.len() <= max0(s@.len() - 1), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == edge_at(s@, i),
        ensures r@.len() == max0(s@.len() - 1),
        decreases s@.len() - r@.len()
    {
        match w.next() { Some(l) => { r.push(l); } None => { break; } }
    }
    r
}
"""


def spec(repo):
    s = Spec("L04", repo)
    L05.parts(s)
    L18.window_base(s, 2)
    a = L02_GHOST.index("pub proof fn lemma_ends_on"); b = L02_GHOST.index("/// the points collected")
    s.ghost(L02_GHOST[:L02_GHOST.index("pub open spec fn nedges")] + L02_GHOST[a:b])
    s.pure(PURE)
    s.ghost(GHOST)
    s.ghost(SWEEP)
    s.assumptions.append("L04: for ten or more points the equivalence is stated for polylines in general position (no horizontal edge, edges meet in inner points of both or in shared ends, distinct event points at distinct heights); outside of it a report is right, a miss is not excluded")
    ll = sub_rule("iterator_len", r"\bself\.0\.len\(\)", "self.0.it_len()")
    s.fn(R2, "WindowIterator", "len", rules=[ll], ens="forall|s: Seq<T>, k: int| #[trigger] win_at(*self, s, k) ==> r == max0(s.len() - k - 1)")
    s.fn(R2, "Line2", "intersection_point3",
         ens="""r is Ok, r->Ok_0 is Some <==> folds(vv(start), vv(middle), vv(end)),
        r->Ok_0 is Some ==> r->Ok_0->0 is Overlap""")
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    L18.fn_window_iter(s, 2)
    s.fn(R2, "LineString2 for Vec", "is_self_intersecting", rules=[r_enumerate, sub_rule("item_list", r"\.with_lines\(self\.window_iter\(\)\)", ".with_lines(wlist_(self.window_iter(), Ghost(self@)))")],
         req="no_rep(self.pts())",
         ens="self@.len() < 10 ==> r is Ok && (r->Ok_0 <==> self_cross(self@)), r is Ok && r->Ok_0 ==> self_cross(self@), r is Ok && general(self@) ==> (r->Ok_0 <==> self_cross(self@))",
         tens="self.pts().len() < 10 ==> r is Ok && (r->Ok_0 <==> self_cross(self.pts())), r is Ok && r->Ok_0 ==> self_cross(self.pts()), r is Ok && general(self.pts()) ==> (r->Ok_0 <==> self_cross(self.pts()))",
         loops=[("loop", """invariant 3 <= self@.len() <= usize::MAX, no_rep(self@), win_at(w0__, self@, e0__ as int), take0__ == self@.len() - 2, e0__ <= take0__,
                clear_rows(self@, e0__ as int),
            ensures clear_rows(self@, self@.len() - 2),
            decreases self@.len() - e0__"""),
                ("loop", """invariant 3 <= self@.len() <= usize::MAX, no_rep(self@), win_at(w1__, self@, e1__ as int), e1__ <= self@.len() - 1, skip1__ == l0.0 + 1, l0.0 < self@.len() - 2,
                l0.1 == edge_at(self@, l0.0 as int), clear_row(self@, l0.0 as int, e1__ as int),
            ensures clear_row(self@, l0.0 as int, self@.len() - 1),
            decreases self@.len() - e1__""")],
         hints=[(("after", "let i1__ = e1__ ; e1__ = e1__ + 1 ;"), """proof { if i1__ >= skip1__ {
                let (i, j) = (l0.0 as int, i1__ as int);
                assert(item1__ == edge_at(self@, j)); assert(l0.1 == edge_at(self@, i));
                assert(cross(self@, i, j) == conf(edge_at(self@, i), edge_at(self@, j)));
                if j == i + 1 { lemma_next(self@, i); } else { lemma_verdict(edge_at(self@, i), edge_at(self@, j)); }
            } }"""),
                ("entry", "broadcast use lemma_some; broadcast use lemma_full;")])
    return s
