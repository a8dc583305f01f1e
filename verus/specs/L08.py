from vgen import Spec, sub_rule, r_all, r_windows
from ring import BASE
import hull

R, CH = "src/linestring_2d.rs", "src/linestring_2d/convex_hull.rs"

PURE = """
pub open spec fn same<T>(a: T, b: T) -> bool { rx(a) == rx(b) && ry(a) == ry(b) }
/// the corners of a polyline that may repeat its first point at the end
pub open spec fn corners<T>(s: Seq<T>) -> Seq<T> { if s.len() > 0 && same(s[0], s[s.len() - 1]) { s.skip(1) } else { s } }
/// a convex hull: convex, counter-clockwise, at least three corners, given open or closed
pub open spec fn is_hull<T>(s: Seq<T>) -> bool { convex(corners(s)) }
/// the point's side of the i-th step
pub open spec fn side<T>(s: Seq<T>, i: int, p: T) -> real { turn(s[i - 1], s[i], p) }
/// neighbours on the polyline are neighbours on the hull
pub proof fn lemma_pairs<T>(a: Seq<T>) requires is_hull(a)
    ensures a.len() >= 3, forall|i: int, j: int, p: T| 0 <= i && j == i + 1 && j < a.len() && #[trigger] turn(a[i], a[j], p) < 0real ==> !inside(corners(a), p)
{
    let h = corners(a);
    assert forall|i: int, j: int, p: T| 0 <= i && j == i + 1 && j < a.len() && #[trigger] turn(a[i], a[j], p) < 0real implies !inside(h, p) by {
        let k = if h.len() == a.len() { i } else if i == 0 { h.len() - 1 } else { i - 1 };
        assert(edge(h, k, p) == turn(a[i], a[j], p));
    }
}
/// s is the run of corners the search for p has not excluded, with the first corner if `fan`
pub open spec fn part<T>(h: Seq<T>, s: Seq<T>, fan: bool, p: T, lo: int) -> bool {
    &&& 0 <= lo && lo + s.len() <= h.len() && s == h.subrange(lo, lo + s.len())
    &&& fan ==> lo >= 2 && s.len() >= 2 && turn(h[0], h[lo], p) >= 0real
    &&& !fan ==> lo == 0 && s.len() >= 3
    &&& lo + s.len() < h.len() ==> turn(h[0], h[lo + s.len() - 1], p) < 0real
}
pub open spec fn stands<T>(h: Seq<T>, s: Seq<T>, fan: bool, p: T) -> bool { exists|lo: int| #[trigger] part(h, s, fan, p, lo) }
pub proof fn lemma_start<T>(h: Seq<T>, p: T) requires h.len() >= 3 ensures stands(h, h, false, p) {
    assert(h.subrange(0, h.len() as int) =~= h);
    assert(part(h, h, false, p, 0));
}
pub proof fn lemma_step<T>(h: Seq<T>, s: Seq<T>, fan: bool, p: T)
    requires stands(h, s, fan, p)
    ensures
        // two neighbours in s are neighbours in h
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() && turn(#[trigger] s[i], #[trigger] s[j], p) < 0real ==> !inside(h, p) && !strictly(h, p),
        forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() && turn(#[trigger] s[i], #[trigger] s[j], p) <= 0real ==> !strictly(h, p),
        !fan ==> s[0] == h[0],
        forall|m: int| (if fan { 1int } else { 2int }) <= m <= s.len() - 2 && turn(h[0], s[m], p) >= 0real ==> stands(h, #[trigger] s.subrange(m, s.len() as int), true, p),
        forall|m: int| (if fan { 1int } else { 2int }) <= m <= s.len() - 2 && turn(h[0], s[m], p) < 0real ==> stands(h, #[trigger] s.subrange(0, m + 1), fan, p),
{
    let lo = choose|lo: int| #[trigger] part(h, s, fan, p, lo);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < s.len() implies edge(h, lo + i, p) == turn(#[trigger] s[i], #[trigger] s[j], p) by {}
    assert forall|m: int| (if fan { 1int } else { 2int }) <= m <= s.len() - 2 && turn(h[0], s[m], p) >= 0real implies stands(h, #[trigger] s.subrange(m, s.len() as int), true, p) by {
        let t = s.subrange(m, s.len() as int);
        assert(t =~= h.subrange(lo + m, lo + m + t.len()));
        assert(part(h, t, true, p, lo + m));
    }
    assert forall|m: int| (if fan { 1int } else { 2int }) <= m <= s.len() - 2 && turn(h[0], s[m], p) < 0real implies stands(h, #[trigger] s.subrange(0, m + 1), fan, p) by {
        let t = s.subrange(0, m + 1);
        assert(t =~= h.subrange(lo, lo + t.len()));
        assert(part(h, t, fan, p, lo));
    }
}
/// the last tests are those of a triangle
pub proof fn lemma_last<T>(h: Seq<T>, s: Seq<T>, fan: bool, p: T)
    requires convex(h), stands(h, s, fan, p), if fan { s.len() == 2 } else { s.len() == 3 },
    ensures fan ==> turn(h[0], s[0], p) >= 0real, !fan ==> s[0] == h[0],
        turn(s[s.len() - 1], h[0], p) < 0real ==> !inside(h, p),
        turn(s[s.len() - 1], h[0], p) <= 0real ==> !strictly(h, p),
        (forall|i: int| 0 < i < s.len() ==> #[trigger] side(s, i, p) >= 0real) && turn(s[s.len() - 1], h[0], p) >= 0real ==> inside(h, p),
        (forall|i: int| 0 < i < s.len() ==> #[trigger] side(s, i, p) > 0real) && turn(s[s.len() - 1], h[0], p) > 0real ==> strictly(h, p),
{
    let lo = choose|lo: int| #[trigger] part(h, s, fan, p, lo);
    let (b, c) = if fan { (lo, lo + 1) } else { (1int, 2int) };
    let m = s.len() - 1;
    lemma_cyc(h[0], s[m], p);
    if lo + s.len() == h.len() { assert(edge(h, h.len() - 1, p) == turn(s[m], h[0], p)); } else { lemma_cyc(h[0], s[m], p); lemma_cyc(s[m], h[0], p); }
    assert(side(s, m, p) == turn(h[b], h[c], p));
    if !fan { assert(side(s, 1, p) == turn(h[0], h[1], p)); }
    if turn(h[0], h[b], p) >= 0real && turn(h[b], h[c], p) >= 0real && turn(h[c], h[0], p) >= 0real { lemma_triangle(h, 0, b, c, p); }
}
"""


def spec(repo):
    s = Spec("L08", repo)
    s.prelude("vec", "stdx", "iters")
    s.broadcast("scal", "vec2", "veq")
    s.pure(BASE)
    s.pure(hull.RING); s.pure(hull.PURE); s.pure(PURE)
    s.assumptions.append("L08: rayon's par_iter().all(..) equals iter().all(..) for a predicate without effects")
    s.use("vstd::std_specs::iter::IteratorSpec")
    s.fn(CH, None, "cross_2d", ens="rv(r) == turn(a, b, c)")
    s.fn(CH, None, "is_point_left", ens="r == (turn(a, b, c) > 0real)")
    s.fn(CH, None, "is_point_left_allow_collinear", ens="r == (turn(a, b, c) >= 0real)")
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    s.fn(R, "LineString2 for Vec", "is_connected", ens="r == (self@.len() == 0 || same(self@[0], self@.last()))", tens="r == (self.pts().len() == 0 || same(self.pts()[0], self.pts().last()))")
    s.fn(R, "LineString2 for Vec", "point_count", ens="r == if self@.len() > 2 && same(self@[0], self@.last()) { self@.len() - 1 } else { self@.len() as int }",
         tens="r == if self.pts().len() > 2 && same(self.pts()[0], self.pts().last()) { self.pts().len() - 1 } else { self.pts().len() as int }")
    for name, pred, cmp in (("contains_point_exclusive", "strictly", ">"), ("contains_point_inclusive", "inside", ">=")):
        win = lambda k: (f"""invariant h == corners(input@), is_hull(input@) ==> h.len() >= 3 && stands(h, slice@, retain_index_0, p),
                k{k}__ >= -1, k{k}__ + 1 <= slice@.len(), win_rest(w{k}__) == slice@.skip(k{k}__ + 1), win_size(w{k}__) == 2,
                forall|i: int| 0 < i <= k{k}__ + 1 && i < slice@.len() ==> #[trigger] side(slice@, i, p) {cmp} 0real,
            ensures forall|i: int| 0 < i < slice@.len() ==> #[trigger] side(slice@, i, p) {cmp} 0real,
            decreases slice@.len() - k{k}__""")
        step = lambda k: f"""proof {{ if is_hull(input@) {{ lemma_step(h, slice@, retain_index_0, p); }}
            let q = win_rest(w{k}__);
            if q.len() >= 2 {{ assert(q.take(2)[0] == slice@[k{k}__ + 1] && q.take(2)[1] == slice@[k{k}__ + 2]); }} }}"""
        s.fn(CH, None, name, rules=[r_windows], ens=f"is_hull(input@) ==> r == {pred}(corners(input@), p)",
             hints=[("entry", "let ghost h = corners(input@); proof { if is_hull(input@) { lemma_start(h, p); } }"),
                    (("before_loop", 0), "assert(slice@ =~= h); assert(h.len() > 0 ==> input@[input_offset as int] == h[0]);"),
                    (("body_start", 0), "proof { if is_hull(input@) { lemma_step(h, slice@, retain_index_0, p); } }"),
                    (("body_start", 1), step(0)), (("body_start", 2), step(1)),
                    (("after_loop", 0), "proof { if is_hull(input@) { lemma_step(h, slice@, retain_index_0, p); lemma_last(h, slice@, retain_index_0, p); } }")],
             loops=[("while", "invariant h == corners(input@), h.len() > 0, slice@.len() > 0, input_offset < input@.len(), input@[input_offset as int] == h[0], "
                     "is_hull(input@) ==> h.len() >= 3 && stands(h, slice@, retain_index_0, p), slice@.len() <= input@.len(), input@.len() <= usize::MAX, retain_index_0 ==> 2 <= slice@.len() < input@.len() decreases slice@.len()"),
                    ("loop", win(0)), ("loop", win(1))])
        # the method answers no for a polyline that is not closed
        s.fn(R, "LineString2 for Vec", name, ens=f"is_hull(self@) ==> r == (same(self@[0], self@.last()) && {pred}(corners(self@), p))")
    par = sub_rule("par_iter", r"\bpar_iter\b", "iter")
    for name, rules in (("contains_convex_hull", [r_all]), ("contains_convex_hull_par", [par, r_all])):
        s.fn(CH, None, name, rules=rules, ens="""is_hull(a@) ==> r == forall|i: int| 0 <= i < b@.len() ==> #[trigger] inside(corners(a@), b@[i]),
            a@.len() <= 1 ==> !r""",
             hints=[("entry", "proof { if is_hull(a@) { lemma_pairs(a@); } }")],
             loops=[("for", """invariant it0.seq().len() == b@.len(), forall|i: int| 0 <= i < b@.len() ==> *(#[trigger] it0.seq()[i]) == b@[i],
                is_hull(a@) && all__ ==> forall|i: int| 0 <= i < it0.index@ ==> #[trigger] inside(corners(a@), b@[i]),
                is_hull(a@) && !all__ ==> exists|i: int| 0 <= i < b@.len() && !#[trigger] inside(corners(a@), b@[i]),
              ensures is_hull(a@) && all__ ==> forall|i: int| 0 <= i < b@.len() ==> #[trigger] inside(corners(a@), b@[i]),""")])
    return s
