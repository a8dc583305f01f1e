from vgen import Spec, sub_rule
import L01
import L18

R2 = "src/linestring_2d.rs"

GHOST = """
pub open spec fn edge_at<T>(s: Seq<T>, i: int) -> Line2<T> { Line2 { start: s[i], end: s[i + 1] } }
pub open spec fn nedges<T>(s: Seq<T>) -> int { max0(s.len() - 1) }
pub open spec fn miss<T>(s: Seq<T>, i: int, o: Line2<T>) -> bool { isect(edge_at(s, i), o, None) }
/// edge i misses the line
pub open spec fn all_miss<T>(s: Seq<T>, o: Line2<T>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] miss(s, i, o) }
pub open spec fn listed(pos: Seq<int>, i: int) -> bool { exists|j: int| 0 <= j < pos.len() && #[trigger] pos[j] == i }
/// r are the results of the edges pos[0] < pos[1] < .. (of the first n), all other edges miss
pub open spec fn edge_results<T>(s: Seq<T>, o: Line2<T>, n: int, r: Seq<Intersection<T>>, pos: Seq<int>) -> bool {
    &&& pos.len() == r.len()
    &&& forall|j: int| 0 <= j < pos.len() ==> 0 <= #[trigger] pos[j] < n && isect(edge_at(s, pos[j]), o, Some(r[j]))
    &&& forall|i: int, j: int| 0 <= i < j < pos.len() ==> #[trigger] pos[i] < #[trigger] pos[j]
    &&& forall|i: int| 0 <= i < n ==> #[trigger] miss(s, i, o) || listed(pos, i)
}
/// x is common to the line and some of the first n edges
pub open spec fn shared<T>(s: Seq<T>, o: Line2<T>, n: int, x: V) -> bool {
    on(o, x) && exists|i: int| 0 <= i < n && on(#[trigger] edge_at(s, i), x)
}
pub proof fn lemma_results<T>(s: Seq<T>, o: Line2<T>, n: int, q0: Seq<Intersection<T>>, q1: Seq<Intersection<T>>, p0: Seq<int>, p1: Seq<int>)
    requires 0 <= n, edge_results(s, o, n, q0, p0),
        ({ ||| q1 == q0 && p1 == p0 && isect(edge_at(s, n), o, None)
           ||| q1.len() == q0.len() + 1 && q1 == q0.push(q1.last()) && p1 == p0.push(n) && isect(edge_at(s, n), o, Some(q1.last())) }),
    ensures edge_results(s, o, n + 1, q1, p1),
{
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] miss(s, i, o) || listed(p1, i) by {
        if p1 != p0 {
            assert(p1[p0.len() as int] == n);
            if i < n && listed(p0, i) { let j = choose|j: int| 0 <= j < p0.len() && #[trigger] p0[j] == i; assert(p1[j] == i); }
        }
    }
}
pub open spec fn some_of<T>(q: Seq<T>, x: V) -> bool { has_pt(q, x.x, x.y) }
pub open spec fn two_inv<T>(s: Seq<T>, o: Line2<T>, n: int, q: Seq<T>) -> bool {
    &&& q.len() <= 2
    &&& forall|j: int| 0 <= j < q.len() ==> shared(s, o, n, vv(#[trigger] q[j]))
    &&& q.len() == 2 ==> vv(q[0]) != vv(q[1])
    &&& q.len() < 2 ==> forall|x: V| #[trigger] shared(s, o, n, x) ==> some_of(q, x)
}
pub proof fn lemma_shared_next<T>(s: Seq<T>, o: Line2<T>, n: int, x: V)
    requires 0 <= n ensures shared(s, o, n + 1, x) <==> shared(s, o, n, x) || (on(o, x) && on(edge_at(s, n), x))
{
    if on(o, x) && on(edge_at(s, n), x) { assert(0 <= n < n + 1 && on(edge_at(s, n), x)); }
    if shared(s, o, n + 1, x) && !(on(o, x) && on(edge_at(s, n), x)) {
        let i = choose|i: int| 0 <= i < n + 1 && on(#[trigger] edge_at(s, i), x);
        assert(0 <= i < n && on(edge_at(s, i), x));
    }
    if shared(s, o, n, x) {
        let i = choose|i: int| 0 <= i < n && on(#[trigger] edge_at(s, i), x);
        assert(0 <= i < n + 1 && on(edge_at(s, i), x));
    }
}
pub proof fn lemma_ends_on<T>(l: Line2<T>) ensures on(l, vv(l.start)), on(l, vv(l.end)) {
    let (a, b) = (vv(l.start), vv(l.end));
    lemma_on_line_point(a, b, a);
    lemma_on_line_point(a, b, b);
}
/// the points collected after one more edge with result r
pub open spec fn collected<T>(q: Seq<T>, r: Option<Intersection<T>>) -> Seq<T> {
    match r {
        None => q,
        Some(Intersection::Intersection(p)) => if some_of(q, vv(p)) { q } else { q.push(p) },
        Some(Intersection::Overlap(l)) => {
            let qs = if some_of(q, vv(l.start)) { q } else { q.push(l.start) };
            if qs.len() < 2 && !some_of(qs, vv(l.end)) { qs.push(l.end) } else { qs }
        },
    }
}
pub proof fn lemma_two_all<T>(s: Seq<T>, o: Line2<T>, n: int, q0: Seq<T>)
    requires 0 <= n, two_inv(s, o, n, q0), q0.len() < 2,
    ensures forall|r: Option<Intersection<T>>| #[trigger] isect(edge_at(s, n), o, r) ==> two_inv(s, o, n + 1, collected(q0, r)),
{
    assert forall|r: Option<Intersection<T>>| #[trigger] isect(edge_at(s, n), o, r) implies two_inv(s, o, n + 1, collected(q0, r)) by {
        lemma_two(s, o, n, q0, collected(q0, r), r);
    }
}
pub proof fn lemma_two_done<T>(s: Seq<T>, o: Line2<T>, n: int, m: int, q: Seq<T>)
    requires two_inv(s, o, n, q), q.len() == 2, n <= m ensures two_inv(s, o, m, q),
{
    assert forall|j: int| 0 <= j < q.len() implies shared(s, o, m, vv(#[trigger] q[j])) by {
        let x = vv(q[j]);
        assert(shared(s, o, n, x));
        let i = choose|i: int| 0 <= i < n && on(#[trigger] edge_at(s, i), x);
        assert(0 <= i < m && on(edge_at(s, i), x));
    }
}
/// the result pair made of the collected points
pub proof fn lemma_two_end<T>(s: Seq<T>, o: Line2<T>, q: Seq<T>)
    requires exists|n: int| 0 <= n <= nedges(s) && #[trigger] two_inv(s, o, n, q) && (q.len() == 2 || n == nedges(s)),
    ensures two_inv(s, o, nedges(s), q), q.len() <= 2,
        q.len() > 0 ==> shared(s, o, nedges(s), vv(q[0])), q.len() > 1 ==> shared(s, o, nedges(s), vv(q[1])),
        q.len() == 1 ==> forall|x: V| #[trigger] shared(s, o, nedges(s), x) ==> x == vv(q[0]),
        q.len() == 0 ==> forall|x: V| !(#[trigger] shared(s, o, nedges(s), x)),
{
    let n = choose|n: int| 0 <= n <= nedges(s) && #[trigger] two_inv(s, o, n, q) && (q.len() == 2 || n == nedges(s));
    if q.len() == 2 { lemma_two_done(s, o, n, nedges(s), q); }
    if q.len() < 2 {
        assert forall|x: V| #[trigger] shared(s, o, nedges(s), x) implies q.len() == 1 && x == vv(q[0]) by { assert(some_of(q, x)); }
    }
}
pub proof fn lemma_two<T>(s: Seq<T>, o: Line2<T>, n: int, q0: Seq<T>, q1: Seq<T>, r: Option<Intersection<T>>)
    requires
        0 <= n, two_inv(s, o, n, q0), q0.len() < 2, isect(edge_at(s, n), o, r), q1 == collected(q0, r),
    ensures two_inv(s, o, n + 1, q1), q1.len() <= 2,
{
    assert forall|x: V| #[trigger] shared(s, o, n + 1, x) <==> shared(s, o, n, x) || (on(o, x) && on(edge_at(s, n), x)) by { lemma_shared_next(s, o, n, x); }
    let e = edge_at(s, n);
    match r {
        None => { assert forall|x: V| !(on(o, x) && #[trigger] on(e, x)) by {} }
        Some(Intersection::Intersection(p)) => {
            let x = vv(p); assert(on(e, x)); assert(on(o, x));
            assert forall|x: V| on(o, x) && #[trigger] on(e, x) implies x == vv(p) by {}
            lemma_push(q0, p);
        }
        Some(Intersection::Overlap(l)) => {
            lemma_ends_on(l);
            let (x, y) = (vv(l.start), vv(l.end));
            assert(on(e, x)); assert(on(o, x)); assert(on(e, y)); assert(on(o, y));
            lemma_push(q0, l.start);
            let qs = if some_of(q0, vv(l.start)) { q0 } else { q0.push(l.start) };
            lemma_push(qs, l.end);
            if qs.len() < 2 { assert(qs.len() == 1); assert(vv(qs[0]) == vv(l.start)); assert(!some_of(qs, vv(l.end))); }
        }
    }
    assert forall|j: int| 0 <= j < q1.len() implies shared(s, o, n + 1, vv(#[trigger] q1[j])) by {
        if j < q0.len() { assert(q1[j] == q0[j]); assert(shared(s, o, n, vv(q0[j]))); }
        else { assert(shared(s, o, n + 1, vv(q1[j]))); }
    }
    if q1.len() == 2 { assert(vv(q1[0]) != vv(q1[1])); }
}
pub proof fn lemma_push<T>(q: Seq<T>, p: T)
    ensures some_of(q.push(p), vv(p)), forall|x: V| some_of(q, x) ==> #[trigger] some_of(q.push(p), x),
        forall|j: int| 0 <= j < q.len() && !some_of(q, vv(p)) ==> vv(#[trigger] q[j]) != vv(p),
{
    assert(q.push(p)[q.len() as int] == p);
    assert forall|x: V| some_of(q, x) implies #[trigger] some_of(q.push(p), x) by {
        let j = choose|j: int| 0 <= j < q.len() && rx(#[trigger] q[j]) == x.x && ry(q[j]) == x.y;
        assert(q.push(p)[j] == q[j]);
    }
}
"""

# the place right after the next pair was taken (made by the rule `windows`)
STEP = lambda text: (("after", "proof { k0__ = k0__ + 1 ; }"), text)
X = lambda *names: [sub_rule("std_contract", r"\.(%s)\(" % "|".join(names), r".\1_(")]


def spec(repo):
    s = Spec("L02", repo)
    L01.parts(s)
    L18.window_base(s, 2)
    s.prelude("stdx")
    s.ghost(GHOST)
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    L18.fn_window_iter(s, 2)
    lv = "LineString2 for Vec"
    iso = ""
    s.fn(R2, lv, "intersection", attrs=iso,
         ens="""r is None ==> all_miss(self@, *other, 0, nedges(self@)),
        r is Some ==> exists|i: int| 0 <= i < nedges(self@) && isect(#[trigger] edge_at(self@, i), *other, r) && all_miss(self@, *other, 0, i)""",
         loops=[("loop", """invariant win_at(w0__, self@, k0__ + 1), -1 <= k0__ < nedges(self@), all_miss(self@, *other, 0, k0__ + 1),
            ensures all_miss(self@, *other, 0, nedges(self@)),
            decreases self@.len() - k0__""")], hints=[STEP("assert(item0__ == edge_at(self@, k0__)); assert(isect(item0__, *other, None) == miss(self@, k0__, *other));")])
    s.fn(R2, lv, "find_all_intersections", attrs=iso,
         ens="exists|pos: Seq<int>| edge_results(self@, *other, nedges(self@), r@, pos)",
         loops=[("loop", """invariant win_at(w0__, self@, k0__ + 1), -1 <= k0__ < nedges(self@), edge_results(self@, *other, k0__ + 1, intersections@, pos__), old__ == intersections@,
            ensures edge_results(self@, *other, nedges(self@), intersections@, pos__),
            decreases self@.len() - k0__""")],
         hints=[(("before_loop", 0), "let ghost mut pos__ = Seq::<int>::empty(); let ghost mut old__ = intersections@;"),
                STEP("assert(item0__ == edge_at(self@, k0__));"),
                (("body_end", 0), """proof {
            let grown = intersections@.len() > old__.len();
            let pos2 = if grown { pos__.push(k0__) } else { pos__ };
            lemma_results(self@, *other, k0__, old__, intersections@, pos__, pos2);
            pos__ = pos2; old__ = intersections@;
        }"""), (("after_loop", 0), "assert(edge_results(self@, *other, nedges(self@), intersections@, pos__));")])
    s.fn(R2, lv, "find_two_intersections", attrs=iso, rules=X("contains", "cloned"),
         ens="""r.0 is Some ==> shared(self@, *other, nedges(self@), vv(r.0->0)),
        r.1 is Some ==> r.0 is Some && shared(self@, *other, nedges(self@), vv(r.1->0)) && vv(r.0->0) != vv(r.1->0),
        r.0 is None ==> forall|x: V| !(#[trigger] shared(self@, *other, nedges(self@), x)),
        r.0 is Some && r.1 is None ==> forall|x: V| #[trigger] shared(self@, *other, nedges(self@), x) ==> x == vv(r.0->0)""",
         loops=[("loop", """invariant_except_break win_at(w0__, self@, k0__ + 1), -1 <= k0__ < nedges(self@), two_inv(self@, *other, k0__ + 1, intersections@), intersections@.len() < 2,
            ensures exists|n: int| 0 <= n <= nedges(self@) && #[trigger] two_inv(self@, *other, n, intersections@) && (intersections@.len() == 2 || n == nedges(self@)),
            decreases self@.len() - k0__""")],
         hints=[STEP("assert(item0__ == edge_at(self@, k0__)); proof { lemma_two_all(self@, *other, k0__, intersections@); }"),
                (("after_loop", 0), "proof { lemma_two_end(self@, *other, intersections@); }")])
    return s
