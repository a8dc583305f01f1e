"""Ghost text shared by the two sweep lines (L05, L05_x)."""

PURE = """
pub proof fn lemma_slide(e: real, a: real, d: real, t0: real, t1: real, eps: real)
    requires e == a + d * t0 ensures e + (e - (a + d * t1)) * eps == a + d * (t0 + (t0 - t1) * eps)
{
    assert(e - (a + d * t1) == d * (t0 - t1)) by(nonlinear_arith) requires e == a + d * t0;
    let w = t0 - t1;
    assert(d * (t0 + w * eps) == d * t0 + (d * w) * eps) by(nonlinear_arith);
}
pub proof fn lemma_stay(t0: real, t1: real, eps: real) requires 0real <= t1 <= 1real, 0real < eps <= t0, eps <= 1real - t0 ensures 0real <= t0 + (t0 - t1) * eps <= 1real {
    let w = t0 - t1;
    assert(-eps <= w * eps <= eps) by(nonlinear_arith) requires -1real <= w <= 1real, eps > 0real;
}
pub proof fn lemma_mid(a: V, b: V, e: V) -> (t: real) requires on_seg(a, b, e), e != a, e != b ensures 0real < t < 1real, e == vat(a, vsub(b, a), t) {
    let t = choose|t: real| 0real <= t <= 1real && e == #[trigger] vat(a, vsub(b, a), t);
    let d = vsub(b, a);
    if t == 0real { assert(d.x * t == 0real && d.y * t == 0real) by(nonlinear_arith) requires t == 0real; }
    if t == 1real { assert(d.x * t == d.x && d.y * t == d.y) by(nonlinear_arith) requires t == 1real; }
    t
}
/// the ends of the common part of two segments are ends of theirs
pub proof fn lemma_extreme(a: V, b: V, c: V, d: V, e: V, f: V)
    requires e != f, seg_common(a, b, c, d, e, f)
    ensures e == a || e == b || e == c || e == d
{
    if e != a && e != b && e != c && e != d {
        let g = vsub(f, e);
        assert(g.x * 0real == 0real && g.y * 0real == 0real && g.x * 1real == g.x && g.y * 1real == g.y);
        assert(e == vat(e, g, 0real)); assert(f == vat(e, g, 1real));
        assert(on_seg(e, f, e) && on_seg(e, f, f));
        assert(on_seg(a, b, e) && on_seg(c, d, e) && on_seg(a, b, f) && on_seg(c, d, f));
        let t0 = lemma_mid(a, b, e);
        let s0 = lemma_mid(c, d, e);
        let t1 = choose|t: real| 0real <= t <= 1real && f == #[trigger] vat(a, vsub(b, a), t);
        let s1 = choose|t: real| 0real <= t <= 1real && f == #[trigger] vat(c, vsub(d, c), t);
        let eps = rmin(rmin(t0, 1real - t0), rmin(s0, 1real - s0));
        let x = V { x: e.x + (e.x - f.x) * eps, y: e.y + (e.y - f.y) * eps };
        let (u, v) = (vsub(b, a), vsub(d, c));
        lemma_slide(e.x, a.x, u.x, t0, t1, eps); lemma_slide(e.y, a.y, u.y, t0, t1, eps);
        lemma_slide(e.x, c.x, v.x, s0, s1, eps); lemma_slide(e.y, c.y, v.y, s0, s1, eps);
        lemma_stay(t0, t1, eps); lemma_stay(s0, s1, eps);
        assert(x == vat(a, u, t0 + (t0 - t1) * eps)); assert(x == vat(c, v, s0 + (s0 - s1) * eps));
        assert(on_seg(a, b, x) && on_seg(c, d, x));
        assert(on_seg(e, f, x));
        let w = choose|t: real| 0real <= t <= 1real && x == #[trigger] vat(e, g, t);
        assert(g.x * w == -(g.x * eps)) by(nonlinear_arith) requires g.x * w == (0real - g.x) * eps;
        assert(g.y * w == -(g.y * eps)) by(nonlinear_arith) requires g.y * w == (0real - g.y) * eps;
        assert(g.x == 0real) by(nonlinear_arith) requires g.x * w == -(g.x * eps), w >= 0real, eps > 0real;
        assert(g.y == 0real) by(nonlinear_arith) requires g.y * w == -(g.y * eps), w >= 0real, eps > 0real;
    }
}
"""

GHOST = """
/// the ends of a line in the order of the sweep
pub open spec fn lo<T>(l: Line2<T>) -> V { if klt(vv(l.start), vv(l.end)) { vv(l.start) } else { vv(l.end) } }
pub open spec fn hi<T>(l: Line2<T>) -> V { if klt(vv(l.start), vv(l.end)) { vv(l.end) } else { vv(l.start) } }
pub open spec fn proper<T>(l: Line2<T>) -> bool { vv(l.start) != vv(l.end) }
pub open spec fn all_proper<T>(ls: Seq<Line2<T>>) -> bool { forall|i: int| 0 <= i < ls.len() ==> proper(#[trigger] ls[i]) }
/// p is on the line and none of its ends
pub open spec fn interior<T>(l: Line2<T>, p: V) -> bool { on(l, p) && p != vv(l.start) && p != vv(l.end) }
pub open spec fn starts<T>(ls: Seq<Line2<T>>, p: V, s: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < ls.len() && lo(ls[x as int]) == p }
pub open spec fn stops<T>(ls: Seq<Line2<T>>, p: V, s: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < ls.len() && hi(ls[x as int]) == p }
pub open spec fn crosses<T>(ls: Seq<Line2<T>>, p: V, s: Seq<usize>) -> bool { forall|x: usize| #[trigger] s.contains(x) ==> x < ls.len() && interior(ls[x as int], p) }
/// two different lines are named
pub open spec fn two(s: Seq<usize>) -> bool { exists|a: usize, b: usize| a != b && #[trigger] s.contains(a) && #[trigger] s.contains(b) }
/// p is the only point common to a and b
pub open spec fn sole<T>(a: Line2<T>, b: Line2<T>, p: V) -> bool { forall|x: V| (#[trigger] on(a, x) && on(b, x)) <==> x == p }
/// the points where the sweep may have to stop: the ends of the lines and the points where two lines meet
pub open spec fn tip<T>(ls: Seq<Line2<T>>, i: int, p: V) -> bool { 0 <= i < ls.len() && (p == vv(ls[i].start) || p == vv(ls[i].end)) }
pub open spec fn joint<T>(ls: Seq<Line2<T>>, i: int, j: int, p: V) -> bool { 0 <= i < ls.len() && 0 <= j < ls.len() && sole(ls[i], ls[j], p) }
#[verifier::opaque]
pub open spec fn spot<T>(ls: Seq<Line2<T>>, p: V) -> bool { (exists|i: int| #[trigger] tip(ls, i, p)) || (exists|i: int, j: int| #[trigger] joint(ls, i, j, p)) }
pub proof fn lemma_spot_tip<T>(ls: Seq<Line2<T>>, i: int, p: V) requires 0 <= i < ls.len(), p == vv(ls[i].start) || p == vv(ls[i].end) ensures spot(ls, p) {
    reveal(spot);
    assert(tip(ls, i, p));
}
pub proof fn lemma_spot_grow<T>(ls: Seq<Line2<T>>, l: Line2<T>, p: V) requires spot(ls, p) ensures spot(ls.push(l), p) {
    reveal(spot);
    let f = ls.push(l);
    if exists|i: int| #[trigger] tip(ls, i, p) { let i = choose|i: int| #[trigger] tip(ls, i, p); assert(tip(f, i, p)); }
    else { let (i, j) = choose|i: int, j: int| #[trigger] joint(ls, i, j, p); assert(joint(f, i, j, p)); }
}
/// the point picked from what two lines have in common
pub proof fn lemma_spot_pick<T>(ls: Seq<Line2<T>>, i: int, j: int, r: Option<Intersection<T>>)
    requires 0 <= i < ls.len(), 0 <= j < ls.len(), isect(ls[i], ls[j], r), r is Some
    ensures spot(ls, vv(pick(r->0)))
{
    let p = vv(pick(r->0));
    let (a, b) = (ls[i], ls[j]);
    if r->0 is Overlap {
        let l = (r->0)->Overlap_0;
        assert forall|x: V| (#[trigger] on_seg(vv(a.start), vv(a.end), x) && on_seg(vv(b.start), vv(b.end), x)) <==> on_seg(vv(l.start), vv(l.end), x) by {
            assert((on(a, x) && on(b, x)) <==> on(l, x));
        }
        lemma_extreme(vv(a.start), vv(a.end), vv(b.start), vv(b.end), vv(l.start), vv(l.end));
        if p == vv(a.start) || p == vv(a.end) { lemma_spot_tip(ls, i, p); } else { lemma_spot_tip(ls, j, p); }
    } else {
        reveal(spot);
        assert forall|x: V| (#[trigger] on(a, x) && on(b, x)) <==> x == p by {}
        assert(joint(ls, i, j, p));
    }
}
/// finitely many such points
pub proof fn lemma_joints<T>(ls: Seq<Line2<T>>, i: int, n: int) -> (s: Set<V>)
    requires 0 <= i < ls.len(), 0 <= n <= ls.len()
    ensures forall|j: int, p: V| j < n && #[trigger] joint(ls, i, j, p) ==> s.contains(p)
    decreases n
{
    if n == 0 { Set::empty() }
    else {
        let s = lemma_joints(ls, i, n - 1);
        let q = choose|q: V| #[trigger] joint(ls, i, n - 1, q);
        let f = s.insert(q);
        assert forall|j: int, p: V| j < n && #[trigger] joint(ls, i, j, p) implies f.contains(p) by {
            if j == n - 1 { assert(joint(ls, i, n - 1, p));
                assert(joint(ls, i, n - 1, q));
                assert(on(ls[i], p) && on(ls[j], p));
                assert(p == q);
            }
        }
        f
    }
}
pub proof fn lemma_tips<T>(ls: Seq<Line2<T>>, n: int) -> (s: Set<V>)
    requires 0 <= n <= ls.len()
    ensures forall|i: int, p: V| i < n && #[trigger] tip(ls, i, p) ==> s.contains(p), forall|i: int, j: int, p: V| i < n && #[trigger] joint(ls, i, j, p) ==> s.contains(p)
    decreases n
{
    if n == 0 { Set::empty() }
    else {
        let s = lemma_tips(ls, n - 1);
        let t = lemma_joints(ls, n - 1, ls.len() as int);
        let f = s.union(t).insert(vv(ls[n - 1].start)).insert(vv(ls[n - 1].end));
        assert forall|i: int, j: int, p: V| i < n && #[trigger] joint(ls, i, j, p) implies f.contains(p) by { if i == n - 1 { assert(t.contains(p)); } else { assert(s.contains(p)); } }
        assert forall|i: int, p: V| i < n && #[trigger] tip(ls, i, p) implies f.contains(p) by { if i < n - 1 { assert(s.contains(p)); } }
        f
    }
}
pub proof fn lemma_spots<T>(ls: Seq<Line2<T>>) -> (s: Set<V>) ensures forall|p: V| #[trigger] spot(ls, p) ==> s.contains(p) {
    reveal(spot);
    let s = lemma_tips(ls, ls.len() as int);
    s
}
/// what is left of them with the sweep at `at`
pub open spec fn remain<T>(ls: Seq<Line2<T>>, s: Set<V>, at: V, all: bool) -> bool { forall|p: V| #[trigger] spot(ls, p) && (all || klt(at, p)) ==> s.contains(p) }
/// the sweep moves to the first event: one less
pub proof fn lemma_remain<K, T>(ls: Seq<Line2<T>>, s: Set<V>, q: Map<V, (K, SiteEvent)>, at: V, all: bool, p: V)
    requires remain(ls, s, at, all), queue(ls, q, at, all), q.dom().contains(p)
    ensures remain(ls, s.remove(p), p, false), s.remove(p).len() < s.len()
{
    assert(evt(ls, p, q[p].1));
    assert(s.contains(p));
}
/// what is known of an event at p: lines that start there, lines that end there, lines that pass
pub open spec fn evt<T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent) -> bool {
    &&& starts(ls, p, ol(e.add)) && stops(ls, p, ol(e.drop)) && crosses(ls, p, ol(e.intersection))
    &&& ol(e.add).no_duplicates() && ol(e.drop).no_duplicates() && ol(e.intersection).no_duplicates()
    &&& ol(e.add).len() + ol(e.drop).len() == 0 ==> two(ol(e.intersection))
    &&& spot(ls, p)
}
/// the ends of line i that the sweep has not passed are in the queue
pub open spec fn queued<K, T>(q: Map<V, (K, SiteEvent)>, l: Line2<T>, at: V, all: bool) -> bool {
    &&& all || klt(at, lo(l)) ==> q.dom().contains(lo(l))
    &&& all || klt(at, hi(l)) ==> q.dom().contains(hi(l))
}
pub open spec fn events<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>) -> bool { forall|p: V| #[trigger] q.dom().contains(p) ==> evt(ls, p, q[p].1) }
/// the event queue with the sweep at `at` (`all`: nothing has been handled)
pub open spec fn queue<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, all: bool) -> bool {
    &&& events(ls, q)
    &&& forall|i: int| 0 <= i < ls.len() ==> queued(q, #[trigger] ls[i], at, all)
    &&& all || forall|p: V| #[trigger] q.dom().contains(p) ==> klt(at, p)
}
/// a report at p: existing lines through p, at least two, each once; with the end points ignored p is inside one of them
pub open spec fn genuine<T>(ls: Seq<Line2<T>>, p: V, s: Seq<usize>, ign: bool) -> bool {
    &&& forall|x: usize| #[trigger] s.contains(x) ==> x < ls.len() && on(ls[x as int], p)
    &&& two(s) && s.no_duplicates()
    &&& ign ==> exists|x: usize| #[trigger] s.contains(x) && interior(ls[x as int], p)
}
pub open spec fn some_report<T>(ls: Seq<Line2<T>>, ign: bool) -> bool { exists|p: V, s: Seq<usize>| genuine(ls, p, s, ign) }
pub open spec fn reports<K, T>(ls: Seq<Line2<T>>, r: Map<V, (K, Vec<usize>)>, ign: bool) -> bool {
    forall|p: V| #[trigger] r.dom().contains(p) ==> genuine(ls, p, r[p].1@, ign)
}
pub open spec fn had<K>(r: Map<V, (K, Vec<usize>)>, p: V, x: usize) -> bool { r.dom().contains(p) && r[p].1@.contains(x) }
/// r with the lines s added at p
pub open spec fn added<K>(r: Map<V, (K, Vec<usize>)>, p: V, s: Seq<usize>, f: Map<V, (K, Vec<usize>)>) -> bool {
    &&& f.dom() =~= r.dom().insert(p)
    &&& forall|q: V| q != p && #[trigger] f.dom().contains(q) ==> f[q] == r[q]
    &&& forall|x: usize| #[trigger] f[p].1@.contains(x) <==> had(r, p, x) || s.contains(x)
    &&& (r.dom().contains(p) ==> r[p].1@.no_duplicates()) && s.no_duplicates() && (forall|x: usize| #[trigger] s.contains(x) ==> !had(r, p, x)) ==> f[p].1@.no_duplicates()
}
/// the lists of an event name different lines
pub proof fn lemma_apart<T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent) requires evt(ls, p, e), all_proper(ls)
    ensures forall|x: usize| #[trigger] ol(e.add).contains(x) ==> !ol(e.drop).contains(x), forall|x: usize| #[trigger] ol(e.intersection).contains(x) ==> !ol(e.drop).contains(x) && !ol(e.add).contains(x)
{
    assert forall|x: usize| #[trigger] ol(e.add).contains(x) implies !ol(e.drop).contains(x) by { assert(proper(ls[x as int])); }
}
pub proof fn lemma_cat_once(a: Seq<usize>, b: Seq<usize>) requires a.no_duplicates(), b.no_duplicates(), forall|x: usize| #[trigger] b.contains(x) ==> !a.contains(x) ensures (a + b).no_duplicates() {
    let c = a + b;
    assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && i != j implies c[i] != c[j] by {
        if i >= a.len() { assert(b.contains(c[i])); } else { assert(a.contains(c[i])); }
        if j >= a.len() { assert(b.contains(c[j])); } else { assert(a.contains(c[j])); }
    }
}
pub open spec fn below(s: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < n }
pub proof fn lemma_below(s: Seq<usize>, x: usize, n: int) requires below(s, n), s.contains(x) ensures x < n {}
/// an event that is reported names two lines, and one it crosses if it has intersections
pub proof fn lemma_pair<T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent)
    requires evt(ls, p, e), all_proper(ls),
    ensures
        ol(e.add).len() + ol(e.drop).len() + ol(e.intersection).len() > 1 || ol(e.intersection).len() > 0 ==>
            exists|a: usize, b: usize| a != b && #[trigger] hit(e, a) && #[trigger] hit(e, b),
        ol(e.intersection).len() > 0 ==> exists|x: usize| #[trigger] ol(e.intersection).contains(x) && interior(ls[x as int], p),
{
    let (a, d, c) = (ol(e.add), ol(e.drop), ol(e.intersection));
    if c.len() > 0 { assert(c.contains(c[0])); }
    if a.len() > 0 { assert(a.contains(a[0])); }
    if d.len() > 0 { assert(d.contains(d[0])); }
    if a.len() > 1 { assert(a.contains(a[1])); assert(hit(e, a[0]) && hit(e, a[1])); }
    else if d.len() > 1 { assert(d.contains(d[1])); assert(hit(e, d[0]) && hit(e, d[1])); }
    else if a.len() > 0 && d.len() > 0 { assert(proper(ls[a[0] as int])); assert(hit(e, a[0]) && hit(e, d[0])); }
    else if a.len() + d.len() == 0 {
        let (x, y) = choose|x: usize, y: usize| x != y && #[trigger] c.contains(x) && #[trigger] c.contains(y);
        assert(hit(e, x) && hit(e, y));
    } else if c.len() > 0 {
        let x = if a.len() > 0 { a[0] } else { d[0] };
        assert(hit(e, x) && hit(e, c[0]));
    }
}
/// the event names x
pub open spec fn hit(e: SiteEvent, x: usize) -> bool { ol(e.drop).contains(x) || ol(e.add).contains(x) || ol(e.intersection).contains(x) }
pub proof fn lemma_on_ends<T>(l: Line2<T>) ensures on(l, lo(l)), on(l, hi(l)) {
    let d = vsub(vv(l.end), vv(l.start));
    assert(d.x * 0real == 0real && d.y * 0real == 0real && d.x * 1real == d.x && d.y * 1real == d.y);
    assert(vv(l.start) == vat(vv(l.start), d, 0real)); assert(vv(l.end) == vat(vv(l.start), d, 1real));
}
/// reporting all lines of an event
pub proof fn lemma_report<K, T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent, ign: bool, r: Map<V, (K, Vec<usize>)>, f: Map<V, (K, Vec<usize>)>)
    requires evt(ls, p, e), all_proper(ls), reports(ls, r, ign),
        ol(e.add).len() + ol(e.drop).len() + ol(e.intersection).len() > 1 || ol(e.intersection).len() > 0, ign ==> ol(e.intersection).len() > 0,
        f.dom() =~= r.dom().insert(p), forall|q: V| q != p && #[trigger] f.dom().contains(q) ==> f[q] == r[q],
        forall|x: usize| #[trigger] f[p].1@.contains(x) <==> had(r, p, x) || hit(e, x), f[p].1@.no_duplicates(),
    ensures reports(ls, f, ign)
{
    lemma_pair(ls, p, e);
    let s = f[p].1@;
    let (a, b) = choose|a: usize, b: usize| a != b && #[trigger] hit(e, a) && #[trigger] hit(e, b);
    assert(s.contains(a) && s.contains(b));
    if ol(e.intersection).len() > 0 {
        let x = choose|x: usize| #[trigger] ol(e.intersection).contains(x) && interior(ls[x as int], p);
        assert(hit(e, x)); assert(s.contains(x));
    }
    assert forall|x: usize| #[trigger] s.contains(x) implies x < ls.len() && on(ls[x as int], p) by {
        if had(r, p, x) { assert(genuine(ls, p, r[p].1@, ign)); }
        else { lemma_on_ends(ls[x as int]); }
    }
    assert forall|q: V| #[trigger] f.dom().contains(q) implies genuine(ls, q, f[q].1@, ign) by { if q != p { assert(r.dom().contains(q)); } }
}
/// one more line at the end of the list
pub proof fn lemma_grow<K, T>(ls: Seq<Line2<T>>, l: Line2<T>, q: Map<V, (K, SiteEvent)>)
    requires events(ls, q) ensures events(ls.push(l), q)
{
    assert forall|p: V| #[trigger] q.dom().contains(p) implies evt(ls.push(l), p, q[p].1) by { assert(evt(ls, p, q[p].1)); lemma_spot_grow(ls, l, p); }
}
/// the event taken from the front of the queue
pub proof fn lemma_front<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, all: bool, p: V)
    requires queue(ls, q, at, all), q.dom().contains(p), forall|o: V| #[trigger] q.dom().contains(o) ==> !klt(o, p)
    ensures evt(ls, p, q[p].1), queue(ls, q.remove(p), p, false)
{
    let f = q.remove(p);
    assert forall|o: V| #[trigger] f.dom().contains(o) implies klt(p, o) && evt(ls, o, f[o].1) by { assert(q.dom().contains(o)); }
    assert forall|i: int| 0 <= i < ls.len() implies queued(f, #[trigger] ls[i], p, false) by { assert(queued(q, ls[i], at, all)); }
}
/// two ids in a slice of two
pub proof fn lemma_two(s: Seq<usize>, a: usize, b: usize) requires s.len() == 2, s[0] == a, s[1] == b ensures forall|x: usize| #[trigger] s.contains(x) <==> x == a || x == b {
    assert(s.contains(s[0]) && s.contains(s[1]));
}
pub proof fn lemma_push(s: Seq<usize>, x: usize) ensures forall|y: usize| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
    s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates()
{
    let f = s.push(x);
    assert forall|y: usize| #[trigger] f.contains(y) <==> s.contains(y) || y == x by {
        assert(f[s.len() as int] == x);
        if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(f[i] == y); }
        if f.contains(y) { let i = choose|i: int| 0 <= i < f.len() && f[i] == y; if i < s.len() { assert(s[i] == y); } }
    }
    if s.no_duplicates() && !s.contains(x) {
        assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
            if i < s.len() { assert(s.contains(s[i])); }
            if j < s.len() { assert(s.contains(s[j])); }
        }
    }
}
/// the lists of the event at p
pub open spec fn adds<K>(q: Map<V, (K, SiteEvent)>, p: V) -> Seq<usize> { if q.dom().contains(p) { ol(q[p].1.add) } else { Seq::<usize>::empty() } }
pub open spec fn drops<K>(q: Map<V, (K, SiteEvent)>, p: V) -> Seq<usize> { if q.dom().contains(p) { ol(q[p].1.drop) } else { Seq::<usize>::empty() } }
pub open spec fn inters<K>(q: Map<V, (K, SiteEvent)>, p: V) -> Seq<usize> { if q.dom().contains(p) { ol(q[p].1.intersection) } else { Seq::<usize>::empty() } }
/// f is q with the event e at p
pub open spec fn put<K>(q: Map<V, (K, SiteEvent)>, p: V, e: SiteEvent, f: Map<V, (K, SiteEvent)>) -> bool {
    &&& f.dom() =~= q.dom().insert(p)
    &&& forall|o: V| o != p && #[trigger] f.dom().contains(o) ==> f[o] == q[o]
    &&& f[p].1 == e
}
pub open spec fn fresh<K>(q: Map<V, (K, SiteEvent)>, n: usize) -> bool { forall|p: V| #[trigger] q.dom().contains(p) ==> !ol(q[p].1.drop).contains(n) }
/// line n starts at p
pub proof fn lemma_start<K, T>(ls: Seq<Line2<T>>, l: Line2<T>, q: Map<V, (K, SiteEvent)>, p: V, n: usize, f: Map<V, (K, SiteEvent)>)
    requires events(ls, q), lo(l) == p, n == ls.len(), put(q, p, f[p].1, f),
        ol(f[p].1.add) =~= adds(q, p).push(n), ol(f[p].1.drop) =~= drops(q, p), ol(f[p].1.intersection) =~= inters(q, p),
    ensures events(ls.push(l), f), fresh(f, n)
{
    lemma_grow(ls, l, q);
    let ls2 = ls.push(l);
    assert forall|o: V| #[trigger] f.dom().contains(o) implies evt(ls2, o, f[o].1) && !ol(f[o].1.drop).contains(n) by {
        if o != p { assert(q.dom().contains(o)); assert(evt(ls, o, q[o].1)); assert(evt(ls2, o, q[o].1)); }
        else {
            if q.dom().contains(p) { assert(evt(ls, p, q[p].1)); assert(evt(ls2, p, q[p].1)); }
            lemma_push(adds(q, p), n);
            assert(ls2[n as int] == l);
            lemma_spot_tip(ls2, n as int, p);
            assert(ol(f[p].1.add).len() > 0);
        }
    }
}
/// line n stops at p
pub proof fn lemma_stop<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, p: V, n: usize, f: Map<V, (K, SiteEvent)>)
    requires events(ls, q), fresh(q, n), n < ls.len(), hi(ls[n as int]) == p, put(q, p, f[p].1, f),
        ol(f[p].1.drop) =~= drops(q, p).push(n), ol(f[p].1.add) =~= adds(q, p), ol(f[p].1.intersection) =~= inters(q, p),
    ensures events(ls, f)
{
    assert forall|o: V| #[trigger] f.dom().contains(o) implies evt(ls, o, f[o].1) by {
        if o != p { assert(q.dom().contains(o)); assert(evt(ls, o, q[o].1)); }
        else {
            if q.dom().contains(p) { assert(evt(ls, p, q[p].1)); }
            lemma_push(drops(q, p), n);
            lemma_spot_tip(ls, n as int, p);
            assert(ol(f[p].1.drop).len() > 0);
        }
    }
}
/// the queue with an event more
pub proof fn lemma_more<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, p: V, f: Map<V, (K, SiteEvent)>)
    requires queue(ls, q, at, false), events(ls, f), f.dom() =~= q.dom().insert(p), klt(at, p)
    ensures queue(ls, f, at, false)
{
    assert forall|i: int| 0 <= i < ls.len() implies queued(f, #[trigger] ls[i], at, false) by { assert(queued(q, ls[i], at, false)); }
    assert forall|o: V| #[trigger] f.dom().contains(o) implies klt(at, o) by { if o != p { assert(q.dom().contains(o)); } }
}
/// a point after the sweep without an event is no end of a line
pub proof fn lemma_inner<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, p: V, i: int)
    requires queue(ls, q, at, false), klt(at, p), !q.dom().contains(p), 0 <= i < ls.len(), on(ls[i], p)
    ensures interior(ls[i], p)
{
    assert(queued(q, ls[i], at, false));
}
pub proof fn lemma_cat(a: Seq<usize>, b: Seq<usize>) ensures forall|x: usize| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x) {
    let c = a + b;
    assert forall|x: usize| #[trigger] c.contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
}
/// the intersections of an event with more lines
pub open spec fn wider<T>(ls: Seq<Line2<T>>, p: V, old_: Seq<usize>, new_: Seq<usize>) -> bool {
    &&& forall|x: usize| old_.contains(x) ==> #[trigger] new_.contains(x)
    &&& forall|x: usize| #[trigger] new_.contains(x) ==> old_.contains(x) || (x < ls.len() && interior(ls[x as int], p))
}
pub proof fn lemma_wider<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, p: V, f: Map<V, (K, SiteEvent)>)
    requires events(ls, q), q.dom().contains(p), put(q, p, f[p].1, f), f[p].1.add == q[p].1.add, f[p].1.drop == q[p].1.drop,
        wider(ls, p, ol(q[p].1.intersection), ol(f[p].1.intersection)), ol(f[p].1.intersection).no_duplicates(),
    ensures events(ls, f)
{
    assert(evt(ls, p, q[p].1));
    assert forall|o: V| #[trigger] f.dom().contains(o) implies evt(ls, o, f[o].1) by {
        if o != p { assert(q.dom().contains(o)); assert(evt(ls, o, q[o].1)); }
        else if ol(f[p].1.add).len() + ol(f[p].1.drop).len() == 0 {
            let (x, y) = choose|x: usize, y: usize| x != y && #[trigger] ol(q[p].1.intersection).contains(x) && #[trigger] ol(q[p].1.intersection).contains(y);
            assert(ol(f[p].1.intersection).contains(x) && ol(f[p].1.intersection).contains(y));
        }
    }
}
/// a new event between two lines
pub proof fn lemma_meet<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, p: V, s: Seq<usize>, f: Map<V, (K, SiteEvent)>)
    requires events(ls, q), put(q, p, f[p].1, f), f[p].1.add is None, f[p].1.drop is None, ol(f[p].1.intersection) == s, crosses(ls, p, s), spot(ls, p), s.len() == 2, s[0] != s[1],
    ensures events(ls, f)
{
    lemma_two(s, s[0], s[1]);
    assert forall|o: V| #[trigger] f.dom().contains(o) implies evt(ls, o, f[o].1) by {
        if o != p { assert(q.dom().contains(o)); assert(evt(ls, o, q[o].1)); }
        else { assert(s.contains(s[0]) && s.contains(s[1])); }
    }
}
/// the point that single() picks
pub open spec fn pick<T>(i: Intersection<T>) -> T { match i { Intersection::Intersection(q) => q, Intersection::Overlap(l) => l.start } }
pub broadcast proof fn lemma_pick<T>(a: Line2<T>, b: Line2<T>, r: Option<Intersection<T>>)
    requires #[trigger] isect(a, b, r), r is Some
    ensures on(a, vv(pick(r->0))), on(b, vv(pick(r->0)))
{
    let p = vv(pick(r->0));
    if r->0 is Overlap { lemma_on_ends((r->0)->Overlap_0); assert(on((r->0)->Overlap_0, p)); }
    assert(on(a, p) && on(b, p));
}
"""
