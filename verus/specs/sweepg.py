"""Geometry of the sweep over segments in general position (L04, L05, L05_x): which crossings have an event."""

PURE = """
/// a segment from its lower end a to its upper end b
pub struct Sg { pub a: V, pub b: V }
pub open spec fn up(s: Sg) -> bool { s.a.y < s.b.y }
#[verifier::opaque]
pub open spec fn lean(s: Sg) -> real { (s.b.x - s.a.x) / (s.b.y - s.a.y) }
/// where the line of s is at height y
#[verifier::opaque]
pub open spec fn xa(s: Sg, y: real) -> real { s.a.x + lean(s) * (y - s.a.y) }
pub open spec fn rng(s: Sg, y: real) -> bool { s.a.y <= y <= s.b.y }
pub open spec fn thru(s: Sg, p: V) -> bool { rng(s, p.y) && p.x == xa(s, p.y) }
pub open spec fn ins(s: Sg, p: V) -> bool { s.a.y < p.y < s.b.y && p.x == xa(s, p.y) }
pub open spec fn is_e(s: Sg, p: V) -> bool { p == s.a || p == s.b }
pub open spec fn tw(u: real, v: real, w: real) -> bool { u < v < w || w < v < u }
pub open spec fn ix(s: Seq<Sg>, i: int) -> bool { 0 <= i < s.len() }
/// p is a crossing of the segments i and j
pub open spec fn xing(s: Seq<Sg>, i: int, j: int, p: V) -> bool { ix(s, i) && ix(s, j) && i != j && ins(s[i], p) && ins(s[j], p) }
pub open spec fn all_up(s: Seq<Sg>) -> bool { forall|i: int| ix(s, i) ==> up(#[trigger] s[i]) }
/// common points are ends of both segments or of none
pub open spec fn no_touch(s: Seq<Sg>) -> bool { forall|i: int, j: int, p: V| ix(s, i) && ix(s, j) && i != j && #[trigger] thru(s[i], p) && #[trigger] thru(s[j], p) && is_e(s[i], p) ==> is_e(s[j], p) }
pub open spec fn meet_once(s: Seq<Sg>) -> bool { forall|i: int, j: int, p: V, q: V| ix(s, i) && ix(s, j) && i != j && #[trigger] thru(s[i], p) && #[trigger] thru(s[j], p) && #[trigger] thru(s[i], q) && #[trigger] thru(s[j], q) ==> p == q }
pub open spec fn ends_apart(s: Seq<Sg>) -> bool { forall|i: int, j: int, p: V, q: V| ix(s, i) && ix(s, j) && #[trigger] is_e(s[i], p) && #[trigger] is_e(s[j], q) && p.y == q.y ==> p == q }
pub open spec fn crossings_off(s: Seq<Sg>) -> bool { forall|i: int, j: int, k: int, p: V, q: V| #[trigger] xing(s, i, j, p) && ix(s, k) && #[trigger] is_e(s[k], q) ==> p.y != q.y }
pub open spec fn crossings_apart(s: Seq<Sg>) -> bool { forall|i: int, j: int, k: int, l: int, p: V, q: V| #[trigger] xing(s, i, j, p) && #[trigger] xing(s, k, l, q) && p.y == q.y ==> p == q && ((k == i && l == j) || (k == j && l == i)) }
/// segments in general position
#[verifier::opaque]
pub open spec fn gp(s: Seq<Sg>) -> bool { all_up(s) && no_touch(s) && meet_once(s) && ends_apart(s) && crossings_off(s) && crossings_apart(s) }

/// two crossing segments in general position
pub proof fn lemma_gp_is_met()
    ensures ({ let (a, b, p) = (Sg { a: V { x: 0real, y: 0real }, b: V { x: 4real, y: 4real } }, Sg { a: V { x: 4real, y: 1real }, b: V { x: 0real, y: 3real } }, V { x: 2real, y: 2real });
        gp(seq![a, b]) && xing(seq![a, b], 0, 1, p) })
{
    reveal(gp);
    let (a, b, p) = (Sg { a: V { x: 0real, y: 0real }, b: V { x: 4real, y: 4real } }, Sg { a: V { x: 4real, y: 1real }, b: V { x: 0real, y: 3real } }, V { x: 2real, y: 2real });
    let s = seq![a, b];
    lemma_lean_at(a, 1real); lemma_lean_at(b, -2real);
    assert(s[0] == a && s[1] == b);
    assert forall|y: real| #[trigger] xa(a, y) == y by { reveal(xa); }
    assert forall|y: real| #[trigger] xa(b, y) == 6real - 2real * y by { reveal(xa); }
    assert forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) implies q == p by {}
}
pub proof fn g_up(s: Seq<Sg>, i: int) requires gp(s), ix(s, i) ensures up(s[i]) { reveal(gp); }
/// a common point is a crossing or an end of both
pub proof fn g_meet(s: Seq<Sg>, i: int, j: int, p: V) requires gp(s), ix(s, i), ix(s, j), i != j, thru(s[i], p), thru(s[j], p)
    ensures xing(s, i, j, p) || (is_e(s[i], p) && is_e(s[j], p))
{
    reveal(gp);
    assert(thru(s[i], p) && thru(s[j], p));
    lemma_thru_e(s[i], p); lemma_thru_e(s[j], p);
}
pub proof fn g_once(s: Seq<Sg>, i: int, j: int, p: V, q: V) requires gp(s), ix(s, i), ix(s, j), i != j, thru(s[i], p), thru(s[j], p), thru(s[i], q), thru(s[j], q) ensures p == q { reveal(gp); }
pub proof fn g_ends(s: Seq<Sg>, i: int, j: int, p: V, q: V) requires gp(s), ix(s, i), ix(s, j), is_e(s[i], p), is_e(s[j], q), p.y == q.y ensures p == q { reveal(gp); }
pub proof fn g_off(s: Seq<Sg>, i: int, j: int, k: int, p: V, q: V) requires gp(s), xing(s, i, j, p), ix(s, k), is_e(s[k], q) ensures p.y != q.y { reveal(gp); }
pub proof fn g_apart(s: Seq<Sg>, i: int, j: int, k: int, l: int, p: V, q: V) requires gp(s), xing(s, i, j, p), xing(s, k, l, q), p.y == q.y
    ensures p == q, (k == i && l == j) || (k == j && l == i) { reveal(gp); }

/// the ends are where the line says
pub proof fn lemma_xa_e(s: Sg) requires up(s) ensures xa(s, s.a.y) == s.a.x, xa(s, s.b.y) == s.b.x {
    reveal(xa); reveal(lean);
    let (n, d) = (s.b.x - s.a.x, s.b.y - s.a.y);
    assert(lean(s) * 0real == 0real) by(nonlinear_arith);
    lemma_div(n, d);
}
pub proof fn lemma_div(n: real, d: real) requires d != 0real ensures (n / d) * d == n { assert((n / d) * d == n) by(nonlinear_arith) requires d != 0real; }
/// a point at the height of an end is the end
pub proof fn lemma_thru_e(s: Sg, p: V) requires up(s) ensures thru(s, s.a), thru(s, s.b), thru(s, p) ==> ins(s, p) || is_e(s, p) { lemma_xa_e(s); }
pub proof fn lemma_aff(s: Sg, y: real, z: real) ensures xa(s, z) == xa(s, y) + lean(s) * (z - y) {
    reveal(xa);
    let (k, a) = (lean(s), s.a.y);
    assert(k * (z - a) == k * (y - a) + k * (z - y)) by(nonlinear_arith);
}
pub proof fn lemma_xa_of(s: Sg, y: real) requires s.a.y != s.b.y ensures (xa(s, y) - s.a.x) * (s.b.y - s.a.y) == (s.b.x - s.a.x) * (y - s.a.y), lean(s) * (s.b.y - s.a.y) == s.b.x - s.a.x {
    reveal(xa); reveal(lean);
    let (n, d, h, k) = (s.b.x - s.a.x, s.b.y - s.a.y, y - s.a.y, lean(s));
    lemma_div(n, d);
    assert((k * h) * d == (k * d) * h) by(nonlinear_arith);
}
pub proof fn lemma_xa_at(s: Sg, y: real, x: real) requires s.a.y != s.b.y, (x - s.a.x) * (s.b.y - s.a.y) == (s.b.x - s.a.x) * (y - s.a.y) ensures x == xa(s, y) {
    lemma_xa_of(s, y);
    let (u, v, d) = (x - s.a.x, xa(s, y) - s.a.x, s.b.y - s.a.y);
    assert(u == v) by(nonlinear_arith) requires u * d == v * d, d != 0real;
}
pub proof fn lemma_lean_at(s: Sg, k: real) requires s.a.y != s.b.y, k * (s.b.y - s.a.y) == s.b.x - s.a.x ensures k == lean(s) {
    lemma_xa_of(s, 0real);
    let (v, d) = (lean(s), s.b.y - s.a.y);
    assert(k == v) by(nonlinear_arith) requires k * d == v * d, d != 0real;
}
/// the ends exchanged
pub proof fn lemma_flip(a: V, b: V, y: real) requires a.y != b.y ensures xa(Sg { a, b }, y) == xa(Sg { a: b, b: a }, y), lean(Sg { a, b }) == lean(Sg { a: b, b: a }) {
    let (s, t) = (Sg { a, b }, Sg { a: b, b: a });
    lemma_xa_of(s, y);
    let k = lean(s);
    assert(k * (a.y - b.y) == a.x - b.x) by(nonlinear_arith) requires k * (b.y - a.y) == b.x - a.x;
    lemma_lean_at(t, k);
    lemma_aff(s, a.y, y); lemma_aff(t, b.y, y);
    lemma_xa_of(s, a.y); lemma_xa_of(t, b.y);
    let (d, c) = (b.y - a.y, xa(s, a.y) - a.x);
    assert(c == 0real) by(nonlinear_arith) requires c * d == (b.x - a.x) * (a.y - a.y), d != 0real;
    let (g, h) = (a.y - b.y, xa(t, b.y) - b.x);
    assert(h == 0real) by(nonlinear_arith) requires h * g == (a.x - b.x) * (b.y - b.y), g != 0real;
    assert(k * (y - a.y) + a.x == k * (y - b.y) + b.x) by(nonlinear_arith) requires k * (b.y - a.y) == b.x - a.x;
}
/// the point at the height y by the slope
pub proof fn lemma_slope_x(x1: real, y1: real, x2: real, y2: real, y: real, k: real, x: real)
    requires x1 != x2, y1 != y2, k == (y2 - y1) / (x2 - x1), x == (y - (y1 - k * x1)) / k
    ensures (x - x1) * (y2 - y1) == (x2 - x1) * (y - y1), k != 0real
{
    let (n, d, g) = (y2 - y1, x2 - x1, y - (y1 - k * x1));
    lemma_div(n, d);
    assert(k != 0real) by(nonlinear_arith) requires k * d == n, n != 0real;
    lemma_div(g, k);
    let u = x - x1;
    assert(u * k == y - y1) by(nonlinear_arith) requires x * k == g, g == y - (y1 - k * x1), u == x - x1;
    assert(u * n == d * (y - y1)) by(nonlinear_arith) requires u * k == y - y1, k * d == n;
}
pub proof fn lemma_line_x(a: V, b: V, y: real, x: real) requires a.y != b.y, (x - a.x) * (b.y - a.y) == (b.x - a.x) * (y - a.y)
    ensures x == xa(Sg { a, b }, y), x == xa(Sg { a: b, b: a }, y)
{ lemma_xa_at(Sg { a, b }, y, x); lemma_flip(a, b, y); }
pub proof fn lemma_line_k(a: V, b: V, k: real) requires a.y != b.y, k == (b.x - a.x) / (b.y - a.y)
    ensures k == lean(Sg { a, b }), k == lean(Sg { a: b, b: a })
{ lemma_div(b.x - a.x, b.y - a.y); lemma_lean_at(Sg { a, b }, k); lemma_flip(a, b, 0real); }
/// where an affine function that gets down to 0 is 0
pub proof fn lemma_zero(f: real, k: real, h: real) -> (t: real) requires f > 0real, h > 0real, f + k * h <= 0real ensures 0real < t <= h, f + k * t == 0real {
    assert(k < 0real) by(nonlinear_arith) requires f > 0real, h > 0real, f + k * h <= 0real;
    let t = f / (-k);
    assert(t * (-k) == f) by { lemma_div(f, -k); }
    assert(f + k * t == 0real) by(nonlinear_arith) requires t * (-k) == f;
    assert(t > 0real) by(nonlinear_arith) requires t * (-k) == f, f > 0real, k < 0real;
    assert(t <= h) by(nonlinear_arith) requires t * (-k) == f, f + k * h <= 0real, k < 0real;
    t
}
pub open spec fn rmul(k: real, t: real) -> real { k * t }
/// an affine function that is positive, or 0 and growing, is positive just after
pub proof fn lemma_pos(f: real, k: real, h: real) -> (d: real) requires h > 0real, f > 0real || (f == 0real && k > 0real)
    ensures 0real < d <= h, forall|t: real| 0real < t <= d ==> f + #[trigger] rmul(k, t) > 0real
{
    if k >= 0real {
        assert forall|t: real| 0real < t <= h implies f + #[trigger] rmul(k, t) > 0real by {
            assert(k * t >= 0real) by(nonlinear_arith) requires k >= 0real, t > 0real;
            if f == 0real { assert(k * t > 0real) by(nonlinear_arith) requires k > 0real, t > 0real; }
        }
        h
    } else {
        let g = f / (-k) / 2real;
        assert(f / (-k) * (-k) == f) by { lemma_div(f, -k); }
        assert(g * 2real == f / (-k));
        assert(2real * (g * (-k)) == f) by(nonlinear_arith) requires g * 2real == f / (-k), f / (-k) * (-k) == f;
        assert(g > 0real) by(nonlinear_arith) requires 2real * (g * (-k)) == f, f > 0real, k < 0real;
        let d = if g <= h { g } else { h };
        assert forall|t: real| 0real < t <= d implies f + #[trigger] rmul(k, t) > 0real by {
            assert(k * t >= k * g) by(nonlinear_arith) requires k < 0real, t <= g;
            assert(k * g == 0real - g * (-k)) by(nonlinear_arith);
        }
        d
    }
}
/// w gets in the way of v: from above v to not above v, they are equal on the way
pub proof fn lemma_down(v: Sg, w: Sg, y: real, z: real) -> (t: real) requires y < z, xa(v, y) < xa(w, y), xa(v, z) >= xa(w, z)
    ensures y < t <= z, xa(v, t) == xa(w, t)
{
    let (f, k, h) = (xa(w, y) - xa(v, y), lean(w) - lean(v), z - y);
    lemma_aff(v, y, z); lemma_aff(w, y, z);
    assert(k * h == lean(w) * h - lean(v) * h) by(nonlinear_arith) requires k == lean(w) - lean(v);
    let t = lemma_zero(f, k, h);
    lemma_aff(v, y, y + t); lemma_aff(w, y, y + t);
    assert(k * t == lean(w) * t - lean(v) * t) by(nonlinear_arith) requires k == lean(w) - lean(v);
    y + t
}
/// k is strictly between i and j at y and is not at z: it meets one of them on the way
pub proof fn lemma_exit(i: Sg, j: Sg, k: Sg, y: real, z: real) -> (t: real)
    requires y < z, tw(xa(i, y), xa(k, y), xa(j, y)), !tw(xa(i, z), xa(k, z), xa(j, z))
    ensures y < t <= z, xa(k, t) == xa(i, t) || xa(k, t) == xa(j, t)
{
    if xa(i, y) < xa(k, y) {
        if xa(i, z) >= xa(k, z) { lemma_down(i, k, y, z) } else { lemma_down(k, j, y, z) }
    } else {
        if xa(j, z) >= xa(k, z) { lemma_down(j, k, y, z) } else { lemma_down(k, i, y, z) }
    }
}
pub open spec fn lt(left: bool, u: real, v: real) -> bool { if left { u < v } else { v < u } }
/// just above y the line v is left of w
pub open spec fn above(v: Sg, w: Sg, y: real) -> bool { xa(v, y) < xa(w, y) || (xa(v, y) == xa(w, y) && lean(v) < lean(w)) }
pub proof fn lemma_above(v: Sg, w: Sg, y: real, h: real) -> (d: real) requires h > 0real, above(v, w, y)
    ensures 0real < d <= h, forall|z: real| y < z <= y + d ==> #[trigger] xa(v, z) < xa(w, z)
{
    let (f, k) = (xa(w, y) - xa(v, y), lean(w) - lean(v));
    let d = lemma_pos(f, k, h);
    assert forall|z: real| y < z <= y + d implies #[trigger] xa(v, z) < xa(w, z) by {
        let t = z - y;
        lemma_aff(v, y, z); lemma_aff(w, y, z);
        assert(f + rmul(k, t) > 0real);
        assert(k * t == lean(w) * t - lean(v) * t) by(nonlinear_arith) requires k == lean(w) - lean(v);
    }
    d
}
/// just above y the line k is strictly between i and j
pub proof fn lemma_still(i: Sg, j: Sg, k: Sg, y: real, h: real) -> (z: real)
    requires h > 0real, (above(i, k, y) && above(k, j, y)) || (above(j, k, y) && above(k, i, y))
    ensures y < z <= y + h, tw(xa(i, z), xa(k, z), xa(j, z))
{
    if above(i, k, y) && above(k, j, y) {
        let d = lemma_above(i, k, y, h);
        let g = lemma_above(k, j, y, d);
        let z = y + g;
        assert(xa(i, z) < xa(k, z)); assert(xa(k, z) < xa(j, z));
        z
    } else {
        let d = lemma_above(j, k, y, h);
        let g = lemma_above(k, i, y, d);
        let z = y + g;
        assert(xa(j, z) < xa(k, z)); assert(xa(k, z) < xa(i, z));
        z
    }
}

// ---- the state of the sweep
pub open spec fn past(at: V, all: bool, y: real) -> bool { !all && y <= at.y }
/// no segment is strictly between i and j between the heights y0 and y1
pub open spec fn free(s: Seq<Sg>, i: int, j: int, y0: real, y1: real) -> bool {
    forall|k: int, y: real| ix(s, k) && y0 < y < y1 && rng(s[k], y) ==> !tw(xa(s[i], y), #[trigger] xa(s[k], y), xa(s[j], y))
}
/// i and j are next to each other from the sweep to their crossing q
pub open spec fn ready(s: Seq<Sg>, at: V, all: bool, i: int, j: int, q: V) -> bool {
    !all && xing(s, i, j, q) && at.y < q.y && s[i].a.y <= at.y && s[j].a.y <= at.y && free(s, i, j, at.y, q.y)
}
/// p is an end or a crossing
pub open spec fn evp(s: Seq<Sg>, p: V) -> bool { (exists|i: int| ix(s, i) && is_e(#[trigger] s[i], p)) || (exists|i: int, j: int| xing(s, i, j, p)) }
/// the event at q lists i
pub open spec fn lists(l: ISet<(V, int)>, q: V, i: int) -> bool { l.contains((q, i)) }
/// d: the places of the events, l: the lines that each lists as crossing
#[verifier::opaque]
pub open spec fn ahead(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>) -> bool {
    &&& forall|p: V| #[trigger] d.contains(p) ==> evp(s, p) && !past(at, all, p.y)
    &&& forall|i: int| ix(s, i) ==> (past(at, all, (#[trigger] s[i]).a.y) || d.contains(s[i].a)) && (past(at, all, s[i].b.y) || d.contains(s[i].b))
    &&& forall|i: int, j: int, q: V| #[trigger] ready(s, at, all, i, j, q) ==> d.contains(q) && lists(l, q, i) && lists(l, q, j)
}
pub open spec fn first(d: Set<V>, e: V) -> bool { d.contains(e) && forall|p: V| #[trigger] d.contains(p) ==> e.y <= p.y }
pub proof fn a_evp(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, p: V) requires ahead(s, at, all, d, l), d.contains(p) ensures evp(s, p), !past(at, all, p.y) { reveal(ahead); }
pub proof fn a_end(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, i: int, p: V) requires ahead(s, at, all, d, l), ix(s, i), is_e(s[i], p) ensures past(at, all, p.y) || d.contains(p) { reveal(ahead); assert(ix(s, i)); let x = s[i]; }
pub proof fn a_ready(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, i: int, j: int, q: V) requires ahead(s, at, all, d, l), ready(s, at, all, i, j, q)
    ensures d.contains(q), lists(l, q, i), lists(l, q, j)
{ reveal(ahead); }

/// two places of events at one height are one
pub proof fn lemma_heights(s: Seq<Sg>, p: V, q: V) requires gp(s), evp(s, p), evp(s, q), p.y == q.y ensures p == q {
    if exists|i: int| ix(s, i) && is_e(#[trigger] s[i], p) {
        let i = choose|i: int| ix(s, i) && is_e(#[trigger] s[i], p);
        if exists|j: int| ix(s, j) && is_e(#[trigger] s[j], q) { let j = choose|j: int| ix(s, j) && is_e(#[trigger] s[j], q); g_ends(s, i, j, p, q); }
        else { let (j, k) = choose|j: int, k: int| xing(s, j, k, q); g_off(s, j, k, i, q, p); }
    } else {
        let (i, m) = choose|i: int, m: int| xing(s, i, m, p);
        if exists|j: int| ix(s, j) && is_e(#[trigger] s[j], q) { let j = choose|j: int| ix(s, j) && is_e(#[trigger] s[j], q); g_off(s, i, m, j, p, q); }
        else { let (j, k) = choose|j: int, k: int| xing(s, j, k, q); g_apart(s, i, m, j, k, p, q); }
    }
}
/// an end up to the first event is the event
pub proof fn lemma_ends_in(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, i: int, p: V)
    requires gp(s), ahead(s, at, all, d, l), first(d, e), ix(s, i), is_e(s[i], p), !past(at, all, p.y), p.y <= e.y ensures p == e
{
    a_end(s, at, all, d, l, i, p); a_evp(s, at, all, d, l, p); a_evp(s, at, all, d, l, e);
    assert(e.y <= p.y);
    lemma_heights(s, p, e);
}
/// a crossing that the sweep has not reached
pub open spec fn coming(s: Seq<Sg>, at: V, all: bool, i: int, j: int, q: V) -> bool { xing(s, i, j, q) && !past(at, all, q.y) }
pub open spec fn lowest_row(s: Seq<Sg>, at: V, all: bool, i: int, m: int, k: int, q: V) -> bool {
    coming(s, at, all, i, k, q) && forall|j: int, p: V| j < m && #[trigger] coming(s, at, all, i, j, p) ==> q.y <= p.y
}
pub open spec fn lowest(s: Seq<Sg>, at: V, all: bool, m: int, i: int, k: int, q: V) -> bool {
    coming(s, at, all, i, k, q) && forall|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p) ==> q.y <= p.y
}
pub proof fn lemma_low_row(s: Seq<Sg>, at: V, all: bool, i: int, m: int)
    requires gp(s), 0 <= m <= s.len(), exists|j: int, p: V| j < m && #[trigger] coming(s, at, all, i, j, p)
    ensures exists|k: int, q: V| k < m && #[trigger] lowest_row(s, at, all, i, m, k, q)
    decreases m
{
    let (j, p) = choose|j: int, p: V| j < m && #[trigger] coming(s, at, all, i, j, p);
    let n = m - 1;
    if exists|j: int, p: V| j < n && #[trigger] coming(s, at, all, i, j, p) {
        lemma_low_row(s, at, all, i, n);
        let (k, q) = choose|k: int, q: V| k < n && #[trigger] lowest_row(s, at, all, i, n, k, q);
        if exists|p: V| #[trigger] coming(s, at, all, i, n, p) && p.y < q.y {
            let r = choose|p: V| #[trigger] coming(s, at, all, i, n, p) && p.y < q.y;
            assert forall|j: int, p: V| j < m && #[trigger] coming(s, at, all, i, j, p) implies r.y <= p.y by {
                if j == n { g_once(s, i, n, r, p); } else { assert(q.y <= p.y); }
            }
            assert(lowest_row(s, at, all, i, m, n, r));
        } else { assert(lowest_row(s, at, all, i, m, k, q)); }
    } else {
        assert(j == n);
        assert forall|j: int, x: V| j < m && #[trigger] coming(s, at, all, i, j, x) implies p.y <= x.y by { assert(j == n); g_once(s, i, n, p, x); }
        assert(lowest_row(s, at, all, i, m, n, p));
    }
}
pub proof fn lemma_low(s: Seq<Sg>, at: V, all: bool, m: int)
    requires gp(s), 0 <= m <= s.len(), exists|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p)
    ensures exists|i: int, k: int, q: V| #[trigger] lowest(s, at, all, m, i, k, q)
    decreases m
{
    let (h, j, p) = choose|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p);
    let n = m - 1;
    let row = exists|j: int, p: V| j < s.len() && #[trigger] coming(s, at, all, n, j, p);
    let rest = exists|h: int, j: int, p: V| h < n && #[trigger] coming(s, at, all, h, j, p);
    if row {
        lemma_low_row(s, at, all, n, s.len() as int);
        let (k, q) = choose|k: int, q: V| k < s.len() && #[trigger] lowest_row(s, at, all, n, s.len() as int, k, q);
        if rest {
            lemma_low(s, at, all, n);
            let (i1, k1, q1) = choose|i: int, k: int, q: V| #[trigger] lowest(s, at, all, n, i, k, q);
            if q1.y <= q.y {
                assert forall|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p) implies q1.y <= p.y by { if h == n { assert(q.y <= p.y); } }
                assert(lowest(s, at, all, m, i1, k1, q1));
            } else {
                assert forall|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p) implies q.y <= p.y by { if h < n { assert(q1.y <= p.y); } }
                assert(lowest(s, at, all, m, n, k, q));
            }
        } else {
            assert forall|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p) implies q.y <= p.y by { assert(h == n); }
            assert(lowest(s, at, all, m, n, k, q));
        }
    } else {
        assert(h < n) by { if h == n { assert(coming(s, at, all, n, j, p)); } }
        lemma_low(s, at, all, n);
        let (i1, k1, q1) = choose|i: int, k: int, q: V| #[trigger] lowest(s, at, all, n, i, k, q);
        assert forall|h: int, j: int, p: V| h < m && #[trigger] coming(s, at, all, h, j, p) implies q1.y <= p.y by { if h == n { assert(j < s.len()); } }
        assert(lowest(s, at, all, m, i1, k1, q1));
    }
}
/// the lowest crossing ahead, if it is not above the first event, is the event
pub proof fn lemma_lowest(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, i: int, j: int, q: V)
    requires gp(s), ahead(s, at, all, d, l), first(d, e), lowest(s, at, all, s.len() as int, i, j, q), q.y <= e.y
    ensures q == e, lists(l, e, i), lists(l, e, j)
{
    g_up(s, i); g_up(s, j);
    a_evp(s, at, all, d, l, e);
    assert(evp(s, q));
    assert forall|k: int, p: V| ix(s, k) && #[trigger] is_e(s[k], p) && p.y <= q.y implies past(at, all, p.y) by {
        if !past(at, all, p.y) { lemma_ends_in(s, at, all, d, l, e, k, p); g_off(s, i, j, k, q, e); }
    }
    assert(is_e(s[i], s[i].a) && is_e(s[j], s[j].a));
    assert(!all);
    assert forall|k: int, y: real| ix(s, k) && at.y < y < q.y && rng(s[k], y) implies !tw(xa(s[i], y), #[trigger] xa(s[k], y), xa(s[j], y)) by {
        if tw(xa(s[i], y), xa(s[k], y), xa(s[j], y)) {
            g_up(s, k);
            let t = lemma_exit(s[i], s[j], s[k], y, q.y);
            assert(is_e(s[k], s[k].a) && is_e(s[k], s[k].b));
            let p = V { x: xa(s[k], t), y: t };
            let m = if xa(s[k], t) == xa(s[i], t) { i } else { j };
            assert(k != i && k != j);
            assert(ins(s[k], p) && ins(s[m], p));
            assert(coming(s, at, all, k, m, p));
            assert(q.y <= p.y);
            g_apart(s, i, j, k, m, q, p);
        }
    }
    assert(ready(s, at, all, i, j, q));
    a_ready(s, at, all, d, l, i, j, q);
    lemma_heights(s, q, e);
}
/// every crossing up to the first event is the event and listed there
pub proof fn lemma_all(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, i: int, j: int, q: V)
    requires gp(s), ahead(s, at, all, d, l), first(d, e), xing(s, i, j, q), !past(at, all, q.y), q.y <= e.y
    ensures q == e, lists(l, e, i), lists(l, e, j)
{
    assert(coming(s, at, all, i, j, q));
    lemma_low(s, at, all, s.len() as int);
    let (i1, k1, q1) = choose|i: int, k: int, q: V| #[trigger] lowest(s, at, all, s.len() as int, i, k, q);
    assert(q1.y <= q.y);
    lemma_lowest(s, at, all, d, l, e, i1, k1, q1);
    g_apart(s, i1, k1, i, j, q1, q);
}
/// no crossing is ahead when there are no events left
pub proof fn lemma_none(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, i: int, j: int, q: V)
    requires gp(s), ahead(s, at, all, d, l), forall|p: V| !#[trigger] d.contains(p), xing(s, i, j, q)
    ensures past(at, all, q.y)
{
    g_up(s, i);
    a_end(s, at, all, d, l, i, s[i].b);
}

// ---- one event
/// con: the lines that start at or pass e; act: the other lines at the height of e
#[verifier::opaque]
pub open spec fn stage(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>) -> bool {
    &&& gp(s) && ahead(s, at, all, d, l) && first(d, e)
    &&& forall|m: int| #[trigger] con.contains(m) ==> ix(s, m) && thru(s[m], e) && e.y < s[m].b.y
    &&& forall|m: int| lists(l, e, m) ==> #[trigger] con.contains(m)
    &&& forall|m: int| ix(s, m) && s[m].a == e ==> #[trigger] con.contains(m)
    &&& forall|m: int| #[trigger] act.contains(m) <==> ix(s, m) && past(at, all, s[m].a.y) && !past(at, all, s[m].b.y) && s[m].b != e && !lists(l, e, m)
}
pub open spec fn nearest(s: Seq<Sg>, e: V, act: ISet<int>, left: bool, j: int) -> bool {
    &&& act.contains(j) && lt(left, xa(s[j], e.y), e.x)
    &&& forall|m: int| #[trigger] act.contains(m) && m != j && lt(left, xa(s[m], e.y), e.x) ==> lt(left, xa(s[m], e.y), xa(s[j], e.y))
}
pub open spec fn flattest(s: Seq<Sg>, con: ISet<int>, left: bool, i: int) -> bool {
    con.contains(i) && forall|m: int| #[trigger] con.contains(m) && m != i ==> lt(left, lean(s[i]), lean(s[m]))
}
/// the pair (i, j) is looked at when the event e is handled
pub open spec fn looked(s: Seq<Sg>, e: V, con: ISet<int>, act: ISet<int>, i: int, j: int) -> bool {
    ||| nearest(s, e, act, true, j) && flattest(s, con, true, i)
    ||| nearest(s, e, act, false, j) && flattest(s, con, false, i)
    ||| (forall|m: int| !#[trigger] con.contains(m)) && nearest(s, e, act, true, i) && nearest(s, e, act, false, j)
}
pub proof fn st_con(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, m: int)
    requires stage(s, at, all, d, l, e, con, act)
    ensures con.contains(m) ==> ix(s, m) && thru(s[m], e) && e.y < s[m].b.y, lists(l, e, m) ==> con.contains(m), ix(s, m) && s[m].a == e ==> con.contains(m)
{ reveal(stage); assert(con.contains(m) || !con.contains(m)); }
/// a line that goes on above e is connected to e or it is one of the others and does not meet e
pub proof fn lemma_alive(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, i: int)
    requires stage(s, at, all, d, l, e, con, act), ix(s, i), s[i].a.y <= e.y < s[i].b.y, !con.contains(i)
    ensures act.contains(i), !thru(s[i], e), xa(s[i], e.y) != e.x
{
    reveal(stage);
    a_evp(s, at, all, d, l, e);
    g_up(s, i);
    assert(act.contains(i)) by {
        if !past(at, all, s[i].a.y) { lemma_ends_in(s, at, all, d, l, e, i, s[i].a); assert(con.contains(i)); }
        if lists(l, e, i) { assert(con.contains(i)); }
    }
    if thru(s[i], e) {
        lemma_thru_e(s[i], e);
        assert(s[i].a != e) by { if s[i].a == e { assert(con.contains(i)); } }
        if exists|k: int| ix(s, k) && is_e(#[trigger] s[k], e) {
            let k = choose|k: int| ix(s, k) && is_e(#[trigger] s[k], e);
            g_up(s, k); lemma_thru_e(s[k], e);
            if k != i { g_meet(s, i, k, e); }
        } else {
            let (j, k) = choose|j: int, k: int| xing(s, j, k, e);
            let m = if i == j { k } else { j };
            assert(xing(s, i, m, e));
            lemma_all(s, at, all, d, l, e, i, m, e);
            assert(con.contains(i));
        }
    }
}
pub proof fn lemma_act(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, m: int)
    requires stage(s, at, all, d, l, e, con, act), act.contains(m)
    ensures ix(s, m), s[m].a.y < e.y < s[m].b.y
{
    reveal(stage);
    a_evp(s, at, all, d, l, e);
    if s[m].b.y <= e.y { lemma_ends_in(s, at, all, d, l, e, m, s[m].b); }
}
/// two lines at the height of e in one place other than e
pub proof fn lemma_tie(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, i: int, j: int)
    requires gp(s), ahead(s, at, all, d, l), first(d, e), ix(s, i), ix(s, j), i != j, rng(s[i], e.y), rng(s[j], e.y), xa(s[i], e.y) == xa(s[j], e.y)
    ensures xa(s[i], e.y) == e.x
{
    a_evp(s, at, all, d, l, e);
    let p = V { x: xa(s[i], e.y), y: e.y };
    assert(thru(s[i], p) && thru(s[j], p));
    g_meet(s, i, j, p);
    assert(evp(s, p)) by { if is_e(s[i], p) {} else { assert(xing(s, i, j, p)); } }
    lemma_heights(s, p, e);
}
pub open spec fn between(s: Seq<Sg>, i: int, j: int, m: int, y: real) -> bool { (above(s[i], s[m], y) && above(s[m], s[j], y)) || (above(s[j], s[m], y) && above(s[m], s[i], y)) }
/// nothing gets between neighbours just above e
pub proof fn lemma_no(s: Seq<Sg>, e: V, i: int, j: int, m: int, q: V)
    requires ready(s, e, false, i, j, q), ix(s, m), s[m].a.y <= e.y < s[m].b.y, between(s, i, j, m, e.y)
    ensures false
{
    let h = if q.y < s[m].b.y { q.y - e.y } else { s[m].b.y - e.y } / 2real;
    let z = lemma_still(s[i], s[j], s[m], e.y, h);
    assert(rng(s[m], z) && e.y < z < q.y);
}
/// i is connected to e, j is next to it
pub proof fn lemma_beside(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, i: int, j: int, q: V)
    requires stage(s, at, all, d, l, e, con, act), ready(s, e, false, i, j, q), con.contains(i)
    ensures looked(s, e, con, act, i, j)
{
    st_con(s, at, all, d, l, e, con, act, i); st_con(s, at, all, d, l, e, con, act, j);
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    assert(thru(s[i], q) && thru(s[j], q));
    if con.contains(j) { g_once(s, i, j, e, q); }
    lemma_alive(s, at, all, d, l, e, con, act, j);
    let left = xa(s[j], e.y) < e.x;
    assert forall|m: int| #[trigger] act.contains(m) && m != j && lt(left, xa(s[m], e.y), e.x) implies lt(left, xa(s[m], e.y), xa(s[j], e.y)) by {
        lemma_act(s, at, all, d, l, e, con, act, m);
        if xa(s[m], e.y) == xa(s[j], e.y) { lemma_tie(s, at, all, d, l, e, m, j); }
        if !lt(left, xa(s[m], e.y), xa(s[j], e.y)) { assert(between(s, i, j, m, e.y)); lemma_no(s, e, i, j, m, q); }
    }
    assert(nearest(s, e, act, left, j));
    assert forall|m: int| #[trigger] con.contains(m) && m != i implies lt(left, lean(s[i]), lean(s[m])) by {
        st_con(s, at, all, d, l, e, con, act, m);
        if lean(s[m]) == lean(s[i]) {
            let z = if s[m].b.y <= s[i].b.y { s[m].b.y } else { s[i].b.y };
            let p = V { x: xa(s[i], z), y: z };
            lemma_aff(s[i], e.y, z); lemma_aff(s[m], e.y, z);
            g_once(s, i, m, e, p);
        }
        if !lt(left, lean(s[i]), lean(s[m])) { assert(between(s, i, j, m, e.y)); lemma_no(s, e, i, j, m, q); }
    }
    assert(flattest(s, con, left, i));
}
/// e is strictly between i and j
pub proof fn lemma_gap(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, i: int, j: int, q: V)
    requires stage(s, at, all, d, l, e, con, act), ready(s, e, false, i, j, q), !con.contains(i), !con.contains(j), xa(s[i], e.y) < e.x < xa(s[j], e.y)
    ensures looked(s, e, con, act, i, j)
{
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    lemma_alive(s, at, all, d, l, e, con, act, i); lemma_alive(s, at, all, d, l, e, con, act, j);
    assert forall|m: int| !#[trigger] con.contains(m) by {
        if con.contains(m) { st_con(s, at, all, d, l, e, con, act, m); assert(between(s, i, j, m, e.y)); lemma_no(s, e, i, j, m, q); }
    }
    assert forall|m: int| #[trigger] act.contains(m) && m != i && lt(true, xa(s[m], e.y), e.x) implies lt(true, xa(s[m], e.y), xa(s[i], e.y)) by {
        lemma_act(s, at, all, d, l, e, con, act, m);
        if xa(s[m], e.y) == xa(s[i], e.y) { lemma_tie(s, at, all, d, l, e, m, i); }
        if xa(s[m], e.y) > xa(s[i], e.y) { assert(between(s, i, j, m, e.y)); lemma_no(s, e, i, j, m, q); }
    }
    assert forall|m: int| #[trigger] act.contains(m) && m != j && lt(false, xa(s[m], e.y), e.x) implies lt(false, xa(s[m], e.y), xa(s[j], e.y)) by {
        lemma_act(s, at, all, d, l, e, con, act, m);
        if xa(s[m], e.y) == xa(s[j], e.y) { lemma_tie(s, at, all, d, l, e, m, j); }
        if xa(s[m], e.y) < xa(s[j], e.y) { assert(between(s, i, j, m, e.y)); lemma_no(s, e, i, j, m, q); }
    }
}
/// a line strictly between i and j below e that is not above e ends in e
pub proof fn lemma_gone(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, i: int, j: int, q: V, k: int, y: real)
    requires stage(s, at, all, d, l, e, con, act), ready(s, e, false, i, j, q), !con.contains(i), !con.contains(j),
        past(at, all, s[i].a.y), past(at, all, s[j].a.y), ix(s, k), at.y < y < q.y, rng(s[k], y), tw(xa(s[i], y), xa(s[k], y), xa(s[j], y)),
    ensures tw(xa(s[i], e.y), e.x, xa(s[j], e.y))
{
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    a_evp(s, at, all, d, l, e);
    g_up(s, k); g_up(s, i); g_up(s, j);
    assert(k != i && k != j);
    assert(y <= e.y) by { if e.y < y { assert(free(s, i, j, e.y, q.y)); } }
    if s[k].b.y <= e.y { lemma_ends_in(s, at, all, d, l, e, k, s[k].b); lemma_thru_e(s[k], e); }
    let t = e.y;
    if tw(xa(s[i], t), xa(s[k], t), xa(s[j], t)) {
        if t < s[k].b.y { assert(between(s, i, j, k, t)); lemma_no(s, e, i, j, k, q); }
    } else {
        assert(y < t);
        let z = lemma_exit(s[i], s[j], s[k], y, t);
        let p = V { x: xa(s[k], z), y: z };
        let m = if xa(s[k], z) == xa(s[i], z) { i } else { j };
        assert(thru(s[k], p) && thru(s[m], p));
        g_meet(s, k, m, p);
        if xing(s, k, m, p) { lemma_all(s, at, all, d, l, e, k, m, p); st_con(s, at, all, d, l, e, con, act, m); }
        else { lemma_thru_e(s[m], p); assert(p.y < s[m].b.y); }
    }
}
/// a crossing that becomes ready at e is looked at
pub proof fn lemma_looked(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, i: int, j: int, q: V)
    requires stage(s, at, all, d, l, e, con, act), ready(s, e, false, i, j, q)
    ensures looked(s, e, con, act, i, j) || looked(s, e, con, act, j, i) || (lists(l, q, i) && lists(l, q, j) && d.contains(q))
{
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    a_evp(s, at, all, d, l, e);
    if con.contains(i) { lemma_beside(s, at, all, d, l, e, con, act, i, j, q); }
    else if con.contains(j) {
        assert(ready(s, e, false, j, i, q)) by {
            assert(xing(s, j, i, q));
            assert forall|k: int, y: real| ix(s, k) && e.y < y < q.y && rng(s[k], y) implies !tw(xa(s[j], y), #[trigger] xa(s[k], y), xa(s[i], y)) by {}
        }
        lemma_beside(s, at, all, d, l, e, con, act, j, i, q);
    } else {
        g_up(s, i); g_up(s, j);
        lemma_alive(s, at, all, d, l, e, con, act, i); lemma_alive(s, at, all, d, l, e, con, act, j);
        assert(past(at, all, s[i].a.y) && past(at, all, s[j].a.y)) by { reveal(stage); }
        if ready(s, at, all, i, j, q) { a_ready(s, at, all, d, l, i, j, q); }
        else {
            assert(at.y < e.y);
            assert(!free(s, i, j, at.y, q.y));
            let (k, y) = choose|k: int, y: real| ix(s, k) && at.y < y < q.y && rng(s[k], y) && tw(xa(s[i], y), #[trigger] xa(s[k], y), xa(s[j], y));
            lemma_gone(s, at, all, d, l, e, con, act, i, j, q, k, y);
            if xa(s[i], e.y) < e.x { lemma_gap(s, at, all, d, l, e, con, act, i, j, q); }
            else {
                assert(ready(s, e, false, j, i, q)) by {
                    assert(xing(s, j, i, q));
                    assert forall|k: int, y: real| ix(s, k) && e.y < y < q.y && rng(s[k], y) implies !tw(xa(s[j], y), #[trigger] xa(s[k], y), xa(s[i], y)) by {}
                }
                lemma_gap(s, at, all, d, l, e, con, act, j, i, q);
            }
        }
    }
}
/// the lines at the height of e, just above it
pub proof fn lemma_active(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, m: int)
    requires stage(s, at, all, d, l, e, con, act), ix(s, m)
    ensures (past(e, false, s[m].a.y) && !past(e, false, s[m].b.y)) <==> ((past(at, all, s[m].a.y) && !past(at, all, s[m].b.y) && s[m].b != e) || s[m].a == e)
{
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    a_evp(s, at, all, d, l, e);
    g_up(s, m);
    if !past(at, all, s[m].a.y) && s[m].a.y <= e.y { lemma_ends_in(s, at, all, d, l, e, m, s[m].a); }
    if !past(at, all, s[m].b.y) && s[m].b.y <= e.y { lemma_ends_in(s, at, all, d, l, e, m, s[m].b); }
}
/// every crossing up to the sweep is in the result
#[verifier::opaque]
pub open spec fn found(s: Seq<Sg>, at: V, all: bool, r: ISet<(V, int)>) -> bool {
    forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) && past(at, all, q.y) ==> r.contains((q, i)) && r.contains((q, j))
}
pub proof fn lemma_found0(s: Seq<Sg>, at: V, r: ISet<(V, int)>) ensures found(s, at, true, r) { reveal(found); }
pub proof fn lemma_found1(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, r: ISet<(V, int)>, f: ISet<(V, int)>)
    requires gp(s), ahead(s, at, all, d, l), first(d, e), found(s, at, all, r),
        forall|p: V, i: int| #[trigger] r.contains((p, i)) ==> f.contains((p, i)), forall|i: int| #[trigger] lists(l, e, i) ==> f.contains((e, i))
    ensures found(s, e, false, f)
{
    reveal(found);
    assert forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) && past(e, false, q.y) implies f.contains((q, i)) && f.contains((q, j)) by {
        if past(at, all, q.y) { assert(r.contains((q, i)) && r.contains((q, j))); }
        else { lemma_all(s, at, all, d, l, e, i, j, q); }
    }
}
pub proof fn lemma_found2(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, r: ISet<(V, int)>)
    requires gp(s), ahead(s, at, all, d, l), forall|p: V| !#[trigger] d.contains(p), found(s, at, all, r)
    ensures forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) ==> r.contains((q, i)) && r.contains((q, j))
{
    reveal(found);
    assert forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) implies r.contains((q, i)) && r.contains((q, j)) by { lemma_none(s, at, all, d, l, i, j, q); }
}
/// the pairs that are looked at have their crossings listed
#[verifier::opaque]
pub open spec fn did(s: Seq<Sg>, e: V, con: ISet<int>, act: ISet<int>, d: Set<V>, l: ISet<(V, int)>) -> bool {
    forall|i: int, j: int, q: V| #[trigger] xing(s, i, j, q) && e.y < q.y && looked(s, e, con, act, i, j) ==> d.contains(q) && lists(l, q, i) && lists(l, q, j)
}
/// the state after the event e
pub proof fn lemma_step_on(s: Seq<Sg>, at: V, all: bool, d: Set<V>, l: ISet<(V, int)>, e: V, con: ISet<int>, act: ISet<int>, d2: Set<V>, l2: ISet<(V, int)>)
    requires stage(s, at, all, d, l, e, con, act), did(s, e, con, act, d2, l2),
        forall|p: V| #[trigger] d2.contains(p) ==> evp(s, p) && e.y < p.y,
        forall|p: V| #[trigger] d.contains(p) && p != e ==> d2.contains(p),
        forall|p: V, i: int| #[trigger] lists(l, p, i) && p != e ==> lists(l2, p, i),
    ensures ahead(s, e, false, d2, l2)
{
    assert(gp(s) && ahead(s, at, all, d, l) && first(d, e)) by { reveal(stage); }
    a_evp(s, at, all, d, l, e);
    assert forall|i: int| ix(s, i) implies (past(e, false, (#[trigger] s[i]).a.y) || d2.contains(s[i].a)) && (past(e, false, s[i].b.y) || d2.contains(s[i].b)) by {
        a_end(s, at, all, d, l, i, s[i].a); a_end(s, at, all, d, l, i, s[i].b);
    }
    assert forall|i: int, j: int, q: V| #[trigger] ready(s, e, false, i, j, q) implies d2.contains(q) && lists(l2, q, i) && lists(l2, q, j) by {
        lemma_looked(s, at, all, d, l, e, con, act, i, j, q);
        assert(xing(s, i, j, q) && xing(s, j, i, q));
        reveal(did);
    }
    reveal(ahead);
}
/// before the first event
pub proof fn lemma_begin(s: Seq<Sg>, at: V, d: Set<V>, l: ISet<(V, int)>)
    requires forall|p: V| #[trigger] d.contains(p) ==> evp(s, p), forall|i: int| ix(s, i) ==> d.contains((#[trigger] s[i]).a) && d.contains(s[i].b)
    ensures ahead(s, at, true, d, l)
{ reveal(ahead); }
/// points at or after the event by height and then left to right are above it
pub proof fn lemma_above_at(s: Seq<Sg>, e: V, p: V) requires gp(s), evp(s, e), evp(s, p), e.y < p.y || (e.y == p.y && e.x < p.x) ensures e.y < p.y {
    if e.y == p.y { lemma_heights(s, e, p); }
}
// ---- the best candidates
pub open spec fn val(s: Seq<Sg>, y: Option<real>, m: int) -> real { match y { Some(y) => xa(s[m], y), None => lean(s[m]) } }
pub open spec fn in_(s: Seq<usize>, i: int) -> bool { 0 <= i <= usize::MAX && s.contains(i as usize) }
/// b is the best value of the lines seen, and the line that has it alone is in the list
#[verifier::opaque]
pub open spec fn top(s: Seq<Sg>, y: Option<real>, dir: bool, seen: ISet<int>, b: Option<real>, list: Seq<usize>) -> bool {
    &&& match b {
        None => forall|m: int| !#[trigger] seen.contains(m),
        Some(v) => (exists|m: int| #[trigger] seen.contains(m) && val(s, y, m) == v) && forall|m: int| #[trigger] seen.contains(m) ==> !lt(dir, v, val(s, y, m)),
    }
    &&& forall|c: int| #[trigger] seen.contains(c) && (forall|m: int| #[trigger] seen.contains(m) && m != c ==> lt(dir, val(s, y, m), val(s, y, c))) ==> in_(list, c)
}
/// the candidate c with value v is taken into account
pub open spec fn took(dir: bool, b: Option<real>, list: Seq<usize>, v: real, c: usize, b2: Option<real>, list2: Seq<usize>) -> bool {
    match b {
        None => b2 == Some(v) && list2.contains(c),
        Some(w) => if lt(dir, w, v) { b2 == Some(v) && list2.contains(c) } else { b2 == b && (w == v || list2 == list) },
    }
}
pub proof fn lemma_top0(s: Seq<Sg>, y: Option<real>, dir: bool, seen: ISet<int>, list: Seq<usize>) requires forall|m: int| !#[trigger] seen.contains(m) ensures top(s, y, dir, seen, None, list) { reveal(top); }
pub proof fn lemma_top(s: Seq<Sg>, y: Option<real>, dir: bool, seen: ISet<int>, b: Option<real>, list: Seq<usize>, c: usize, b2: Option<real>, list2: Seq<usize>)
    requires top(s, y, dir, seen, b, list), took(dir, b, list, val(s, y, c as int), c, b2, list2), seen.contains(c as int) && b == Some(val(s, y, c as int)) ==> forall|x: usize| #[trigger] list.contains(x) ==> list2.contains(x)
    ensures top(s, y, dir, seen.insert(c as int), b2, list2)
{
    reveal(top);
    let n = seen.insert(c as int);
    let v = val(s, y, c as int);
    assert(n.contains(c as int));
    match b2 {
        None => {}
        Some(w) => {
            if b != b2 || w == v { assert(n.contains(c as int) && val(s, y, c as int) == w); }
            else { let m = choose|m: int| #[trigger] seen.contains(m) && val(s, y, m) == w; assert(n.contains(m)); }
            assert forall|m: int| #[trigger] n.contains(m) implies !lt(dir, w, val(s, y, m)) by { if m != c { assert(seen.contains(m)); } }
        }
    }
    assert forall|d: int| #[trigger] n.contains(d) && (forall|m: int| #[trigger] n.contains(m) && m != d ==> lt(dir, val(s, y, m), val(s, y, d))) implies in_(list2, d) by {
        if d != c {
            assert(seen.contains(d));
            assert(n.contains(c as int));
            assert forall|m: int| #[trigger] seen.contains(m) && m != d implies lt(dir, val(s, y, m), val(s, y, d)) by { assert(n.contains(m)); }
        } else {
            match b { None => {}, Some(w) => {
                let m = choose|m: int| #[trigger] seen.contains(m) && val(s, y, m) == w;
                assert(n.contains(m));
                if !lt(dir, w, v) {
                    assert(m == c);
                    assert forall|m: int| #[trigger] seen.contains(m) && m != c implies lt(dir, val(s, y, m), val(s, y, c as int)) by { assert(n.contains(m)); }
                }
            } }
        }
    }
}
pub proof fn top_alone(s: Seq<Sg>, y: Option<real>, dir: bool, seen: ISet<int>, b: Option<real>, list: Seq<usize>, c: int)
    requires top(s, y, dir, seen, b, list), seen.contains(c), forall|m: int| #[trigger] seen.contains(m) && m != c ==> lt(dir, val(s, y, m), val(s, y, c))
    ensures in_(list, c)
{ reveal(top); }
"""

GHOST = """
pub open spec fn sg<T>(l: Line2<T>) -> Sg { Sg { a: lo(l), b: hi(l) } }
pub open spec fn sgs<T>(ls: Seq<Line2<T>>) -> Seq<Sg> { Seq::new(ls.len(), |i: int| sg(ls[i])) }
/// the lines that the events list as crossing
pub open spec fn lset<K>(q: Map<V, (K, SiteEvent)>) -> ISet<(V, int)> { ISet::new(|t: (V, int)| in_(inters(q, t.0), t.1)) }
pub open spec fn rset<K>(r: Map<V, (K, Vec<usize>)>) -> ISet<(V, int)> { ISet::new(|t: (V, int)| 0 <= t.1 <= usize::MAX && had(r, t.0, t.1 as usize)) }
/// the ends ahead are listed in their events
pub open spec fn known<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, all: bool) -> bool {
    forall|i: int| 0 <= i < ls.len() ==> knows(q, #[trigger] ls[i], i, at, all)
}
pub open spec fn knows<K, T>(q: Map<V, (K, SiteEvent)>, l: Line2<T>, i: int, at: V, all: bool) -> bool {
    ((all || klt(at, lo(l))) ==> in_(adds(q, lo(l)), i)) && ((all || klt(at, hi(l))) ==> in_(drops(q, hi(l)), i))
}
pub open spec fn going<T>(ls: Seq<Line2<T>>, at: V, all: bool, act: Set<usize>) -> bool {
    forall|i: usize| i < ls.len() ==> (#[trigger] act.contains(i) <==> (past(at, all, lo(ls[i as int]).y) && !past(at, all, hi(ls[i as int]).y)))
}
#[verifier::opaque]
pub open spec fn whole<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, all: bool, act: Set<usize>) -> bool {
    known(ls, q, at, all) && (gp(sgs(ls)) ==> ahead(sgs(ls), at, all, q.dom(), lset(q)) && going(ls, at, all, act))
}
/// ev is the first event of q0, at e, and q the rest
pub open spec fn due_at<K, T>(ls: Seq<Line2<T>>, q0: Map<V, (K, SiteEvent)>, at: V, all: bool, e: V, ev: SiteEvent, act: Set<usize>, q: Map<V, (K, SiteEvent)>) -> bool {
    &&& q0.dom().contains(e) && q0[e].1 == ev && q =~= q0.remove(e)
    &&& forall|o: V| #[trigger] q0.dom().contains(o) ==> !klt(o, e)
    &&& queue(ls, q0, at, all) && whole(ls, q0, at, all, act)
}
pub open spec fn due<K, T>(ls: Seq<Line2<T>>, e: V, ev: SiteEvent, act: Set<usize>, q: Map<V, (K, SiteEvent)>) -> bool {
    exists|q0: Map<V, (K, SiteEvent)>, at: V, all: bool| #[trigger] due_at(ls, q0, at, all, e, ev, act, q)
}
pub open spec fn cons(ev: SiteEvent) -> ISet<int> { ISet::new(|m: int| in_(ol(ev.add), m) || in_(ol(ev.intersection), m)) }
pub open spec fn others(act: Set<usize>, ev: SiteEvent) -> ISet<int> { ISet::new(|m: int| 0 <= m <= usize::MAX && act.contains(m as usize) && !in_(ol(ev.drop), m) && !in_(ol(ev.intersection), m)) }
/// on a line of general position
pub proof fn lemma_on<T>(l: Line2<T>, p: V) requires up(sg(l)) ensures on(l, p) <==> thru(sg(l), p), interior(l, p) <==> ins(sg(l), p) {
    let s = sg(l);
    lemma_seg_sym(vv(l.start), vv(l.end), p);
    assert(on(l, p) <==> on_seg(s.a, s.b, p));
    let d = vsub(s.b, s.a);
    lemma_thru_e(s, p);
    lemma_xa_e(s);
    if on_seg(s.a, s.b, p) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] vat(s.a, vsub(s.b, s.a), t);
        lemma_between(s.a.y, s.b.y, t);
        assert(d.x * (d.y * t) == (d.x * t) * d.y) by(nonlinear_arith);
        lemma_xa_at(s, p.y, p.x);
    }
    if thru(s, p) {
        let t = (p.y - s.a.y) / d.y;
        lemma_quot(p.y - s.a.y, d.y);
        assert(0real <= t <= 1real) by(nonlinear_arith) requires t * d.y == p.y - s.a.y, 0real <= p.y - s.a.y <= d.y, d.y > 0real;
        assert(d.y * t == p.y - s.a.y) by(nonlinear_arith) requires t * d.y == p.y - s.a.y;
        lemma_xa_of(s, p.y);
        assert((p.x - s.a.x) * d.y == d.x * (p.y - s.a.y));
        assert((d.x * t) * d.y == d.x * (t * d.y)) by(nonlinear_arith);
        lemma_cancel(d.x * t, p.x - s.a.x, d.y);
        assert(p == vat(s.a, d, t));
    }
}

pub proof fn lemma_sgs<T>(ls: Seq<Line2<T>>, i: int) requires gp(sgs(ls)), 0 <= i < ls.len() ensures sgs(ls)[i] == sg(ls[i]), up(sg(ls[i])), ix(sgs(ls), i), sgs(ls).len() == ls.len() { g_up(sgs(ls), i); }
/// the place of an event is an end or a crossing
pub proof fn lemma_evp<T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent) requires evt(ls, p, e), gp(sgs(ls)) ensures evp(sgs(ls), p) {
    let s = sgs(ls);
    let (a, d, c) = (ol(e.add), ol(e.drop), ol(e.intersection));
    if a.len() > 0 { assert(a.contains(a[0])); assert(ix(s, a[0] as int) && is_e(s[a[0] as int], p)); }
    else if d.len() > 0 { assert(d.contains(d[0])); assert(ix(s, d[0] as int) && is_e(s[d[0] as int], p)); }
    else {
        let (x, y) = choose|x: usize, y: usize| x != y && #[trigger] c.contains(x) && #[trigger] c.contains(y);
        lemma_sgs(ls, x as int); lemma_sgs(ls, y as int);
        lemma_on(ls[x as int], p); lemma_on(ls[y as int], p);
        assert(xing(s, x as int, y as int, p));
    }
}
pub proof fn lemma_stage<K, T>(ls: Seq<Line2<T>>, q0: Map<V, (K, SiteEvent)>, at: V, all: bool, e: V, ev: SiteEvent, act: Set<usize>, q: Map<V, (K, SiteEvent)>)
    requires due_at(ls, q0, at, all, e, ev, act, q), gp(sgs(ls)), ls.len() <= usize::MAX, forall|x: usize| #[trigger] act.contains(x) ==> x < ls.len()
    ensures stage(sgs(ls), at, all, q0.dom(), lset(q0), e, cons(ev), others(act, ev))
{
    let (s, con, oth, l) = (sgs(ls), cons(ev), others(act, ev), lset(q0));
    reveal(whole); reveal(stage);
    assert(evt(ls, e, q0[e].1));
    assert(first(q0.dom(), e));
    assert forall|m: int| #[trigger] con.contains(m) implies ix(s, m) && thru(s[m], e) && e.y < s[m].b.y by {
        lemma_sgs(ls, m);
        lemma_thru_e(s[m], e);
        lemma_on(ls[m], e);
    }
    assert forall|m: int| lists(l, e, m) implies #[trigger] con.contains(m) by {}
    assert forall|m: int| ix(s, m) && s[m].a == e implies #[trigger] con.contains(m) by { assert(knows(q0, ls[m], m, at, all)); }
    assert forall|m: int| #[trigger] oth.contains(m) <==> ix(s, m) && past(at, all, s[m].a.y) && !past(at, all, s[m].b.y) && s[m].b != e && !lists(l, e, m) by {
        if ix(s, m) {
            assert(knows(q0, ls[m], m, at, all));
            let x = m as usize;
            assert(act.contains(x) || !act.contains(x));
            assert(ol(ev.drop).contains(x) || !ol(ev.drop).contains(x));
        }
    }
}
/// f is q with more intersections
#[verifier::opaque]
pub open spec fn kept<K>(q: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>) -> bool {
    &&& forall|p: V| #[trigger] q.dom().contains(p) ==> f.dom().contains(p)
    &&& forall|p: V| #[trigger] adds(f, p) =~= adds(q, p)
    &&& forall|p: V| #[trigger] drops(f, p) =~= drops(q, p)
    &&& forall|p: V, x: usize| #[trigger] inters(q, p).contains(x) ==> inters(f, p).contains(x)
}
pub proof fn lemma_kept0<K>(q: Map<V, (K, SiteEvent)>) ensures kept(q, q) { reveal(kept); }
pub proof fn lemma_kept1<K>(q: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>, g: Map<V, (K, SiteEvent)>) requires kept(q, f), kept(f, g) ensures kept(q, g) {
    reveal(kept);
    assert forall|p: V| #[trigger] adds(g, p) =~= adds(q, p) by { assert(adds(f, p) =~= adds(q, p)); }
    assert forall|p: V| #[trigger] drops(g, p) =~= drops(q, p) by { assert(drops(f, p) =~= drops(q, p)); }
}
/// the crossing ahead of the lines a and b is listed
#[verifier::opaque]
pub open spec fn pair<K, T>(ls: Seq<Line2<T>>, at: V, a: usize, b: usize, q: Map<V, (K, SiteEvent)>) -> bool {
    gp(sgs(ls)) ==> forall|p: V| #[trigger] xing(sgs(ls), a as int, b as int, p) && at.y < p.y ==> q.dom().contains(p) && inters(q, p).contains(a) && inters(q, p).contains(b)
}
pub proof fn lemma_pair_kept<K, T>(ls: Seq<Line2<T>>, at: V, a: usize, b: usize, q: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>) requires pair(ls, at, a, b, q), kept(q, f) ensures pair(ls, at, a, b, f) { reveal(kept); reveal(pair); }
/// what is there after the pair (a, b) with the intersection r has been handled
pub proof fn lemma_pair_new<K, T>(ls: Seq<Line2<T>>, at: V, a: usize, b: usize, r: Option<Intersection<T>>, q: Map<V, (K, SiteEvent)>)
    requires a < ls.len(), b < ls.len(), isect(ls[a as int], ls[b as int], r),
        r is Some && r->0 is Intersection && klt(at, vv((r->0)->Intersection_0)) ==> ({
            let p = vv((r->0)->Intersection_0);
            q.dom().contains(p) && (interior(ls[a as int], p) ==> inters(q, p).contains(a)) && (interior(ls[b as int], p) ==> inters(q, p).contains(b)) })
    ensures pair(ls, at, a, b, q)
{
    reveal(pair);
    let s = sgs(ls);
    if gp(s) {
        lemma_sgs(ls, a as int); lemma_sgs(ls, b as int);
        assert forall|p: V| #[trigger] xing(s, a as int, b as int, p) && at.y < p.y implies q.dom().contains(p) && inters(q, p).contains(a) && inters(q, p).contains(b) by {
            lemma_on(ls[a as int], p); lemma_on(ls[b as int], p);
            assert(on(ls[a as int], p) && on(ls[b as int], p));
            match r {
                None => {}
                Some(Intersection::Intersection(x)) => { assert(p == vv(x)); }
                Some(Intersection::Overlap(l)) => {
                    lemma_on_ends(l);
                    let (u, w) = (vv(l.start), vv(l.end));
                    assert(on(l, u) && on(l, w));
                    lemma_on(ls[a as int], u); lemma_on(ls[b as int], u); lemma_on(ls[a as int], w); lemma_on(ls[b as int], w);
                    assert(on(ls[a as int], u) && on(ls[b as int], u) && on(ls[a as int], w) && on(ls[b as int], w));
                    g_once(s, a as int, b as int, u, w);
                }
            }
        }
    }
}
/// lines with a common end do not cross
pub proof fn lemma_pair_end<K, T>(ls: Seq<Line2<T>>, at: V, a: usize, b: usize, q: Map<V, (K, SiteEvent)>)
    requires a < ls.len(), b < ls.len(), vv(ls[a as int].end) == vv(ls[b as int].end)
    ensures pair(ls, at, a, b, q)
{
    reveal(pair);
    let s = sgs(ls);
    if gp(s) {
        lemma_sgs(ls, a as int); lemma_sgs(ls, b as int);
        let u = vv(ls[a as int].end);
        lemma_thru_e(s[a as int], u); lemma_thru_e(s[b as int], u);
        assert(is_e(s[a as int], u) && is_e(s[b as int], u));
        assert forall|p: V| #[trigger] xing(s, a as int, b as int, p) && at.y < p.y implies false by { g_once(s, a as int, b as int, p, u); lemma_e_ins(s[a as int], p); }
    }
}
pub proof fn lemma_e_ins(s: Sg, p: V) ensures !(ins(s, p) && is_e(s, p)) {}
/// the pairs of the two lists
#[verifier::opaque]
pub open spec fn pairs<K, T>(ls: Seq<Line2<T>>, at: V, left: Seq<usize>, right: Seq<usize>, q: Map<V, (K, SiteEvent)>) -> bool {
    forall|h: int, g: int| 0 <= h < left.len() && 0 <= g < right.len() ==> pair(ls, at, #[trigger] left[h], #[trigger] right[g], q)
}
pub proof fn lemma_pairs_kept<K, T>(ls: Seq<Line2<T>>, at: V, left: Seq<usize>, right: Seq<usize>, q: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>)
    requires pairs(ls, at, left, right, q), kept(q, f) ensures pairs(ls, at, left, right, f)
{
    reveal(pairs);
    assert forall|h: int, g: int| 0 <= h < left.len() && 0 <= g < right.len() implies pair(ls, at, #[trigger] left[h], #[trigger] right[g], f) by { lemma_pair_kept(ls, at, left[h], right[g], q, f); }
}
pub proof fn lemma_pairs0<K, T>(ls: Seq<Line2<T>>, at: V, left: Seq<usize>, right: Seq<usize>, q: Map<V, (K, SiteEvent)>)
    requires left.len() == 0 || right.len() == 0 ensures pairs(ls, at, left, right, q) { reveal(pairs); }
/// one pair more in the row of a
pub proof fn lemma_pairs1<K, T>(ls: Seq<Line2<T>>, at: V, a: usize, right: Seq<usize>, b: usize, q: Map<V, (K, SiteEvent)>)
    requires pairs(ls, at, seq![a], right, q), pair(ls, at, a, b, q) ensures pairs(ls, at, seq![a], right.push(b), q)
{
    reveal(pairs);
    let f = right.push(b);
    assert forall|h: int, g: int| 0 <= h < 1 && 0 <= g < f.len() implies pair(ls, at, #[trigger] seq![a][h], #[trigger] f[g], q) by { if g < right.len() { assert(pair(ls, at, seq![a][0], right[g], q)); } }
}
/// one row more
pub proof fn lemma_pairs2<K, T>(ls: Seq<Line2<T>>, at: V, left: Seq<usize>, a: usize, right: Seq<usize>, q: Map<V, (K, SiteEvent)>)
    requires pairs(ls, at, left, right, q), pairs(ls, at, seq![a], right, q) ensures pairs(ls, at, left.push(a), right, q)
{
    reveal(pairs);
    let f = left.push(a);
    assert forall|h: int, g: int| 0 <= h < f.len() && 0 <= g < right.len() implies pair(ls, at, #[trigger] f[h], #[trigger] right[g], q) by { if h < left.len() { assert(pair(ls, at, left[h], right[g], q)); } else { assert(pair(ls, at, seq![a][0], right[g], q)); } }
}
pub proof fn lemma_pairs_in<K, T>(ls: Seq<Line2<T>>, at: V, left: Seq<usize>, right: Seq<usize>, q: Map<V, (K, SiteEvent)>, a: int, b: int, p: V)
    requires pairs(ls, at, left, right, q), gp(sgs(ls)), in_(left, a), in_(right, b), at.y < p.y, xing(sgs(ls), a, b, p) || xing(sgs(ls), b, a, p)
    ensures q.dom().contains(p), lists(lset(q), p, a), lists(lset(q), p, b)
{
    reveal(pairs); reveal(pair);
    let h = choose|h: int| 0 <= h < left.len() && left[h] == a as usize;
    let g = choose|g: int| 0 <= g < right.len() && right[g] == b as usize;
    assert(pair(ls, at, left[h], right[g], q));
    assert(xing(sgs(ls), a, b, p));
}
/// the candidates next to e among the lines ids without the ones of skip
pub open spec fn side<T>(ls: Seq<Line2<T>>, e: V, ids: Seq<usize>, skip: Seq<usize>, dir: bool) -> ISet<int> {
    ISet::new(|m: int| in_(ids, m) && !in_(skip, m) && lt(dir, xa(sgs(ls)[m], e.y), e.x))
}
#[verifier::opaque]
pub open spec fn near<T>(ls: Seq<Line2<T>>, e: V, ids: Seq<usize>, skip: Seq<usize>, dir: bool, b: Option<real>, list: Seq<usize>) -> bool {
    gp(sgs(ls)) ==> top(sgs(ls), Some(e.y), dir, side(ls, e, ids, skip, dir), b, list)
}
pub proof fn lemma_near0<T>(ls: Seq<Line2<T>>, e: V, skip: Seq<usize>, dir: bool, list: Seq<usize>) ensures near(ls, e, Seq::<usize>::empty(), skip, dir, None, list) {
    reveal(near);
    if gp(sgs(ls)) { lemma_top0(sgs(ls), Some(e.y), dir, side(ls, e, Seq::<usize>::empty(), skip, dir), list); }
}
pub proof fn lemma_near<T>(ls: Seq<Line2<T>>, e: V, ids: Seq<usize>, skip: Seq<usize>, dir: bool, b: Option<real>, list: Seq<usize>, c: usize, b2: Option<real>, list2: Seq<usize>)
    requires near(ls, e, ids, skip, dir, b, list), !ids.contains(c),
        gp(sgs(ls)) ==> (if !skip.contains(c) && lt(dir, xa(sgs(ls)[c as int], e.y), e.x) { took(dir, b, list, xa(sgs(ls)[c as int], e.y), c, b2, list2) } else { b2 == b && list2 == list })
    ensures near(ls, e, ids.push(c), skip, dir, b2, list2)
{
    reveal(near);
    if gp(sgs(ls)) {
        lemma_push(ids, c);
        let (u, w) = (side(ls, e, ids, skip, dir), side(ls, e, ids.push(c), skip, dir));
        if !skip.contains(c) && lt(dir, xa(sgs(ls)[c as int], e.y), e.x) {
            assert(w =~= u.insert(c as int));
            lemma_top(sgs(ls), Some(e.y), dir, u, b, list, c, b2, list2);
        } else { assert(w =~= u); }
    }
}
/// the flattest lines of x and y
#[verifier::opaque]
pub open spec fn flat<T>(ls: Seq<Line2<T>>, x: Seq<usize>, y: Seq<usize>, dir: bool, b: Option<real>, list: Seq<usize>) -> bool {
    gp(sgs(ls)) ==> top(sgs(ls), None, dir, either(x, y), b, list)
}
pub open spec fn either(x: Seq<usize>, y: Seq<usize>) -> ISet<int> { ISet::new(|m: int| in_(x, m) || in_(y, m)) }
pub proof fn lemma_flat0<T>(ls: Seq<Line2<T>>, dir: bool, list: Seq<usize>) ensures flat(ls, Seq::<usize>::empty(), Seq::<usize>::empty(), dir, None, list) {
    reveal(flat);
    let e = Seq::<usize>::empty();
    if gp(sgs(ls)) { lemma_top0(sgs(ls), None, dir, either(e, e), list); }
}
pub proof fn lemma_flat<T>(ls: Seq<Line2<T>>, x: Seq<usize>, y: Seq<usize>, x2: Seq<usize>, y2: Seq<usize>, dir: bool, b: Option<real>, list: Seq<usize>, c: usize, b2: Option<real>, list2: Seq<usize>)
    requires flat(ls, x, y, dir, b, list), (x2 == x.push(c) && y2 == y) || (x2 == x && y2 == y.push(c)),
        gp(sgs(ls)) ==> took(dir, b, list, lean(sgs(ls)[c as int]), c, b2, list2) && (b == Some(lean(sgs(ls)[c as int])) ==> forall|x: usize| #[trigger] list.contains(x) ==> list2.contains(x))
    ensures flat(ls, x2, y2, dir, b2, list2)
{
    reveal(flat);
    lemma_push(x, c); lemma_push(y, c);
    if gp(sgs(ls)) {
        assert(either(x2, y2) =~= either(x, y).insert(c as int));
        lemma_top(sgs(ls), None, dir, either(x, y), b, list, c, b2, list2);
    }
}
/// the right pairs have been looked at
pub open spec fn covered<K, T>(ls: Seq<Line2<T>>, e: V, ev: SiteEvent, nl: Seq<usize>, nr: Seq<usize>, cl: Seq<usize>, cr: Seq<usize>, q: Map<V, (K, SiteEvent)>) -> bool {
    if ol(ev.add).len() + ol(ev.intersection).len() == 0 { pairs(ls, e, nl, nr, q) }
    else {
        &&& pairs(ls, e, nl, cl, q) && pairs(ls, e, nr, cr, q)
        &&& exists|b: Option<real>| #[trigger] flat(ls, ol(ev.add), ol(ev.intersection), false, b, cl)
        &&& exists|b: Option<real>| #[trigger] flat(ls, ol(ev.add), ol(ev.intersection), true, b, cr)
    }
}
pub proof fn lemma_did<K, T>(ls: Seq<Line2<T>>, e: V, ids: Seq<usize>, act: Set<usize>, ev: SiteEvent, bl: Option<real>, nl: Seq<usize>, br: Option<real>, nr: Seq<usize>, cl: Seq<usize>, cr: Seq<usize>, q: Map<V, (K, SiteEvent)>)
    requires gp(sgs(ls)), forall|x: usize| #[trigger] ids.contains(x) <==> act.contains(x) && !ol(ev.drop).contains(x),
        near(ls, e, ids, ol(ev.intersection), true, bl, nl), near(ls, e, ids, ol(ev.intersection), false, br, nr),
        covered(ls, e, ev, nl, nr, cl, cr, q),
    ensures did(sgs(ls), e, cons(ev), others(act, ev), q.dom(), lset(q))
{
    reveal(did); reveal(near);
    let (s, con, oth) = (sgs(ls), cons(ev), others(act, ev));
    let (a, c) = (ol(ev.add), ol(ev.intersection));
    let none = a.len() + c.len() == 0;
    assert forall|left: bool, j: int| #[trigger] nearest(s, e, oth, left, j) implies in_(if left { nl } else { nr }, j) by {
        let seen = side(ls, e, ids, c, left);
        assert forall|m: int| #[trigger] seen.contains(m) <==> oth.contains(m) && lt(left, xa(s[m], e.y), e.x) by {
            if 0 <= m <= usize::MAX { assert(ids.contains(m as usize) || !ids.contains(m as usize)); assert(act.contains(m as usize) || !act.contains(m as usize)); }
        }
        top_alone(s, Some(e.y), left, seen, if left { bl } else { br }, if left { nl } else { nr }, j);
    }
    assert forall|left: bool, i: int| #[trigger] flattest(s, con, left, i) implies !none && in_(if left { cl } else { cr }, i) by {
        assert(con.contains(i));
        reveal(flat);
        assert(either(a, c) =~= con);
        let (dir, cand) = (!left, if left { cl } else { cr });
        let b = choose|b: Option<real>| #[trigger] flat(ls, a, c, dir, b, cand);
        top_alone(s, None, !left, con, b, if left { cl } else { cr }, i);
    }
    if !none {
        if a.len() > 0 { assert(a.contains(a[0])); assert(con.contains(a[0] as int)); } else { assert(c.contains(c[0])); assert(con.contains(c[0] as int)); }
    }
    assert forall|i: int, j: int, p: V| #[trigger] xing(s, i, j, p) && e.y < p.y && looked(s, e, con, oth, i, j) implies q.dom().contains(p) && lists(lset(q), p, i) && lists(lset(q), p, j) by {
        if nearest(s, e, oth, true, j) && flattest(s, con, true, i) { lemma_pairs_in(ls, e, nl, cl, q, j, i, p); }
        else if nearest(s, e, oth, false, j) && flattest(s, con, false, i) { lemma_pairs_in(ls, e, nr, cr, q, j, i, p); }
        else { lemma_pairs_in(ls, e, nl, nr, q, i, j, p); }
    }
}
/// the state after the event
pub proof fn lemma_after<K, T>(ls: Seq<Line2<T>>, q0: Map<V, (K, SiteEvent)>, at: V, all: bool, e: V, ev: SiteEvent, act: Set<usize>, q: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>, act2: Set<usize>)
    requires due_at(ls, q0, at, all, e, ev, act, q), ls.len() <= usize::MAX, forall|x: usize| #[trigger] act.contains(x) ==> x < ls.len(),
        queue(ls, f, e, false), kept(q, f), gp(sgs(ls)) ==> did(sgs(ls), e, cons(ev), others(act, ev), f.dom(), lset(f)),
        forall|x: usize| #[trigger] act2.contains(x) <==> (act.contains(x) && !ol(ev.drop).contains(x)) || ol(ev.add).contains(x),
    ensures whole(ls, f, e, false, act2)
{
    reveal(whole); reveal(kept);
    let s = sgs(ls);
    assert(evt(ls, e, q0[e].1));
    assert forall|i: int| 0 <= i < ls.len() implies knows(f, #[trigger] ls[i], i, e, false) by {
        assert(knows(q0, ls[i], i, at, all));
        assert(adds(f, lo(ls[i])) =~= adds(q, lo(ls[i]))); assert(drops(f, hi(ls[i])) =~= drops(q, hi(ls[i])));
        assert(all || klt(at, e));
    }
    if gp(s) {
        let (con, oth) = (cons(ev), others(act, ev));
        lemma_stage(ls, q0, at, all, e, ev, act, q);
        lemma_evp(ls, e, ev);
        assert forall|p: V| #[trigger] f.dom().contains(p) implies evp(s, p) && e.y < p.y by {
            assert(evt(ls, p, f[p].1));
            lemma_evp(ls, p, f[p].1);
            lemma_above_at(s, e, p);
        }
        assert forall|p: V, i: int| #[trigger] lists(lset(q0), p, i) && p != e implies lists(lset(f), p, i) by { assert(inters(q, p).contains(i as usize)); }
        assert forall|p: V| #[trigger] q0.dom().contains(p) && p != e implies f.dom().contains(p) by { assert(q.dom().contains(p)); }
        lemma_step_on(s, at, all, q0.dom(), lset(q0), e, con, oth, f.dom(), lset(f));
        assert forall|i: usize| i < ls.len() implies (#[trigger] act2.contains(i) <==> (past(e, false, lo(ls[i as int]).y) && !past(e, false, hi(ls[i as int]).y))) by {
            lemma_active(s, at, all, q0.dom(), lset(q0), e, con, oth, i as int);
            lemma_sgs(ls, i as int);
            assert(knows(q0, ls[i as int], i as int, at, all));
            assert(act.contains(i) || !act.contains(i));
        }
    }
}
pub proof fn lemma_whole0<K, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V)
    requires queue(ls, q, at, true), known(ls, q, at, true) ensures whole(ls, q, at, true, Set::<usize>::empty())
{
    reveal(whole);
    let s = sgs(ls);
    if gp(s) {
        assert forall|p: V| #[trigger] q.dom().contains(p) implies evp(s, p) by { lemma_evp(ls, p, q[p].1); }
        assert forall|i: int| ix(s, i) implies q.dom().contains((#[trigger] s[i]).a) && q.dom().contains(s[i].b) by { assert(queued(q, ls[i], at, true)); }
        lemma_begin(s, at, q.dom(), lset(q));
    }
}
/// the crossings up to the sweep are in the result
pub open spec fn rfound<K, T>(ls: Seq<Line2<T>>, at: V, all: bool, r: Map<V, (K, Vec<usize>)>) -> bool { gp(sgs(ls)) ==> found(sgs(ls), at, all, rset(r)) }
/// f is r with the crossing lines of ev at e
#[verifier::opaque]
pub open spec fn rmore<K>(r: Map<V, (K, Vec<usize>)>, e: V, ev: SiteEvent, f: Map<V, (K, Vec<usize>)>) -> bool {
    (forall|p: V, x: usize| #[trigger] had(r, p, x) ==> had(f, p, x)) && forall|x: usize| #[trigger] ol(ev.intersection).contains(x) ==> had(f, e, x)
}
pub proof fn lemma_rfound<K, R, T>(ls: Seq<Line2<T>>, q0: Map<V, (K, SiteEvent)>, at: V, all: bool, e: V, ev: SiteEvent, act: Set<usize>, q: Map<V, (K, SiteEvent)>, r: Map<V, (R, Vec<usize>)>, f: Map<V, (R, Vec<usize>)>)
    requires due_at(ls, q0, at, all, e, ev, act, q), rfound(ls, at, all, r), rmore(r, e, ev, f) ensures rfound(ls, e, false, f)
{
    reveal(whole); reveal(rmore);
    if gp(sgs(ls)) {
        assert forall|p: V, i: int| #[trigger] rset(r).contains((p, i)) implies rset(f).contains((p, i)) by { assert(had(r, p, i as usize)); }
        assert forall|i: int| #[trigger] lists(lset(q0), e, i) implies rset(f).contains((e, i)) by { assert(ol(ev.intersection).contains(i as usize)); }
        lemma_found1(sgs(ls), at, all, q0.dom(), lset(q0), e, rset(r), rset(f));
    }
}
/// every crossing is in the result
pub open spec fn complete<K, T>(ls: Seq<Line2<T>>, r: Map<V, (K, Vec<usize>)>) -> bool {
    gp(sgs(ls)) ==> forall|i: int, j: int, q: V| #[trigger] xing(sgs(ls), i, j, q) ==> had(r, q, i as usize) && had(r, q, j as usize)
}
pub proof fn lemma_complete<K, R, T>(ls: Seq<Line2<T>>, q: Map<V, (K, SiteEvent)>, at: V, all: bool, act: Set<usize>, r: Map<V, (R, Vec<usize>)>)
    requires whole(ls, q, at, all, act), q.dom() =~= Set::<V>::empty(), rfound(ls, at, all, r) ensures complete(ls, r)
{
    reveal(whole);
    let s = sgs(ls);
    if gp(s) {
        lemma_found2(s, at, all, q.dom(), lset(q), rset(r));
        assert forall|i: int, j: int, p: V| #[trigger] xing(s, i, j, p) implies had(r, p, i as usize) && had(r, p, j as usize) by { assert(rset(r).contains((p, i)) && rset(r).contains((p, j))); }
    }
}

pub open spec fn orv<S>(o: Option<S>) -> Option<real> { match o { None => None, Some(s) => Some(rv(s)) } }
/// took, and no candidate as good as c is lost
pub open spec fn took2(dir: bool, b: Option<real>, list: Seq<usize>, v: real, c: usize, b2: Option<real>, list2: Seq<usize>) -> bool {
    took(dir, b, list, v, c, b2, list2) && (b == Some(v) ==> forall|x: usize| #[trigger] list.contains(x) ==> list2.contains(x))
}
pub open spec fn both_took<T: GenericVector2>(o: MinMaxSlope<T>, n: MinMaxSlope<T>, v: real, c: usize) -> bool {
    took2(false, orv(o.best_left), o.candidates_left@, v, c, orv(n.best_left), n.candidates_left@) && took2(true, orv(o.best_right), o.candidates_right@, v, c, orv(n.best_right), n.candidates_right@)
}
pub open spec fn sync<T: GenericVector2>(m: MinMax<T>) -> bool { (m.best_left is None ==> m.slope.best_left is None) && (m.best_right is None ==> m.slope.best_right is None) }
pub open spec fn side_took<T: GenericVector2>(o: MinMax<T>, n: MinMax<T>, p: real, v: real, c: usize) -> bool {
    &&& if v < p { took(true, orv(o.best_left), o.slope.candidates_left@, v, c, orv(n.best_left), n.slope.candidates_left@) } else { orv(o.best_left) == orv(n.best_left) && o.slope.candidates_left@ == n.slope.candidates_left@ }
    &&& if p < v { took(false, orv(o.best_right), o.slope.candidates_right@, v, c, orv(n.best_right), n.slope.candidates_right@) } else { orv(o.best_right) == orv(n.best_right) && o.slope.candidates_right@ == n.slope.candidates_right@ }
}
pub proof fn lemma_vpush(s: Seq<usize>, x: usize) ensures s.push(x).contains(x) { assert(s.push(x)[s.len() as int] == x); }
/// line n is listed at its ends
pub proof fn lemma_known<K, T>(ls: Seq<Line2<T>>, l: Line2<T>, q0: Map<V, (K, SiteEvent)>, q1: Map<V, (K, SiteEvent)>, q2: Map<V, (K, SiteEvent)>, at: V, n: usize)
    requires known(ls, q0, at, true), n == ls.len(), put(q0, lo(l), q1[lo(l)].1, q1), put(q1, hi(l), q2[hi(l)].1, q2),
        ol(q1[lo(l)].1.add) =~= adds(q0, lo(l)).push(n), ol(q1[lo(l)].1.drop) =~= drops(q0, lo(l)),
        ol(q2[hi(l)].1.drop) =~= drops(q1, hi(l)).push(n), ol(q2[hi(l)].1.add) =~= adds(q1, hi(l)),
    ensures known(ls.push(l), q2, at, true)
{
    let f = ls.push(l);
    lemma_push(adds(q0, lo(l)), n); lemma_push(drops(q1, hi(l)), n);
    assert forall|p: V, x: usize| #[trigger] adds(q0, p).contains(x) implies adds(q2, p).contains(x) by { assert(adds(q1, p).contains(x)); }
    assert forall|p: V, x: usize| #[trigger] drops(q0, p).contains(x) implies drops(q2, p).contains(x) by { assert(drops(q1, p).contains(x)); }
    assert forall|i: int| 0 <= i < f.len() implies knows(q2, #[trigger] f[i], i, at, true) by {
        if i < ls.len() { assert(knows(q0, ls[i], i, at, true)); }
        else { assert(adds(q1, lo(l)).contains(n)); assert(adds(q2, lo(l)).contains(n)); assert(drops(q2, hi(l)).contains(n)); }
    }
}
pub proof fn lemma_kept_widen<K>(q: Map<V, (K, SiteEvent)>, p: V, f: Map<V, (K, SiteEvent)>)
    requires f.dom() =~= q.dom().insert(p), forall|o: V| o != p && #[trigger] f.dom().contains(o) ==> f[o] == q[o],
        ol(f[p].1.add) =~= adds(q, p), ol(f[p].1.drop) =~= drops(q, p), forall|x: usize| #[trigger] inters(q, p).contains(x) ==> ol(f[p].1.intersection).contains(x)
    ensures kept(q, f)
{
    reveal(kept);
    assert forall|o: V| #[trigger] adds(f, o) =~= adds(q, o) by { assert(f.dom().contains(o) || !f.dom().contains(o)); }
    assert forall|o: V| #[trigger] drops(f, o) =~= drops(q, o) by { }
    assert forall|o: V, x: usize| #[trigger] inters(q, o).contains(x) implies inters(f, o).contains(x) by { if o == p { assert(f.dom().contains(p)); } }
}
/// an event with crossing lines names more than one line
pub proof fn lemma_count<T>(ls: Seq<Line2<T>>, p: V, e: SiteEvent) requires evt(ls, p, e) ensures ol(e.intersection).len() > 0 ==> ol(e.add).len() + ol(e.drop).len() + ol(e.intersection).len() > 1 {
    let c = ol(e.intersection);
    if c.len() == 1 && ol(e.add).len() + ol(e.drop).len() == 0 {
        let (x, y) = choose|x: usize, y: usize| x != y && #[trigger] c.contains(x) && #[trigger] c.contains(y);
        assert(c[0] == x && c[0] == y);
    }
}
pub proof fn lemma_take(s: Seq<usize>, k: int) requires 0 <= k < s.len()
    ensures s.take(k + 1) =~= s.take(k).push(s[k]), s.no_duplicates() ==> !s.take(k).contains(s[k]), forall|x: usize| #[trigger] s.take(k + 1).contains(x) <==> s.take(k).contains(x) || x == s[k]
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_push(s.take(k), s[k]);
}
/// the entry w of the result is at q and names i and j
pub open spec fn entry(p: V, w: Seq<usize>, i: int, j: int, q: V) -> bool { p == q && in_(w, i) && in_(w, j) }
pub open spec fn some_cross<T>(ls: Seq<Line2<T>>) -> bool { exists|i: int, j: int, q: V| xing(sgs(ls), i, j, q) }
/// all lines of the event are reported, or it crosses no lines
pub proof fn lemma_rmore<K>(r: Map<V, (K, Vec<usize>)>, e: V, ev: SiteEvent, f: Map<V, (K, Vec<usize>)>)
    requires (f == r && ol(ev.intersection).len() == 0) || (f.dom() =~= r.dom().insert(e) && (forall|q: V| q != e && #[trigger] f.dom().contains(q) ==> f[q] == r[q])
        && forall|x: usize| #[trigger] f[e].1@.contains(x) <==> had(r, e, x) || hit(ev, x))
    ensures rmore(r, e, ev, f)
{
    reveal(rmore);
    if !(f == r && ol(ev.intersection).len() == 0) {
        assert forall|p: V, x: usize| #[trigger] had(r, p, x) implies had(f, p, x) by { assert(f.dom().contains(p)); if p == e { assert(f[e].1@.contains(x)); } }
        assert forall|x: usize| #[trigger] ol(ev.intersection).contains(x) implies had(f, e, x) by { assert(hit(ev, x)); assert(f[e].1@.contains(x)); }
    }
}
/// the event has been handled
pub proof fn lemma_end<K, T>(ls: Seq<Line2<T>>, q0: Map<V, (K, SiteEvent)>, at: V, all: bool, e: V, ids: Seq<usize>, act: Set<usize>, ev: SiteEvent,
    bl: Option<real>, nl: Seq<usize>, br: Option<real>, nr: Seq<usize>, cl: Seq<usize>, cr: Seq<usize>, q: Map<V, (K, SiteEvent)>, mid: Map<V, (K, SiteEvent)>, f: Map<V, (K, SiteEvent)>, act2: Set<usize>)
    requires due_at(ls, q0, at, all, e, ev, act, q), ls.len() <= usize::MAX, forall|x: usize| #[trigger] act.contains(x) ==> x < ls.len(),
        forall|x: usize| #[trigger] ids.contains(x) <==> act.contains(x) && !ol(ev.drop).contains(x),
        near(ls, e, ids, ol(ev.intersection), true, bl, nl), near(ls, e, ids, ol(ev.intersection), false, br, nr),
        queue(ls, f, e, false),
        if ol(ev.add).len() + ol(ev.intersection).len() == 0 {
            if nl.len() == 0 || nr.len() == 0 { q == f } else { kept(q, f) && pairs(ls, e, nl, nr, f) }
        } else {
            &&& if nl.len() == 0 { q == mid } else { kept(q, mid) && pairs(ls, e, nl, cl, mid) }
            &&& if nr.len() == 0 { mid == f } else { kept(mid, f) && pairs(ls, e, nr, cr, f) }
            &&& exists|b: Option<real>| #[trigger] flat(ls, ol(ev.add), ol(ev.intersection), false, b, cl)
            &&& exists|b: Option<real>| #[trigger] flat(ls, ol(ev.add), ol(ev.intersection), true, b, cr)
        },
        forall|x: usize| #[trigger] act2.contains(x) <==> (act.contains(x) && !ol(ev.drop).contains(x)) || ol(ev.add).contains(x),
    ensures whole(ls, f, e, false, act2)
{
    lemma_kept0(q); lemma_kept0(mid);
    if ol(ev.add).len() + ol(ev.intersection).len() == 0 {
        if nl.len() == 0 || nr.len() == 0 { lemma_pairs0(ls, e, nl, nr, f); }
    } else {
        if nl.len() == 0 { lemma_pairs0(ls, e, nl, cl, mid); }
        if nr.len() == 0 { lemma_pairs0(ls, e, nr, cr, f); }
        lemma_pairs_kept(ls, e, nl, cl, mid, f);
        lemma_kept1(q, mid, f);
    }
    if gp(sgs(ls)) { lemma_did(ls, e, ids, act, ev, bl, nl, br, nr, cl, cr, f); }
    lemma_after(ls, q0, at, all, e, ev, act, q, f, act2);
}
"""
