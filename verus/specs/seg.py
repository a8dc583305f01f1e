"""Segments over the reals: shared ghost text of L01, L02 and the sweep specs."""
from ring import BASE, ring_lemma

VEC = """
pub struct V { pub x: real, pub y: real }
pub open spec fn vsub(a: V, b: V) -> V { V { x: a.x - b.x, y: a.y - b.y } }
pub open spec fn vneg(a: V) -> V { V { x: -a.x, y: -a.y } }
pub open spec fn vcross(a: V, b: V) -> real { a.x * b.y - a.y * b.x }
pub open spec fn vdot(a: V, b: V) -> real { a.x * b.x + a.y * b.y }
pub open spec fn vat(p: V, r: V, t: real) -> V { V { x: p.x + r.x * t, y: p.y + r.y * t } }
/// p lies on the closed segment from a to b
pub open spec fn on_seg(a: V, b: V, p: V) -> bool {
    exists|t: real| 0real <= t <= 1real && p == #[trigger] vat(a, vsub(b, a), t)
}
"""
GHOST = """
pub open spec fn vv<T>(t: T) -> V { V { x: rx(t), y: ry(t) } }
pub open spec fn on<T>(l: Line2<T>, p: V) -> bool { on_seg(vv(l.start), vv(l.end), p) }
/// r is exactly the set of points common to the closed segments a and b
pub open spec fn isect<T>(a: Line2<T>, b: Line2<T>, r: Option<Intersection<T>>) -> bool {
    match r {
        None => forall|p: V| !(#[trigger] on(a, p) && on(b, p)),
        Some(Intersection::Intersection(q)) => forall|p: V| (#[trigger] on(a, p) && on(b, p)) <==> p == vv(q),
        Some(Intersection::Overlap(l)) => vv(l.start) != vv(l.end) && forall|p: V| (#[trigger] on(a, p) && on(b, p)) <==> on(l, p),
    }
}
"""

RING = BASE + ring_lemma("ring_cx", ["ax", "ay", "bx", "by", "dx", "dy"],
    "ax * (dx * by - dy * bx) - bx * (dx * ay - dy * ax)", "dx * (ax * by - ay * bx)") + ring_lemma(
    "ring_cy", ["ax", "ay", "bx", "by", "dx", "dy"],
    "ay * (dx * by - dy * bx) - by * (dx * ay - dy * ax)", "dy * (ax * by - ay * bx)") + ring_lemma(
    "ring_t", ["ax", "ay", "bx", "by", "t", "u"],
    "(ax * t - bx * u) * by - (ay * t - by * u) * bx", "t * (ax * by - ay * bx)") + ring_lemma(
    "ring_u", ["ax", "ay", "bx", "by", "t", "u"],
    "(ax * t - bx * u) * ay - (ay * t - by * u) * ax", "u * (ax * by - ay * bx)") + ring_lemma(
    "ring_px", ["wx", "wy", "ax", "ay"],
    "(wx * ax + wy * ay) * ax - wx * (ax * ax + ay * ay)", "0 - ay * (wx * ay - wy * ax)") + ring_lemma(
    "ring_py", ["wx", "wy", "ax", "ay"],
    "(wx * ax + wy * ay) * ay - wy * (ax * ax + ay * ay)", "ax * (wx * ay - wy * ax)")

LEMMAS = """
pub proof fn lemma_cancel(a: real, b: real, c: real) requires c != 0real, a * c == b * c ensures a == b {
    assert(a == b) by(nonlinear_arith) requires c != 0real, a * c == b * c;
}
pub proof fn lemma_quot(a: real, c: real) requires c != 0real ensures (a / c) * c == a {
    assert((a / c) * c == a) by(nonlinear_arith) requires c != 0real;
}
pub proof fn lemma_sq2(a: real, b: real) requires a != 0real || b != 0real ensures a * a + b * b > 0real {
    assert(a * a >= 0real) by(nonlinear_arith);
    assert(b * b >= 0real) by(nonlinear_arith);
    if a != 0real { assert(a * a > 0real) by(nonlinear_arith) requires a != 0real; }
    else { assert(b * b > 0real) by(nonlinear_arith) requires b != 0real; }
}
pub proof fn lemma_comb(rx_: real, sx_: real, t: real, u: real, a: real, b: real, c: real, d: real)
    requires c != 0real, t * c == a, u * c == b, rx_ * a - sx_ * b == d * c
    ensures rx_ * t - sx_ * u == d
{
    let g = rx_ * t - sx_ * u;
    let (p, q) = (rx_ * t, sx_ * u);
    assert(p * c == rx_ * (t * c)) by(nonlinear_arith) requires p == rx_ * t;
    assert(q * c == sx_ * (u * c)) by(nonlinear_arith) requires q == sx_ * u;
    assert(g * c == p * c - q * c) by(nonlinear_arith) requires g == p - q;
    lemma_cancel(g, d, c);
}
pub proof fn lemma_cramer_unique(p: V, r: V, q: V, s: V, t: real, u: real, t2: real, u2: real)
    requires vcross(r, s) != 0real, t * vcross(r, s) == vcross(vsub(q, p), s), u * vcross(r, s) == vcross(vsub(q, p), r),
        vat(p, r, t2) == vat(q, s, u2),
    ensures t2 == t, u2 == u
{
    let d = vsub(q, p);
    assert(d.x == r.x * t2 - s.x * u2);
    assert(d.y == r.y * t2 - s.y * u2);
    ring_t(r.x, r.y, s.x, s.y, t2, u2);
    ring_u(r.x, r.y, s.x, s.y, t2, u2);
    lemma_cancel(t2, t, vcross(r, s));
    lemma_cancel(u2, u, vcross(r, s));
}
/// Cramer: the only common point of two lines that are not parallel
pub proof fn lemma_cramer(p: V, r: V, q: V, s: V, t: real, u: real)
    requires
        vcross(r, s) != 0real,
        t == vcross(vsub(q, p), s) / vcross(r, s), u == vcross(vsub(q, p), r) / vcross(r, s),
    ensures
        vat(p, r, t) == vat(q, s, u),
        forall|t2: real, u2: real| #[trigger] vat(p, r, t2) == #[trigger] vat(q, s, u2) ==> t2 == t && u2 == u,
{
    let c = vcross(r, s);
    let d = vsub(q, p);
    lemma_quot(vcross(d, s), c);
    lemma_quot(vcross(d, r), c);
    assert forall|t2: real, u2: real| #[trigger] vat(p, r, t2) == #[trigger] vat(q, s, u2) implies t2 == t && u2 == u by {
        lemma_cramer_unique(p, r, q, s, t, u, t2, u2);
    }
    ring_cx(r.x, r.y, s.x, s.y, d.x, d.y);
    ring_cy(r.x, r.y, s.x, s.y, d.x, d.y);
    lemma_comb(r.x, s.x, t, u, vcross(d, s), vcross(d, r), c, d.x);
    lemma_comb(r.y, s.y, t, u, vcross(d, s), vcross(d, r), c, d.y);
}
/// w parallel to r: w is the multiple (w.r)/(r.r) of r
pub proof fn lemma_multiple(w: V, r: V, k: real)
    requires r.x != 0real || r.y != 0real, vcross(w, r) == 0real, k == vdot(w, r) / vdot(r, r),
    ensures w.x == r.x * k, w.y == r.y * k, vdot(r, r) > 0real
{
    lemma_sq2(r.x, r.y);
    let d = vdot(r, r);
    ring_px(w.x, w.y, r.x, r.y);
    ring_py(w.x, w.y, r.x, r.y);
    lemma_quot(vdot(w, r), d);
    assert(r.y * vcross(w, r) == 0real) by(nonlinear_arith) requires vcross(w, r) == 0real;
    assert(r.x * vcross(w, r) == 0real) by(nonlinear_arith) requires vcross(w, r) == 0real;
    let n = vdot(w, r);
    assert((r.x * k) * d == n * r.x) by(nonlinear_arith) requires k * d == n;
    assert((r.y * k) * d == n * r.y) by(nonlinear_arith) requires k * d == n;
    lemma_cancel(r.x * k, w.x, d);
    lemma_cancel(r.y * k, w.y, d);
}
pub open spec fn lexpos(r: V) -> bool { r.x > 0real || (r.x == 0real && r.y > 0real) }
pub open spec fn in_box(a: V, b: V, p: V) -> bool {
    rmin(a.x, b.x) <= p.x <= rmax(a.x, b.x) && rmin(a.y, b.y) <= p.y <= rmax(a.y, b.y)
}
pub proof fn lemma_between(a: real, b: real, t: real)
    requires 0real <= t <= 1real ensures rmin(a, b) <= a + (b - a) * t <= rmax(a, b)
{
    let d = b - a;
    if d >= 0real { assert(0real <= d * t <= d) by(nonlinear_arith) requires d >= 0real, 0real <= t <= 1real; }
    else { assert(d <= d * t <= 0real) by(nonlinear_arith) requires d < 0real, 0real <= t <= 1real; }
}
pub proof fn lemma_in_box(a: V, b: V, p: V) requires on_seg(a, b, p) ensures in_box(a, b, p) {
    let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] vat(a, vsub(b, a), t);
    lemma_between(a.x, b.x, t);
    lemma_between(a.y, b.y, t);
}
pub proof fn lemma_rev1(a: real, b: real, t: real) ensures a + (b - a) * t == b + (a - b) * (1real - t) {
    assert(a + (b - a) * t == b + (a - b) * (1real - t)) by(nonlinear_arith);
}
pub proof fn lemma_seg_sym(a: V, b: V, p: V) ensures on_seg(a, b, p) <==> on_seg(b, a, p) {
    if on_seg(a, b, p) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] vat(a, vsub(b, a), t);
        lemma_rev1(a.x, b.x, t); lemma_rev1(a.y, b.y, t);
        assert(p == vat(b, vsub(a, b), 1real - t));
    }
    if on_seg(b, a, p) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] vat(b, vsub(a, b), t);
        lemma_rev1(b.x, a.x, t); lemma_rev1(b.y, a.y, t);
        assert(p == vat(a, vsub(b, a), 1real - t));
    }
}
/// points p + r t with t between m and mm are the segment between the two extreme ones
pub proof fn lemma_sub_seg(p: V, r: V, m: real, mm: real, x: V)
    requires m <= mm, r.x != 0real || r.y != 0real,
    ensures
        on_seg(vat(p, r, m), vat(p, r, mm), x) <==> (exists|t: real| m <= t <= mm && x == #[trigger] vat(p, r, t)),
        vat(p, r, m) == vat(p, r, mm) <==> m == mm,
{
    let (a, b) = (vat(p, r, m), vat(p, r, mm));
    if on_seg(a, b, x) {
        let u = choose|u: real| 0real <= u <= 1real && x == #[trigger] vat(a, vsub(b, a), u);
        let t = m + (mm - m) * u;
        lemma_between(m, mm, u);
        lemma_step(p.x, r.x, m, mm, u); lemma_step(p.y, r.y, m, mm, u);
        assert(x == vat(p, r, t));
    }
    if exists|t: real| m <= t <= mm && x == #[trigger] vat(p, r, t) {
        let t = choose|t: real| m <= t <= mm && x == #[trigger] vat(p, r, t);
        if m == mm {
            assert(vsub(b, a).x * 0real == 0real && vsub(b, a).y * 0real == 0real) by(nonlinear_arith);
            assert(x == vat(a, vsub(b, a), 0real));
        } else {
            let d = mm - m;
            let u = (t - m) / d;
            lemma_quot(t - m, d);
            assert(0real <= u <= 1real) by(nonlinear_arith) requires u * d == t - m, 0real <= t - m <= d, d > 0real;
            assert(t == m + (mm - m) * u) by(nonlinear_arith) requires u * (mm - m) == t - m;
            lemma_step(p.x, r.x, m, mm, u); lemma_step(p.y, r.y, m, mm, u);
            assert(x == vat(a, vsub(b, a), u));
        }
    }
    if a == b {
        if r.x != 0real { assert(m == mm) by(nonlinear_arith) requires r.x != 0real, r.x * m == r.x * mm; }
        else { assert(m == mm) by(nonlinear_arith) requires r.y != 0real, r.y * m == r.y * mm; }
    }
}
pub proof fn lemma_step(p: real, r: real, m: real, mm: real, u: real)
    ensures p + r * (m + (mm - m) * u) == (p + r * m) + ((p + r * mm) - (p + r * m)) * u
{
    let k = mm - m;
    assert(r * (m + k * u) == r * m + (r * k) * u) by(nonlinear_arith);
    assert(r * mm - r * m == r * k) by(nonlinear_arith) requires k == mm - m;
}
/// two parallel segments p + r [0, 1] and q + s [0, 1] on one line, directed alike
pub proof fn lemma_collinear(p: V, r: V, q: V, s: V, t0: real, t1: real)
    requires
        lexpos(r), lexpos(s), vcross(r, s) == 0real, vcross(vsub(q, p), r) == 0real,
        t0 == vdot(vsub(q, p), r) / vdot(r, r), t1 == t0 + vdot(s, r) / vdot(r, r),
    ensures
        t0 < t1, q == vat(p, r, t0), vat(q, s, 1real) == vat(p, r, t1),
        forall|x: V| #[trigger] on_seg(q, vat(q, s, 1real), x) <==> (exists|t: real| t0 <= t <= t1 && x == #[trigger] vat(p, r, t)),
{
    lemma_multiple(vsub(q, p), r, t0);
    let l = vdot(s, r) / vdot(r, r);
    assert(vcross(s, r) == 0real) by(nonlinear_arith) requires vcross(r, s) == 0real, vcross(r, s) == r.x * s.y - r.y * s.x, vcross(s, r) == s.x * r.y - s.y * r.x;
    lemma_multiple(s, r, l);
    assert(l > 0real) by {
        if r.x > 0real {
            if l == 0real { assert(s.x == 0real && s.y == 0real) by(nonlinear_arith) requires s.x == r.x * l, s.y == r.y * l, l == 0real; }
            if l < 0real { assert(s.x < 0real) by(nonlinear_arith) requires s.x == r.x * l, l < 0real, r.x > 0real; }
        } else {
            assert(s.x == 0real) by(nonlinear_arith) requires s.x == r.x * l, r.x == 0real;
            if l <= 0real { assert(s.y <= 0real) by(nonlinear_arith) requires s.y == r.y * l, l <= 0real, r.y > 0real; }
        }
    }
    assert(r.x * (t0 + l) == r.x * t0 + r.x * l) by(nonlinear_arith);
    assert(r.y * (t0 + l) == r.y * t0 + r.y * l) by(nonlinear_arith);
    assert forall|x: V| #[trigger] on_seg(q, vat(q, s, 1real), x) <==> (exists|t: real| t0 <= t <= t1 && x == #[trigger] vat(p, r, t)) by {
        lemma_sub_seg(p, r, t0, t1, x);
    }
}
/// collinear segments whose boxes meet have parameters that meet
pub proof fn lemma_meet(p: V, r: V, t0: real, t1: real)
    requires lexpos(r), t0 < t1, !box_apart(p, vat(p, r, 1real), vat(p, r, t0), vat(p, r, t1)),
    ensures t0 <= 1real, t1 >= 0real,
{
    if r.x > 0real {
        assert(r.x * t0 <= r.x * t1) by(nonlinear_arith) requires r.x > 0real, t0 < t1;
        if t0 > 1real { assert(r.x * t0 > r.x * 1real) by(nonlinear_arith) requires r.x > 0real, t0 > 1real; }
        if t1 < 0real { assert(r.x * t1 < 0real) by(nonlinear_arith) requires r.x > 0real, t1 < 0real; }
    } else {
        assert(r.y * t0 <= r.y * t1) by(nonlinear_arith) requires r.y > 0real, t0 < t1;
        if t0 > 1real { assert(r.y * t0 > r.y * 1real) by(nonlinear_arith) requires r.y > 0real, t0 > 1real; }
        if t1 < 0real { assert(r.y * t1 < 0real) by(nonlinear_arith) requires r.y > 0real, t1 < 0real; }
    }
}
pub open spec fn box_apart(a: V, b: V, c: V, d: V) -> bool {
    ||| rmax(a.x, b.x) < rmin(c.x, d.x) || rmin(a.x, b.x) > rmax(c.x, d.x)
    ||| rmax(a.y, b.y) < rmin(c.y, d.y) || rmin(a.y, b.y) > rmax(c.y, d.y)
}
pub open spec fn prec(a: V, b: V) -> bool { a.x > b.x || (a.y > b.y && a.x == b.x) }
/// the segment with its lexicographically smaller end first: start and direction
pub open spec fn lo(a: V, b: V) -> V { if prec(a, b) { b } else { a } }
pub open spec fn dir(a: V, b: V) -> V { if prec(a, b) { vneg(vsub(b, a)) } else { vsub(b, a) } }
pub proof fn lemma_lo(a: V, b: V, x: V)
    requires a != b
    ensures lexpos(dir(a, b)), on_seg(a, b, x) <==> on_seg(lo(a, b), vat(lo(a, b), dir(a, b), 1real), x),
        box_same(a, b, lo(a, b), vat(lo(a, b), dir(a, b), 1real)),
{
    lemma_seg_sym(a, b, x);
    let d = dir(a, b);
    assert(d.x * 1real == d.x && d.y * 1real == d.y);
    let e = vat(lo(a, b), d, 1real);
    assert(e == if prec(a, b) { a } else { b });
}
pub open spec fn box_same(a: V, b: V, c: V, d: V) -> bool { (a == c && b == d) || (a == d && b == c) }
pub proof fn lemma_unit(p: V, r: V, x: V)
    ensures on_seg(p, vat(p, r, 1real), x) <==> (exists|t: real| 0real <= t <= 1real && x == #[trigger] vat(p, r, t))
{
    let b = vat(p, r, 1real);
    assert(vsub(b, p) == r);
}
pub open spec fn none_common(a: V, b: V, c: V, d: V) -> bool { forall|x: V| !(#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) }
pub open spec fn one_common(a: V, b: V, c: V, d: V, q: V) -> bool { forall|x: V| (#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) <==> x == q }
pub open spec fn seg_common(a: V, b: V, c: V, d: V, e: V, f: V) -> bool { forall|x: V| (#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) <==> on_seg(e, f, x) }

pub proof fn lemma_case_box(a: V, b: V, c: V, d: V) requires box_apart(a, b, c, d) ensures none_common(a, b, c, d) {
    assert forall|x: V| !(#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) by {
        if on_seg(a, b, x) && on_seg(c, d, x) { lemma_in_box(a, b, x); lemma_in_box(c, d, x); }
    }
}
pub open spec fn par_t(a: V, b: V, c: V, d: V) -> real {
    vcross(vsub(c, a), vsub(d, c)) / vcross(vsub(b, a), vsub(d, c))
}
pub open spec fn par_u(a: V, b: V, c: V, d: V) -> real {
    vcross(vsub(c, a), vsub(b, a)) / vcross(vsub(b, a), vsub(d, c))
}
pub proof fn lemma_case_cross(a: V, b: V, c: V, d: V)
    requires vcross(vsub(b, a), vsub(d, c)) != 0real,
    ensures ({
        let (t, u) = (par_t(a, b, c, d), par_u(a, b, c, d));
        if 0real <= t <= 1real && 0real <= u <= 1real { one_common(a, b, c, d, vat(a, vsub(b, a), t)) } else { none_common(a, b, c, d) }
    }),
{
    let (r, s) = (vsub(b, a), vsub(d, c));
    let (t, u) = (par_t(a, b, c, d), par_u(a, b, c, d));
    lemma_cramer(a, r, c, s, t, u);
    let ok = 0real <= t <= 1real && 0real <= u <= 1real;
    let q = vat(a, r, t);
    assert forall|x: V| (#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) <==> (ok && x == q) by {
        if on_seg(a, b, x) && on_seg(c, d, x) {
            let t2 = choose|t2: real| 0real <= t2 <= 1real && x == #[trigger] vat(a, r, t2);
            let u2 = choose|u2: real| 0real <= u2 <= 1real && x == #[trigger] vat(c, s, u2);
            assert(vat(a, r, t2) == vat(c, s, u2));
        }
        if ok && x == q { assert(x == vat(a, r, t)); assert(x == vat(c, s, u)); }
    }
}
/// quantities of the parallel case, from the sorted ends
pub open spec fn q_k(a: V, b: V, c: V, d: V) -> real { vcross(vsub(lo(c, d), lo(a, b)), dir(a, b)) }
pub open spec fn q_t0(a: V, b: V, c: V, d: V) -> real { vdot(vsub(lo(c, d), lo(a, b)), dir(a, b)) / vdot(dir(a, b), dir(a, b)) }
pub open spec fn q_t1(a: V, b: V, c: V, d: V) -> real { q_t0(a, b, c, d) + vdot(dir(c, d), dir(a, b)) / vdot(dir(a, b), dir(a, b)) }
pub open spec fn q_start(a: V, b: V, c: V, d: V) -> V { vat(lo(a, b), dir(a, b), rmax(q_t0(a, b, c, d), 0real)) }
pub open spec fn q_end(a: V, b: V, c: V, d: V) -> V { vat(lo(a, b), dir(a, b), rmin(q_t1(a, b, c, d), 1real)) }
pub proof fn lemma_case_par(a: V, b: V, c: V, d: V)
    requires a != b, c != d, vcross(vsub(b, a), vsub(d, c)) == 0real,
    ensures
        vdot(dir(a, b), dir(a, b)) > 0real,
        q_k(a, b, c, d) != 0real ==> none_common(a, b, c, d),
        q_k(a, b, c, d) == 0real && !box_apart(a, b, c, d) ==>
            if q_start(a, b, c, d) == q_end(a, b, c, d) { one_common(a, b, c, d, q_start(a, b, c, d)) }
            else { seg_common(a, b, c, d, q_start(a, b, c, d), q_end(a, b, c, d)) },
{
    let (p, r, q, s) = (lo(a, b), dir(a, b), lo(c, d), dir(c, d));
    lemma_lo(a, b, a);
    lemma_lo(c, d, c);
    let (r0, s0) = (vsub(b, a), vsub(d, c));
    assert(vcross(r, s) == 0real) by(nonlinear_arith) requires r0.x * s0.y - r0.y * s0.x == 0real, vcross(r, s) == r.x * s.y - r.y * s.x,
        (r.x == r0.x && r.y == r0.y) || (r.x == -r0.x && r.y == -r0.y), (s.x == s0.x && s.y == s0.y) || (s.x == -s0.x && s.y == -s0.y);
    lemma_sq2(r.x, r.y);
    let (e, f) = (vat(p, r, 1real), vat(q, s, 1real));
    if q_k(a, b, c, d) != 0real {
        assert forall|x: V| !(#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) by {
            if on_seg(a, b, x) && on_seg(c, d, x) {
                lemma_lo(a, b, x); lemma_lo(c, d, x);
                lemma_unit(p, r, x); lemma_unit(q, s, x);
                let t = choose|t: real| 0real <= t <= 1real && x == #[trigger] vat(p, r, t);
                let u = choose|u: real| 0real <= u <= 1real && x == #[trigger] vat(q, s, u);
                let w = vsub(q, p);
                assert(w.x == r.x * t - s.x * u && w.y == r.y * t - s.y * u);
                ring_u(r.x, r.y, s.x, s.y, t, u);
                assert(u * vcross(r, s) == 0real) by(nonlinear_arith) requires vcross(r, s) == 0real;
            }
        }
    } else if !box_apart(a, b, c, d) {
        reveal(par_met);
        lemma_par_all(a, b, c, d);
    }
}
#[verifier::opaque]
pub open spec fn par_met(a: V, b: V, c: V, d: V) -> bool { vcross(dir(a, b), dir(c, d)) == 0real && vdot(dir(a, b), dir(a, b)) > 0real && q_k(a, b, c, d) == 0real && !box_apart(a, b, c, d) }
pub proof fn lemma_par_all(a: V, b: V, c: V, d: V)
    requires a != b, c != d, par_met(a, b, c, d)
    ensures
        if q_start(a, b, c, d) == q_end(a, b, c, d) { one_common(a, b, c, d, q_start(a, b, c, d)) }
        else { seg_common(a, b, c, d, q_start(a, b, c, d), q_end(a, b, c, d)) },
{
    hide(on_seg); hide(q_start); hide(q_end);
    let (z, w) = (q_start(a, b, c, d), q_end(a, b, c, d));
    assert forall|x: V| (#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) <==> on_seg(z, w, x) by { lemma_par_on(a, b, c, d, x); }
    if z == w {
        assert forall|x: V| (#[trigger] on_seg(a, b, x) && on_seg(c, d, x)) <==> x == z by { lemma_point(z, x); }
    }
}
/// the overlap of collinear segments
pub proof fn lemma_par_on(a: V, b: V, c: V, d: V, x: V)
    requires a != b, c != d, par_met(a, b, c, d)
    ensures (on_seg(a, b, x) && on_seg(c, d, x)) <==> on_seg(q_start(a, b, c, d), q_end(a, b, c, d), x)
{
    let (p, r, q, s) = (lo(a, b), dir(a, b), lo(c, d), dir(c, d));
    lemma_lo(a, b, a);
    lemma_lo(c, d, c);
    reveal(par_met);
    let (t0, t1) = (q_t0(a, b, c, d), q_t1(a, b, c, d));
    lemma_collinear(p, r, q, s, t0, t1);
    lemma_meet(p, r, t0, t1);
    let (m, mm) = (rmax(t0, 0real), rmin(t1, 1real));
    lemma_lo(a, b, x); lemma_lo(c, d, x);
    lemma_unit(p, r, x); lemma_unit(q, s, x);
    lemma_sub_seg(p, r, m, mm, x);
    if on_seg(a, b, x) && on_seg(c, d, x) {
        let t = choose|t: real| 0real <= t <= 1real && x == #[trigger] vat(p, r, t);
        let u = choose|u: real| t0 <= u <= t1 && x == #[trigger] vat(p, r, u);
        lemma_inj(p, r, t, u);
    }
}
pub proof fn lemma_inj(p: V, r: V, t: real, u: real) requires lexpos(r), vat(p, r, t) == vat(p, r, u) ensures t == u {
    if r.x != 0real { assert(t == u) by(nonlinear_arith) requires r.x != 0real, r.x * t == r.x * u; }
    else { assert(t == u) by(nonlinear_arith) requires r.y != 0real, r.y * t == r.y * u; }
}
pub proof fn lemma_point(z: V, x: V) ensures on_seg(z, z, x) <==> x == z {
    let o = vsub(z, z);
    assert forall|t: real| #[trigger] vat(z, o, t) == z by { assert(o.x * t == 0real && o.y * t == 0real) by(nonlinear_arith) requires o.x == 0real, o.y == 0real; }
    assert(vat(z, o, 0real) == z);
}
"""
