from vgen import Spec, sub_rule
from ring import ring_lemma
import L17
import seg

R = "src/linestring_2d.rs"
A = "VoronoiParabolicArc"

RING = ring_lemma("ring_bulge1", ["h", "dx", "dy", "e", "f"], "2 * (h * (dy * e - dx * f))", "(2 * (h * dy)) * e - dx * (2 * (h * f))") + ring_lemma(
    "ring_bulge2", ["dx", "e", "u0", "u1", "u"], "(dx * (u0 + u1)) * e - dx * (e * (u0 + u))", "dx * (e * (u1 - u))") + ring_lemma("ring_scale_add", ["a", "s", "b", "t", "l"], "(a * s + b * t) * l", "a * (s * l) + b * (t * l)") + ring_lemma(
    "ring_scale_sub", ["a", "s", "b", "t", "l"], "(a * s - b * t) * l", "a * (s * l) - b * (t * l)") + ring_lemma("ring_lagrange", ["dx", "dy", "wx", "wy"],
    "(dx * wx + dy * wy) * (dx * wx + dy * wy) + (dx * wy - dy * wx) * (dx * wy - dy * wx)",
    "(wx * wx + wy * wy) * (dx * dx + dy * dy)") + ring_lemma("ring_invx", ["dx", "dy", "x", "y"],
    "dx * (dx * x - dy * y) + dy * (dx * y + dy * x)", "x * (dx * dx + dy * dy)") + ring_lemma("ring_invy", ["dx", "dy", "x", "y"],
    "dx * (dx * y + dy * x) - dy * (dx * x - dy * y)", "y * (dx * dx + dy * dy)") + ring_lemma("ring_sq_diff", ["a", "b"],
    "(b - a) * (b + a)", "b * b - a * a") + ring_lemma("ring_half", ["a", "b"],
    "(a + b) * (a + b)", "a * a + 2 * (a * b) + b * b") + ring_lemma("ring_parab", ["y", "h"],
    "(y - h) * (y - h)", "y * y - 2 * (h * y) + h * h") + ring_lemma("ring_dot_t", ["dx", "dy", "px", "py", "ex", "ey", "t"],
    "dx * (px * t - ex) + dy * (py * t - ey)", "t * (dx * px + dy * py) - (dx * ex + dy * ey)") + ring_lemma("ring_cross_t", ["dx", "dy", "px", "py", "ex", "ey", "t"],
    "dx * (py * t - ey) - dy * (px * t - ex)", "t * (dx * py - dy * px) - (dx * ey - dy * ex)")

# everything in coordinates centered on the focus' projection: the parabola is 2 h y = u u + h h
PURE = """
pub open spec fn par(u: real, h: real) -> real { (u * u + h * h) / (h + h) }
pub proof fn lemma_par(u: real, h: real, y: real)
    requires h != 0real ensures y == par(u, h) <==> u * u + h * h == 2real * (h * y)
{
    let n = u * u + h * h;
    let q = n / (h + h);
    assert(q * (h + h) == n) by(nonlinear_arith) requires q == n / (h + h), h + h != 0real;
    assert(2real * (h * q) == q * (h + h)) by(nonlinear_arith);
    if n == 2real * (h * y) {
        assert(y == q) by(nonlinear_arith) requires h != 0real, 2real * (h * q) == 2real * (h * y);
    }
}
pub proof fn lemma_mul_pos(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
/// the point of the parabola with the slope of the chord lies half way
pub proof fn lemma_chord(u0: real, u1: real, h: real)
    requires h != 0real, u0 != u1
    ensures (par(u1, h) - par(u0, h)) / (u1 - u0) * h == (u0 + u1) / 2real,
        2real * (h * (par(u1, h) - par(u0, h))) == (u1 - u0) * (u0 + u1),
{
    lemma_par(u0, h, par(u0, h)); lemma_par(u1, h, par(u1, h));
    let dy = par(u1, h) - par(u0, h);
    let dx = u1 - u0;
    assert(2real * (h * dy) == 2real * (h * par(u1, h)) - 2real * (h * par(u0, h))) by(nonlinear_arith) requires dy == par(u1, h) - par(u0, h);
    ring_sq_diff(u0, u1);
    assert(2real * (h * dy) == dx * (u0 + u1));
    let s = dy / dx;
    assert(s * dx == dy) by(nonlinear_arith) requires s == dy / dx, dx != 0real;
    assert(2real * (h * (s * dx)) == dx * (2real * (s * h))) by(nonlinear_arith);
    assert(2real * (s * h) == u0 + u1) by(nonlinear_arith) requires dx != 0real, dx * (2real * (s * h)) == dx * (u0 + u1);
}
/// the doubled area spanned by the chord and the point at u
pub open spec fn bulge(u0: real, u1: real, u: real, h: real) -> real {
    (par(u1, h) - par(u0, h)) * (u - u0) - (u1 - u0) * (par(u, h) - par(u0, h))
}
pub proof fn lemma_bulge(u0: real, u1: real, u: real, h: real)
    requires h != 0real, u0 != u1 ensures 2real * (h * bulge(u0, u1, u, h)) == (u1 - u0) * ((u - u0) * (u1 - u))
{
    lemma_chord(u0, u1, h);
    let (dx, dy, e, f) = (u1 - u0, par(u1, h) - par(u0, h), u - u0, par(u, h) - par(u0, h));
    if u != u0 { lemma_chord(u0, u, h); } else { assert((u - u0) * (u0 + u) == 0real) by(nonlinear_arith) requires u == u0; assert(2real * (h * f) == 0real) by(nonlinear_arith) requires f == 0real; }
    assert(2real * (h * f) == e * (u0 + u));
    assert(2real * (h * dy) == dx * (u0 + u1));
    ring_bulge1(h, dx, dy, e, f);
    ring_bulge2(dx, e, u0, u1, u);
}
/// squared distance of the point at u to the line through the chord's ends
pub open spec fn line_dist(u0: real, u1: real, u: real, h: real) -> real {
    let (dx, dy) = (u1 - u0, par(u1, h) - par(u0, h));
    bulge(u0, u1, u, h) * bulge(u0, u1, u, h) / (dy * dy + dx * dx)
}
pub open spec fn within(u0: real, u1: real, u: real) -> bool { u0 <= u <= u1 || u1 <= u <= u0 }
/// squared distance of the point at u to the point at t of the chord
pub open spec fn gap1(u0: real, u1: real, u: real, h: real, t: real) -> real {
    let (dx, dy, e, f) = (u1 - u0, par(u1, h) - par(u0, h), u - u0, par(u, h) - par(u0, h));
    (t * dx - e) * (t * dx - e) + (t * dy - f) * (t * dy - f)
}
/// the foot of the perpendicular from a point of the arc does not fall before the chord's start
pub proof fn lemma_foot_pos(u0: real, u1: real, u: real, h: real)
    requires h != 0real, u0 != u1, within(u0, u1, u), (u0 + u1) / 2real * u0 + h * h >= 0real,
    ensures (u - u0) * (u1 - u0) + (par(u, h) - par(u0, h)) * (par(u1, h) - par(u0, h)) >= 0real
{
    lemma_chord(u0, u1, h);
    let (dx, dy, e, f, m) = (u1 - u0, par(u1, h) - par(u0, h), u - u0, par(u, h) - par(u0, h), (u0 + u1) / 2real);
    if u != u0 { lemma_chord(u0, u, h); } else { assert((u - u0) * (u0 + u) == 0real) by(nonlinear_arith) requires u == u0; assert(2real * (h * f) == 0real) by(nonlinear_arith) requires f == 0real; }
    let n = (u0 + u) / 2real;
    assert(h * f == e * n) by(nonlinear_arith) requires 2real * (h * f) == e * (u0 + u), n == (u0 + u) / 2real;
    assert(h * dy == dx * m) by(nonlinear_arith) requires 2real * (h * dy) == dx * (u0 + u1), m == (u0 + u1) / 2real;
    let c = m * n + h * h;
    // n lies between u0 and m
    assert(c >= 0real) by {
        assert(h * h >= 0real) by(nonlinear_arith);
        assert(m * m >= 0real) by(nonlinear_arith);
        if m >= 0real {
            if u0 <= u1 { assert(m * n >= m * u0) by(nonlinear_arith) requires m >= 0real, n >= u0; }
            else { assert(m * n >= m * m) by(nonlinear_arith) requires m >= 0real, n >= m; }
        } else {
            if u0 <= u1 { assert(m * n >= m * m) by(nonlinear_arith) requires m <= 0real, n <= m; }
            else { assert(m * n >= m * u0) by(nonlinear_arith) requires m <= 0real, n <= u0; }
        }
    }
    assert(e * dx >= 0real) by(nonlinear_arith) requires (e >= 0real && dx >= 0real) || (e <= 0real && dx <= 0real);
    let w = e * dx + f * dy;
    assert((h * f) * (h * dy) == (e * n) * (dx * m));
    assert((h * f) * (h * dy) == (h * h) * (f * dy)) by(nonlinear_arith);
    assert((e * n) * (dx * m) == (e * dx) * (m * n)) by(nonlinear_arith);
    assert((h * h) * w == (h * h) * (e * dx) + (h * h) * (f * dy)) by(nonlinear_arith) requires w == e * dx + f * dy;
    assert((e * dx) * (h * h) + (e * dx) * (m * n) == (e * dx) * c) by(nonlinear_arith) requires c == m * n + h * h;
    assert((e * dx) * (h * h) == (h * h) * (e * dx)) by(nonlinear_arith);
    lemma_mul_pos(e * dx, c);
    assert((h * h) * w >= 0real);
    assert(h * h > 0real) by(nonlinear_arith) requires h != 0real;
    assert(w >= 0real) by(nonlinear_arith) requires (h * h) * w >= 0real, h * h > 0real;
}
pub proof fn lemma_sq_mono(a: real, b: real, h: real, c: real, d: real)
    requires h != 0real, 2real * (h * a) == c, 2real * (h * b) == d, c * c <= d * d ensures a * a <= b * b
{
    assert(c * c == (4real * (h * h)) * (a * a)) by(nonlinear_arith) requires 2real * (h * a) == c;
    assert(d * d == (4real * (h * h)) * (b * b)) by(nonlinear_arith) requires 2real * (h * b) == d;
    assert(4real * (h * h) > 0real) by(nonlinear_arith) requires h != 0real;
    assert(a * a <= b * b) by(nonlinear_arith) requires 4real * (h * h) > 0real, (4real * (h * h)) * (a * a) <= (4real * (h * h)) * (b * b);
}
pub proof fn lemma_sum_pos(dx: real, dy: real) requires dx != 0real ensures dy * dy + dx * dx >= dx * dx > 0real {
    assert(dx * dx > 0real) by(nonlinear_arith) requires dx != 0real;
    assert(dy * dy >= 0real) by(nonlinear_arith);
}
/// no point of the arc is farther from the chord's line than the one half way
pub proof fn lemma_far_line(u0: real, u1: real, u: real, h: real)
    requires h != 0real, u0 != u1, within(u0, u1, u),
    ensures line_dist(u0, u1, u, h) <= line_dist(u0, u1, (u0 + u1) / 2real, h)
{
    let m = (u0 + u1) / 2real;
    let (dx, dy) = (u1 - u0, par(u1, h) - par(u0, h));
    lemma_bulge(u0, u1, u, h);
    lemma_bulge(u0, u1, m, h);
    let (p, q) = ((u - u0) * (u1 - u), (m - u0) * (u1 - m));
    assert(p >= 0real) by(nonlinear_arith) requires p == (u - u0) * (u1 - u), within(u0, u1, u);
    assert(q - p == (u - m) * (u - m)) by(nonlinear_arith) requires p == (u - u0) * (u1 - u), q == (m - u0) * (u1 - m), m == (u0 + u1) / 2real;
    assert((u - m) * (u - m) >= 0real) by(nonlinear_arith);
    assert((dx * p) * (dx * p) == (dx * dx) * (p * p)) by(nonlinear_arith);
    assert((dx * q) * (dx * q) == (dx * dx) * (q * q)) by(nonlinear_arith);
    assert(p * p <= q * q) by(nonlinear_arith) requires 0real <= p <= q;
    lemma_sum_pos(dx, dy);
    assert((dx * dx) * (p * p) <= (dx * dx) * (q * q)) by(nonlinear_arith) requires dx * dx > 0real, p * p <= q * q;
    let (a, b) = (bulge(u0, u1, u, h), bulge(u0, u1, m, h));
    lemma_sq_mono(a, b, h, dx * p, dx * q);
    let d2 = dy * dy + dx * dx;
    assert((a * a) / d2 <= (b * b) / d2) by(nonlinear_arith) requires d2 > 0real, a * a <= b * b;
}
pub proof fn lemma_near(u0: real, u1: real, u: real, h: real, lim: real)
    requires h != 0real, u0 != u1, within(u0, u1, u),
        (u0 + u1) / 2real * u0 + h * h >= 0real, (u0 + u1) / 2real * u1 + h * h >= 0real,
        line_dist(u0, u1, (u0 + u1) / 2real, h) <= lim,
    ensures exists|t: real| 0real <= t <= 1real && #[trigger] gap1(u0, u1, u, h, t) <= lim
{
    let (dx, dy, e, f) = (u1 - u0, par(u1, h) - par(u0, h), u - u0, par(u, h) - par(u0, h));
    lemma_far_line(u0, u1, u, h);
    lemma_foot_pos(u0, u1, u, h);
    lemma_foot_pos(u1, u0, u, h);
    let d2 = dy * dy + dx * dx;
    lemma_sum_pos(dx, dy);
    let w = e * dx + f * dy;
    let v = (u - u1) * (u0 - u1) + (par(u, h) - par(u1, h)) * (par(u0, h) - par(u1, h));
    assert(v == d2 - w) by(nonlinear_arith) requires v == (e - dx) * (-dx) + (f - dy) * (-dy), d2 == dy * dy + dx * dx, w == e * dx + f * dy;
    let t = w / d2;
    assert(t * d2 == w) by(nonlinear_arith) requires t == w / d2, d2 > 0real;
    assert(0real <= t) by(nonlinear_arith) requires t * d2 == w, d2 > 0real, w >= 0real;
    assert(t <= 1real) by(nonlinear_arith) requires t * d2 == w, d2 > 0real, w <= d2;
    let g = gap1(u0, u1, u, h, t);
    let u2 = e * e + f * f;
    assert((t * dx - e) * (t * dx - e) == t * t * (dx * dx) - 2real * (t * (e * dx)) + e * e) by(nonlinear_arith);
    assert((t * dy - f) * (t * dy - f) == t * t * (dy * dy) - 2real * (t * (f * dy)) + f * f) by(nonlinear_arith);
    assert(t * t * (dx * dx) + t * t * (dy * dy) == t * t * d2) by(nonlinear_arith) requires d2 == dy * dy + dx * dx;
    assert(t * (e * dx) + t * (f * dy) == t * w) by(nonlinear_arith) requires w == e * dx + f * dy;
    assert(t * t * d2 == t * w) by(nonlinear_arith) requires t * d2 == w;
    assert(g == u2 - t * w);
    let n = dy * e - dx * f;
    assert(n * n == u2 * d2 - w * w) by { ring_lagrange(dx, dy, e, f);
        assert((dx * f - dy * e) * (dx * f - dy * e) == n * n) by(nonlinear_arith) requires n == dy * e - dx * f;
        assert((dx * e + dy * f) * (dx * e + dy * f) == w * w) by(nonlinear_arith) requires w == e * dx + f * dy;
        assert(u2 * d2 == (e * e + f * f) * (dx * dx + dy * dy)); }
    assert(g * d2 == u2 * d2 - w * w) by(nonlinear_arith) requires g == u2 - t * w, t * d2 == w;
    assert(n * n / d2 == g) by(nonlinear_arith) requires g * d2 == n * n, d2 > 0real;
    assert(n == bulge(u0, u1, u, h));
    assert(gap1(u0, u1, u, h, t) <= lim);
}
/// a piece no wider than this is never divided
pub open spec fn small(h: real, lim: real) -> real { rmin(rmin(4real * rabs(h), 1real), 4real * lim) }
pub proof fn lemma_small(u0: real, u1: real, h: real, lim: real)
    requires h != 0real, lim > 0real, u0 != u1, rabs(u1 - u0) <= small(h, lim),
    ensures (u0 + u1) / 2real * u0 + h * h >= 0real, (u0 + u1) / 2real * u1 + h * h >= 0real, line_dist(u0, u1, (u0 + u1) / 2real, h) <= lim,
{
    let m = (u0 + u1) / 2real;
    let dx = u1 - u0;
    let k = dx / 2real;
    let h2 = h * h;
    let d2 = dx * dx;
    assert(d2 == rabs(dx) * rabs(dx)) by(nonlinear_arith) requires d2 == dx * dx, rabs(dx) == dx || rabs(dx) == -dx;
    assert(d2 <= 16real * h2) by(nonlinear_arith) requires d2 == rabs(dx) * rabs(dx), 0real <= rabs(dx) <= 4real * rabs(h), h2 == h * h, rabs(h) == h || rabs(h) == -h;
    assert(d2 <= 4real * lim) by(nonlinear_arith) requires d2 == rabs(dx) * rabs(dx), 0real <= rabs(dx) <= 1real, rabs(dx) <= 4real * lim;
    // m u0 = (m - k/2)^2 - k k / 4
    assert(m * u0 == (m - k / 2real) * (m - k / 2real) - k * k / 4real) by(nonlinear_arith) requires u0 == m - k;
    assert(m * u1 == (m + k / 2real) * (m + k / 2real) - k * k / 4real) by(nonlinear_arith) requires u1 == m + k;
    assert((m - k / 2real) * (m - k / 2real) >= 0real) by(nonlinear_arith);
    assert((m + k / 2real) * (m + k / 2real) >= 0real) by(nonlinear_arith);
    assert(k * k / 4real <= h2) by(nonlinear_arith) requires d2 == dx * dx, k == dx / 2real, d2 <= 16real * h2;
    lemma_bulge(u0, u1, m, h);
    let n = bulge(u0, u1, m, h);
    assert((m - u0) * (u1 - m) == d2 / 4real) by(nonlinear_arith) requires m - u0 == dx / 2real, u1 - m == dx / 2real, d2 == dx * dx;
    let c = dx * (d2 / 4real);
    assert(2real * (h * n) == c);
    assert(c * c == (4real * h2) * (n * n)) by(nonlinear_arith) requires 2real * (h * n) == c, h2 == h * h;
    assert(c * c == d2 * (d2 * d2) / 16real) by(nonlinear_arith) requires c == dx * (d2 / 4real), d2 == dx * dx;
    assert(h2 > 0real) by(nonlinear_arith) requires h2 == h * h, h != 0real;
    assert(d2 > 0real) by(nonlinear_arith) requires d2 == dx * dx, dx != 0real;
    // n n <= lim d2
    assert(d2 * d2 <= (16real * h2) * (4real * lim)) by(nonlinear_arith) requires 0real < d2 <= 16real * h2, d2 <= 4real * lim;
    assert(d2 * (d2 * d2) <= d2 * ((16real * h2) * (4real * lim))) by(nonlinear_arith) requires d2 > 0real, d2 * d2 <= (16real * h2) * (4real * lim);
    assert(d2 * ((16real * h2) * (4real * lim)) == 16real * ((4real * h2) * (lim * d2))) by(nonlinear_arith);
    assert((4real * h2) * (n * n) <= (4real * h2) * (lim * d2));
    assert(n * n <= lim * d2) by(nonlinear_arith) requires h2 > 0real, (4real * h2) * (n * n) <= (4real * h2) * (lim * d2);
    let dy = par(u1, h) - par(u0, h);
    lemma_sum_pos(dx, dy);
    let e2 = dy * dy + dx * dx;
    assert(lim * d2 <= lim * e2) by(nonlinear_arith) requires lim > 0real, d2 <= e2;
    assert(n * n / e2 <= lim) by(nonlinear_arith) requires e2 > 0real, n * n <= lim * e2;
}
/// work left for a piece w times as wide as a small one
pub open spec fn cost(w: real) -> nat { let k = (4real * w).floor() - 1; if k >= 1 { k as nat } else { 1 } }
pub proof fn lemma_cost(w: real) requires w > 1real ensures 2 * cost(w / 2real) < cost(w), cost(w) >= 1
{
    let a = 4real * w;
    let b = 4real * (w / 2real);
    assert(b == a / 2real);
    assert(b.floor() as real <= b);
    assert(a < a.floor() as real + 1real);
    assert(2 * b.floor() <= a.floor());
}
"""

GHOST = """
/// segment a b and focus c of an arc
pub struct G { pub a: V, pub b: V, pub c: V }
pub open spec fn len2(g: G) -> real { vdot(vsub(g.b, g.a), vsub(g.b, g.a)) }
/// position along the segment and height above it, both times the length of the segment
pub open spec fn along(g: G, q: V) -> real { vdot(vsub(g.b, g.a), vsub(q, g.a)) }
pub open spec fn above(g: G, q: V) -> real { vcross(vsub(g.b, g.a), vsub(q, g.a)) }
/// q is as far from the focus as from the line through the segment
pub open spec fn on_curve(g: G, q: V) -> bool { vdot(vsub(q, g.c), vsub(q, g.c)) * len2(g) == above(g, q) * above(g, q) }
pub open spec fn proper(g: G) -> bool { g.a != g.b && above(g, g.c) != 0real }
/// q is at most sqrt(lim) from the segment p0 p1
pub open spec fn gap(p0: V, p1: V, q: V, t: real) -> real { let w = vsub(vat(p0, vsub(p1, p0), t), q); vdot(w, w) }
pub open spec fn near(p0: V, p1: V, q: V, lim: real) -> bool { exists|t: real| 0real <= t <= 1real && #[trigger] gap(p0, p1, q, t) <= lim }
pub open spec fn covers(g: G, p0: V, p1: V, lim: real) -> bool {
    forall|q: V| #[trigger] on_curve(g, q) && within(along(g, p0), along(g, p1), along(g, q)) ==> near(p0, p1, q, lim)
}
/// x0 comes strictly before x1 on the way from xs to xe
pub open spec fn before(xs: real, xe: real, x0: real, x1: real) -> bool { (xs < xe ==> x0 < x1) && (xs > xe ==> x0 > x1) }
/// the r[i] are points of the curve from s on, in order, and no part of the curve is farther than sqrt(lim) from them
pub open spec fn samples<T>(g: G, s: V, e: V, lim: real, r: Seq<T>) -> bool {
    &&& r.len() >= 1 && vv(r[0]) == s
    &&& forall|i: int| 0 <= i < r.len() ==> on_curve(g, vv(#[trigger] r[i]))
    &&& forall|i: int| 0 < i < r.len() ==> before(along(g, s), along(g, e), along(g, vv(r[i - 1])), along(g, vv(#[trigger] r[i])))
    &&& forall|i: int| 0 < i < r.len() ==> covers(g, vv(r[i - 1]), vv(#[trigger] r[i]), lim)
}
pub open spec fn ends_in<T>(e: V, r: Seq<T>) -> bool { r.len() >= 2 && vv(r[r.len() - 1]) == e }
/// every point carries the negated distance to the focus as depth
pub open spec fn is_depth(z: real, q: real) -> bool { z == -rsqrt(q) }
pub proof fn lemma_sq2_is<T>(p: T, c: T) ensures sq2(p, c) == vdot(vsub(vv(p), vv(c)), vsub(vv(p), vv(c))) {}
pub open spec fn deep<T>(g: G, r: Seq<T>) -> bool { forall|i: int| 0 <= i < r.len() ==> #[trigger] deep_at(g, r[i]) }
pub open spec fn deep_at<T>(g: G, p: T) -> bool { is_depth(rz(p), vdot(vsub(vv(p), g.c), vsub(vv(p), g.c))) }
/// where the sampling stands: the last sample is at x, y; the positions of the stack are still to be reached, last first
#[verifier::opaque]
pub open spec fn stands<T>(g: G, s: V, e: V, lim: real, r: Seq<T>, x: real, y: real, st: Seq<real>) -> bool {
    &&& samples(g, s, e, lim, r)
    &&& along(g, vv(r[r.len() - 1])) == x && above(g, vv(r[r.len() - 1])) == y && y == par(x - along(g, g.c), above(g, g.c))
    &&& st.len() > 0 ==> st[0] == along(g, e) && before(along(g, s), along(g, e), x, st[st.len() - 1])
    &&& st.len() == 0 ==> x == along(g, e) && r.len() >= 2
    &&& forall|i: int| 0 < i < st.len() ==> before(along(g, s), along(g, e), #[trigger] st[i], st[i - 1])
}
pub open spec fn val<S>(s: S) -> real { rv(s) }
pub proof fn lemma_svals<S>(st: Seq<S>)
    ensures forall|v: S| svals(#[trigger] st.push(v)) == svals(st).push(rv(v)), st.len() > 0 ==> svals(st.drop_last()) == svals(st).drop_last(),
        st.len() > 0 ==> svals(st.subrange(0, st.len() - 1)) == svals(st).drop_last(),
{
    assert forall|v: S| svals(#[trigger] st.push(v)) == svals(st).push(rv(v)) by { assert(svals(st.push(v)) =~= svals(st).push(rv(v))); }
    if st.len() > 0 { assert(svals(st.drop_last()) =~= svals(st).drop_last()); assert(svals(st.subrange(0, st.len() - 1)) =~= svals(st).drop_last()); }
}
pub open spec fn svals<S>(s: Seq<S>) -> Seq<real> { s.map_values(|x: S| rv(x)) }
/// work left
pub open spec fn work(g: G, lim: real, x: real, st: Seq<real>) -> nat decreases st.len() {
    if st.len() == 0 { 0 } else { cost(rabs(st[st.len() - 1] - x) / small(above(g, g.c), lim * len2(g))) + work(g, lim, st[st.len() - 1], st.drop_last()) }
}
pub proof fn lemma_local(g: G, q: V)
    requires proper(g)
    ensures len2(g) > 0real, on_curve(g, q) <==> above(g, q) == par(along(g, q) - along(g, g.c), above(g, g.c))
{
    let d = vsub(g.b, g.a);
    if d.x == 0real && d.y == 0real { assert(g.a == g.b); }
    lemma_sq2(d.x, d.y);
    let w = vsub(q, g.c);
    let (x, y, u, h) = (along(g, q), above(g, q), along(g, q) - along(g, g.c), above(g, g.c));
    lemma_lin(d, vsub(q, g.a), vsub(g.c, g.a));
    assert(vsub(vsub(q, g.a), vsub(g.c, g.a)) == w);
    assert(u == vdot(d, w) && y - h == vcross(d, w));
    ring_lagrange(d.x, d.y, w.x, w.y);
    assert(u * u + (y - h) * (y - h) == vdot(w, w) * len2(g));
    ring_parab(y, h);
    lemma_par(u, h, y);
}
/// both coordinates are linear
pub proof fn lemma_lin(d: V, p: V, q: V) ensures vdot(d, vsub(p, q)) == vdot(d, p) - vdot(d, q), vcross(d, vsub(p, q)) == vcross(d, p) - vcross(d, q) {
    assert(d.x * (p.x - q.x) == d.x * p.x - d.x * q.x) by(nonlinear_arith);
    assert(d.y * (p.y - q.y) == d.y * p.y - d.y * q.y) by(nonlinear_arith);
    assert(d.x * (p.y - q.y) == d.x * p.y - d.x * q.y) by(nonlinear_arith);
    assert(d.y * (p.x - q.x) == d.y * p.x - d.y * q.x) by(nonlinear_arith);
}
/// a point is known by its coordinates
pub proof fn lemma_same_point(g: G, p: V, q: V) requires proper(g), along(g, p) == along(g, q), above(g, p) == above(g, q) ensures p == q {
    let d = vsub(g.b, g.a);
    lemma_local(g, p);
    let w = vsub(p, q);
    lemma_lin(d, vsub(p, g.a), vsub(q, g.a));
    assert(vsub(vsub(p, g.a), vsub(q, g.a)) == w);
    ring_lagrange(d.x, d.y, w.x, w.y);
    assert(vdot(d, w) * vdot(d, w) == 0real && vcross(d, w) * vcross(d, w) == 0real) by(nonlinear_arith) requires vdot(d, w) == 0real, vcross(d, w) == 0real;
    let (n, l) = (w.x * w.x + w.y * w.y, len2(g));
    assert(n * l == 0real);
    assert(n == 0real) by(nonlinear_arith) requires n * l == 0real, l > 0real;
    if w.x != 0real || w.y != 0real { lemma_sq2(w.x, w.y); }
}
/// the point with the coordinates x, y
pub open spec fn unlocal(g: G, x: real, y: real) -> V {
    let d = vsub(g.b, g.a);
    V { x: (d.x * x - d.y * y) / len2(g) + g.a.x, y: (d.x * y + d.y * x) / len2(g) + g.a.y }
}
pub proof fn lemma_unlocal(g: G, x: real, y: real) requires proper(g) ensures along(g, unlocal(g, x, y)) == x, above(g, unlocal(g, x, y)) == y {
    let d = vsub(g.b, g.a);
    lemma_local(g, g.a);
    let l = len2(g);
    let (p, q) = (d.x * x - d.y * y, d.x * y + d.y * x);
    let (s, t) = (p / l, q / l);
    lemma_quot(p, l); lemma_quot(q, l);
    ring_invx(d.x, d.y, x, y); ring_invy(d.x, d.y, x, y);
    let w = vsub(unlocal(g, x, y), g.a);
    assert(w.x == s && w.y == t);
    ring_scale_add(d.x, s, d.y, t, l); ring_scale_sub(d.x, t, d.y, s, l);
    lemma_cancel(d.x * s + d.y * t, x, l);
    lemma_cancel(d.x * t - d.y * s, y, l);
}
/// an accepted piece of the curve is covered by its chord
pub proof fn lemma_covers(g: G, p0: V, p1: V, lim: real)
    requires proper(g), on_curve(g, p0), on_curve(g, p1), along(g, p0) != along(g, p1), ({
        let (u0, u1, h) = (along(g, p0) - along(g, g.c), along(g, p1) - along(g, g.c), above(g, g.c));
        &&& (u0 + u1) / 2real * u0 + h * h >= 0real && (u0 + u1) / 2real * u1 + h * h >= 0real
        &&& line_dist(u0, u1, (u0 + u1) / 2real, h) <= lim * len2(g) }),
    ensures covers(g, p0, p1, lim)
{
    let (u0, u1, h) = (along(g, p0) - along(g, g.c), along(g, p1) - along(g, g.c), above(g, g.c));
    assert forall|q: V| #[trigger] on_curve(g, q) && within(along(g, p0), along(g, p1), along(g, q)) implies near(p0, p1, q, lim) by {
        let u = along(g, q) - along(g, g.c);
        lemma_near(u0, u1, u, h, lim * len2(g));
        let t = choose|t: real| 0real <= t <= 1real && #[trigger] gap1(u0, u1, u, h, t) <= lim * len2(g);
        lemma_gap(g, p0, p1, q, t);
        let (x, l) = (gap(p0, p1, q, t), len2(g));
        assert(x <= lim) by(nonlinear_arith) requires x * l <= lim * l, l > 0real;
    }
}
pub proof fn lemma_gap(g: G, p0: V, p1: V, q: V, t: real)
    requires proper(g), on_curve(g, p0), on_curve(g, p1), on_curve(g, q)
    ensures len2(g) > 0real, gap(p0, p1, q, t) * len2(g)
        == gap1(along(g, p0) - along(g, g.c), along(g, p1) - along(g, g.c), along(g, q) - along(g, g.c), above(g, g.c), t)
{
    lemma_local(g, p0); lemma_local(g, p1); lemma_local(g, q);
    let d = vsub(g.b, g.a);
    let w = vsub(vat(p0, vsub(p1, p0), t), q);
    let (r, e) = (vsub(p1, p0), vsub(q, p0));
    lemma_lin(d, vsub(p1, g.a), vsub(p0, g.a));
    assert(vsub(vsub(p1, g.a), vsub(p0, g.a)) == r);
    lemma_lin(d, vsub(q, g.a), vsub(p0, g.a));
    assert(vsub(vsub(q, g.a), vsub(p0, g.a)) == e);
    assert(w.x == r.x * t - e.x && w.y == r.y * t - e.y);
    ring_dot_t(d.x, d.y, r.x, r.y, e.x, e.y, t);
    ring_cross_t(d.x, d.y, r.x, r.y, e.x, e.y, t);
    assert(vdot(d, w) == t * vdot(d, r) - vdot(d, e));
    assert(vcross(d, w) == t * vcross(d, r) - vcross(d, e));
    ring_lagrange(d.x, d.y, w.x, w.y);
}
/// a piece without extent is one point
pub proof fn lemma_covers_point(g: G, p: V, lim: real) requires proper(g), on_curve(g, p), lim >= 0real ensures covers(g, p, p, lim) {
    assert forall|q: V| #[trigger] on_curve(g, q) && within(along(g, p), along(g, p), along(g, q)) implies near(p, p, q, lim) by {
        lemma_local(g, p); lemma_local(g, q);
        lemma_same_point(g, p, q);
        assert(vat(p, vsub(p, p), 0real) == p);
        assert(vsub(p, p) == V { x: 0real, y: 0real });
        assert(gap(p, p, q, 0real) == 0real);
    }
}
/// what one turn of the loop may do at position x (height y) with the next position x1 on top of the stack
pub open spec fn top(st: Seq<real>) -> real { st[st.len() - 1] }
pub proof fn lemma_turn<T>(g: G, s: V, e: V, lim: real, r: Seq<T>, x: real, y: real, st: Seq<real>)
    requires proper(g), lim > 0real, on_curve(g, s), on_curve(g, e), stands(g, s, e, lim, r, x, y, st), st.len() > 0,
        along(g, s) == along(g, e) ==> r.len() == 1 && st.len() == 1 && x == st[0],
    ensures ({
        let (a, h) = (along(g, g.c), above(g, g.c));
        let x1 = top(st);
        let y1 = par(x1 - a, h);
        let m = (y1 - y) / (x1 - x) * h + a;
        &&& x != x1 ==> before(along(g, s), along(g, e), x, m) && before(along(g, s), along(g, e), m, x1) && m - a == ((x - a) + (x1 - a)) / 2real && (x < m < x1 || x1 < m < x)
        &&& x == x1 ==> along(g, s) == along(g, e)
        &&& r.len() >= 1
        &&& x != x1 ==> (y1 - y) * (y1 - y) + (x1 - x) * (x1 - x) > 0real
        &&& along(g, unlocal(g, x1, y1)) == x1 && above(g, unlocal(g, x1, y1)) == y1
        // the next position is taken
        &&& x == x1 || (accepts(x, y, x1, y1, m, a, h, lim * len2(g))) ==> forall|p: T| vv(p) == unlocal(g, x1, y1) ==> #[trigger] stands(g, s, e, lim, r.push(p), x1, y1, st.drop_last())
        // or the piece is divided
        &&& x != x1 && !accepts(x, y, x1, y1, m, a, h, lim * len2(g)) ==> stands(g, s, e, lim, r, x, y, st.push(m)) && work(g, lim, x, st.push(m)) < work(g, lim, x, st)
        &&& work(g, lim, x1, st.drop_last()) < work(g, lim, x, st)
    }),
{ reveal(stands);
    let (a, h) = (along(g, g.c), above(g, g.c));
    let x1 = top(st);
    let y1 = par(x1 - a, h);
    let m = (y1 - y) / (x1 - x) * h + a;
    let p0 = vv(r[r.len() - 1]);
    let p1 = unlocal(g, x1, y1);
    let (u0, u1) = (x - a, x1 - a);
    let w = small(h, lim * len2(g));
    let (xs, xe) = (along(g, s), along(g, e));
    lemma_unlocal(g, x1, y1);
    lemma_local(g, p0); lemma_local(g, p1);
    assert(on_curve(g, p1) && on_curve(g, p0));
    lemma_mul_gt(lim, len2(g));
    assert(w > 0real);
    lemma_cost_pos(rabs(x1 - x) / w);
    if x != x1 {
        lemma_sum_pos(x1 - x, y1 - y);
        lemma_chord(u0, u1, h);
        assert(u1 - u0 == x1 - x && par(u0, h) == y && par(u1, h) == y1);
        assert(m - a == (u0 + u1) / 2real);
        if accepts(x, y, x1, y1, m, a, h, lim * len2(g)) {
            assert(m - x == (u0 + u1) / 2real - u0);
            lemma_covers(g, p0, p1, lim);
        } else {
            if rabs(x1 - x) <= w { lemma_small(u0, u1, h, lim * len2(g)); }
            lemma_split(g, lim, x, m, st);
        }
    } else {
        lemma_local(g, s); lemma_local(g, e);
        lemma_same_point(g, p0, p1);
        lemma_covers_point(g, p0, lim);
    }
    if x == x1 || accepts(x, y, x1, y1, m, a, h, lim * len2(g)) {
        assert forall|p: T| vv(p) == p1 implies #[trigger] stands(g, s, e, lim, r.push(p), x1, y1, st.drop_last()) by {
            let q = r.push(p);
            assert forall|i: int| 0 <= i < q.len() implies on_curve(g, vv(#[trigger] q[i])) by {}
            assert forall|i: int| 0 < i < q.len() implies before(xs, xe, along(g, vv(q[i - 1])), along(g, vv(#[trigger] q[i]))) by {}
            assert forall|i: int| 0 < i < q.len() implies covers(g, vv(q[i - 1]), vv(#[trigger] q[i]), lim) by {}
        }
    }
}
pub proof fn lemma_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by(nonlinear_arith); }
pub proof fn lemma_mul_gt(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn lemma_cost_pos(w: real) ensures cost(w) >= 1 {}
pub proof fn lemma_split(g: G, lim: real, x: real, m: real, st: Seq<real>)
    requires st.len() > 0, small(above(g, g.c), lim * len2(g)) > 0real, rabs(top(st) - x) > small(above(g, g.c), lim * len2(g)), m - x == (top(st) - x) / 2real,
    ensures work(g, lim, x, st.push(m)) < work(g, lim, x, st)
{
    let w = small(above(g, g.c), lim * len2(g));
    let st2 = st.push(m);
    assert(st2.drop_last() =~= st);
    let d = rabs(top(st) - x);
    let f = d / w;
    assert(rabs(m - x) == d / 2real && rabs(top(st) - m) == d / 2real);
    assert((d / 2real) / w == f / 2real) by(nonlinear_arith) requires f == d / w, w > 0real;
    assert(f > 1real) by(nonlinear_arith) requires f == d / w, w > 0real, d > w;
    lemma_cost(f);
    assert(work(g, lim, x, st2) == cost(rabs(m - x) / w) + work(g, lim, m, st));
    assert(work(g, lim, m, st) == cost(rabs(top(st) - m) / w) + work(g, lim, top(st), st.drop_last()));
}
pub proof fn lemma_sq_gt(a: real) requires a != 0real ensures a * a > 0real { assert(a * a > 0real) by(nonlinear_arith) requires a != 0real; }
pub proof fn lemma_begin<T>(g: G, s: V, e: V, lim: real, r: Seq<T>, st: Seq<real>)
    requires proper(g), on_curve(g, s), on_curve(g, e), r.len() == 1, vv(r[0]) == s, st.len() == 1, st[0] == along(g, e),
    ensures stands(g, s, e, lim, r, along(g, s), above(g, s), st), above(g, s) == par(along(g, s) - along(g, g.c), above(g, g.c)),
{ reveal(stands); lemma_local(g, s); }
pub proof fn lemma_end<T>(g: G, s: V, e: V, lim: real, r: Seq<T>, x: real, y: real, st: Seq<real>)
    requires proper(g), on_curve(g, e), stands(g, s, e, lim, r, x, y, st), st.len() == 0,
    ensures r.len() >= 2, forall|p: T| vv(p) == e ==> samples(g, s, e, lim, #[trigger] r.update(r.len() - 1, p)) && ends_in(e, r.update(r.len() - 1, p)),
{ reveal(stands);
    let n = r.len() as int;
    lemma_local(g, vv(r[n - 1]));
    lemma_local(g, e);
    lemma_same_point(g, vv(r[n - 1]), e);
    assert forall|p: T| vv(p) == e implies samples(g, s, e, lim, #[trigger] r.update(r.len() - 1, p)) && ends_in(e, r.update(r.len() - 1, p)) by {
        let q = r.update(r.len() - 1, p);
        assert forall|i: int| 0 <= i < n implies vv(#[trigger] q[i]) == vv(r[i]) by {}
        assert forall|i: int| 0 < i < q.len() implies before(along(g, s), along(g, e), along(g, vv(q[i - 1])), along(g, vv(#[trigger] q[i]))) by { assert(vv(q[i - 1]) == vv(r[i - 1])); }
        assert forall|i: int| 0 < i < q.len() implies covers(g, vv(q[i - 1]), vv(#[trigger] q[i]), lim) by { assert(vv(q[i - 1]) == vv(r[i - 1])); }
    }
}
/// the acceptance test
pub open spec fn accepts(x: real, y: real, x1: real, y1: real, m: real, a: real, h: real, lim: real) -> bool {
    let ym = par(m - a, h);
    let n = (y1 - y) * (m - x) - (x1 - x) * (ym - y);
    &&& n * n / ((y1 - y) * (y1 - y) + (x1 - x) * (x1 - x)) <= lim
    &&& (m - a) * (x - a) + h * h >= 0real && (m - a) * (x1 - a) + h * h >= 0real
}
"""


DEEP = """ proof { assert forall|p: T| #[trigger] sq2(p, self.cell_point) == vdot(vsub(vv(p), g.c), vsub(vv(p), g.c)) by { lemma_sq2_is(p, self.cell_point); } }"""


def spec(repo):
    s = Spec("L19", repo)
    L17.base(s)
    s.broadcast("scal", "vec2", "vec3")
    s.type(R, "Line2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R, A)
    s.pure(RING)
    s.pure(seg.VEC)
    i = seg.LEMMAS.index("pub proof fn lemma_comb")
    s.pure(seg.LEMMAS[:i])
    s.pure(PURE)
    s.pure("use crate::p::{rx, ry, rz, rv, sq2};\npub open spec fn vv<T>(t: T) -> V { V { x: rx(t), y: ry(t) } }")
    s.pure(GHOST)
    L17.fns2(s)
    s.ghost("""
pub proof fn lemma_dist_pos<T>(a: T, b: T, p: T, q: real) requires is_seg_dist2(a, b, p, q) ensures q >= 0real {
    let t = choose|t: real| 0real <= t <= 1real && #[trigger] seg2(a, b, p, t) == q;
    lemma_sq_pos(rx(a) + t * (rx(b) - rx(a)) - rx(p));
    lemma_sq_pos(ry(a) + t * (ry(b) - ry(a)) - ry(p));
}
""")
    gs = "(G { a: vv(%s.segment.start), b: vv(%s.segment.end), c: vv(%s.cell_point) })"
    g = gs.replace("%s", "self")
    s.fn(R, A, "new", ens="r == (%s { segment, cell_point, start_point, end_point })" % A)
    s.fn(R, A, "parabola_y", req="rv(b) != 0real", ens="rv(r) == par(rv(x) - rv(a), rv(b))")
    s.fn(R, A, "turns_away", ens="r == ((rv(mid_x) - rv(rot_x)) * (rv(x) - rv(rot_x)) + rv(rot_y) * rv(rot_y) < 0real)")
    pj = lambda sg, pt: f"""({{ let (a, b, p) = (vv({sg}.start), vv({sg}.end), vv({pt})); a != b ==> rv(r) * vdot(vsub(b, a), vsub(b, a)) == vdot(vsub(b, a), vsub(p, a)) && vdot(vsub(b, a), vsub(b, a)) * rv(r) == vdot(vsub(b, a), vsub(p, a)) }})"""
    for n, sg, pt in (("point_projection", "segment", "point"), ("point_projection_3d", "segment", "(*point)")):
        s.fn(R, A, n, ens=pj(sg, pt), hints=[("entry", f"""proof {{ let (a, b, p) = (vv({sg}.start), vv({sg}.end), vv({pt})); let d = vsub(b, a);
            if a != b {{ if d.x == 0real && d.y == 0real {{ assert(a == b); }} lemma_sq2(d.x, d.y); lemma_quot(vdot(d, vsub(p, a)), vdot(d, d)); lemma_comm(vdot(d, vsub(p, a)) / vdot(d, d), vdot(d, d)); }} }}""")])
    inv = """invariant proper(g), on_curve(g, s), on_curve(g, e), lim > 0real, lim == val(max_dist) * val(max_dist), s == vv(self.start_point), e == vv(self.end_point), g == %s,
        val(segm_vec_x) == g.b.x - g.a.x, val(segm_vec_y) == g.b.y - g.a.y, val(sqr_segment_length) == len2(g), len2(g) > 0real,
        val(rot_x) == along(g, g.c), val(rot_y) == above(g, g.c), val(max_dist_transformed) == lim * len2(g),
        stands(g, s, e, lim, rv@, val(cur_x), val(cur_y), svals(point_stack@)),
        along(g, s) == along(g, e) && point_stack@.len() > 0 ==> rv@.len() == 1 && point_stack@.len() == 1 && val(cur_x) == svals(point_stack@)[0]""" % g
    for n in ("discretize_2d", "discretize_3d"):
        d3 = n[-2] == "3"
        s.fn(R, A, n, req=f"rv(max_dist) != 0real, proper({g}), on_curve({g}, vv(self.start_point)), on_curve({g}, vv(self.end_point))",
             ens=f"samples({g}, vv(self.start_point), vv(self.end_point), rv(max_dist) * rv(max_dist), r@), ends_in(vv(self.end_point), r@)" +
                 (f", deep({g}, r@)" if d3 else ", r@[0] == self.start_point, r@[r@.len() - 1] == self.end_point"),
             loops=[("while", inv + (", deep(g, rv@), vv(last_point) == vv(self.end_point), deep_at(g, last_point)" if d3 else ", rv@[0] == self.start_point") +
                     """ decreases work(g, lim, val(cur_x), svals(point_stack@))""")],
             hints=[("entry", f"let ghost g = {g}; let ghost (s, e, lim) = (vv(self.start_point), vv(self.end_point), val(max_dist) * val(max_dist)); proof {{ lemma_local(g, s); lemma_sq_gt(val(max_dist)); lemma_mul_gt(lim, len2(g)); }}" + (DEEP if d3 else "")),
                    (("before_loop", 0), "proof { lemma_begin(g, s, e, lim, rv@, svals(point_stack@)); }"),
                    (("body_start", 0), "proof { lemma_svals(point_stack@); lemma_turn(g, s, e, lim, rv@, val(cur_x), val(cur_y), svals(point_stack@)); }"),
                    (("after_loop", 0), "proof { lemma_end(g, s, e, lim, rv@, val(cur_x), val(cur_y), svals(point_stack@)); }")])
    s.fn(R, A, "discretize_3d_straight_line", ens="""r@.len() == 2, vv(r@[0]) == vv(self.start_point), vv(r@[1]) == vv(self.end_point),
        exists|q: real| #[trigger] is_seg_dist2(self.segment.start, self.segment.end, self.start_point, q) && is_depth(rz(r@[0]), q),
        is_depth(rz(r@[1]), sq2(self.end_point, self.cell_point))""",
         hints=[("entry", """proof { assert forall|q: real| #[trigger] is_seg_dist2(self.segment.start, self.segment.end, self.start_point, q) implies q >= 0real by {
            lemma_dist_pos(self.segment.start, self.segment.end, self.start_point, q); } }""")])
    return s
