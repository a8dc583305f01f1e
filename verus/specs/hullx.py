"""The convex hull of points over the reals: shared ghost text of L06 and L07."""
from ring import ring_lemma

V8 = ["ax", "ay", "bx", "by", "cx", "cy", "dx", "dy"]
RING = ring_lemma("ring_pluck4", V8, "(dx * by - dy * bx) * (ax * cy - ay * cx)", "(dx * ay - dy * ax) * (bx * cy - by * cx) + (dx * cy - dy * cx) * (ax * by - ay * bx)") + ring_lemma(
    "ring_par", ["px", "py", "qx", "qy"], "px * (qx * qx + qy * qy)", "(px * qx + py * qy) * qx + (px * qy - py * qx) * qy") + ring_lemma(
    "ring_lag", ["px", "py", "qx", "qy"], "(px * px + py * py) * (qx * qx + qy * qy)", "(px * qx + py * qy) * (px * qx + py * qy) + (px * qy - py * qx) * (px * qy - py * qx)") + ring_lemma(
    "ring_on", ["s", "t", "a", "b", "c", "px", "py", "ex", "ey", "jx", "jy"],
    "a * (s * (jx - px)) + b * (s * (jy - py)) + s * (a * px + b * py + c)", "s * (a * jx + b * jy + c)") + ring_lemma(
    "ring_on2", ["s", "t", "a", "b", "c", "px", "py", "ex", "ey"],
    "a * (t * (ex - px)) + b * (t * (ey - py)) + s * (a * px + b * py + c)", "(s - t) * (a * px + b * py + c) + t * (a * ex + b * ey + c)") + ring_lemma(
    "ring_sc", ["s", "ax", "ay", "bx", "by"], "s * (ax * by - ay * bx)", "(s * ax) * by - (s * ay) * bx") + ring_lemma(
    "ring_sp", ["s", "ax", "ay", "bx", "by"], "s * (ax * bx + ay * by)", "(s * ax) * bx + (s * ay) * by") + ring_lemma(
    "ring_flip", ["s", "ax", "ay", "bx", "by"], "s * (ax * by - ay * bx)", "-(s * (bx * ay - by * ax))") + ring_lemma(
    "ring_lin", ["la", "lb", "lc", "px", "py", "ax", "ay"], "la * px + lb * py + lc + (lb * (ay - py) - (-la) * (ax - px))", "la * ax + lb * ay + lc") + ring_lemma(
    "ring_side", ["ax", "ay", "bx", "by", "px", "py"],
    "(bx - ax) * (py - ay) - (by - ay) * (px - ax)", "(-(by - ay)) * px + (bx - ax) * py + ((by - ay) * ax - (bx - ax) * ay)") + ring_lemma(
    "ring_dt", ["px", "py", "ox", "oy", "ex", "ey"], "((ox - px) * (ex - px) + (oy - py) * (ey - py)) + ((px - ox) * (ex - ox) + (py - oy) * (ey - oy))", "(px - ox) * (px - ox) + (py - oy) * (py - oy)") + ring_lemma(
    "ring_gside", ["dx", "dy", "px", "py", "ax", "ay"], "dx * ax + dy * ay + (-(dx * px + dy * py))", "dx * (ax - px) + dy * (ay - py)") + ring_lemma(
    "ring_avg", ["s", "t", "k", "a", "b"], "s * k - ((s - t) * a + t * b)", "(s - t) * (k - a) + t * (k - b)")

PURE = """
pub open spec fn same<T>(a: T, b: T) -> bool { rx(a) == rx(b) && ry(a) == ry(b) }
pub open spec fn before<T>(s: T, q: T) -> bool { rx(s) < rx(q) || (rx(s) == rx(q) && ry(s) < ry(q)) }
/// the direction p -> q is clockwise from w, by less than half a turn
pub open spec fn dir<T>(p: T, q: T, wx: real, wy: real) -> real { (rx(q) - rx(p)) * wy - (ry(q) - ry(p)) * wx }
pub open spec fn along<T>(p: T, q: T, wx: real, wy: real) -> real { (rx(q) - rx(p)) * wx + (ry(q) - ry(p)) * wy }
pub open spec fn cone<T>(p: T, q: T, wx: real, wy: real) -> bool { dir(p, q, wx, wy) > 0real || (dir(p, q, wx, wy) == 0real && along(p, q, wx, wy) > 0real) }
pub open spec fn sq<T>(p: T, q: T) -> real { (rx(p) - rx(q)) * (rx(p) - rx(q)) + (ry(p) - ry(q)) * (ry(p) - ry(q)) }
pub open spec fn dt<T>(p: T, a: T, b: T) -> real { (rx(a) - rx(p)) * (rx(b) - rx(p)) + (ry(a) - ry(p)) * (ry(b) - ry(p)) }
/// seen from p, e is not to the left of j, and not nearer if in line with it
pub open spec fn better<T>(p: T, e: T, j: T) -> bool { turn(p, e, j) > 0real || (turn(p, e, j) == 0real && sq(p, j) <= sq(p, e)) }

pub proof fn lemma_pluck<T>(p: T, a: T, b: T, c: T, d: T)
    ensures turn(p, d, b) * turn(p, a, c) == turn(p, d, a) * turn(p, b, c) + turn(p, d, c) * turn(p, a, b)
{ ring_pluck4(rx(a) - rx(p), ry(a) - ry(p), rx(b) - rx(p), ry(b) - ry(p), rx(c) - rx(p), ry(c) - ry(p), rx(d) - rx(p), ry(d) - ry(p)); }
pub proof fn lemma_pluckw<T>(p: T, u: T, v: T, z: T, wx: real, wy: real)
    ensures dir(p, v, wx, wy) * turn(p, u, z) == dir(p, u, wx, wy) * turn(p, v, z) + dir(p, z, wx, wy) * turn(p, u, v)
{
    let (ux, uy, vx, vy, zx, zy) = (rx(u) - rx(p), ry(u) - ry(p), rx(v) - rx(p), ry(v) - ry(p), rx(z) - rx(p), ry(z) - ry(p));
    // (w x v)(u x z) = (w x u)(v x z) + (w x z)(u x v)
    ring_pluck4(ux, uy, vx, vy, zx, zy, wx, wy);
    let (a, b, c) = (wx * vy - wy * vx, wx * uy - wy * ux, wx * zy - wy * zx);
    assert(dir(p, v, wx, wy) == -a && dir(p, u, wx, wy) == -b && dir(p, z, wx, wy) == -c) by {
        assert(wx * vy == vy * wx && wy * vx == vx * wy && wx * uy == uy * wx && wy * ux == ux * wy && wx * zy == zy * wx && wy * zx == zx * wy) by(nonlinear_arith);
    }
    let (x, y, z2) = (ux * zy - uy * zx, vx * zy - vy * zx, ux * vy - uy * vx);
    assert(turn(p, u, z) == x && turn(p, v, z) == y && turn(p, u, v) == z2);
    assert((-a) * x == -(a * x) && (-b) * y == -(b * y) && (-c) * z2 == -(c * z2)) by(nonlinear_arith);
}
pub proof fn lemma_pos(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn lemma_nonneg(a: real, b: real) requires a >= 0real, b >= 0real ensures a * b >= 0real { assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
pub proof fn lemma_pos_of(a: real, b: real) requires a > 0real, a * b > 0real ensures b > 0real { assert(b > 0real) by(nonlinear_arith) requires a > 0real, a * b > 0real; }
pub proof fn lemma_nonneg_of(a: real, b: real) requires a > 0real, a * b >= 0real ensures b >= 0real { assert(b >= 0real) by(nonlinear_arith) requires a > 0real, a * b >= 0real; }
pub proof fn lemma_square(a: real) ensures a * a >= 0real, a * a == 0real ==> a == 0real { assert(a * a >= 0real) by(nonlinear_arith); if a != 0real { assert(a * a > 0real) by(nonlinear_arith) requires a != 0real; } }
pub proof fn lemma_sq<T>(p: T, q: T) ensures sq(p, q) >= 0real, sq(p, q) == 0real <==> same(p, q), sq(q, p) == sq(p, q), dt(p, q, q) == sq(p, q)
{
    let (x, y) = (rx(p) - rx(q), ry(p) - ry(q));
    lemma_square(x); lemma_square(y);
    assert((-x) * (-x) == x * x && (-y) * (-y) == y * y) by(nonlinear_arith);
    if x == 0real && y == 0real { assert(x * x == 0real && y * y == 0real) by(nonlinear_arith) requires x == 0real, y == 0real; }
}
/// two points in line with p: j - p is a multiple of e - p
pub proof fn lemma_par<T>(p: T, e: T, j: T)
    requires turn(p, e, j) == 0real
    ensures sq(p, e) * (rx(j) - rx(p)) == dt(p, e, j) * (rx(e) - rx(p)), sq(p, e) * (ry(j) - ry(p)) == dt(p, e, j) * (ry(e) - ry(p)), dt(p, e, j) * dt(p, e, j) == sq(p, e) * sq(p, j),
        dt(p, e, j) == dt(p, j, e),
{
    let (jx, jy, ex, ey) = (rx(j) - rx(p), ry(j) - ry(p), rx(e) - rx(p), ry(e) - ry(p));
    let k = jx * ey - jy * ex;
    assert(turn(p, e, j) == ex * jy - ey * jx);
    assert(ex * jy == jy * ex && ey * jx == jx * ey && ex * jx == jx * ex && ey * jy == jy * ey) by(nonlinear_arith);
    assert(k == 0real);
    lemma_sq(p, e); lemma_sq(p, j);
    let s = ex * ex + ey * ey;
    assert(s == sq(p, e)) by { assert((-ex) * (-ex) == ex * ex && (-ey) * (-ey) == ey * ey) by(nonlinear_arith); }
    assert(jx * jx + jy * jy == sq(p, j)) by { assert((-jx) * (-jx) == jx * jx && (-jy) * (-jy) == jy * jy) by(nonlinear_arith); }
    ring_par(jx, jy, ex, ey);
    assert(k * ey == 0real && k * ex == 0real && k * k == 0real) by(nonlinear_arith) requires k == 0real;
    assert(jx * s == s * jx && jy * s == s * jy) by(nonlinear_arith);
    ring_par(jy, jx, ey, ex);
    let k2 = jy * ex - jx * ey;
    assert(k2 * ex == 0real) by(nonlinear_arith) requires k2 == 0real;
    assert(jy * ey + jx * ex == dt(p, e, j));
    assert(ey * ey + ex * ex == s);
    ring_lag(jx, jy, ex, ey);
    assert(sq(p, j) * s == s * sq(p, j)) by(nonlinear_arith);
}
pub proof fn lemma_transitive<T>(p: T, u: T, v: T, z: T, wx: real, wy: real)
    requires cone(p, u, wx, wy), cone(p, v, wx, wy), cone(p, z, wx, wy), turn(p, u, v) > 0real, turn(p, v, z) > 0real,
    ensures turn(p, u, z) > 0real
{
    lemma_pluckw(p, u, v, z, wx, wy);
    let (fu, fv, fz) = (dir(p, u, wx, wy), dir(p, v, wx, wy), dir(p, z, wx, wy));
    lemma_nonneg(fu, turn(p, v, z)); lemma_nonneg(fz, turn(p, u, v));
    if fv == 0real {
        lemma_inline(p, v, z, wx, wy);
        assert(false);
    }
    if fu > 0real { lemma_pos(fu, turn(p, v, z)); } else if fz > 0real { lemma_pos(fz, turn(p, u, v)); } else {
        lemma_inline(p, u, v, wx, wy);
        assert(false);
    }
    lemma_pos_of(fv, turn(p, u, z));
}
/// v lies in direction w: nothing is to its left
pub proof fn lemma_inline<T>(p: T, v: T, z: T, wx: real, wy: real)
    requires dir(p, v, wx, wy) == 0real, along(p, v, wx, wy) > 0real, dir(p, z, wx, wy) >= 0real,
    ensures turn(p, v, z) <= 0real, dir(p, z, wx, wy) > 0real ==> turn(p, v, z) < 0real
{
    let (vx, vy, zx, zy) = (rx(v) - rx(p), ry(v) - ry(p), rx(z) - rx(p), ry(z) - ry(p));
    let (al, ww, fz, t) = (vx * wx + vy * wy, wx * wx + wy * wy, zx * wy - zy * wx, vx * zy - vy * zx);
    // |w|^2 v = (v . w) w
    ring_par(vx, vy, wx, wy);
    let k = vx * wy - vy * wx;
    assert(k * wy == 0real) by(nonlinear_arith) requires k == 0real;
    ring_par(vy, vx, wy, wx);
    let k2 = vy * wx - vx * wy;
    assert(k2 * wx == 0real) by(nonlinear_arith) requires k2 == 0real;
    assert(vx * ww == al * wx);
    assert(wy * wy + wx * wx == ww && vy * wy + vx * wx == al);
    assert(vy * ww == al * wy);
    assert(ww * vx == vx * ww && ww * vy == vy * ww) by(nonlinear_arith);
    lemma_scale(ww, al, vx, vy, wx, wy, zx, zy);
    lemma_flip(al, wx, wy, zx, zy);
    assert(ww * t == -(al * fz));
    lemma_square(wx); lemma_square(wy);
    if ww <= 0real {
        assert(wx == 0real && wy == 0real);
        assert(vx * wx == 0real && vy * wy == 0real) by(nonlinear_arith) requires wx == 0real, wy == 0real;
        assert(false);
    }
    lemma_nonneg(al, fz);
    if fz > 0real { lemma_pos(al, fz); }
    if t > 0real { lemma_pos(ww, t); }
    if fz > 0real && t == 0real { assert(ww * t == 0real) by(nonlinear_arith) requires t == 0real; }
}
pub proof fn lemma_flip(al: real, wx: real, wy: real, zx: real, zy: real) ensures al * (wx * zy - wy * zx) == -(al * (zx * wy - zy * wx))
{ ring_flip(al, wx, wy, zx, zy); }
pub proof fn lemma_scale(s: real, d: real, jx: real, jy: real, ex: real, ey: real, wx: real, wy: real)
    requires s * jx == d * ex, s * jy == d * ey
    ensures s * (jx * wy - jy * wx) == d * (ex * wy - ey * wx), s * (jx * wx + jy * wy) == d * (ex * wx + ey * wy)
{
    ring_sc(s, jx, jy, wx, wy); ring_sc(d, ex, ey, wx, wy);
    ring_sp(s, jx, jy, wx, wy); ring_sp(d, ex, ey, wx, wy);
}
/// in the cone, points in line are on the same side
pub proof fn lemma_same_dir<T>(p: T, e: T, j: T, wx: real, wy: real)
    requires cone(p, e, wx, wy), cone(p, j, wx, wy), turn(p, e, j) == 0real,
    ensures dt(p, e, j) > 0real, sq(p, e) > 0real, sq(p, j) > 0real
{
    lemma_par(p, e, j);
    lemma_sq(p, e); lemma_sq(p, j);
    lemma_cone(p, e, wx, wy); lemma_cone(p, j, wx, wy);
    lemma_pos(sq(p, e), sq(p, j));
    let d = dt(p, e, j);
    assert(d != 0real) by { if d == 0real { assert(d * d == 0real) by(nonlinear_arith) requires d == 0real; } }
    let (jx, jy, ex, ey, s) = (rx(j) - rx(p), ry(j) - ry(p), rx(e) - rx(p), ry(e) - ry(p), sq(p, e));
    let (fj, fe, aj, ae) = (dir(p, j, wx, wy), dir(p, e, wx, wy), along(p, j, wx, wy), along(p, e, wx, wy));
    lemma_scale(s, d, jx, jy, ex, ey, wx, wy);
    if d < 0real {
        lemma_nonneg(s, fj); lemma_nonneg(-d, fe);
        assert((-d) * fe == -(d * fe)) by(nonlinear_arith);
        if fe > 0real { lemma_pos(-d, fe); assert(false); }
        if fj > 0real { lemma_pos(s, fj); assert(false); }
        lemma_pos(-d, ae); lemma_pos(s, aj);
        assert((-d) * ae == -(d * ae)) by(nonlinear_arith);
    }
}
pub proof fn lemma_cone<T>(p: T, q: T, wx: real, wy: real) requires cone(p, q, wx, wy) ensures !same(p, q)
{
    if same(p, q) {
        let (x, y) = (rx(q) - rx(p), ry(q) - ry(p));
        assert(x * wy == 0real && y * wx == 0real && x * wx == 0real && y * wy == 0real) by(nonlinear_arith) requires x == 0real, y == 0real;
    }
}
/// side of a line
pub open spec fn side<T>(a: real, b: real, c: real, p: T) -> real { a * rx(p) + b * ry(p) + c }
/// j lies between p and e: any line's distance of it is between those of p and e
pub proof fn lemma_between<T>(p: T, e: T, j: T, a: real, b: real, c: real)
    requires turn(p, e, j) == 0real, dt(p, e, j) >= 0real, sq(p, j) <= sq(p, e),
    ensures
        sq(p, e) * side(a, b, c, j) == (sq(p, e) - dt(p, e, j)) * side(a, b, c, p) + dt(p, e, j) * side(a, b, c, e),
        dt(p, e, j) <= sq(p, e), sq(p, j) < sq(p, e) ==> dt(p, e, j) < sq(p, e),
{
    lemma_par(p, e, j);
    let (s, t) = (sq(p, e), dt(p, e, j));
    lemma_sq(p, e); lemma_sq(p, j);
    assert(t <= s && (sq(p, j) < s ==> t < s)) by {
        let k = sq(p, j);
        assert(t * t == s * k);
        if t > s { assert(t * t > s * k) by(nonlinear_arith) requires t > s, s >= k, k >= 0real; }
        if k < s && t >= s { assert(t * t > s * k) by(nonlinear_arith) requires t >= s, s > k, k >= 0real; }
    }
    ring_on(s, t, a, b, c, rx(p), ry(p), rx(e), ry(e), rx(j), ry(j));
    ring_on2(s, t, a, b, c, rx(p), ry(p), rx(e), ry(e));
}
pub open spec fn lx<T>(e0: T, e1: T) -> (real, real, real) { (-(ry(e1) - ry(e0)), rx(e1) - rx(e0), (ry(e1) - ry(e0)) * rx(e0) - (rx(e1) - rx(e0)) * ry(e0)) }
pub proof fn lemma_side<T>(e0: T, e1: T, p: T) ensures side(lx(e0, e1).0, lx(e0, e1).1, lx(e0, e1).2, p) == turn(e0, e1, p)
{ ring_side(rx(e0), ry(e0), rx(e1), ry(e1), rx(p), ry(p)); }
pub open spec fn all_left<T>(h: Seq<T>, a: real, b: real, c: real) -> bool { forall|i: int| 0 <= i < h.len() ==> side(a, b, c, #[trigger] h[i]) >= 0real }
/// p is in the convex hull of h: no line separates it from h
#[verifier::opaque]
pub open spec fn cov<T>(h: Seq<T>, p: T) -> bool { forall|a: real, b: real, c: real| #[trigger] all_left(h, a, b, c) ==> side(a, b, c, p) >= 0real }
/// corners in counter-clockwise order, no three on a line, none twice
pub open spec fn pos<T>(h: Seq<T>) -> bool {
    &&& forall|i: int, j: int, k: int| 0 <= i < j < k < h.len() ==> #[trigger] turn(h[i], h[j], h[k]) > 0real
    &&& h.len() == 2 ==> !same(h[0], h[1])
}
/// h are the corners of the convex hull of s
pub open spec fn hull_of<T>(s: Seq<T>, h: Seq<T>) -> bool {
    &&& s.len() > 0 ==> h.len() > 0
    &&& pos(h)
    &&& forall|i: int| 0 <= i < h.len() ==> s.contains(#[trigger] h[i])
    &&& forall|i: int| 0 <= i < s.len() ==> cov(h, #[trigger] s[i])
}
/// a polygon of at least three corners: left of every edge
pub proof fn lemma_inside<T>(h: Seq<T>, p: T) requires pos(h), cov(h, p), h.len() >= 3 ensures convex(h), inside(h, p)
{
    reveal(cov);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] edge(h, i, p) >= 0real by {
        let i2 = if i + 1 == h.len() { 0 } else { i + 1 };
        let (a, b, c) = lx(h[i], h[i2]);
        assert forall|j: int| 0 <= j < h.len() implies side(a, b, c, #[trigger] h[j]) >= 0real by { lemma_corner(h, i, j); lemma_side(h[i], h[i2], h[j]); }
        assert(all_left(h, a, b, c));
        lemma_side(h[i], h[i2], p);
    }
}
pub proof fn lemma_cov_member<T>(h: Seq<T>, i: int) requires 0 <= i < h.len() ensures cov(h, h[i]) { reveal(cov); }
pub proof fn lemma_cov_same<T>(h: Seq<T>, p: T, q: T) requires cov(h, p), same(p, q) ensures cov(h, q) { reveal(cov); }
/// g covers all of h, so all that h covers
pub proof fn lemma_cov_trans<T>(h: Seq<T>, g: Seq<T>) requires forall|i: int| 0 <= i < h.len() ==> cov(g, #[trigger] h[i]) ensures forall|p: T| cov(h, p) ==> #[trigger] cov(g, p)
{
    reveal(cov);
    assert forall|p: T| cov(h, p) implies #[trigger] cov(g, p) by {
        assert forall|a: real, b: real, c: real| #[trigger] all_left(g, a, b, c) implies side(a, b, c, p) >= 0real by {
            assert forall|i: int| 0 <= i < h.len() implies side(a, b, c, #[trigger] h[i]) >= 0real by { assert(cov(g, h[i])); }
            assert(all_left(h, a, b, c));
        }
    }
}
/// between p and e of h
pub proof fn lemma_cov_between<T>(h: Seq<T>, ip: int, ie: int, j: T)
    requires 0 <= ip < h.len(), 0 <= ie < h.len(), turn(h[ip], h[ie], j) == 0real, dt(h[ip], h[ie], j) >= 0real, sq(h[ip], j) <= sq(h[ip], h[ie]), sq(h[ip], h[ie]) > 0real,
    ensures cov(h, j)
{
    reveal(cov);
    let (p, e) = (h[ip], h[ie]);
    assert forall|a: real, b: real, c: real| #[trigger] all_left(h, a, b, c) implies side(a, b, c, j) >= 0real by {
        lemma_between(p, e, j, a, b, c);
        lemma_nonneg(sq(p, e) - dt(p, e, j), side(a, b, c, p)); lemma_nonneg(dt(p, e, j), side(a, b, c, e));
        lemma_nonneg_of(sq(p, e), side(a, b, c, j));
    }
}
/// in the triangle of three points of h
pub proof fn lemma_cov_triangle<T>(h: Seq<T>, i: int, j: int, k: int, p: T)
    requires 0 <= i < h.len(), 0 <= j < h.len(), 0 <= k < h.len(), turn(h[i], h[j], h[k]) > 0real, turn(h[i], h[j], p) >= 0real, turn(h[j], h[k], p) >= 0real, turn(h[k], h[i], p) >= 0real,
    ensures cov(h, p)
{
    reveal(cov);
    assert forall|a: real, b: real, c: real| #[trigger] all_left(h, a, b, c) implies side(a, b, c, p) >= 0real by {
        lemma_bary_side(h[i], h[j], h[k], p, a, b, c);
        lemma_mean(turn(h[i], h[j], h[k]), side(a, b, c, p), turn(h[j], h[k], p), turn(h[k], h[i], p), turn(h[i], h[j], p), side(a, b, c, h[i]), side(a, b, c, h[j]), side(a, b, c, h[k]));
    }
}
pub proof fn lemma_bary_side<T>(a: T, b: T, c: T, p: T, la: real, lb: real, lc: real)
    ensures turn(a, b, c) * side(la, lb, lc, p) == turn(b, c, p) * side(la, lb, lc, a) + turn(c, a, p) * side(la, lb, lc, b) + turn(a, b, p) * side(la, lb, lc, c),
        turn(a, b, c) == turn(b, c, p) + turn(c, a, p) + turn(a, b, p)
{
    let (ax, ay, bx, by_, cx, cy) = (rx(a) - rx(p), ry(a) - ry(p), rx(b) - rx(p), ry(b) - ry(p), rx(c) - rx(p), ry(c) - ry(p));
    lemma_bary(a, b, c, p, a, b);
    let (u, v, w) = (turn(b, c, p), turn(c, a, p), turn(a, b, p));
    lemma_rel(b, c, p); lemma_rel(c, a, p); lemma_rel(a, b, p);
    assert(u == bx * cy - by_ * cx && v == cx * ay - cy * ax && w == ax * by_ - ay * bx);
    let f = side(la, lb, lc, p);
    ring_pluck(ax, ay, bx, by_, cx, cy);
    ring_plucky(ax, ay, bx, by_, cx, cy);
    ring_lin(la, lb, lc, rx(p), ry(p), rx(a), ry(a)); ring_lin(la, lb, lc, rx(p), ry(p), rx(b), ry(b)); ring_lin(la, lb, lc, rx(p), ry(p), rx(c), ry(c));
    assert(side(la, lb, lc, a) == f + (lb * ay - (-la) * ax));
    assert(side(la, lb, lc, b) == f + (lb * by_ - (-la) * bx));
    assert(side(la, lb, lc, c) == f + (lb * cy - (-la) * cx));
    ring_weigh(u, v, w, f, lb, -la, ax, ay, bx, by_, cx, cy);
    assert(lb * 0real == 0real && (-la) * 0real == 0real);
}
"""

PUSH = """
/// one more corner
pub proof fn lemma_push_core<T>(h: Seq<T>, q: T)
    requires pos(h), h.len() >= 2, turn(h[h.len() - 2], h.last(), q) > 0real, forall|j: int| 1 <= j < h.len() ==> #[trigger] turn(h[0], h[j], q) > 0real,
    ensures pos(h.push(q))
{
    let g = h.push(q);
    let l = h.len() - 1;
    assert forall|i: int| 1 <= i < l implies #[trigger] turn(h[i], h[l], q) > 0real by {
        if i < l - 1 {
            let (a, b, c) = (h[0], h[i], h[l - 1]);
            let p = h[l];
            lemma_pluck(p, a, b, c, q);
            lemma_cyc(h[l - 1], h[l], q); lemma_cyc(h[0], h[l], q); lemma_cyc(h[0], h[i], h[l]); lemma_cyc(h[i], h[l - 1], h[l]); lemma_cyc(h[0], h[l - 1], h[l]);
            assert(turn(h[0], h[i], h[l]) > 0real && turn(h[i], h[l - 1], h[l]) > 0real && turn(h[0], h[l - 1], h[l]) > 0real);
            lemma_cyc(h[l], q, h[l - 1]); lemma_cyc(h[l], q, h[0]); lemma_cyc(h[i], h[l], q);
            assert(turn(p, q, c) > 0real && turn(p, q, a) > 0real && turn(p, a, b) > 0real && turn(p, b, c) > 0real && turn(p, a, c) > 0real);
            lemma_pos(turn(p, q, a), turn(p, b, c)); lemma_pos(turn(p, q, c), turn(p, a, b));
            let (x, y) = (turn(p, a, c), turn(p, q, b));
            assert(y * x == x * y) by(nonlinear_arith);
            lemma_pos_of(x, y);
        }
    }
    assert forall|i: int, j: int, k: int| 0 <= i < j < k < g.len() implies #[trigger] turn(g[i], g[j], g[k]) > 0real by {
        if k < h.len() { assert(turn(h[i], h[j], h[k]) > 0real); }
        else if i == 0 { assert(turn(h[0], h[j], q) > 0real); }
        else if j == l { assert(turn(h[i], h[l], q) > 0real); }
        else {
            let p = h[i];
            let (u, v, w, z) = (h[j], h[l], q, h[0]);
            // (u x w)(v x z) = (u x v)(w x z) + (u x z)(v x w)
            lemma_pluck(p, v, w, z, u);
            assert(turn(h[i], h[j], h[l]) > 0real && turn(h[i], h[l], q) > 0real && turn(h[0], h[i], q) > 0real && turn(h[0], h[i], h[l]) > 0real && turn(h[0], h[i], h[j]) > 0real);
            lemma_cyc(h[0], h[i], q); lemma_cyc(h[0], h[i], h[l]); lemma_cyc(h[0], h[i], h[j]);
            assert(turn(p, w, z) > 0real && turn(p, v, z) > 0real && turn(p, u, z) > 0real && turn(p, u, v) > 0real && turn(p, v, w) > 0real);
            lemma_pos(turn(p, u, v), turn(p, w, z)); lemma_pos(turn(p, u, z), turn(p, v, w));
            let (x, y) = (turn(p, v, z), turn(p, u, w));
            assert(y * x == x * y) by(nonlinear_arith);
            lemma_pos_of(x, y);
        }
    }
}
"""

GRAHAM = PUSH + """
pub proof fn lemma_before<T>(s: T, q: T) ensures before(s, q) == cone(s, q, 0real, 1real)
{
    let (x, y) = (rx(q) - rx(s), ry(q) - ry(s));
    assert(x * 1real == x && y * 0real == 0real && x * 0real == 0real && y * 1real == y);
}
/// angle from s, then distance
pub open spec fn ahead<T>(s: T, p: T, q: T) -> bool { turn(s, p, q) > 0real || (turn(s, p, q) == 0real && sq(s, p) <= sq(s, q)) }
/// the stack of a scan around s, before q is taken
pub open spec fn stack<T>(s: T, h: Seq<T>, q: T) -> bool {
    &&& h.len() >= 1 && h[0] == s && pos(h) && before(s, q)
    &&& forall|i: int| 1 <= i < h.len() ==> before(s, #[trigger] h[i]) && ahead(s, h[i], q)
}
pub proof fn lemma_pop<T>(s: T, h: Seq<T>, q: T)
    requires stack(s, h, q), h.len() >= 2, turn(h[h.len() - 2], h.last(), q) <= 0real,
    ensures stack(s, h.drop_last(), q), forall|x: T| cov(h.push(q), x) ==> #[trigger] cov(h.drop_last().push(q), x),
{
    let (g, t, l) = (h.drop_last(), h.last(), h.len() - 1);
    let d = g.push(q);
    assert forall|i: int, j: int, k: int| 0 <= i < j < k < g.len() implies #[trigger] turn(g[i], g[j], g[k]) > 0real by { assert(turn(h[i], h[j], h[k]) > 0real); }
    assert(before(s, h[l]) && ahead(s, h[l], q));
    lemma_before(s, t); lemma_before(s, q);
    assert(g.len() == 2 ==> !same(g[0], g[1])) by { if g.len() == 2 { assert(before(s, h[1])); } }
    assert(cov(d, t)) by {
        if l == 1 {
            assert(turn(s, t, q) == 0real);
            lemma_same_dir(s, t, q, 0real, 1real);
            lemma_cyc(s, t, q); lemma_cyc(s, q, t); lemma_cyc(t, s, q);
            assert(turn(s, q, t) == 0real);
            lemma_par(s, q, t);
            assert(d[0] == s && d[1] == q);
            lemma_cov_between(d, 0, 1, t);
        } else {
            let u = h[l - 1];
            assert(turn(h[0], h[l - 1], h[l]) > 0real);
            lemma_bary_side(s, u, q, t, 0real, 0real, 0real);
            // weights of t in the triangle s, u, q
            lemma_cyc(u, t, q); lemma_cyc(t, u, q); lemma_cyc(s, t, q); lemma_cyc(t, s, q); lemma_cyc(s, q, t);
            assert(turn(u, q, t) >= 0real && turn(q, s, t) >= 0real && turn(s, u, t) > 0real);
            assert(d[0] == s && d[l - 1] == u && d[l] == q);
            lemma_cov_triangle(d, 0, l - 1, l, t);
        }
    }
    let f = h.push(q);
    assert forall|i: int| 0 <= i < f.len() implies cov(d, #[trigger] f[i]) by {
        if i < l { assert(f[i] == d[i]); lemma_cov_member(d, i); } else if i == l { } else { assert(d[l] == q); lemma_cov_member(d, l); }
    }
    lemma_cov_trans(f, d);
}
pub proof fn lemma_push<T>(s: T, h: Seq<T>, q: T)
    requires stack(s, h, q), h.len() >= 2 ==> turn(h[h.len() - 2], h.last(), q) > 0real,
    ensures pos(h.push(q))
{
    let l = h.len() - 1;
    if l >= 1 {
        let t = h[l];
        lemma_before(s, q); lemma_before(s, t);
        assert(before(s, h[l]) && ahead(s, h[l], q));
        assert(turn(s, t, q) > 0real) by {
            if l >= 2 && turn(s, t, q) == 0real {
                let u = h[l - 1];
                lemma_same_dir(s, t, q, 0real, 1real);
                lemma_cyc(s, t, q); lemma_cyc(s, q, t);
                lemma_par(s, q, t);
                let (a, b, c) = lx(u, t);
                lemma_between(s, q, t, a, b, c);
                lemma_side(u, t, s); lemma_side(u, t, q); lemma_side(u, t, t); lemma_same2(u, t);
                assert(turn(h[0], h[l - 1], h[l]) > 0real);
                lemma_cyc(s, u, t);
                let (x, y) = (side(a, b, c, s), side(a, b, c, q));
                let (m, k) = (sq(s, q), dt(s, q, t));
                assert(x > 0real && y > 0real && side(a, b, c, t) == 0real);
                assert(m * 0real == 0real);
                lemma_pos(k, y); lemma_nonneg(m - k, x);
            }
        }
        assert forall|j: int| 1 <= j < h.len() implies #[trigger] turn(h[0], h[j], q) > 0real by {
            if j < l {
                assert(before(s, h[j]));
                lemma_before(s, h[j]);
                assert(turn(h[0], h[j], h[l]) > 0real);
                lemma_transitive(s, h[j], t, q, 0real, 1real);
            }
        }
        lemma_push_core(h, q);
    }
}
"""

SCAN = """
/// points in the order a scan around s takes them
pub open spec fn order<T>(s: T, l: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() && before(s, #[trigger] l[i]) && before(s, #[trigger] l[j]) ==> ahead(s, l[i], l[j]) }
pub open spec fn member<T>(x: T, l: Seq<T>, k: int) -> bool { exists|m: int| 0 <= m < k && #[trigger] l[m] == x }
/// a list by the angle seen from s, then by the distance
pub open spec fn keyed<T, A, S>(s: T, p: Seq<T>, l: Seq<(A, S, S)>) -> bool {
    p.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> rv((#[trigger] l[i]).1) == ratan2(ry(p[i]) - ry(s), rx(p[i]) - rx(s)) && rv(l[i].2) == sq(s, p[i])
}
pub proof fn lemma_sorted<T, A, S>(s: T, p: Seq<T>, l: Seq<(A, S, S)>) requires keyed(s, p, l), sorted(l) ensures order(s, p)
{
    assert forall|i: int, j: int| 0 <= i < j < p.len() && before(s, #[trigger] p[i]) && before(s, #[trigger] p[j]) implies ahead(s, p[i], p[j]) by {
        let (a, b) = (l[i], l[j]);
        let (x1, y1, x2, y2) = (rx(p[i]) - rx(s), ry(p[i]) - ry(s), rx(p[j]) - rx(s), ry(p[j]) - ry(s));
        ax_atan2(x1, y1, x2, y2); ax_atan2(x2, y2, x1, y1);
        assert(lex(SortItem::skey(a), SortItem::skey(b)) != Ordering::Greater);
        assert(x1 * y2 - y1 * x2 == -(x2 * y1 - y2 * x1)) by(nonlinear_arith);
        assert(turn(s, p[i], p[j]) == x1 * y2 - y1 * x2);
    }
}
/// the stack h of a scan around s after the first k points of l
pub open spec fn scan<T>(s: T, l: Seq<T>, h: Seq<T>, k: int) -> bool {
    &&& h.len() >= 1 && h[0] == s && pos(h)
    &&& forall|i: int| 1 <= i < h.len() ==> before(s, #[trigger] h[i]) && member(h[i], l, k)
    &&& forall|m: int| 0 <= m < k ==> cov(h, #[trigger] l[m])
}
/// while a point q is taken: the points that leave the stack are covered with q
pub open spec fn popping<T>(s: T, l: Seq<T>, h: Seq<T>, k: int, q: T) -> bool {
    &&& stack(s, h, q)
    &&& forall|i: int| 1 <= i < h.len() ==> member(#[trigger] h[i], l, k)
    &&& forall|m: int| 0 <= m < k ==> cov(h.push(q), #[trigger] l[m])
}
pub proof fn lemma_scan0<T>(s: T, l: Seq<T>, h: Seq<T>) requires h =~= seq![s] ensures scan(s, l, h, 0) {}
pub proof fn lemma_scan_same<T>(s: T, l: Seq<T>, h: Seq<T>, k: int) requires scan(s, l, h, k), 0 <= k < l.len(), same(l[k], s) ensures scan(s, l, h, k + 1)
{
    lemma_cov_member(h, 0); lemma_cov_same(h, s, l[k]);
    assert forall|i: int| 1 <= i < h.len() implies member(#[trigger] h[i], l, k + 1) by { let m = choose|m: int| 0 <= m < k && #[trigger] l[m] == h[i]; assert(l[m] == h[i]); }
}
pub proof fn lemma_scan_in<T>(s: T, l: Seq<T>, h: Seq<T>, k: int)
    requires scan(s, l, h, k), 0 <= k < l.len(), low(s, l), order(s, l), !same(l[k], s)
    ensures popping(s, l, h, k, l[k])
{
    let q = l[k];
    assert(before(s, l[k]));
    let g = h.push(q);
    assert forall|i: int| 0 <= i < h.len() implies cov(g, #[trigger] h[i]) by { assert(g[i] == h[i]); lemma_cov_member(g, i); }
    lemma_cov_trans(h, g);
    assert forall|i: int| 1 <= i < h.len() implies ahead(s, #[trigger] h[i], q) by { let m = choose|m: int| 0 <= m < k && #[trigger] l[m] == h[i]; assert(before(s, h[i])); assert(before(s, l[m])); assert(ahead(s, l[m], l[k])); }
}
pub proof fn lemma_scan_pop<T>(s: T, l: Seq<T>, h: Seq<T>, k: int, q: T)
    requires popping(s, l, h, k, q), h.len() >= 2, turn(h[h.len() - 2], h.last(), q) <= 0real
    ensures popping(s, l, h.drop_last(), k, q)
{
    lemma_pop(s, h, q);
    let g = h.drop_last();
    assert forall|i: int| 1 <= i < g.len() implies member(#[trigger] g[i], l, k) by { assert(member(h[i], l, k)); }
}
pub proof fn lemma_scan_out<T>(s: T, l: Seq<T>, h: Seq<T>, k: int)
    requires 0 <= k < l.len(), popping(s, l, h, k, l[k]), h.len() >= 2 ==> turn(h[h.len() - 2], h.last(), l[k]) > 0real
    ensures scan(s, l, h.push(l[k]), k + 1)
{
    lemma_push(s, h, l[k]);
    let g = h.push(l[k]);
    assert(g[0] == h[0]);
    assert forall|i: int| 1 <= i < g.len() implies before(s, #[trigger] g[i]) && member(g[i], l, k + 1) by {
        if i < h.len() { assert(before(s, h[i])); assert(member(h[i], l, k)); let m = choose|m: int| 0 <= m < k && #[trigger] l[m] == h[i]; assert(l[m] == g[i]); } else { assert(l[k] == g[i]); }
    }
    lemma_cov_member(g, h.len() as int);
    assert(g[h.len() as int] == l[k]);
}
/// the scan is complete
pub proof fn lemma_scan_end<T>(s: T, l: Seq<T>, h: Seq<T>, input: Seq<T>)
    requires scan(s, l, h, l.len() as int), same_items(l, input), input.contains(s)
    ensures hull_of(input, h)
{
    reveal(same_items);
    assert forall|i: int| 0 <= i < h.len() implies input.contains(#[trigger] h[i]) by {
        if i > 0 { assert(member(h[i], l, l.len() as int)); let m = choose|m: int| 0 <= m < l.len() && #[trigger] l[m] == h[i]; assert(input.contains(l[m])); }
    }
    assert forall|i: int| 0 <= i < input.len() implies cov(h, #[trigger] input[i]) by { assert(l.contains(input[i])); let m = l.index_of(input[i]); assert(cov(h, l[m])); }
}
/// three corners
pub proof fn lemma_three<T>(s: Seq<T>, h: Seq<T>) requires s.len() == 3, h.len() == 3, turn(h[0], h[1], h[2]) > 0real, h[0] == s[0], (h[1] == s[1] && h[2] == s[2]) || (h[1] == s[2] && h[2] == s[1]) ensures hull_of(s, h)
{
    lemma_cov_member(h, 0); lemma_cov_member(h, 1); lemma_cov_member(h, 2);
    assert forall|i: int| 0 <= i < s.len() implies cov(h, #[trigger] s[i]) by {}
    assert forall|i: int| 0 <= i < h.len() implies s.contains(#[trigger] h[i]) by { let j = if i == 0 { 0 } else if h[i] == s[i] { i } else { 3 - i }; assert(s[j] == h[i]); }
}
/// without the point that closes a loop
pub open spec fn strip<T>(s: Seq<T>) -> Seq<T> { if s.len() > 1 && same(s[0], s.last()) { s.skip(1) } else { s } }
/// r is the loop of the corners h, closed by its first point
pub open spec fn closes<T>(r: Seq<T>, h: Seq<T>) -> bool { (r == h && h.len() <= 1) || (h.len() >= 1 && r.len() == h.len() + 1 && r.drop_last() == h && same(r.last(), h[0])) }
pub open spec fn hull_result<T>(s: Seq<T>, r: Seq<T>) -> bool { if s.len() <= 2 { r == s } else { exists|h: Seq<T>| hull_of(s, h) && #[trigger] closes(r, h) } }
pub proof fn lemma_result<T>(s: Seq<T>, r: Seq<T>, h: Seq<T>) requires s.len() > 2, hull_of(s, h), closes(r, h) ensures hull_result(s, r) {}
pub proof fn lemma_three_result<T>(s: Seq<T>) requires s.len() == 3
    ensures
        turn(s[0], s[1], s[2]) > 0real ==> forall|r: Seq<T>| r.len() == 4 && r[0] == s[0] && r[1] == s[1] && r[2] == s[2] && r[3] == s[0] ==> #[trigger] hull_result(s, r),
        turn(s[0], s[1], s[2]) < 0real ==> forall|r: Seq<T>| r.len() == 4 && r[0] == s[0] && r[1] == s[2] && r[2] == s[1] && r[3] == s[0] ==> #[trigger] hull_result(s, r),
{
    let (a, b, c) = (s[0], s[1], s[2]);
    lemma_cyc(a, b, c); lemma_cyc(b, c, a); lemma_cyc(b, a, c); lemma_cyc(a, c, b);
    if turn(a, b, c) > 0real {
        let h = seq![a, b, c];
        lemma_three(s, h);
        assert forall|r: Seq<T>| r.len() == 4 && r[0] == s[0] && r[1] == s[1] && r[2] == s[2] && r[3] == s[0] implies #[trigger] hull_result(s, r) by { assert(r.drop_last() =~= h); assert(closes(r, h)); }
    }
    if turn(a, b, c) < 0real {
        let h = seq![a, c, b];
        lemma_three(s, h);
        assert forall|r: Seq<T>| r.len() == 4 && r[0] == s[0] && r[1] == s[2] && r[2] == s[1] && r[3] == s[0] implies #[trigger] hull_result(s, r) by { assert(r.drop_last() =~= h); assert(closes(r, h)); }
    }
}
/// what the sorted list of points has
pub proof fn lemma_by_angle<T, S>(st: T, s: Seq<T>, q0: Seq<(T, S, S)>, q: Seq<(T, S, S)>, l: Seq<T>)
    requires
        keyed(st, s, q0), forall|i: int| 0 <= i < s.len() ==> (#[trigger] q0[i]).0 == s[i], sorted(q), same_items(q, q0), low(st, s),
        l.len() == q.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == q[i].0,
    ensures order(st, l), low(st, l), same_items(l, s)
{
    reveal(same_items);
    assert forall|i: int| 0 <= i < l.len() implies s.contains(#[trigger] l[i]) && rv(q[i].1) == ratan2(ry(l[i]) - ry(st), rx(l[i]) - rx(st)) && rv(q[i].2) == sq(st, l[i]) && (same(st, l[i]) || before(st, l[i])) by {
        assert(q0.contains(q[i])); let j = q0.index_of(q[i]); assert(q0[j].0 == s[j]);
    }
    assert(keyed(st, l, q));
    lemma_sorted(st, l, q);
    assert forall|i: int| 0 <= i < s.len() implies l.contains(#[trigger] s[i]) by { assert(q0[i].0 == s[i]); assert(q.contains(q0[i])); let j = q.index_of(q0[i]); assert(l[j] == s[i]); }
}
/// the points an index list names
pub open spec fn at<T>(v: Seq<T>, ix: Seq<usize>) -> Seq<T> { Seq::new(ix.len(), |i: int| v[ix[i] as int]) }
pub open spec fn valid<T>(v: Seq<T>, ix: Seq<usize>) -> bool { forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < v.len() }
pub open spec fn istrip(ix: Seq<usize>) -> Seq<usize> { if ix.len() > 1 && ix[0] == ix.last() { ix.drop_last() } else { ix } }
/// h are the corners of the hull of the points s names, by some of these names
#[verifier::opaque]
pub open spec fn ihull_of<T>(v: Seq<T>, s: Seq<usize>, h: Seq<usize>) -> bool { hull_of(at(v, s), at(v, h)) && forall|i: int| 0 <= i < h.len() ==> s.contains(#[trigger] h[i]) }
pub open spec fn ihull<T>(v: Seq<T>, s: Seq<usize>, h: Seq<usize>) -> bool { if s.len() <= 2 { h == s } else { ihull_of(v, s, h) } }
pub open spec fn iclosed(h: Seq<usize>) -> Seq<usize> { if h.len() > 1 { h.push(h[0]) } else { h } }
pub open spec fn iresult<T>(v: Seq<T>, s: Seq<usize>, r: Seq<usize>) -> bool { exists|h: Seq<usize>| ihull(v, s, h) && r == #[trigger] iclosed(h) }
pub proof fn lemma_ithree<T>(v: Seq<T>, s: Seq<usize>) requires s.len() == 3
    ensures
        turn(v[s[0] as int], v[s[1] as int], v[s[2] as int]) > 0real ==> ihull_of(v, s, s),
        turn(v[s[0] as int], v[s[1] as int], v[s[2] as int]) < 0real ==> forall|r: Seq<usize>| r.len() == 3 && r[0] == s[0] && r[1] == s[2] && r[2] == s[1] ==> #[trigger] ihull_of(v, s, r),
{
    reveal(ihull_of);
    let (a, b, c) = (v[s[0] as int], v[s[1] as int], v[s[2] as int]);
    lemma_cyc(a, b, c); lemma_cyc(b, c, a); lemma_cyc(b, a, c); lemma_cyc(a, c, b);
    if turn(a, b, c) > 0real { lemma_three(at(v, s), at(v, s)); assert forall|i: int| 0 <= i < s.len() implies s.contains(#[trigger] s[i]) by {} }
    if turn(a, b, c) < 0real {
        assert forall|r: Seq<usize>| r.len() == 3 && r[0] == s[0] && r[1] == s[2] && r[2] == s[1] implies #[trigger] ihull_of(v, s, r) by {
            lemma_three(at(v, s), at(v, r));
            assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) by { assert(r[i] == s[if i == 0 { 0int } else { 3 - i }]); }
        }
    }
}
/// what the sorted list of indices has
pub proof fn lemma_iby_angle<T, S>(st: T, v: Seq<T>, s: Seq<usize>, q0: Seq<(usize, S, S)>, q: Seq<(usize, S, S)>, l: Seq<usize>)
    requires
        keyed(st, at(v, s), q0), forall|i: int| 0 <= i < s.len() ==> (#[trigger] q0[i]).0 == s[i], sorted(q), same_items(q, q0), low(st, at(v, s)),
        l.len() == q.len(), forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == q[i].0, valid(v, s),
    ensures order(st, at(v, l)), low(st, at(v, l)), same_items(l, s), valid(v, l), same_items(at(v, l), at(v, s)),
{
    reveal(same_items);
    let (p, o) = (at(v, l), at(v, s));
    assert forall|i: int| 0 <= i < l.len() implies s.contains(#[trigger] l[i]) && l[i] < v.len() && o.contains(p[i]) && rv(q[i].1) == ratan2(ry(p[i]) - ry(st), rx(p[i]) - rx(st)) && rv(q[i].2) == sq(st, p[i]) && (same(st, p[i]) || before(st, p[i])) by {
        assert(q0.contains(q[i])); let j = q0.index_of(q[i]); assert(q0[j].0 == s[j]); assert(o[j] == p[i]);
    }
    assert(keyed(st, p, q));
    lemma_sorted(st, p, q);
    assert forall|i: int| 0 <= i < s.len() implies l.contains(#[trigger] s[i]) && p.contains(o[i]) by { assert(q0[i].0 == s[i]); assert(q.contains(q0[i])); let j = q.index_of(q0[i]); assert(l[j] == s[i]); assert(p[j] == o[i]); }
    assert forall|i: int| 0 <= i < p.len() implies o.contains(#[trigger] p[i]) by { assert(s.contains(l[i])); }
    assert forall|i: int| 0 <= i < o.len() implies p.contains(#[trigger] o[i]) by { assert(l.contains(s[i])); }
    assert forall|i: int| 0 <= i < p.len() implies same(st, #[trigger] p[i]) || before(st, p[i]) by { assert(s.contains(l[i])); }
}
/// the points h names change with it
pub proof fn lemma_at<T>(v: Seq<T>, h: Seq<usize>) ensures h.len() > 0 ==> at(v, h.drop_last()) == at(v, h).drop_last(), forall|x: usize| #[trigger] at(v, h.push(x)) == at(v, h).push(v[x as int])
{
    if h.len() > 0 { assert(at(v, h.drop_last()) =~= at(v, h).drop_last()); }
    assert forall|x: usize| #[trigger] at(v, h.push(x)) == at(v, h).push(v[x as int]) by { assert(at(v, h.push(x)) =~= at(v, h).push(v[x as int])); }
}
/// every index of h is one of s
pub open spec fn named_by(h: Seq<usize>, s: Seq<usize>) -> bool { forall|i: int| 0 <= i < h.len() ==> s.contains(#[trigger] h[i]) }
pub proof fn lemma_named(h: Seq<usize>, s: Seq<usize>) requires named_by(h, s) ensures h.len() > 0 ==> named_by(h.drop_last(), s), forall|x: usize| s.contains(x) ==> named_by(#[trigger] h.push(x), s)
{
    if h.len() > 0 { let g = h.drop_last(); assert forall|i: int| 0 <= i < g.len() implies s.contains(#[trigger] g[i]) by { assert(s.contains(h[i])); } }
    assert forall|x: usize| s.contains(x) implies named_by(#[trigger] h.push(x), s) by { let g = h.push(x); assert forall|i: int| 0 <= i < g.len() implies s.contains(#[trigger] g[i]) by { if i < h.len() { assert(s.contains(h[i])); } } }
}
pub proof fn lemma_valid<T>(v: Seq<T>, h: Seq<usize>, s: Seq<usize>) requires named_by(h, s), valid(v, s) ensures valid(v, h) {
    assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) < v.len() by { assert(s.contains(h[i])); }
}
"""

WRAP = """
pub open spec fn best<T>(s: Seq<T>, p: T, e: T) -> bool { forall|i: int| 0 <= i < s.len() ==> better(p, e, #[trigger] s[i]) }
pub open spec fn cones<T>(s: Seq<T>, p: T, wx: real, wy: real) -> bool { forall|i: int| 0 <= i < s.len() ==> same(p, #[trigger] s[i]) || cone(p, s[i], wx, wy) }
pub open spec fn leads<T>(s: Seq<T>, h: Seq<T>, i: int) -> bool { best(s, h[i], h[i + 1]) }
pub open spec fn low<T>(s: T, l: Seq<T>) -> bool { forall|i: int| 0 <= i < l.len() ==> same(s, #[trigger] l[i]) || before(s, l[i]) }
/// h are the first corners of the hull of s
#[verifier::opaque]
pub open spec fn wrap<T>(s: Seq<T>, h: Seq<T>) -> bool {
    &&& h.len() >= 1 && pos(h) && low(h[0], s)
    &&& forall|i: int| 0 <= i < h.len() ==> s.contains(#[trigger] h[i])
    &&& forall|i: int| 0 <= i < h.len() - 1 ==> #[trigger] leads(s, h, i)
}
/// q lies between a and b and is neither
pub open spec fn mid<T>(a: T, b: T, q: T) -> bool { turn(a, b, q) == 0real && dt(a, b, q) > 0real && sq(a, q) < sq(a, b) }
/// q is no further corner: one of those found, or between two points
#[verifier::opaque]
pub open spec fn dead<T>(s: Seq<T>, h: Seq<T>, q: T) -> bool {
    (exists|t: int| 0 <= t < h.len() && same(#[trigger] h[t], q)) || (exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] mid(s[i], s[j], q))
}
/// dt(p, o, e) + dt(o, p, e) == sq(o, p)
pub proof fn lemma_dt<T>(p: T, o: T, e: T) ensures dt(p, o, e) + dt(o, p, e) == sq(p, o)
{ ring_dt(rx(p), ry(p), rx(o), ry(o), rx(e), ry(e)); }
pub proof fn lemma_dt_le<T>(p: T, e: T, j: T) requires turn(p, e, j) == 0real, sq(p, j) <= sq(p, e) ensures dt(p, e, j) <= sq(p, e), sq(p, j) < sq(p, e) ==> dt(p, e, j) < sq(p, e), sq(p, e) > 0real && dt(p, e, j) == sq(p, e) ==> same(e, j)
{
    lemma_par(p, e, j);
    let (s, t, k) = (sq(p, e), dt(p, e, j), sq(p, j));
    lemma_sq(p, e); lemma_sq(p, j);
    assert(t * t == s * k);
    if t > s { assert(t * t > s * k) by(nonlinear_arith) requires t > s, s >= k, k >= 0real; }
    if k < s && t >= s { assert(t * t > s * k) by(nonlinear_arith) requires t >= s, s > k, k >= 0real; }
    if s > 0real && t == s {
        let (a, b, c, d) = (rx(j) - rx(p), rx(e) - rx(p), ry(j) - ry(p), ry(e) - ry(p));
        assert(a == b) by(nonlinear_arith) requires s > 0real, s * a == s * b;
        assert(c == d) by(nonlinear_arith) requires s > 0real, s * c == s * d;
    }
}
/// e on the ray from p through o, not nearer than o
pub proof fn lemma_beyond<T>(p: T, e: T, o: T) requires turn(p, e, o) == 0real, sq(p, o) <= sq(p, e), dt(p, o, e) > 0real ensures dt(o, p, e) <= 0real
{
    lemma_cyc(p, e, o); lemma_cyc(p, o, e); lemma_cyc(e, p, o);
    assert(turn(p, o, e) == 0real);
    lemma_par(p, o, e);
    lemma_dt(p, o, e);
    lemma_sq(p, o); lemma_sq(p, e);
    let (s, t, k) = (sq(p, o), dt(p, o, e), sq(p, e));
    if t < s { assert(t * t < s * k) by(nonlinear_arith) requires 0real < t, t < s, s <= k; }
}
pub proof fn lemma_near<T>(p: T, q: T) requires same(p, q) ensures sq(p, q) == 0real, forall|e: T| #![trigger turn(p, e, q)] turn(p, e, q) == 0real, forall|e: T| #![trigger turn(p, q, e)] turn(p, q, e) == 0real
{
    lemma_sq(p, q);
    assert forall|e: T| #![trigger turn(p, e, q)] turn(p, e, q) == 0real by { lemma_same2(p, e); }
    assert forall|e: T| #![trigger turn(p, q, e)] turn(p, q, e) == 0real by { lemma_same2(p, e); }
}
/// points in line: the turns of one are a multiple of the other's
pub proof fn lemma_multiple<T>(p: T, a: T, b: T, c: T) requires turn(p, a, b) == 0real ensures sq(p, a) * turn(p, b, c) == dt(p, a, b) * turn(p, a, c)
{
    lemma_par(p, a, b);
    lemma_scale(sq(p, a), dt(p, a, b), rx(b) - rx(p), ry(b) - ry(p), rx(a) - rx(p), ry(a) - ry(p), rx(c) - rx(p), ry(c) - ry(p));
}
pub proof fn lemma_better_trans<T>(p: T, a: T, b: T, c: T, wx: real, wy: real)
    requires same(p, a) || cone(p, a, wx, wy), same(p, b) || cone(p, b, wx, wy), same(p, c) || cone(p, c, wx, wy), better(p, a, b), better(p, b, c)
    ensures better(p, a, c)
{
    lemma_sq(p, a); lemma_sq(p, b); lemma_sq(p, c);
    if same(p, a) { lemma_near(p, a); assert(turn(p, a, b) == 0real); assert(same(p, b)); }
    if same(p, b) { lemma_near(p, b); assert(turn(p, b, c) == 0real); assert(same(p, c)); }
    if same(p, c) { lemma_near(p, c); assert(turn(p, a, c) == 0real); }
    else {
        let (x, y, z) = (turn(p, a, b), turn(p, b, c), turn(p, a, c));
        if x > 0real && y > 0real { lemma_transitive(p, a, b, c, wx, wy); }
        else if x == 0real {
            lemma_same_dir(p, a, b, wx, wy);
            lemma_multiple(p, a, b, c);
            let (s, t) = (sq(p, a), dt(p, a, b));
            if y > 0real { lemma_pos(s, y); lemma_pos_of(t, z); }
            else { assert(s * y == 0real) by(nonlinear_arith) requires y == 0real; assert(z == 0real) by(nonlinear_arith) requires t > 0real, t * z == 0real; }
        } else {
            lemma_same_dir(p, b, c, wx, wy);
            lemma_multiple(p, b, c, a);
            // sq(p, b) * turn(p, c, a) == dt(p, b, c) * turn(p, b, a)
            lemma_cyc(p, c, a); lemma_cyc(p, b, a); lemma_cyc(a, p, c); lemma_cyc(a, p, b); lemma_cyc(p, a, c); lemma_cyc(p, a, b);
            let (s, t, m, n) = (sq(p, b), dt(p, b, c), turn(p, c, a), turn(p, b, a));
            assert(m == -z && n == -x);
            lemma_pos(t, x);
            assert(s * m == -(s * z)) by(nonlinear_arith) requires m == -z;
            assert(t * n == -(t * x)) by(nonlinear_arith) requires n == -x;
            lemma_pos_of(s, z);
        }
    }
}
pub proof fn lemma_better_self<T>(p: T, e: T) ensures better(p, e, e), better(p, e, p) { lemma_same2(p, e); lemma_sq(p, p); lemma_sq(p, e); }
/// equally good points are the same
pub proof fn lemma_better_both<T>(p: T, a: T, b: T, wx: real, wy: real)
    requires same(p, a) || cone(p, a, wx, wy), same(p, b) || cone(p, b, wx, wy), better(p, a, b), better(p, b, a)
    ensures same(a, b)
{
    lemma_sq(p, a); lemma_sq(p, b);
    lemma_cyc(p, a, b); lemma_cyc(a, p, b); lemma_cyc(p, b, a);
    if same(p, a) { lemma_near(p, a); assert(turn(p, a, b) == 0real); }
    else if same(p, b) { lemma_near(p, b); assert(turn(p, b, a) == 0real); }
    else {
        assert(turn(p, a, b) == 0real);
        lemma_same_dir(p, a, b, wx, wy);
        lemma_par(p, a, b);
        let (s, t) = (sq(p, a), dt(p, a, b));
        assert(t * t == s * s);
        assert(t == s) by(nonlinear_arith) requires t * t == s * s, t > 0real, s > 0real;
        lemma_dt_le(p, a, b);
    }
}
pub proof fn lemma_best_exists<T>(s: Seq<T>, p: T, wx: real, wy: real) -> (b: int) requires s.len() > 0, cones(s, p, wx, wy) ensures 0 <= b < s.len(), best(s, p, s[b]) decreases s.len()
{
    let l = s.len() - 1;
    lemma_better_self(p, s[l]);
    if l == 0 { 0 } else {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies same(p, #[trigger] t[i]) || cone(p, t[i], wx, wy) by { assert(t[i] == s[i]); }
        let c = lemma_best_exists(t, p, wx, wy);
        let (x, y) = (s[c], s[l]);
        if better(p, x, y) {
            assert forall|i: int| 0 <= i < s.len() implies better(p, x, #[trigger] s[i]) by { if i < l { assert(s[i] == t[i]); assert(better(p, t[c], t[i])); } }
            c
        } else {
            lemma_cyc(p, x, y); lemma_cyc(y, p, x); lemma_cyc(x, p, y); lemma_cyc(p, y, x);
            assert(better(p, y, x));
            assert forall|i: int| 0 <= i < s.len() implies better(p, y, #[trigger] s[i]) by { if i < l { assert(s[i] == t[i]); assert(better(p, t[c], t[i])); lemma_better_trans(p, y, x, s[i], wx, wy); } }
            l
        }
    }
}
pub proof fn lemma_distinct<T>(h: Seq<T>, i: int, j: int) requires pos(h), 0 <= i < j < h.len() ensures !same(h[i], h[j])
{
    if h.len() >= 3 {
        let k = if i > 0 { 0 } else if j + 1 < h.len() { h.len() - 1 } else { 1 };
        lemma_same2(h[i], h[k]);
        lemma_cyc(h[k], h[i], h[j]); lemma_cyc(h[i], h[j], h[k]); lemma_cyc(h[i], h[k], h[j]);
        if k < i { assert(turn(h[k], h[i], h[j]) > 0real); } else if k > j { assert(turn(h[i], h[j], h[k]) > 0real); } else { assert(turn(h[i], h[k], h[j]) > 0real); }
        if same(h[i], h[j]) { lemma_near(h[i], h[j]); assert(turn(h[i], h[j], h[k]) == 0real); assert(turn(h[i], h[k], h[j]) == 0real); }
    }
}
pub open spec fn wdir<T>(h: Seq<T>) -> (real, real) { let m = h.len() as int; if m <= 1 { (0real, 1real) } else { (rx(h[m - 2]) - rx(h[m - 1]), ry(h[m - 2]) - ry(h[m - 1])) } }
pub proof fn lemma_wrap_cones<T>(s: Seq<T>, h: Seq<T>) requires wrap(s, h) ensures cones(s, h.last(), wdir(h).0, wdir(h).1)
{
    reveal(wrap);
    let m = h.len() as int;
    let p = h[m - 1];
    let (wx, wy) = wdir(h);
    assert forall|i: int| 0 <= i < s.len() implies same(p, #[trigger] s[i]) || cone(p, s[i], wx, wy) by {
        let q = s[i];
        if m == 1 { lemma_before(p, q); assert(same(h[0], s[i]) || before(h[0], s[i])); }
        else {
            let o = h[m - 2];
            assert(leads(s, h, m - 2));
            assert(better(o, p, q));
            lemma_distinct(h, m - 2, m - 1);
            lemma_cyc(o, p, q); lemma_cyc(p, q, o);
            assert(dir(p, q, wx, wy) == turn(p, q, o));
            assert(along(p, q, wx, wy) == dt(p, o, q)) by { assert((rx(q) - rx(p)) * wx == wx * (rx(q) - rx(p)) && (ry(q) - ry(p)) * wy == wy * (ry(q) - ry(p))) by(nonlinear_arith); }
            if turn(o, p, q) == 0real {
                lemma_sq(o, p);
                lemma_dt_le(o, p, q);
                lemma_dt(o, p, q);
            }
        }
    }
}
/// a point that is no further corner is not the best one, but for the first corner
pub proof fn lemma_dead<T>(s: Seq<T>, h: Seq<T>, q: T) requires wrap(s, h), dead(s, h, q), best(s, h.last(), q), s.contains(q) ensures same(q, h[0])
{
    reveal(wrap); reveal(dead);
    let m = h.len() as int;
    let p = h[m - 1];
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    let iq = s.index_of(q);
    assert(s[iq] == q);
    assert(s.contains(h[0]));
    let i0 = s.index_of(h[0]);
    if same(p, q) {
        // everything is at p
        assert(better(p, q, s[i0]));
        lemma_near(p, q); assert(turn(p, q, h[0]) == 0real);
        lemma_sq(p, h[0]);
    } else if exists|t: int| 0 <= t < h.len() && same(#[trigger] h[t], q) {
        let t = choose|t: int| 0 <= t < h.len() && same(#[trigger] h[t], q);
        if t > 0 {
            assert(t < m - 1);
            assert(turn(h[t - 1], h[t], h[m - 1]) > 0real);
            lemma_cyc(h[t - 1], h[t], p); lemma_cyc(h[t], p, h[t - 1]); lemma_cyc(p, h[t], h[t - 1]); 
            assert(turn(p, h[t], h[t - 1]) < 0real);
            assert(s.contains(h[t - 1]));
            let k = s.index_of(h[t - 1]);
            assert(better(p, q, s[k]));
            assert(turn(p, q, h[t - 1]) == turn(p, h[t], h[t - 1]));
        }
    } else {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] mid(s[i], s[j], q);
        lemma_mid(p, q, s[i], s[j], wx, wy);
    }
}
pub proof fn lemma_mid<T>(p: T, q: T, a: T, b: T, wx: real, wy: real)
    requires mid(a, b, q), better(p, q, a), better(p, q, b), cone(p, q, wx, wy), same(p, a) || cone(p, a, wx, wy), same(p, b) || cone(p, b, wx, wy)
    ensures false
{
    let (la, lb, lc) = lx(p, q);
    lemma_between(a, b, q, la, lb, lc);
    lemma_side(p, q, a); lemma_side(p, q, b); lemma_side(p, q, q); lemma_same2(p, q);
    let (s, t) = (sq(a, b), dt(a, b, q));
    let (fa, fb) = (turn(p, q, a), turn(p, q, b));
    let u = s - t;
    assert(s * 0real == u * fa + t * fb);
    lemma_nonneg(u, fa); lemma_nonneg(t, fb);
    if fa > 0real { lemma_pos(u, fa); }
    if fb > 0real { lemma_pos(t, fb); }
    assert(fa == 0real && fb == 0real);
    lemma_cone(p, q, wx, wy); lemma_sq(p, q);
    lemma_dt_le(p, q, a); lemma_dt_le(p, q, b);
    // the same for the distance along p -> q
    let (ga, gb, gc) = (rx(q) - rx(p), ry(q) - ry(p), -((rx(q) - rx(p)) * rx(p) + (ry(q) - ry(p)) * ry(p)));
    lemma_between(a, b, q, ga, gb, gc);
    lemma_gside(p, q, a); lemma_gside(p, q, b); lemma_gside(p, q, q);
    let (ka, kb, k) = (dt(p, q, a), dt(p, q, b), sq(p, q));
    assert(s * k == u * ka + t * kb);
    assert(ka == k && kb == k) by {
        ring_avg(s, t, k, ka, kb);
        lemma_nonneg(u, k - ka); lemma_nonneg(t, k - kb);
        if ka < k { lemma_pos(u, k - ka); }
        if kb < k { lemma_pos(t, k - kb); }
    }
    assert(same(q, a));
    lemma_near(a, q); lemma_sq(a, q);
    let (x, y) = (rx(q) - rx(a), ry(q) - ry(a));
    let (x2, y2) = (rx(b) - rx(a), ry(b) - ry(a));
    assert(x2 * x == 0real && y2 * y == 0real) by(nonlinear_arith) requires x == 0real, y == 0real;
}
pub proof fn lemma_gside<T>(p: T, q: T, a: T) ensures side(rx(q) - rx(p), ry(q) - ry(p), -((rx(q) - rx(p)) * rx(p) + (ry(q) - ry(p)) * ry(p)), a) == dt(p, q, a), dt(p, q, q) == sq(p, q)
{ lemma_sq(p, q); ring_gside(rx(q) - rx(p), ry(q) - ry(p), rx(p), ry(p), rx(a), ry(a)); }
/// the best of the points that may be corners is the best of all
pub proof fn lemma_wrap_best<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, e: int)
    requires
        wrap(s, h), v.len() == s.len(), 0 <= st < s.len(), same(s[st], h[0]), !v[st], 0 <= e < s.len(),
        forall|i: int| 0 <= i < s.len() && #[trigger] v[i] ==> dead(s, h, s[i]), forall|i: int| 0 <= i < s.len() && !#[trigger] v[i] ==> better(h.last(), s[e], s[i]),
    ensures best(s, h.last(), s[e]), v[e] ==> same(s[e], h[0])
{
    let p = h.last();
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    let b = lemma_best_exists(s, p, wx, wy);
    let q = s[b];
    assert(better(p, s[e], q)) by {
        if v[b] { assert(s.contains(q)); lemma_dead(s, h, q); assert(!v[st]); assert(better(p, s[e], s[st])); }
    }
    assert forall|i: int| 0 <= i < s.len() implies better(p, s[e], #[trigger] s[i]) by { assert(better(p, s[b], s[i])); lemma_better_trans(p, s[e], q, s[i], wx, wy); }
    if v[e] { assert(s.contains(s[e])); lemma_dead(s, h, s[e]); }
}
pub proof fn lemma_wrap_start<T>(s: Seq<T>, i: int) requires 0 <= i < s.len(), low(s[i], s) ensures wrap(s, seq![s[i]]) { reveal(wrap); }
pub proof fn lemma_wrap_push<T>(s: Seq<T>, h: Seq<T>, e: T) requires wrap(s, h), best(s, h.last(), e), s.contains(e), !same(e, h[0]) ensures wrap(s, h.push(e))
{
    reveal(wrap);
    let m = h.len() as int;
    let p = h[m - 1];
    let g = h.push(e);
    lemma_wrap_cones(s, h);
    let (wx, wy) = wdir(h);
    let ie = s.index_of(e);
    assert(s[ie] == e);
    if m >= 2 {
        let o = h[m - 2];
        assert(s.contains(o) && s.contains(h[0]) && s.contains(p));
        let io = s.index_of(o);
        let i0 = s.index_of(h[0]);
        assert(leads(s, h, m - 2));
        assert(better(o, p, s[ie]) && better(p, e, s[io]) && better(p, e, s[i0]));
        assert(turn(o, p, e) > 0real) by {
            if turn(o, p, e) == 0real { lemma_turns_back(s, h, e); }
        }
        assert forall|j: int| 1 <= j < h.len() implies #[trigger] turn(h[0], h[j], e) > 0real by {
            assert(s.contains(h[j]));
            let ij = s.index_of(h[j]);
            assert(same(h[0], s[ij]) || before(h[0], s[ij]));
            assert(same(h[0], s[ie]) || before(h[0], s[ie]));
            lemma_distinct(h, 0, j);
            lemma_before(h[0], h[j]); lemma_before(h[0], e);
            let ip = s.index_of(p);
            assert(same(h[0], s[ip]) || before(h[0], s[ip]));
            lemma_distinct(h, 0, m - 1);
            lemma_before(h[0], p);
            lemma_wrap_far(s, h, e);
            if j < m - 1 {
                assert(turn(h[0], h[j], h[m - 1]) > 0real);
                lemma_transitive(h[0], h[j], p, e, 0real, 1real);
            }
        }
        lemma_push_core(h, e);
    } else { assert(g[0] == h[0] && g[1] == e); }
    assert forall|i: int| 0 <= i < g.len() implies s.contains(#[trigger] g[i]) by { if i < m { assert(g[i] == h[i]); } }
    assert forall|i: int| 0 <= i < g.len() - 1 implies #[trigger] leads(s, g, i) by { if i < m - 1 { assert(leads(s, h, i)); assert(g[i] == h[i] && g[i + 1] == h[i + 1]); } else { assert(g[i] == p && g[i + 1] == e); } }
    assert(g[0] == h[0]);
}
/// the next corner is not in line with the last two
pub proof fn lemma_turns_back<T>(s: Seq<T>, h: Seq<T>, e: T) requires wrap(s, h), h.len() >= 2, best(s, h.last(), e), s.contains(e), !same(e, h[0]), turn(h[h.len() - 2], h.last(), e) == 0real ensures false
{
    reveal(wrap);
    let m = h.len() as int;
    let (o, p) = (h[m - 2], h[m - 1]);
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    let ie = s.index_of(e);
    assert(s.contains(o));
    let io = s.index_of(o);
    lemma_distinct(h, m - 2, m - 1);
    assert(better(p, e, s[io]));
    lemma_cyc(o, p, e); lemma_cyc(p, e, o); lemma_cyc(p, o, e); lemma_cyc(e, p, o);
    assert(turn(p, e, o) == 0real && turn(p, o, e) == 0real);
    lemma_sq(p, o); lemma_sq(p, e); lemma_sq(o, p);
    assert(sq(p, o) <= sq(p, e));
    assert(!same(p, e));
    assert(same(p, s[ie]) || cone(p, s[ie], wx, wy));
    assert(same(p, s[io]) || cone(p, s[io], wx, wy));
    lemma_same_dir(p, o, e, wx, wy);
    lemma_beyond(p, e, o);
    assert(leads(s, h, m - 2));
    assert(better(o, p, s[ie]));
    // e on the segment o .. p as well
    lemma_dt_le(o, p, e);
    lemma_dt(p, o, e);
    assert(same(o, e)) by {
        if !same(o, e) {
            // seen from o: in line, on the other side, though all points are in a cone
            let k = h.take(m - 1);
            assert(wrap(s, k)) by {
                assert forall|i: int| 0 <= i < k.len() implies s.contains(#[trigger] k[i]) by { assert(k[i] == h[i]); }
                assert forall|i: int| 0 <= i < k.len() - 1 implies #[trigger] leads(s, k, i) by { assert(leads(s, h, i)); assert(k[i] == h[i] && k[i + 1] == h[i + 1]); }
                assert forall|a: int, b: int, c: int| 0 <= a < b < c < k.len() implies #[trigger] turn(k[a], k[b], k[c]) > 0real by { assert(turn(h[a], h[b], h[c]) > 0real); }
                if k.len() == 2 { lemma_distinct(h, 0, 1); }
                assert(k[0] == h[0]);
            }
            lemma_wrap_cones(s, k);
            let (vx, vy) = wdir(k);
            assert(k.last() == o);
            assert(s.contains(p));
            let ip = s.index_of(p);
            assert(same(o, s[ie]) || cone(o, s[ie], vx, vy));
            assert(same(o, s[ip]) || cone(o, s[ip], vx, vy));
            lemma_same_dir(o, p, e, vx, vy);
        }
    }
    if m >= 3 {
        assert(turn(h[m - 3], h[m - 2], h[m - 1]) > 0real);
        let z = h[m - 3];
        assert(s.contains(z));
        let iz = s.index_of(z);
        assert(better(p, e, s[iz]));
        assert(turn(p, e, z) == turn(p, o, z));
        lemma_cyc(z, o, p); lemma_cyc(o, p, z); lemma_cyc(p, o, z);
    }
}
/// the next corner is not in line with the last and the first
pub proof fn lemma_wrap_far<T>(s: Seq<T>, h: Seq<T>, e: T) requires wrap(s, h), h.len() >= 2, best(s, h.last(), e), s.contains(e), !same(e, h[0]) ensures turn(h[0], h.last(), e) > 0real
{
    reveal(wrap);
    let m = h.len() as int;
    let (o, p) = (h[0], h[m - 1]);
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    let ie = s.index_of(e);
    assert(s.contains(o) && s.contains(p));
    let (io, ip) = (s.index_of(o), s.index_of(p));
    lemma_distinct(h, 0, m - 1);
    assert(better(p, e, s[io]));
    lemma_cyc(o, p, e); lemma_cyc(p, e, o); lemma_cyc(p, o, e); lemma_cyc(e, p, o);
    assert(turn(p, e, o) == turn(o, p, e));
    if turn(o, p, e) == 0real {
        lemma_sq(p, o); lemma_sq(p, e); lemma_sq(o, p);
        assert(!same(p, e));
        assert(same(p, s[ie]) || cone(p, s[ie], wx, wy));
        assert(same(p, s[io]) || cone(p, s[io], wx, wy));
        lemma_same_dir(p, o, e, wx, wy);
        lemma_beyond(p, e, o);
        assert(same(o, s[ie]) || before(o, s[ie]));
        assert(same(o, s[ip]) || before(o, s[ip]));
        lemma_before(o, e); lemma_before(o, p);
        lemma_same_dir(o, p, e, 0real, 1real);
    }
}
/// in a fan of triangles
pub proof fn lemma_fan<T>(h: Seq<T>, q: T, k: int) requires pos(h), h.len() >= 3, inside(h, q), 1 <= k < h.len() - 1, turn(h[0], h[k], q) >= 0real ensures cov(h, q) decreases h.len() - k
{
    assert(edge(h, k, q) >= 0real);
    assert(turn(h[k], h[k + 1], q) >= 0real);
    lemma_cyc(h[0], h[k + 1], q); lemma_cyc(h[k + 1], h[0], q);
    if k + 1 == h.len() - 1 { assert(edge(h, k + 1, q) >= 0real); assert(turn(h[k + 1], h[0], q) >= 0real); }
    if turn(h[0], h[k + 1], q) > 0real && k + 1 < h.len() - 1 { lemma_fan(h, q, k + 1); }
    else { assert(turn(h[0], h[k], h[k + 1]) > 0real); assert(turn(h[k + 1], h[0], q) >= 0real); lemma_cov_triangle(h, 0, k, k + 1, q); }
}
/// the loop is complete
pub proof fn lemma_wrap_end<T>(s: Seq<T>, h: Seq<T>, e: T) requires wrap(s, h), best(s, h.last(), e), same(e, h[0]) ensures hull_of(s, h)
{
    reveal(wrap);
    let m = h.len() as int;
    let p = h[m - 1];
    assert forall|i: int| 0 <= i < s.len() implies cov(h, #[trigger] s[i]) by {
        let q = s[i];
        assert(better(p, e, s[i]));
        if m == 1 { lemma_near(p, e); assert(turn(p, e, q) == 0real); lemma_sq(p, q); lemma_cov_member(h, 0); lemma_cov_same(h, p, q); }
        else if m == 2 {
            assert(leads(s, h, 0));
            assert(better(h[0], h[1], s[i]));
            assert(turn(p, e, q) == turn(h[1], h[0], q));
            lemma_cyc(h[0], h[1], q);
            assert(turn(h[0], h[1], q) == 0real);
            lemma_distinct(h, 0, 1);
            lemma_sq(h[0], h[1]); lemma_sq(h[0], q);
            assert(same(h[0], s[i]) || before(h[0], s[i]));
            if same(h[0], q) { lemma_cov_member(h, 0); lemma_cov_same(h, h[0], q); }
            else {
                assert(s.contains(h[1]));
                let k = s.index_of(h[1]);
                assert(same(h[0], s[k]) || before(h[0], s[k]));
                lemma_before(h[0], q); lemma_before(h[0], h[1]);
                lemma_same_dir(h[0], h[1], q, 0real, 1real);
                lemma_cov_between(h, 0, 1, q);
            }
        } else {
            assert forall|k: int| 0 <= k < m implies #[trigger] edge(h, k, q) >= 0real by {
                if k < m - 1 { assert(leads(s, h, k)); assert(better(h[k], h[k + 1], s[i])); } else { assert(turn(p, e, q) == turn(p, h[0], q)); }
            }
            assert(edge(h, 0, q) >= 0real);
            lemma_fan(h, q, 1);
        }
    }
}
/// a nearer point in line
pub proof fn lemma_mark<T>(s: Seq<T>, h: Seq<T>, e: int, j: int) requires wrap(s, h), 0 <= e < s.len(), 0 <= j < s.len(), turn(h.last(), s[e], s[j]) == 0real, sq(h.last(), s[j]) < sq(h.last(), s[e]) ensures dead(s, h, s[j])
{
    reveal(wrap); reveal(dead);
    let p = h.last();
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    let m = h.len() - 1;
    assert(h[m] == p);
    assert(s.contains(h[m]));
    let ip = s.index_of(p);
    lemma_sq(p, s[j]); lemma_sq(p, s[e]);
    if same(p, s[j]) { assert(same(h[m], s[j])); }
    else {
        assert(same(p, s[e]) || cone(p, s[e], wx, wy));
        assert(same(p, s[j]) || cone(p, s[j], wx, wy));
        lemma_same_dir(p, s[e], s[j], wx, wy);
        assert(mid(s[ip], s[e], s[j]));
    }
}
pub proof fn lemma_dead_push<T>(s: Seq<T>, h: Seq<T>, p: T) ensures forall|q: T| dead(s, h, q) ==> #[trigger] dead(s, h.push(p), q), dead(s, h.push(p), p)
{
    reveal(dead);
    let g = h.push(p);
    assert forall|q: T| dead(s, h, q) implies #[trigger] dead(s, g, q) by {
        if exists|t: int| 0 <= t < h.len() && same(#[trigger] h[t], q) { let t = choose|t: int| 0 <= t < h.len() && same(#[trigger] h[t], q); assert(same(g[t], q)); }
    }
    assert(same(g[h.len() as int], p));
}
/// a candidate e stays or is replaced by the better j
pub proof fn lemma_wrap_step<T>(s: Seq<T>, h: Seq<T>, e: int, j: int) requires wrap(s, h), 0 <= e < s.len(), 0 <= j < s.len()
    ensures
        better(h.last(), s[e], s[e]), better(h.last(), s[e], h.last()),
        turn(h.last(), s[e], s[j]) < 0real || (turn(h.last(), s[e], s[j]) == 0real && sq(h.last(), s[j]) >= sq(h.last(), s[e])) ==>
            better(h.last(), s[j], s[e]) && forall|i: int| 0 <= i < s.len() && better(h.last(), s[e], #[trigger] s[i]) ==> better(h.last(), s[j], s[i]),
{
    let p = h.last();
    let (x, y) = (s[e], s[j]);
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    lemma_better_self(p, x);
    lemma_cyc(p, x, y); lemma_cyc(x, p, y); lemma_cyc(p, y, x);
    if turn(p, x, y) < 0real || (turn(p, x, y) == 0real && sq(p, y) >= sq(p, x)) {
        assert(better(p, y, x));
        assert forall|i: int| 0 <= i < s.len() && better(p, s[e], #[trigger] s[i]) implies better(p, s[j], s[i]) by { lemma_better_trans(p, y, x, s[i], wx, wy); }
    }
}
/// how many are not set
pub open spec fn free(v: Seq<bool>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { free(v.drop_last()) + if v.last() { 0nat } else { 1nat } } }
pub proof fn lemma_free(v: Seq<bool>, i: int) requires 0 <= i < v.len() ensures free(v.update(i, true)) + (if v[i] { 0nat } else { 1nat }) == free(v) decreases v.len()
{
    let w = v.update(i, true);
    if i == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); } else { assert(w.drop_last() =~= v.drop_last().update(i, true)); lemma_free(v.drop_last(), i); }
}
/// state of the wrapping before a corner is added: v marks the points that are no further corners, p is the next corner
#[verifier::opaque]
pub open spec fn wrapping<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int) -> bool {
    &&& v.len() == s.len() && 0 <= st < s.len() && 0 <= p < s.len() && !v[st] && wrap(s, h.push(s[p]))
    &&& h.len() == 0 ==> p == st
    &&& h.len() > 0 ==> h[0] == s[st] && !v[p] && !same(s[p], s[st])
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] v[i] ==> dead(s, h, s[i])
}
/// the same after, while the next corner is searched: e is the best of the first j and of e0
#[verifier::opaque]
pub open spec fn searching<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int, e0: int, e: int, j: int) -> bool {
    &&& v.len() == s.len() && 0 <= st < s.len() && 0 <= p < s.len() && 0 <= e < s.len() && 0 <= e0 < s.len() && !v[st] && wrap(s, h) && h.last() == s[p] && h[0] == s[st]
    &&& forall|i: int| 0 <= i < s.len() && #[trigger] v[i] ==> dead(s, h, s[i])
    &&& forall|i: int| 0 <= i < j && i < s.len() && !#[trigger] v[i] ==> better(s[p], s[e], s[i])
    &&& better(s[p], s[e], s[e0])
}
pub proof fn lemma_wrapping0<T>(s: Seq<T>, v: Seq<bool>, st: int)
    requires v.len() == s.len(), 0 <= st < s.len(), low(s[st], s), forall|i: int| 0 <= i < v.len() ==> !#[trigger] v[i]
    ensures wrapping(s, Seq::<T>::empty(), v, st, st)
{ reveal(wrapping); lemma_wrap_start(s, st); assert(Seq::<T>::empty().push(s[st]) =~= seq![s[st]]); }
pub proof fn lemma_wrapping_in<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int, w: Seq<bool>, e0: int)
    requires wrapping(s, h, v, st, p), w == if p == st { v } else { v.update(p, true) }, 0 <= e0 < s.len()
    ensures searching(s, h.push(s[p]), w, st, p, e0, e0, 0), free(w) + (if h.len() == 0 { 0int } else { 1int }) <= free(v)
{
    reveal(wrapping); reveal(searching); reveal(wrap);
    let g = h.push(s[p]);
    lemma_dead_push(s, h, s[p]);
    lemma_better_self(s[p], s[e0]);
    if p != st { lemma_free(v, p); }
    assert forall|i: int| 0 <= i < s.len() && #[trigger] w[i] implies dead(s, g, s[i]) by { if i != p { assert(v[i]); assert(dead(s, h, s[i])); } else if p != st {} else { assert(v[i]); } }
}
/// the j-th point is dealt with: it becomes e, or it is marked, or it is no better
pub proof fn lemma_searching<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int, e0: int, e: int, j: int, f: int, w: Seq<bool>)
    requires searching(s, h, v, st, p, e0, e, j), 0 <= j < s.len(),
        f == e || (f == j && (turn(s[p], s[e], s[j]) < 0real || (turn(s[p], s[e], s[j]) == 0real && sq(s[p], s[j]) >= sq(s[p], s[e])))),
        w == v || (w == v.update(j, true) && j != st && turn(s[p], s[e], s[j]) == 0real && sq(s[p], s[j]) < sq(s[p], s[e])),
        f == j || w[j] || v[j] || j == e || j == p || better(s[p], s[e], s[j]),
    ensures searching(s, h, w, st, p, e0, f, j + 1), free(w) <= free(v)
{
    reveal(searching);
    lemma_wrap_step(s, h, e, j);
    lemma_wrap_step(s, h, j, j);
    if turn(s[p], s[e], s[j]) == 0real && sq(s[p], s[j]) < sq(s[p], s[e]) { lemma_mark(s, h, e, j); }
    if w != v { lemma_free(v, j); }
    assert forall|i: int| 0 <= i < s.len() && #[trigger] w[i] implies dead(s, h, s[i]) by { if w == v || i != j { assert(v[i]); } }
    assert forall|i: int| 0 <= i < j + 1 && i < s.len() && !#[trigger] w[i] implies better(s[p], s[f], s[i]) by { if i < j { assert(!v[i]); assert(better(s[p], s[e], s[i])); } }
}
/// all points are dealt with: e closes the loop or is the next corner
pub proof fn lemma_searched<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int, e0: int, e: int)
    requires searching(s, h, v, st, p, e0, e, s.len() as int)
    ensures if same(s[e], s[st]) { hull_of(s, h) } else { wrapping(s, h, v, st, e) }, h.len() > 0, h[0] == s[st]
{
    reveal(searching);
    assert(h.len() > 0) by { reveal(wrap); }
    lemma_wrap_best(s, h, v, st, e);
    if same(s[e], s[st]) { lemma_wrap_end(s, h, s[e]); }
    else { reveal(wrapping); assert(s.contains(s[e])); lemma_wrap_push(s, h, s[e]); }
}
pub proof fn lemma_searching_len<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int, e0: int, e: int, j: int) requires searching(s, h, v, st, p, e0, e, j) ensures v.len() == s.len(), 0 <= e < s.len(), 0 <= p < s.len() { reveal(searching); }
pub proof fn lemma_wrapping_len<T>(s: Seq<T>, h: Seq<T>, v: Seq<bool>, st: int, p: int) requires wrapping(s, h, v, st, p) ensures v.len() == s.len(), 0 <= p < s.len(), h.len() == 0 <==> p == st, h.len() > 0 ==> h[0] == s[st] { reveal(wrapping); }
"""

AROUND = """
/// what the comparison by turns around s says
pub open spec fn around<T>(s: T, b: T, c: T, o: Ordering) -> bool {
    if turn(s, b, c) < 0real || turn(s, b, c) == 0real && sq(s, b) > sq(s, c) { o == Ordering::Greater }
    else if turn(s, b, c) > 0real || turn(s, b, c) == 0real && sq(s, b) < sq(s, c) { o == Ordering::Less }
    else { o != Ordering::Greater }
}
pub open spec fn all_ahead<T>(s: T, l: Seq<T>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> ahead(s, #[trigger] l[i], #[trigger] l[j]) }
pub proof fn lemma_up<T>(s: T, q: T) requires before(s, q) ensures cone(s, q, 0real, 1real)
{
    let (x, y) = (rx(q) - rx(s), ry(q) - ry(s));
    assert(x * 1real == x && y * 0real == 0real && x * 0real == 0real && y * 1real == y);
}
pub proof fn lemma_ahead_trans<T>(p: T, a: T, b: T, c: T)
    requires same(p, a) || before(p, a), same(p, b) || before(p, b), same(p, c) || before(p, c), ahead(p, a, b), ahead(p, b, c)
    ensures ahead(p, a, c)
{
    let (wx, wy) = (0real, 1real);
    if before(p, a) { lemma_up(p, a); }
    if before(p, b) { lemma_up(p, b); }
    if before(p, c) { lemma_up(p, c); }
    lemma_sq(p, a); lemma_sq(p, b); lemma_sq(p, c);
    if same(p, a) { lemma_near(p, a); assert(turn(p, a, c) == 0real); }
    else if same(p, b) { lemma_near(p, b); assert(turn(p, a, b) == 0real); }
    else if same(p, c) { lemma_near(p, c); assert(turn(p, b, c) == 0real); }
    else {
        let (x, y, z) = (turn(p, a, b), turn(p, b, c), turn(p, a, c));
        if x > 0real && y > 0real { lemma_transitive(p, a, b, c, wx, wy); }
        else if x == 0real {
            lemma_same_dir(p, a, b, wx, wy);
            lemma_multiple(p, a, b, c);
            let (s, t) = (sq(p, a), dt(p, a, b));
            if y > 0real { lemma_pos(s, y); lemma_pos_of(t, z); }
            else { assert(s * y == 0real) by(nonlinear_arith) requires y == 0real; assert(z == 0real) by(nonlinear_arith) requires t > 0real, t * z == 0real; }
        } else {
            lemma_same_dir(p, b, c, wx, wy);
            lemma_multiple(p, b, c, a);
            lemma_cyc(p, c, a); lemma_cyc(p, b, a); lemma_cyc(a, p, c); lemma_cyc(a, p, b); lemma_cyc(p, a, c); lemma_cyc(p, a, b);
            let (s, t, m, n) = (sq(p, b), dt(p, b, c), turn(p, c, a), turn(p, b, a));
            assert(m == -z && n == -x);
            lemma_pos(t, x);
            assert(s * m == -(s * z)) by(nonlinear_arith) requires m == -z;
            assert(t * n == -(t * x)) by(nonlinear_arith) requires n == -x;
            lemma_pos_of(s, z);
        }
    }
}
pub proof fn lemma_flip<T>(p: T, a: T, b: T) ensures turn(p, b, a) == -turn(p, a, b) { lemma_cyc(p, a, b); lemma_cyc(a, p, b); lemma_cyc(p, b, a); }
/// a scan around s: its comparison is a total order of the points
pub proof fn lemma_around<T>(s: T, l: Seq<T>) requires low(s, l)
    ensures
        forall|b: T, c: T, o: Ordering| #[trigger] around(s, b, c, o) ==> (o == Ordering::Greater <==> !ahead(s, b, c)) && (!ahead(s, c, b) ==> o == Ordering::Less),
        forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> ahead(s, l[i], l[j]) || #[trigger] ahead(s, l[j], l[i]),
        forall|i: int, j: int, k: int| 0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && #[trigger] ahead(s, l[i], l[j]) && #[trigger] ahead(s, l[j], l[k]) ==> ahead(s, l[i], l[k]),
{
    assert forall|b: T, c: T, o: Ordering| #[trigger] around(s, b, c, o) implies (o == Ordering::Greater <==> !ahead(s, b, c)) && (!ahead(s, c, b) ==> o == Ordering::Less) by { lemma_flip(s, b, c); }
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies ahead(s, l[i], l[j]) || #[trigger] ahead(s, l[j], l[i]) by { lemma_flip(s, l[i], l[j]); }
    assert forall|i: int, j: int, k: int| 0 <= i < l.len() && 0 <= j < l.len() && 0 <= k < l.len() && #[trigger] ahead(s, l[i], l[j]) && #[trigger] ahead(s, l[j], l[k]) implies ahead(s, l[i], l[k]) by {
        assert(same(s, l[i]) || before(s, l[i])); assert(same(s, l[j]) || before(s, l[j])); assert(same(s, l[k]) || before(s, l[k]));
        lemma_ahead_trans(s, l[i], l[j], l[k]);
    }
}
pub proof fn lemma_around_order<T>(s: T, l0: Seq<T>, l: Seq<T>)
    requires low(s, l0), same_items(l, l0), forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] ahead(s, l[i], l[j])
    ensures low(s, l), order(s, l), all_ahead(s, l)
{
    assert forall|i: int| 0 <= i < l.len() implies same(s, #[trigger] l[i]) || before(s, l[i]) by { lemma_item(l, l0, i); let j = l0.index_of(l[i]); assert(l0[j] == l[i]); }
}
/// the points equal to s come first
pub proof fn lemma_late<T>(s: T, l: Seq<T>, h: Seq<T>, k: int)
    requires scan(s, l, h, k), 0 <= k < l.len(), all_ahead(s, l), same(l[k], s)
    ensures h.len() == 1
{
    if h.len() > 1 {
        assert(before(s, h[1]) && member(h[1], l, k));
        let m = choose|m: int| 0 <= m < k && #[trigger] l[m] == h[1];
        assert(ahead(s, l[m], l[k]));
        lemma_near(s, l[k]); lemma_sq(s, l[m]); lemma_sq(s, l[k]);
    }
}
/// a point that turns left of the last edge is not its end
pub proof fn lemma_late_push<T>(s: T, h: Seq<T>, p: T)
    requires h.len() >= 1, h[0] == s, before(s, p), h.len() >= 2 ==> turn(h[h.len() - 2], h.last(), p) > 0real
    ensures !same(h.last(), p)
{
    if h.len() >= 2 && same(h.last(), p) { lemma_same2(h[h.len() - 2], h.last()); let q = h[h.len() - 2]; lemma_flip(q, h.last(), p); assert(turn(q, h.last(), p) == turn(q, p, p)) by { assert(rx(h.last()) == rx(p) && ry(h.last()) == ry(p)); } }
}
"""
