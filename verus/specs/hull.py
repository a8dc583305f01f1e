"""Convex polygons over the reals: shared ghost text of L06, L07 and L08."""
from ring import ring_lemma

RING = ring_lemma("ring_pluck", ["ax", "ay", "bx", "by", "cx", "cy"],
    "(bx * cy - by * cx) * ax + (cx * ay - cy * ax) * bx + (ax * by - ay * bx) * cx", "0") + ring_lemma(
    "ring_plucky", ["ax", "ay", "bx", "by", "cx", "cy"],
    "(bx * cy - by * cx) * ay + (cx * ay - cy * ax) * by + (ax * by - ay * bx) * cy", "0") + ring_lemma(
    "ring_rel", ["ax", "ay", "bx", "by", "px", "py"],
    "(bx - ax) * (py - ay) - (by - ay) * (px - ax)", "(ax - px) * (by - py) - (ay - py) * (bx - px)") + ring_lemma(
    "ring_sum", ["ax", "ay", "bx", "by", "cx", "cy"],
    "(bx * cy - by * cx) + (cx * ay - cy * ax) + (ax * by - ay * bx)", "(bx - ax) * (cy - ay) - (by - ay) * (cx - ax)") + ring_lemma(
    "ring_move", ["dx", "dy", "ex", "ey", "px", "py", "ax", "ay"],
    "dx * (ay - ey) - dy * (ax - ex)", "(dx * (py - ey) - dy * (px - ex)) + (dx * (ay - py) - dy * (ax - px))") + ring_lemma(
    "ring_weigh", ["u", "v", "w", "f", "dx", "dy", "ax", "ay", "bx", "by", "cx", "cy"],
    "u * (f + (dx * ay - dy * ax)) + v * (f + (dx * by - dy * bx)) + w * (f + (dx * cy - dy * cx))",
    "(u + v + w) * f + dx * (u * ay + v * by + w * cy) - dy * (u * ax + v * bx + w * cx)")

PURE = """
use crate::p::{rx, ry, rv};
/// positive: c is to the left of a -> b
pub open spec fn turn<T>(a: T, b: T, c: T) -> real {
    (rx(b) - rx(a)) * (ry(c) - ry(a)) - (ry(b) - ry(a)) * (rx(c) - rx(a))
}
/// cyclic: turn(a, b, p) is the cross product of a - p and b - p
pub proof fn lemma_rel<T>(a: T, b: T, p: T)
    ensures turn(a, b, p) == (rx(a) - rx(p)) * (ry(b) - ry(p)) - (ry(a) - ry(p)) * (rx(b) - rx(p)), turn(a, b, p) == turn(p, a, b)
{ ring_rel(rx(a), ry(a), rx(b), ry(b), rx(p), ry(p)); }
pub proof fn lemma_cyc<T>(a: T, b: T, c: T) ensures turn(a, b, c) == turn(b, c, a), turn(a, b, c) == turn(c, a, b), turn(b, a, c) == -turn(a, b, c)
{
    lemma_rel(a, b, c); lemma_rel(b, c, a);
    lemma_rel(b, a, c);
}
pub proof fn lemma_same2<T>(a: T, c: T) ensures turn(a, a, c) == 0real, turn(a, c, c) == 0real, turn(a, c, a) == 0real
{
    lemma_rel(a, c, c);
    let (x, y) = (rx(c) - rx(a), ry(c) - ry(a));
    assert(0real * y == 0real && 0real * x == 0real) by(nonlinear_arith);
    assert(x * 0real == 0real && y * 0real == 0real) by(nonlinear_arith);
    assert(x * y == y * x) by(nonlinear_arith);
}
/// the signed distance from a line is the mean of those of a triangle's corners with p's barycentric weights
pub proof fn lemma_bary<T>(a: T, b: T, c: T, p: T, e0: T, e1: T)
    ensures turn(a, b, c) * turn(e0, e1, p) == turn(b, c, p) * turn(e0, e1, a) + turn(c, a, p) * turn(e0, e1, b) + turn(a, b, p) * turn(e0, e1, c),
        turn(a, b, c) == turn(b, c, p) + turn(c, a, p) + turn(a, b, p)
{
    let (ax, ay, bx, by_, cx, cy) = (rx(a) - rx(p), ry(a) - ry(p), rx(b) - rx(p), ry(b) - ry(p), rx(c) - rx(p), ry(c) - ry(p));
    let (dx, dy) = (rx(e1) - rx(e0), ry(e1) - ry(e0));
    lemma_rel(b, c, p); lemma_rel(c, a, p); lemma_rel(a, b, p);
    let (u, v, w) = (bx * cy - by_ * cx, cx * ay - cy * ax, ax * by_ - ay * bx);
    assert(turn(b, c, p) == u && turn(c, a, p) == v && turn(a, b, p) == w);
    ring_sum(ax, ay, bx, by_, cx, cy);
    assert(bx - ax == rx(b) - rx(a) && cy - ay == ry(c) - ry(a) && by_ - ay == ry(b) - ry(a) && cx - ax == rx(c) - rx(a));
    assert(turn(a, b, c) == u + v + w);
    let f = turn(e0, e1, p);
    ring_move(dx, dy, rx(e0), ry(e0), rx(p), ry(p), rx(a), ry(a));
    ring_move(dx, dy, rx(e0), ry(e0), rx(p), ry(p), rx(b), ry(b));
    ring_move(dx, dy, rx(e0), ry(e0), rx(p), ry(p), rx(c), ry(c));
    assert(turn(e0, e1, a) == f + (dx * ay - dy * ax));
    assert(turn(e0, e1, b) == f + (dx * by_ - dy * bx));
    assert(turn(e0, e1, c) == f + (dx * cy - dy * cx));
    ring_pluck(ax, ay, bx, by_, cx, cy);
    ring_plucky(ax, ay, bx, by_, cx, cy);
    ring_weigh(u, v, w, f, dx, dy, ax, ay, bx, by_, cx, cy);
    assert(dx * 0real == 0real && dy * 0real == 0real);
}
pub proof fn lemma_mean(s: real, f: real, u: real, v: real, w: real, a: real, b: real, c: real)
    requires s > 0real, s * f == u * a + v * b + w * c, u >= 0real, v >= 0real, w >= 0real, a >= 0real, b >= 0real, c >= 0real
    ensures f >= 0real, (u > 0real && a > 0real) || (v > 0real && b > 0real) || (w > 0real && c > 0real) ==> f > 0real
{
    assert(u * a >= 0real) by(nonlinear_arith) requires u >= 0real, a >= 0real;
    assert(v * b >= 0real) by(nonlinear_arith) requires v >= 0real, b >= 0real;
    assert(w * c >= 0real) by(nonlinear_arith) requires w >= 0real, c >= 0real;
    if u > 0real && a > 0real { assert(u * a > 0real) by(nonlinear_arith) requires u > 0real, a > 0real; }
    if v > 0real && b > 0real { assert(v * b > 0real) by(nonlinear_arith) requires v > 0real, b > 0real; }
    if w > 0real && c > 0real { assert(w * c > 0real) by(nonlinear_arith) requires w > 0real, c > 0real; }
    let x = s * f;
    assert(f >= 0real) by(nonlinear_arith) requires s > 0real, s * f == x, x >= 0real;
    if x > 0real { assert(f > 0real) by(nonlinear_arith) requires s > 0real, s * f == x, x > 0real; }
}
/// the corners of a convex polygon in counter-clockwise order, no three on a line
pub open spec fn convex<T>(h: Seq<T>) -> bool {
    h.len() >= 3 && forall|i: int, j: int, k: int| 0 <= i < j < k < h.len() ==> #[trigger] turn(h[i], h[j], h[k]) > 0real
}
/// p's distance from the line through the i-th edge: positive on the inner side
pub open spec fn edge<T>(h: Seq<T>, i: int, p: T) -> real { turn(h[i], if i + 1 == h.len() { h[0] } else { h[i + 1] }, p) }
/// left of or on every edge
pub open spec fn inside<T>(h: Seq<T>, p: T) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] edge(h, i, p) >= 0real }
/// strictly left of every edge
pub open spec fn strictly<T>(h: Seq<T>, p: T) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] edge(h, i, p) > 0real }
/// every corner is left of every edge, strictly but for the edge's own ends
pub proof fn lemma_corner<T>(h: Seq<T>, i: int, j: int)
    requires convex(h), 0 <= i < h.len(), 0 <= j < h.len()
    ensures edge(h, i, h[j]) >= 0real, j != i && j != i + 1 && !(i + 1 == h.len() && j == 0) ==> edge(h, i, h[j]) > 0real
{
    let n = h.len() as int;
    let i2 = if i + 1 == n { 0 } else { i + 1 };
    lemma_same2(h[i], h[i2]);
    if j != i && j != i2 {
        if i2 == 0 { lemma_cyc(h[0], h[j], h[i]); assert(turn(h[0], h[j], h[i]) > 0real); }
        else if j < i { lemma_cyc(h[j], h[i], h[i2]); assert(turn(h[j], h[i], h[i2]) > 0real); }
        else { assert(turn(h[i], h[i2], h[j]) > 0real); }
    }
}
/// a point of the triangle of three corners is inside; strictly, if it is strictly inside two of the triangle's sides
/// and the third is not an edge
pub proof fn lemma_triangle<T>(h: Seq<T>, a: int, b: int, c: int, p: T)
    requires convex(h), 0 <= a < b < c < h.len(), turn(h[a], h[b], p) >= 0real, turn(h[b], h[c], p) >= 0real, turn(h[c], h[a], p) >= 0real,
    ensures inside(h, p),
        turn(h[b], h[c], p) > 0real && turn(h[c], h[a], p) > 0real && (b > a + 1 || turn(h[a], h[b], p) > 0real) ==> strictly(h, p),
{
    assert(turn(h[a], h[b], h[c]) > 0real);
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] edge(h, i, p) >= 0real
        && (turn(h[b], h[c], p) > 0real && turn(h[c], h[a], p) > 0real && (b > a + 1 || turn(h[a], h[b], p) > 0real) ==> edge(h, i, p) > 0real) by {
        let i2 = if i + 1 == h.len() { 0 } else { i + 1 };
        lemma_bary(h[a], h[b], h[c], p, h[i], h[i2]);
        lemma_corner(h, i, a); lemma_corner(h, i, b); lemma_corner(h, i, c);
        lemma_mean(turn(h[a], h[b], h[c]), edge(h, i, p), turn(h[b], h[c], p), turn(h[c], h[a], p), turn(h[a], h[b], p), edge(h, i, h[a]), edge(h, i, h[b]), edge(h, i, h[c]));
    }
}
"""
