from vgen import Spec
from ring import BASE, ring_lemma

R2, R3, CH = "src/linestring_2d.rs", "src/linestring_3d.rs", "src/linestring_2d/convex_hull.rs"

GHOST = """
pub open spec fn seg2<T>(a: T, b: T, p: T, t: real) -> real {
    // squared distance from p to the point a + t (b - a)
    (rx(a) + t * (rx(b) - rx(a)) - rx(p)) * (rx(a) + t * (rx(b) - rx(a)) - rx(p))
    + (ry(a) + t * (ry(b) - ry(a)) - ry(p)) * (ry(a) + t * (ry(b) - ry(a)) - ry(p))
}
pub open spec fn seg3<T>(a: T, b: T, p: T, t: real) -> real {
    seg2(a, b, p, t)
    + (rz(a) + t * (rz(b) - rz(a)) - rz(p)) * (rz(a) + t * (rz(b) - rz(a)) - rz(p))
}
/// r is the squared distance from p to the segment a-b: attained, and a lower bound
pub open spec fn is_seg_dist2<T>(a: T, b: T, p: T, r: real) -> bool {
    &&& exists|t: real| 0real <= t <= 1real && #[trigger] seg2(a, b, p, t) == r
    &&& forall|t: real| 0real <= t <= 1real ==> #[trigger] seg2(a, b, p, t) >= r
}
/// r is the squared distance from p to the infinite line through a and b
pub open spec fn is_line_dist3<T>(a: T, b: T, p: T, r: real) -> bool {
    &&& exists|t: real| #[trigger] seg3(a, b, p, t) == r
    &&& forall|t: real| #[trigger] seg3(a, b, p, t) >= r
}
pub open spec fn cross<T>(a: T, b: T, c: T) -> real {
    (rx(b) - rx(a)) * (ry(c) - ry(a)) - (ry(b) - ry(a)) * (rx(c) - rx(a))
}
/// f(t) = U - 2 t W + t^2 D
pub open spec fn quad(u: real, w: real, d: real, t: real) -> real { u - 2real * (t * w) + t * t * d }

pub proof fn lemma_sq_pos(a: real) ensures a * a >= 0real {
    assert(a * a >= 0real) by(nonlinear_arith);
}
pub proof fn lemma_sum_sq(a: real, b: real) requires a != 0real || b != 0real
    ensures a * a + b * b > 0real
{
    assert(a * a + b * b > 0real) by(nonlinear_arith) requires a != 0real || b != 0real;
}
pub proof fn lemma_div(a: real, d: real) requires d != 0real ensures (a / d) * d == a {
    assert((a / d) * d == a) by(nonlinear_arith) requires d != 0real;
}
pub proof fn lemma_expand1(a: real, b: real, p: real, t: real)
    ensures (a + t * (b - a) - p) * (a + t * (b - a) - p)
        == (a - p) * (a - p) - 2real * (t * ((a - p) * (a - b))) + t * t * ((a - b) * (a - b))
{
    let u = a - p; let v = a - b;
    assert(a + t * (b - a) - p == u - t * v) by(nonlinear_arith) requires u == a - p, v == a - b;
    assert((u - t * v) * (u - t * v) == u * u - 2real * (t * (u * v)) + t * t * (v * v)) by(nonlinear_arith);
}
pub proof fn lemma_seg2<T>(a: T, b: T, p: T, t: real, u: real, w: real, d: real)
    requires
        u == (rx(a) - rx(p)) * (rx(a) - rx(p)) + (ry(a) - ry(p)) * (ry(a) - ry(p)),
        w == (rx(a) - rx(p)) * (rx(a) - rx(b)) + (ry(a) - ry(p)) * (ry(a) - ry(b)),
        d == (rx(a) - rx(b)) * (rx(a) - rx(b)) + (ry(a) - ry(b)) * (ry(a) - ry(b)),
    ensures seg2(a, b, p, t) == quad(u, w, d, t)
{
    lemma_expand1(rx(a), rx(b), rx(p), t);
    lemma_expand1(ry(a), ry(b), ry(p), t);
    let (wx, wy) = ((rx(a) - rx(p)) * (rx(a) - rx(b)), (ry(a) - ry(p)) * (ry(a) - ry(b)));
    let (dx, dy) = ((rx(a) - rx(b)) * (rx(a) - rx(b)), (ry(a) - ry(b)) * (ry(a) - ry(b)));
    assert(t * (wx + wy) == t * wx + t * wy) by(nonlinear_arith);
    assert(t * t * (dx + dy) == t * t * dx + t * t * dy) by(nonlinear_arith);
}
pub proof fn lemma_seg3<T>(a: T, b: T, p: T, t: real, u: real, w: real, d: real)
    requires
        u == (rx(a) - rx(p)) * (rx(a) - rx(p)) + (ry(a) - ry(p)) * (ry(a) - ry(p)) + (rz(a) - rz(p)) * (rz(a) - rz(p)),
        w == (rx(a) - rx(p)) * (rx(a) - rx(b)) + (ry(a) - ry(p)) * (ry(a) - ry(b)) + (rz(a) - rz(p)) * (rz(a) - rz(b)),
        d == (rx(a) - rx(b)) * (rx(a) - rx(b)) + (ry(a) - ry(b)) * (ry(a) - ry(b)) + (rz(a) - rz(b)) * (rz(a) - rz(b)),
    ensures seg3(a, b, p, t) == quad(u, w, d, t)
{
    let uu = u - (rz(a) - rz(p)) * (rz(a) - rz(p));
    let ww = w - (rz(a) - rz(p)) * (rz(a) - rz(b));
    let dd = d - (rz(a) - rz(b)) * (rz(a) - rz(b));
    lemma_seg2(a, b, p, t, uu, ww, dd);
    lemma_expand1(rz(a), rz(b), rz(p), t);
    let wz = (rz(a) - rz(p)) * (rz(a) - rz(b));
    let dz = (rz(a) - rz(b)) * (rz(a) - rz(b));
    assert(t * (ww + wz) == t * ww + t * wz) by(nonlinear_arith);
    assert(t * t * (dd + dz) == t * t * dd + t * t * dz) by(nonlinear_arith);
}
pub proof fn lemma_quad_min(u: real, w: real, d: real, m: real, t: real)
    requires d >= 0real, m * d == w
    ensures quad(u, w, d, t) - quad(u, w, d, m) == d * ((t - m) * (t - m)), quad(u, w, d, t) >= quad(u, w, d, m)
{
    assert(quad(u, w, d, t) - quad(u, w, d, m) == d * ((t - m) * (t - m))) by(nonlinear_arith)
        requires m * d == w, quad(u, w, d, t) == u - 2real * (t * w) + t * t * d, quad(u, w, d, m) == u - 2real * (m * w) + m * m * d;
    lemma_sq_pos(t - m);
    assert(d * ((t - m) * (t - m)) >= 0real) by(nonlinear_arith) requires d >= 0real, (t - m) * (t - m) >= 0real;
}
pub proof fn lemma_quad_low(u: real, w: real, d: real, m: real, t: real)
    requires d >= 0real, m * d == w, m < 0real, t >= 0real
    ensures quad(u, w, d, t) >= u
{
    assert(w <= 0real) by(nonlinear_arith) requires m * d == w, m < 0real, d >= 0real;
    assert(t * w <= 0real) by(nonlinear_arith) requires t >= 0real, w <= 0real;
    lemma_sq_pos(t);
    assert(t * t * d >= 0real) by(nonlinear_arith) requires t * t >= 0real, d >= 0real;
}
pub proof fn lemma_quad_high(u: real, w: real, d: real, m: real, t: real)
    requires d >= 0real, m * d == w, m > 1real, t <= 1real
    ensures quad(u, w, d, t) >= quad(u, w, d, 1real)
{
    lemma_quad_min(u, w, d, m, t);
    lemma_quad_min(u, w, d, m, 1real);
    assert((t - m) * (t - m) >= (1real - m) * (1real - m)) by(nonlinear_arith) requires m > 1real, t <= 1real;
    let (x, y) = ((t - m) * (t - m), (1real - m) * (1real - m));
    assert(d * x >= d * y) by(nonlinear_arith) requires d >= 0real, x >= y;
}
@LAG@
/// c^2/d where c^2 = u d - w^2 is the minimum of the quadratic
pub proof fn lemma_foot(u: real, w: real, d: real, m: real, c2: real)
    requires d > 0real, m * d == w, c2 == u * d - w * w
    ensures c2 / d == quad(u, w, d, m)
{
    let q = quad(u, w, d, m);
    assert(q == u - m * w) by(nonlinear_arith) requires q == u - 2real * (m * w) + m * m * d, m * d == w;
    assert(q * d == u * d - w * w) by(nonlinear_arith) requires q == u - m * w, m * d == w;
    assert(c2 / d == q) by(nonlinear_arith) requires d > 0real, c2 == q * d;
}
/// all cases of the 2D segment distance
pub proof fn lemma_dist2<T>(l0: T, l1: T, p: T, r: real)
    requires
        rx(l0) != rx(l1) || ry(l0) != ry(l1),
        ({
            let (ux, uy) = (rx(l0) - rx(p), ry(l0) - ry(p));
            let (vx, vy) = (rx(l0) - rx(l1), ry(l0) - ry(l1));
            let d = vx * vx + vy * vy;
            let m = (ux * vx + uy * vy) / d;
            r == (if m < 0real { ux * ux + uy * uy }
                else if m > 1real { (rx(l1) - rx(p)) * (rx(l1) - rx(p)) + (ry(l1) - ry(p)) * (ry(l1) - ry(p)) }
                else { (ux * vy - uy * vx) * (ux * vy - uy * vx) / d })
        }),
    ensures is_seg_dist2(l0, l1, p, r)
{
    let (ux, uy) = (rx(l0) - rx(p), ry(l0) - ry(p));
    let (vx, vy) = (rx(l0) - rx(l1), ry(l0) - ry(l1));
    let u = ux * ux + uy * uy;
    let w = ux * vx + uy * vy;
    let d = vx * vx + vy * vy;
    lemma_sum_sq(vx, vy);
    let m = w / d;
    lemma_div(w, d);
    assert forall|t: real| #[trigger] seg2(l0, l1, p, t) == quad(u, w, d, t) by { lemma_seg2(l0, l1, p, t, u, w, d); }
    if m < 0real {
        assert(quad(u, w, d, 0real) == u) by(nonlinear_arith) requires quad(u, w, d, 0real) == u - 2real * (0real * w) + 0real * 0real * d;
        assert(seg2(l0, l1, p, 0real) == r);
        assert forall|t: real| 0real <= t <= 1real implies #[trigger] seg2(l0, l1, p, t) >= r by { lemma_quad_low(u, w, d, m, t); }
    } else if m > 1real {
        assert(seg2(l0, l1, p, 1real) == r);
        assert forall|t: real| 0real <= t <= 1real implies #[trigger] seg2(l0, l1, p, t) >= r by { lemma_quad_high(u, w, d, m, t); }
    } else {
        lemma_lagrange2(ux, uy, vx, vy);
        lemma_foot(u, w, d, m, (ux * vy - uy * vx) * (ux * vy - uy * vx));
        assert(seg2(l0, l1, p, m) == r);
        assert forall|t: real| 0real <= t <= 1real implies #[trigger] seg2(l0, l1, p, t) >= r by { lemma_quad_min(u, w, d, m, t); }
    }
}
pub proof fn lemma_dist3<T>(l0: T, l1: T, p: T, c2: real, d: real)
    requires
        rx(l0) != rx(l1) || ry(l0) != ry(l1) || rz(l0) != rz(l1),
        ({
            let (ux, uy, uz) = (rx(l0) - rx(p), ry(l0) - ry(p), rz(l0) - rz(p));
            let (vx, vy, vz) = (rx(l0) - rx(l1), ry(l0) - ry(l1), rz(l0) - rz(l1));
            d == vx * vx + vy * vy + vz * vz
            && c2 == (uy * vz - uz * vy) * (uy * vz - uz * vy) + (uz * vx - ux * vz) * (uz * vx - ux * vz) + (ux * vy - uy * vx) * (ux * vy - uy * vx)
        }),
    ensures d > 0real, is_line_dist3(l0, l1, p, c2 / d)
{
    let (ux, uy, uz) = (rx(l0) - rx(p), ry(l0) - ry(p), rz(l0) - rz(p));
    let (vx, vy, vz) = (rx(l0) - rx(l1), ry(l0) - ry(l1), rz(l0) - rz(l1));
    let u = ux * ux + uy * uy + uz * uz;
    let w = ux * vx + uy * vy + uz * vz;
    lemma_sq_pos(vx); lemma_sq_pos(vy); lemma_sq_pos(vz);
    if vx != 0real || vy != 0real { lemma_sum_sq(vx, vy); } else { lemma_sum_sq(vz, vx); }
    let m = w / d;
    lemma_div(w, d);
    assert forall|t: real| #[trigger] seg3(l0, l1, p, t) == quad(u, w, d, t) by { lemma_seg3(l0, l1, p, t, u, w, d); }
    lemma_lagrange3(ux, uy, uz, vx, vy, vz);
    lemma_foot(u, w, d, m, c2);
    assert(seg3(l0, l1, p, m) == c2 / d);
    assert forall|t: real| #[trigger] seg3(l0, l1, p, t) >= c2 / d by { lemma_quad_min(u, w, d, m, t); }
}
/// the distance to the segment does not depend on which end comes first
pub proof fn lemma_flip2<T>(a: T, b: T, p: T)
    ensures forall|r: real| #[trigger] is_seg_dist2(b, a, p, r) ==> is_seg_dist2(a, b, p, r)
{
    assert forall|t: real| #[trigger] seg2(b, a, p, t) == seg2(a, b, p, 1real - t) by {
        let (x0, x1, y0, y1) = (rx(a), rx(b), ry(a), ry(b));
        assert(x1 + t * (x0 - x1) == x0 + (1real - t) * (x1 - x0)) by(nonlinear_arith);
        assert(y1 + t * (y0 - y1) == y0 + (1real - t) * (y1 - y0)) by(nonlinear_arith);
    }
    assert forall|r: real| #[trigger] is_seg_dist2(b, a, p, r) implies is_seg_dist2(a, b, p, r) by {
        let t0 = choose|t: real| 0real <= t <= 1real && #[trigger] seg2(b, a, p, t) == r;
        assert(seg2(a, b, p, 1real - t0) == r);
        assert forall|t: real| 0real <= t <= 1real implies #[trigger] seg2(a, b, p, t) >= r by {
            assert(seg2(b, a, p, 1real - t) == seg2(a, b, p, 1real - (1real - t)));
            assert(1real - (1real - t) == t);
        }
    }
}
pub proof fn lemma_point2<T>(l0: T, l1: T, p: T)
    requires rx(l0) == rx(l1), ry(l0) == ry(l1),
    ensures is_seg_dist2(l0, l1, p, sq2(l0, p))
{
    assert forall|t: real| #[trigger] seg2(l0, l1, p, t) == sq2(l0, p) by {
        assert(t * (rx(l1) - rx(l0)) == 0real) by(nonlinear_arith) requires rx(l1) == rx(l0);
        assert(t * (ry(l1) - ry(l0)) == 0real) by(nonlinear_arith) requires ry(l1) == ry(l0);
    }
    assert(seg2(l0, l1, p, 0real) == sq2(l0, p));
}
"""


LAG = BASE + ring_lemma("lemma_lagrange2", ["ux", "uy", "vx", "vy"],
    "(ux * vy - uy * vx) * (ux * vy - uy * vx)",
    "(ux * ux + uy * uy) * (vx * vx + vy * vy) - (ux * vx + uy * vy) * (ux * vx + uy * vy)") + ring_lemma(
    "lemma_lagrange3", ["ux", "uy", "uz", "vx", "vy", "vz"],
    "(uy * vz - uz * vy) * (uy * vz - uz * vy) + (uz * vx - ux * vz) * (uz * vx - ux * vz) + (ux * vy - uy * vx) * (ux * vy - uy * vx)",
    "(ux * ux + uy * uy + uz * uz) * (vx * vx + vy * vy + vz * vz) - (ux * vx + uy * vy + uz * vz) * (ux * vx + uy * vy + uz * vz)")
GHOST = GHOST.replace("@LAG@", "")


def base(s):
    s.prelude("vec")
    s.pure(LAG)
    s.ghost(GHOST)


def fns2(s, extra="", tail=""):
    pre = """proof { lemma_sum_sq(rx(l0) - rx(l1), ry(l0) - ry(l1)); }"""
    s.fn(R2, None, "distance_to_line_squared",
         req="rx(l0) != rx(l1) || ry(l0) != ry(l1)", ens="is_seg_dist2(l0, l1, p, rv(r))",
         hints=[("entry", pre), ("wrap", "proof { lemma_dist2(l0, l1, p, rv(r__)); }")])
    s.fn(R2, None, "distance_to_line_squared_safe", ens="is_seg_dist2(l0, l1, p, rv(r))" + extra,
         hints=[("entry", "proof { lemma_flip2(l0, l1, p); if rx(l0) == rx(l1) && ry(l0) == ry(l1) { lemma_point2(l0, l1, p); } " + tail + "}")])


NE3 = "rx(l0) != rx(l1) || ry(l0) != ry(l1) || rz(l0) != rz(l1)"
D3 = "(rx(l0) - rx(l1)) * (rx(l0) - rx(l1)) + (ry(l0) - ry(l1)) * (ry(l0) - ry(l1)) + (rz(l0) - rz(l1)) * (rz(l0) - rz(l1))"
C3 = """((ry(l0) - ry(p)) * (rz(l0) - rz(l1)) - (rz(l0) - rz(p)) * (ry(l0) - ry(l1))) * ((ry(l0) - ry(p)) * (rz(l0) - rz(l1)) - (rz(l0) - rz(p)) * (ry(l0) - ry(l1)))
        + ((rz(l0) - rz(p)) * (rx(l0) - rx(l1)) - (rx(l0) - rx(p)) * (rz(l0) - rz(l1))) * ((rz(l0) - rz(p)) * (rx(l0) - rx(l1)) - (rx(l0) - rx(p)) * (rz(l0) - rz(l1)))
        + ((rx(l0) - rx(p)) * (ry(l0) - ry(l1)) - (ry(l0) - ry(p)) * (rx(l0) - rx(l1))) * ((rx(l0) - rx(p)) * (ry(l0) - ry(l1)) - (ry(l0) - ry(p)) * (rx(l0) - rx(l1)))"""


def fns3(s, suffix="_3", extra="", tail="", plain=True):
    s.fn(R3, None, "cross_abs_squared", group="3", ens="""rv(r) == (ry(a) * rz(b) - rz(a) * ry(b)) * (ry(a) * rz(b) - rz(a) * ry(b))
        + (rz(a) * rx(b) - rx(a) * rz(b)) * (rz(a) * rx(b) - rx(a) * rz(b)) + (rx(a) * ry(b) - ry(a) * rx(b)) * (rx(a) * ry(b) - ry(a) * rx(b))""")
    s.fn(R3, None, "distance_to_line_squared", rename="distance_to_line_squared" + suffix, req=NE3,
         ens="is_line_dist3(l0, l1, p, rv(r))",
         hints=[("entry", f"proof {{ lemma_dist3(l0, l1, p, {C3}, {D3}); }}")])
    s.fn(R3, None, "distance_to_line_squared_safe", rename="distance_to_line_squared_safe" + suffix,
         ens=f"({NE3}) ==> is_line_dist3(l0, l1, p, rv(r)), !({NE3}) ==> rv(r) == sq3(l0, p)" + extra,
         hints=[("entry", f"proof {{ if {NE3} {{ lemma_dist3(l0, l1, p, {C3}, {D3}); }} " + tail + "}")])


def spec(repo):
    s = Spec("L17", repo)
    base(s)
    s.broadcast("scal", "vec2", "vec3")
    s.type(CH, "Orientation", prefix="#[derive(PartialEq, Eq, Clone, Copy)]\n")
    s.fn(CH, None, "cross_2d", ens="rv(r) == cross(a, b, c)")
    s.fn(CH, None, "is_point_left", ens="r == (cross(a, b, c) > 0real)")
    s.fn(CH, None, "is_point_left_allow_collinear", ens="r == (cross(a, b, c) >= 0real)")
    s.fn(CH, None, "point_orientation", ens="""cross(a, b, c) > 0real ==> r is Left,
    cross(a, b, c) < 0real ==> r is Right, cross(a, b, c) == 0real ==> r is Collinear""")
    s.raw("""impl PartialEqSpecImpl for Orientation { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }""")
    s.fn(CH, "Orientation", "is_left", ens="r == (self is Left)")
    s.fn(CH, "Orientation", "is_left_or_collinear", ens="r == !(self is Right)")
    s.fn(R2, None, "scale_to_coordinate", ens="rx(r) == rx(point) + rx(vector) * rv(scale), ry(r) == ry(point) + ry(vector) * rv(scale)")
    fns2(s)
    fns3(s)
    return s
