from vgen import Spec
from ring import ring_lemma
import seg

R2 = "src/linestring_2d.rs"

RING = ring_lemma("ring_norm", ["ex", "ey", "fx", "fy"],
    "(ex + fx) * (ex + fx) + (ey + fy) * (ey + fy)",
    "(ex * ex + ey * ey) + 2 * (ex * fx + ey * fy) + (fx * fx + fy * fy)") + ring_lemma(
    "ring_lag", ["ex", "ey", "fx", "fy"],
    "(ex * fy - ey * fx) * (ex * fy - ey * fx)",
    "(ex * ex + ey * ey) * (fx * fx + fy * fy) - (ex * fx + ey * fy) * (ex * fx + ey * fy)")

LEMMAS = """
pub proof fn lemma_sqrt_unique(a: real, b: real) requires a >= 0real, b >= 0real, a * a == b * b ensures a == b {
    assert(a == b) by(nonlinear_arith) requires a >= 0real, b >= 0real, a * a == b * b;
}
/// the triangle inequality is an equality exactly on the segment (p different from a and b)
pub proof fn lemma_triangle(a: V, b: V, p: V, ab: real, ap: real, pb: real)
    requires
        ab >= 0real, ap >= 0real, pb >= 0real,
        ab * ab == (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y),
        ap * ap == (p.x - a.x) * (p.x - a.x) + (p.y - a.y) * (p.y - a.y),
        pb * pb == (b.x - p.x) * (b.x - p.x) + (b.y - p.y) * (b.y - p.y),
        p != a,
    ensures (ab == ap + pb) <==> on_seg(a, b, p),
{
    let (e, f, d) = (vsub(p, a), vsub(b, p), vsub(b, a));
    lemma_sq2(e.x, e.y);
    if ab == ap + pb {
        ring_norm(e.x, e.y, f.x, f.y);
        assert(d.x == e.x + f.x && d.y == e.y + f.y);
        let w = vdot(e, f);
        assert((ap + pb) * (ap + pb) == ap * ap + 2real * (ap * pb) + pb * pb) by(nonlinear_arith);
        assert(w == ap * pb);
        ring_lag(e.x, e.y, f.x, f.y);
        assert((ap * ap) * (pb * pb) == w * w) by(nonlinear_arith) requires w == ap * pb;
        let c = vcross(e, f);
        assert(c * c == 0real);
        assert(c == 0real) by(nonlinear_arith) requires c * c == 0real;
        assert(vcross(f, e) == 0real) by(nonlinear_arith) requires vcross(e, f) == 0real, vcross(e, f) == e.x * f.y - e.y * f.x, vcross(f, e) == f.x * e.y - f.y * e.x;
        let l = vdot(f, e) / vdot(e, e);
        lemma_multiple(f, e, l);
        assert(vdot(f, e) == w) by(nonlinear_arith) requires vdot(f, e) == f.x * e.x + f.y * e.y, w == e.x * f.x + e.y * f.y;
        assert(w >= 0real) by(nonlinear_arith) requires w == ap * pb, ap >= 0real, pb >= 0real;
        let ee = vdot(e, e);
        lemma_quot(w, ee);
        assert(l >= 0real) by(nonlinear_arith) requires l * ee == w, w >= 0real, ee > 0real;
        let g = 1real + l;
        let t = 1real / g;
        assert(t * g == 1real) by(nonlinear_arith) requires t == 1real / g, g >= 1real;
        assert(0real <= t <= 1real) by(nonlinear_arith) requires t * g == 1real, g >= 1real;
        lemma_back(e.x, d.x, l, g, t);
        lemma_back(e.y, d.y, l, g, t);
        assert(p == vat(a, d, t));
    }
    if on_seg(a, b, p) {
        let t = choose|t: real| 0real <= t <= 1real && p == #[trigger] vat(a, d, t);
        assert(e.x == d.x * t && e.y == d.y * t);
        let dd = d.x * d.x + d.y * d.y;
        assert(e.x * e.x + e.y * e.y == (t * t) * dd) by(nonlinear_arith) requires e.x == d.x * t, e.y == d.y * t, dd == d.x * d.x + d.y * d.y;
        let s = 1real - t;
        assert(f.x == d.x * s) by(nonlinear_arith) requires f.x == d.x - e.x, e.x == d.x * t, s == 1real - t;
        assert(f.y == d.y * s) by(nonlinear_arith) requires f.y == d.y - e.y, e.y == d.y * t, s == 1real - t;
        assert(f.x * f.x + f.y * f.y == (s * s) * dd) by(nonlinear_arith) requires f.x == d.x * s, f.y == d.y * s, dd == d.x * d.x + d.y * d.y;
        assert((t * ab) * (t * ab) == (t * t) * dd) by(nonlinear_arith) requires ab * ab == dd;
        assert((s * ab) * (s * ab) == (s * s) * dd) by(nonlinear_arith) requires ab * ab == dd;
        assert(t * ab >= 0real && s * ab >= 0real) by(nonlinear_arith) requires ab >= 0real, 0real <= t <= 1real, s == 1real - t;
        lemma_sqrt_unique(t * ab, ap);
        lemma_sqrt_unique(s * ab, pb);
        assert(t * ab + s * ab == ab) by(nonlinear_arith) requires s == 1real - t;
    }
}
pub proof fn lemma_back(e: real, d: real, l: real, g: real, t: real)
    requires d - e == e * l, g == 1real + l, t * g == 1real ensures e == d * t
{
    assert(d == e * g) by(nonlinear_arith) requires d - e == e * l, g == 1real + l;
    assert(e == d * t) by(nonlinear_arith) requires d == e * g, t * g == 1real;
}
pub open spec fn dist_sq(a: V, b: V) -> real { (b.x - a.x) * (b.x - a.x) + (b.y - a.y) * (b.y - a.y) }
pub proof fn lemma_dist_sq(a: V, b: V) ensures dist_sq(a, b) >= 0real {
    let (x, y) = (b.x - a.x, b.y - a.y);
    assert(x * x >= 0real && y * y >= 0real) by(nonlinear_arith);
}
/// all three distances at once
pub proof fn lemma_on_line_point(a: V, b: V, p: V)
    ensures
        dist_sq(a, b) >= 0real, dist_sq(a, p) >= 0real, dist_sq(p, b) >= 0real,
        p == a || p == b ==> on_seg(a, b, p),
        p != a ==> ((rsqrt(dist_sq(a, b)) == rsqrt(dist_sq(a, p)) + rsqrt(dist_sq(p, b))) <==> on_seg(a, b, p)),
{
    lemma_dist_sq(a, b); lemma_dist_sq(a, p); lemma_dist_sq(p, b);
    ax_rsqrt(dist_sq(a, b)); ax_rsqrt(dist_sq(a, p)); ax_rsqrt(dist_sq(p, b));
    let d = vsub(b, a);
    assert(d.x * 0real == 0real && d.y * 0real == 0real && d.x * 1real == d.x && d.y * 1real == d.y);
    if p == a { assert(p == vat(a, d, 0real)); }
    if p == b { assert(p == vat(a, d, 1real)); }
    if p != a { lemma_triangle(a, b, p, rsqrt(dist_sq(a, b)), rsqrt(dist_sq(a, p)), rsqrt(dist_sq(p, b))); }
}
"""

GHOST = """
/// the two kinds of segment/point result are segment/segment results for a degenerate segment
pub proof fn lemma_degenerate<T>(l: Line2<T>, o: Line2<T>)
    requires vv(o.start) == vv(o.end)
    ensures forall|x: V| #[trigger] on(o, x) <==> x == vv(o.start),
{
    assert forall|x: V| #[trigger] on(o, x) <==> x == vv(o.start) by { lemma_point(vv(o.start), x); }
}
pub proof fn lemma_common<T>(l: Line2<T>, o: Line2<T>)
    ensures
        none_common(vv(l.start), vv(l.end), vv(o.start), vv(o.end)) ==> isect(l, o, None),
        forall|q: T| one_common(vv(l.start), vv(l.end), vv(o.start), vv(o.end), #[trigger] vv(q)) ==> isect(l, o, Some(Intersection::Intersection(q))),
        forall|e: T, f: T| seg_common(vv(l.start), vv(l.end), vv(o.start), vv(o.end), #[trigger] vv(e), #[trigger] vv(f)) && vv(e) != vv(f)
            ==> isect(l, o, Some(Intersection::Overlap(Line2 { start: e, end: f }))),
{
}
"""


def parts(s):
    s.prelude("vec")
    s.broadcast("scal", "vec2")
    s.type(R2, "Line2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R2, "Intersection", prefix="#[derive(Clone, Copy)]\n")
    s.pure(seg.RING)
    s.pure(RING)
    s.pure(seg.VEC)
    s.pure(seg.LEMMAS)
    s.pure(LEMMAS)
    s.ghost(seg.GHOST)
    s.ghost(GHOST)
    s.fn(R2, "Line2", "new", ens="r.start == start, r.end == end")
    s.fn(R2, "Line2", "precedes", ens="r == prec(vv(a), vv(b))")
    s.fn(R2, None, "intersect_line_point",
         ens="""r is None <==> !on(line, vv(point)), r is Some ==> (r->0) is Intersection && vv((r->0)->Intersection_0) == vv(point)""",
         hints=[("entry", "proof { lemma_on_line_point(vv(line.start), vv(line.end), vv(point)); }")])
    s.fn(R2, "Line2", "intersection_point", ens="isect(self, other, r)",
         hints=[("entry", """proof {
            let (a, b, c, d) = (vv(self.start), vv(self.end), vv(other.start), vv(other.end));
            lemma_common(self, other);
            if a == b { lemma_degenerate(other, self); } else if c == d { lemma_degenerate(self, other); }
            else {
                if box_apart(a, b, c, d) { lemma_case_box(a, b, c, d); }
                if vcross(vsub(b, a), vsub(d, c)) != 0real { lemma_case_cross(a, b, c, d); }
                else { lemma_case_par(a, b, c, d); }
            }
        }""")])
    s.fn(R2, "Intersection", "single",
         ens="""self is Intersection ==> r == self->Intersection_0, self is Overlap ==> r == (self->Overlap_0).start""")
    s.fn(R2, "Intersection", "closest",
         ens="""self is Intersection ==> r == self->Intersection_0,
        self is Overlap ==> r == (self->Overlap_0).start || r == (self->Overlap_0).end,
        self is Overlap ==> sq2(other, r) <= sq2(other, (self->Overlap_0).start) && sq2(other, r) <= sq2(other, (self->Overlap_0).end)""")


def spec(repo):
    s = Spec("L01", repo)
    parts(s)
    return s
