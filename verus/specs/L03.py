from vgen import Spec, r_option_map
import L18
import seg

R2 = "src/linestring_2d.rs"

PURE = """
pub open spec fn ray_param(o: V, d: V, a: V) -> real { vdot(vsub(a, o), d) / vdot(d, d) }
/// t is the ray parameter of the edge a b
pub open spec fn hits(o: V, d: V, a: V, b: V, t: real) -> bool {
    if vcross(d, vsub(b, a)) != 0real { t >= 0real && on_seg(a, b, vat(o, d, t)) }
    else { exists|t0: real, t1: real| a == #[trigger] vat(o, d, t0) && b == #[trigger] vat(o, d, t1) && t == rmin(t0, t1) }
}
pub open spec fn ray_t(o: V, d: V, a: V, b: V) -> real { vcross(vsub(a, o), vsub(b, a)) / vcross(d, vsub(b, a)) }
pub open spec fn ray_u(o: V, d: V, a: V, b: V) -> real { vcross(vsub(a, o), d) / vcross(d, vsub(b, a)) }
pub proof fn lemma_ray_cross(o: V, d: V, a: V, b: V)
    requires vcross(d, vsub(b, a)) != 0real,
    ensures ({
        let (t, u) = (ray_t(o, d, a, b), ray_u(o, d, a, b));
        &&& t >= 0real && 0real <= u <= 1real ==> forall|x: real| #[trigger] hits(o, d, a, b, x) <==> x == t
        &&& !(t >= 0real && 0real <= u <= 1real) ==> forall|x: real| !(#[trigger] hits(o, d, a, b, x))
    }),
{
    let (t, u) = (ray_t(o, d, a, b), ray_u(o, d, a, b));
    let s = vsub(b, a);
    lemma_cramer(o, d, a, s, t, u);
    let ok = t >= 0real && 0real <= u <= 1real;
    assert forall|x: real| #[trigger] hits(o, d, a, b, x) <==> ok && x == t by {
        if hits(o, d, a, b, x) {
            let w = choose|w: real| 0real <= w <= 1real && vat(o, d, x) == #[trigger] vat(a, s, w);
            assert(vat(o, d, x) == vat(a, s, w));
        }
        if ok { assert(vat(o, d, t) == vat(a, s, u)); }
    }
}
pub proof fn lemma_ray_inj(o: V, d: V, t: real, u: real) requires d.x != 0real || d.y != 0real, vat(o, d, t) == vat(o, d, u) ensures t == u {
    if d.x != 0real { assert(t == u) by(nonlinear_arith) requires d.x != 0real, d.x * t == d.x * u; }
    else { assert(t == u) by(nonlinear_arith) requires d.y != 0real, d.y * t == d.y * u; }
}
pub proof fn lemma_param(o: V, d: V, a: V)
    requires d.x != 0real || d.y != 0real,
    ensures vdot(d, d) > 0real, vcross(vsub(a, o), d) == 0real ==> a == vat(o, d, ray_param(o, d, a)),
        forall|t: real| a == #[trigger] vat(o, d, t) ==> vcross(vsub(a, o), d) == 0real && t == ray_param(o, d, a),
{
    lemma_sq2(d.x, d.y);
    let w = vsub(a, o);
    if vcross(w, d) == 0real { lemma_multiple(w, d, ray_param(o, d, a)); }
    assert forall|t: real| a == #[trigger] vat(o, d, t) implies vcross(w, d) == 0real && t == ray_param(o, d, a) by {
        assert(w.x == d.x * t && w.y == d.y * t);
        assert(vcross(w, d) == 0real) by(nonlinear_arith) requires w.x == d.x * t, w.y == d.y * t, vcross(w, d) == w.x * d.y - w.y * d.x;
        lemma_multiple(w, d, ray_param(o, d, a));
        lemma_ray_inj(o, d, t, ray_param(o, d, a));
    }
}
pub open spec fn ray_t1(o: V, d: V, a: V, b: V) -> real { ray_param(o, d, a) + vdot(vsub(b, a), d) / vdot(d, d) }
pub proof fn lemma_ray_par(o: V, d: V, a: V, b: V)
    requires vcross(d, vsub(b, a)) == 0real, d.x != 0real || d.y != 0real,
    ensures vdot(d, d) > 0real,
        vcross(vsub(a, o), d) == 0real ==> forall|x: real| #[trigger] hits(o, d, a, b, x) <==> x == rmin(ray_param(o, d, a), ray_t1(o, d, a, b)),
        vcross(vsub(a, o), d) != 0real ==> forall|x: real| !(#[trigger] hits(o, d, a, b, x)),
{
    lemma_param(o, d, a);
    lemma_param(o, d, b);
    let (w, s, v) = (vsub(a, o), vsub(b, a), vsub(b, o));
    let (t0, t1) = (ray_param(o, d, a), ray_t1(o, d, a, b));
    if vcross(w, d) == 0real {
        assert(vcross(v, d) == 0real) by(nonlinear_arith) requires vcross(w, d) == 0real, vcross(d, s) == 0real, v.x == w.x + s.x, v.y == w.y + s.y,
            vcross(w, d) == w.x * d.y - w.y * d.x, vcross(v, d) == v.x * d.y - v.y * d.x, vcross(d, s) == d.x * s.y - d.y * s.x;
        let n = vdot(d, d);
        assert(vdot(v, d) == vdot(w, d) + vdot(s, d)) by(nonlinear_arith) requires v.x == w.x + s.x, v.y == w.y + s.y,
            vdot(v, d) == v.x * d.x + v.y * d.y, vdot(w, d) == w.x * d.x + w.y * d.y, vdot(s, d) == s.x * d.x + s.y * d.y;
        let (p, q) = (vdot(w, d), vdot(s, d));
        lemma_quot(p, n); lemma_quot(q, n); lemma_quot(p + q, n);
        assert((p / n + q / n) * n == p + q) by(nonlinear_arith) requires (p / n) * n == p, (q / n) * n == q;
        lemma_cancel(p / n + q / n, (p + q) / n, n);
        assert(t1 == ray_param(o, d, b));
        assert(a == vat(o, d, t0)); assert(b == vat(o, d, t1));
    }
}
"""

GHOST = """
pub open spec fn nedges<T>(s: Seq<T>) -> int { if s.len() > 0 { s.len() - 1 } else { 0 } }
pub open spec fn edge_hit<T>(o: T, d: T, s: Seq<T>, i: int, t: real) -> bool { hits(vv(o), vv(d), vv(s[i]), vv(s[i + 1]), t) }
/// r is the smallest positive parameter over the first n edges
pub open spec fn nearest<T>(o: T, d: T, s: Seq<T>, n: int, r: Option<real>) -> bool {
    &&& r is Some ==> r->0 > 0real && exists|i: int| 0 <= i < n && #[trigger] edge_hit(o, d, s, i, r->0)
    &&& forall|i: int, t: real| 0 <= i < n && #[trigger] edge_hit(o, d, s, i, t) && t > 0real ==> r is Some && r->0 <= t
}
pub open spec fn ov<S>(o: Option<S>) -> Option<real> { match o { Some(t) => Some(rv(t)), None => None } }
/// the parameter kept after an edge with result e
pub open spec fn keep(r: Option<real>, e: Option<real>) -> Option<real> {
    if e is Some && e->0 > 0real && (r is None || e->0 < r->0) { e } else { r }
}
pub open spec fn is_hit<T>(o: T, d: T, s: Seq<T>, i: int, e: Option<real>) -> bool {
    &&& e is Some ==> edge_hit(o, d, s, i, e->0)
    &&& forall|t: real| #[trigger] edge_hit(o, d, s, i, t) ==> e == Some(t)
}
/// r is the ray parameter of the edge a b, if it has one
pub open spec fn edge_res<T, S>(o: T, d: T, a: T, b: T, r: Option<S>) -> bool {
    &&& r is Some ==> hits(vv(o), vv(d), vv(a), vv(b), rv(r->0))
    &&& forall|t: real| #[trigger] hits(vv(o), vv(d), vv(a), vv(b), t) ==> r is Some && rv(r->0) == t
}
pub proof fn lemma_nearest<T>(o: T, d: T, s: Seq<T>, n: int, r: Option<real>)
    requires 0 <= n, nearest(o, d, s, n, r),
    ensures forall|e: Option<real>| #[trigger] is_hit(o, d, s, n, e) ==> nearest(o, d, s, n + 1, keep(r, e)),
{
    assert forall|e: Option<real>| #[trigger] is_hit(o, d, s, n, e) implies nearest(o, d, s, n + 1, keep(r, e)) by {
        let k = keep(r, e);
        if k is Some {
            if k == r { let i = choose|i: int| 0 <= i < n && #[trigger] edge_hit(o, d, s, i, r->0); assert(0 <= i < n + 1 && edge_hit(o, d, s, i, k->0)); }
            else { assert(0 <= n < n + 1 && edge_hit(o, d, s, n, k->0)); }
        }
        assert forall|i: int, t: real| 0 <= i < n + 1 && #[trigger] edge_hit(o, d, s, i, t) && t > 0real implies k is Some && k->0 <= t by {
            if i < n { assert(r is Some && r->0 <= t); }
        }
    }
}
"""


def spec(repo):
    s = Spec("L03", repo)
    s.prelude("vec")
    s.broadcast("scal", "vec2")
    s.type(R2, "Line2", prefix="#[derive(Clone, Copy)]\n")
    s.pure(seg.RING)
    s.pure(seg.VEC)
    s.pure(seg.LEMMAS)
    s.pure(PURE)
    s.ghost("pub open spec fn vv<T>(t: T) -> V { V { x: rx(t), y: ry(t) } }")
    s.prelude("iters")
    s.ghost(GHOST)
    s.trait_decls = {"LineString2": 1}
    s.parts.append(("trait", ("LineString2", "LineString2<T: GenericVector2>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {"impl < T : GenericVector2 > LineString2 < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    lv = "LineString2 for Vec"
    nz = "rx(ray_dir) != 0real || ry(ray_dir) != 0real"
    e1 = "edge_res(origin, ray_dir, p0, p1, r)"
    s.fn(R2, lv, "ray_edge_intersection", req=nz, ens=e1, tens=e1,
         hints=[("entry", """proof {
            let (o, d, a, b) = (vv(origin), vv(ray_dir), vv(p0), vv(p1));
            if vcross(d, vsub(b, a)) != 0real { lemma_ray_cross(o, d, a, b); } else { lemma_ray_par(o, d, a, b); }
        }""")])
    s.fn(R2, lv, "closest_ray_intersection", req=nz, rules=[r_option_map],
         ens="""r is None ==> nearest(origin, ray_dir, self@, nedges(self@), None),
        r is Some ==> exists|t: real| vv(r->0) == #[trigger] vat(vv(origin), vv(ray_dir), t) && nearest(origin, ray_dir, self@, nedges(self@), Some(t))""",
         loops=[("loop", """invariant rx(ray_dir) != 0real || ry(ray_dir) != 0real, self@.len() >= 2, win_size(w0__) == 2, -1 <= k0__ < self@.len() - 1,
                win_rest(w0__) == self@.skip(k0__ + 1), nearest(origin, ray_dir, self@, k0__ + 1, ov(nearest_t)),
            ensures nearest(origin, ray_dir, self@, self@.len() - 1, ov(nearest_t)),
            decreases self@.len() - k0__""")],
         hints=[("entry", "assert(self@.skip(0) =~= self@); assert(self@.len() <= 1 ==> nearest(origin, ray_dir, self@, 0, None));"),
                (("after", "proof { k0__ = k0__ + 1 ; }"), """assert(item0__@[0] == self@[k0__] && item0__@[1] == self@[k0__ + 1]);
                proof { lemma_nearest(origin, ray_dir, self@, k0__, ov(nearest_t));
                    assert(self@.skip(k0__).skip(1) =~= self@.skip(k0__ + 1));
                    assert forall|e: Option<T::Scalar>| #[trigger] edge_res(origin, ray_dir, self@[k0__], self@[k0__ + 1], e) implies is_hit(origin, ray_dir, self@, k0__, ov(e)) by {}
                }"""),
                (("after_loop", 0), "proof { assert(nearest(origin, ray_dir, self@, nedges(self@), ov(nearest_t))); }")])
    return s
