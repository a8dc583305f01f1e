from vgen import Spec, sub_rule

R2 = "src/linestring_2d.rs"

GHOST = """
pub open spec fn side(l: real, h: real) -> real { rmax(h - l, 1real) }
pub open spec fn nonempty<T: HasXY>(b: Aabb2<T>) -> bool {
    b.min_max is Some && rx((b.min_max->0).0) <= rx((b.min_max->0).1) && ry((b.min_max->0).0) <= ry((b.min_max->0).1)
}
/// ratio of the smallest side of b to the largest side of a
pub open spec fn ratio<T: HasXY>(a: Aabb2<T>, b: Aabb2<T>) -> real {
    rmin(side(rx((b.min_max->0).0), rx((b.min_max->0).1)), side(ry((b.min_max->0).0), ry((b.min_max->0).1)))
    / rmax(side(rx((a.min_max->0).0), rx((a.min_max->0).1)), side(ry((a.min_max->0).0), ry((a.min_max->0).1)))
}
pub open spec fn fwd<T: GenericVector2>(s: SimpleAffine<T>, k: int, v: real) -> real {
    (v + rv(s.a_offset@[k])) * rv(s.scale@[k]) + rv(s.b_offset@[k])
}
pub open spec fn bwd<T: GenericVector2>(s: SimpleAffine<T>, k: int, v: real) -> real {
    (v - rv(s.b_offset@[k])) / rv(s.scale@[k]) - rv(s.a_offset@[k])
}
/// some computed scalar of value v is (not) finite
pub open spec fn isfin<S: GenericScalar>(v: real, f: bool) -> bool { exists|s: S| rv(s) == v && #[trigger] finite(s) == f }
pub open spec fn good<T: GenericVector2>(s: SimpleAffine<T>) -> bool { rv(s.scale@[0]) != 0real && rv(s.scale@[1]) != 0real }

pub proof fn lemma_inverse<T: GenericVector2>(s: SimpleAffine<T>, k: int, v: real)
    requires good(s), k == 0 || k == 1,
    ensures bwd(s, k, fwd(s, k, v)) == v, fwd(s, k, bwd(s, k, v)) == v,
{
    let (a, c, b) = (rv(s.a_offset@[k]), rv(s.scale@[k]), rv(s.b_offset@[k]));
    assert(((v + a) * c + b - b) / c - a == v) by(nonlinear_arith) requires c != 0real;
    assert(((v - b) / c - a + a) * c + b == v) by(nonlinear_arith) requires c != 0real;
}
/// the transform of two boxes moves centre to centre and scales uniformly by the ratio
pub open spec fn fits<T: GenericVector2>(s: SimpleAffine<T>, a: Aabb2<T>, b: Aabb2<T>) -> bool {
    &&& good(s) && rv(s.scale@[0]) == ratio(a, b) && rv(s.scale@[1]) == ratio(a, b) && ratio(a, b) > 0real
    &&& fwd(s, 0, (rx((a.min_max->0).0) + rx((a.min_max->0).1)) / 2real) == (rx((b.min_max->0).0) + rx((b.min_max->0).1)) / 2real
    &&& fwd(s, 1, (ry((a.min_max->0).0) + ry((a.min_max->0).1)) / 2real) == (ry((b.min_max->0).0) + ry((b.min_max->0).1)) / 2real
    &&& forall|v: real, w: real, k: int| #![trigger fwd(s, k, v), fwd(s, k, w)] (k == 0 || k == 1) ==> (fwd(s, k, v) - fwd(s, k, w)) == (v - w) * ratio(a, b)
}
pub proof fn lemma_fits<T: GenericVector2>(s: SimpleAffine<T>, a: Aabb2<T>, b: Aabb2<T>)
    requires
        nonempty(a), nonempty(b), rv(s.scale@[0]) == ratio(a, b), rv(s.scale@[1]) == ratio(a, b),
        rv(s.a_offset@[0]) == -(rx((a.min_max->0).0) + rx((a.min_max->0).1)) / 2real,
        rv(s.a_offset@[1]) == -(ry((a.min_max->0).0) + ry((a.min_max->0).1)) / 2real,
        rv(s.b_offset@[0]) == (rx((b.min_max->0).0) + rx((b.min_max->0).1)) / 2real,
        rv(s.b_offset@[1]) == (ry((b.min_max->0).0) + ry((b.min_max->0).1)) / 2real,
    ensures fits(s, a, b),
{
    let n = rmin(side(rx((b.min_max->0).0), rx((b.min_max->0).1)), side(ry((b.min_max->0).0), ry((b.min_max->0).1)));
    let d = rmax(side(rx((a.min_max->0).0), rx((a.min_max->0).1)), side(ry((a.min_max->0).0), ry((a.min_max->0).1)));
    let c = n / d;
    assert(c > 0real) by(nonlinear_arith) requires c == n / d, n >= 1real, d >= 1real;
    let (x, y) = (rx((a.min_max->0).0) + rx((a.min_max->0).1), ry((a.min_max->0).0) + ry((a.min_max->0).1));
    assert((x / 2real + (-x / 2real)) * c == 0real) by(nonlinear_arith);
    assert((y / 2real + (-y / 2real)) * c == 0real) by(nonlinear_arith);
    assert forall|v: real, w: real, k: int| #![trigger fwd(s, k, v), fwd(s, k, w)] (k == 0 || k == 1) implies (fwd(s, k, v) - fwd(s, k, w)) == (v - w) * ratio(a, b) by {
        let o = rv(s.a_offset@[k]);
        assert((v + o) * c - (w + o) * c == (v - w) * c) by(nonlinear_arith);
    }
}
pub assume_specification<T: GenericVector2>[ vidx::<T> ](v: T, i: usize) -> (r: T::Scalar);
"""
VIDX = """
/// v[i]: the components of a vector (trusted: Index of vector-traits is x for 0 and y for 1)
#[verifier::external_body]
pub fn vidx<T: GenericVector2>(v: T, i: usize) -> (r: T::Scalar)
    requires i < 2,
    ensures i == 0 ==> rv(r) == rx(v), i == 1 ==> rv(r) == ry(v),
{ unimplemented!() }
"""
GHOST = GHOST[:GHOST.index("pub assume_spec")]


def spec(repo):
    s = Spec("L15", repo)
    s.prelude("vec")
    s.broadcast("scal", "vec2")
    s.assumptions.append("L15: indexing a 2D vector with 0 / 1 gives x / y; std::io::Error is an opaque type")
    s.raw(VIDX)
    s.raw("pub struct IoErr {}\n")
    s.type("src/lib.rs", "LinestringError", rules=[sub_rule("io_error", r"std::io::Error", "IoErr")])
    s.type(R2, "Aabb2", prefix="#[derive(Clone, Copy)]\n")
    s.type(R2, "SimpleAffine")
    s.ghost(GHOST)
    mm = "self.min_max"
    s.fn(R2, "Aabb2", "high", ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).1)")
    s.fn(R2, "Aabb2", "low", ens=f"{mm} is None ==> r is None, {mm} is Some ==> r == Some(({mm}->0).0)")
    idx = sub_rule("vector_index", r"\b((?:source|destination)_(?:low|high))\[(\d)\]", r"vidx(\1, \2)")
    s.fn(R2, "SimpleAffine", "new",
         req="a_aabb.min_max is Some ==> nonempty(*a_aabb), b_aabb.min_max is Some ==> nonempty(*b_aabb)",
         ens="""r is Err <==> a_aabb.min_max is None || b_aabb.min_max is None,
        r is Ok ==> fits(r->Ok_0, *a_aabb, *b_aabb)""",
         rules=[idx],
         hints=[(("before", "return Ok ( Self {"), """proof {
            let s = SimpleAffine::<T> { a_offset: source_aabb_center, scale: [scale, scale], b_offset: dest_aabb_center };
            lemma_fits(s, *a_aabb, *b_aabb);
         }""")])
    for d, f in (("ab", "fwd"), ("ba", "bwd")):
        s.fn(R2, "SimpleAffine", f"transform_{d}", req="good(*self)",
             ens=f"""r is Ok ==> rx(r->Ok_0) == {f}(*self, 0, rx(point)) && ry(r->Ok_0) == {f}(*self, 1, ry(point)),
        r is Ok ==> isfin::<T::Scalar>({f}(*self, 0, rx(point)), true) && isfin::<T::Scalar>({f}(*self, 1, ry(point)), true),
        r is Err ==> isfin::<T::Scalar>({f}(*self, 0, rx(point)), false) || isfin::<T::Scalar>({f}(*self, 1, ry(point)), false)""",
             hints=[(("before", "if x . is_finite"), "assert(finite(x) == finite(x) && finite(y) == finite(y));")])
        e = f"""r is Ok ==> (forall|i: int| 0 <= i < 4 ==> rv(#[trigger] (r->Ok_0)@[i]) == {f}(*self, i % 2, rv(points@[i]))),
        r is Ok ==> (forall|i: int| 0 <= i < 4 ==> isfin::<T::Scalar>({f}(*self, i % 2, rv(#[trigger] points@[i])), true)),
        r is Err ==> (exists|i: int| 0 <= i < 4 && isfin::<T::Scalar>({f}(*self, i % 2, rv(#[trigger] points@[i])), false))"""
        s.fn(R2, "SimpleAffine", f"transform_{d}_a", req="good(*self)", ens=e,
             hints=[(("before", "if x1 . is_finite"), f"""proof {{
            assert(rv(x1) == {f}(*self, 0, rv(points@[0]))); assert(rv(y1) == {f}(*self, 1, rv(points@[1])));
            assert(rv(x2) == {f}(*self, 0, rv(points@[2]))); assert(rv(y2) == {f}(*self, 1, rv(points@[3])));
            assert(finite(x1) == finite(x1) && finite(y1) == finite(y1) && finite(x2) == finite(x2) && finite(y2) == finite(y2));
        }}""")])
    s.fn("src/linestring_2d/impls.rs", "Default for SimpleAffine", "default",
         ens="good(r), forall|k: int, v: real| (k == 0 || k == 1) ==> #[trigger] fwd(r, k, v) == v && bwd(r, k, v) == v",
         hints=[("wrap", """proof { assert forall|k: int, v: real| (k == 0 || k == 1) implies #[trigger] fwd(r__, k, v) == v && bwd(r__, k, v) == v by {
            assert((v + 0real) * 1real + 0real == v) by(nonlinear_arith);
            assert((v - 0real) / 1real - 0real == v) by(nonlinear_arith);
         } }""")])
    return s
