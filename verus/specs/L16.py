from vgen import Spec, sub_rule

R = {2: "src/linestring_2d.rs", 3: "src/linestring_3d.rs"}

PURE = """
/// n is the least number (at least one) of equal steps of an edge of length len that are not longer than d
pub open spec fn is_steps(len: real, d: real, n: int) -> bool {
    n >= 1 && len <= n as real * d && (n > 1 ==> (n as real - 1real) * d < len)
}
pub proof fn lemma_steps_unique(len: real, d: real, n: int, m: int)
    requires d > 0real, is_steps(len, d, n), is_steps(len, d, m) ensures n == m
{
    if n < m {
        let (a, b) = (n as real, m as real);
        assert(a * d <= (b - 1real) * d) by(nonlinear_arith) requires d > 0real, a <= b - 1real;
    }
    if m < n {
        let (a, b) = (m as real, n as real);
        assert(a * d <= (b - 1real) * d) by(nonlinear_arith) requires d > 0real, a <= b - 1real;
    }
}
/// c is the rounded up quotient
pub proof fn lemma_ceil(len: real, d: real, c: real)
    requires len > 0real, d > 0real, c == c.floor() as real, c - 1real < len / d <= c,
    ensures is_steps(len, d, c.floor()), c >= 1real,
{
    let q = len / d;
    assert(q * d == len) by(nonlinear_arith) requires q == len / d, d > 0real;
    assert(q > 0real) by(nonlinear_arith) requires q * d == len, d > 0real, len > 0real;
    assert(len <= c * d) by(nonlinear_arith) requires q <= c, d > 0real, q * d == len;
    assert((c - 1real) * d < len) by(nonlinear_arith) requires c - 1real < q, d > 0real, q * d == len;
    let n = c.floor();
    assert(n as real > 0real);
    assert(n >= 1);
}
pub proof fn lemma_zero_len(d: real) requires d > 0real ensures is_steps(0real, d, 1) { assert(1real * d == d) by(nonlinear_arith); }
pub proof fn lemma_root(a: real, q: real) requires a >= 0real, a * a == q ensures q >= 0real, a == rsqrt(q) {
    assert(q >= 0real) by(nonlinear_arith) requires a * a == q;
    ax_rsqrt(q);
    let b = rsqrt(q);
    assert(a == b) by(nonlinear_arith) requires a >= 0real, b >= 0real, a * a == b * b;
}
pub proof fn lemma_root0(a: real, q: real) requires a == 0real, a * a == q ensures q == 0real { assert(a * a == 0real) by(nonlinear_arith) requires a == 0real; }
pub proof fn lemma_squares(x: real, y: real, z: real) ensures x * x + y * y + z * z >= 0real, x * x + y * y >= 0real,
    x * x + y * y + z * z == 0real ==> x == 0real && y == 0real && z == 0real, x * x + y * y == 0real ==> x == 0real && y == 0real
{
    assert(x * x >= 0real) by(nonlinear_arith); assert(y * y >= 0real) by(nonlinear_arith); assert(z * z >= 0real) by(nonlinear_arith);
    if x != 0real { assert(x * x > 0real) by(nonlinear_arith) requires x != 0real; }
    if y != 0real { assert(y * y > 0real) by(nonlinear_arith) requires y != 0real; }
    if z != 0real { assert(z * z > 0real) by(nonlinear_arith) requires z != 0real; }
}
"""

GHOST = """
pub open spec fn seg_len<T>(s: Seq<T>, i: int) -> real { rsqrt(@SQ@(s[i + 1], s[i])) }
/// every edge is cut into a number of steps a usize can hold
pub open spec fn fits<T>(s: Seq<T>, d: real) -> bool {
    d > 0real && forall|i: int, n: int| 0 <= i < s.len() - 1 && #[trigger] is_steps(seg_len(s, i), d, n) ==> n <= usize::MAX
}
/// the step of the edge i cut into n parts
pub open spec fn step_of<T>(st: T, s: Seq<T>, i: int, n: int) -> bool { @STEP@ }
/// the iterator is about to return the j-th point of the edge i of s (or, with i == len, nothing)
pub open spec fn at<'a, T: @GV@>(it: DiscreteLineSegmentIterator<'a, T>, s: Seq<T>, d: real, i: int, j: int) -> bool {
    &&& it.points@ == s && rv(it.distance) == d && fits(s, d) && it.current_index == i && it.substep_index == j
    &&& i <= s.len() && (i + 1 >= s.len() ==> j == 0)
    &&& j > 0 ==> is_steps(seg_len(s, i), d, it.num_substeps as int) && j <= it.num_substeps && step_of(it.step, s, i, it.num_substeps as int)
}
/// p is the j-th of the n points that cut the edge i (j == 0: its start)
pub open spec fn is_cut<T>(s: Seq<T>, i: int, j: int, n: int, p: T) -> bool { @CUT@ }
/// what the iterator at (i, j) does next
pub open spec fn nexts<'a, T: @GV@>(s: Seq<T>, d: real, i: int, j: int, r: Option<T>, it: DiscreteLineSegmentIterator<'a, T>) -> bool {
    if s.len() == 0 || i >= s.len() { r is None && at(it, s, d, i, j) }
    else if i + 1 == s.len() { r == Some(s[i]) && at(it, s, d, i + 1, 0) }
    else if is_steps(seg_len(s, i), d, j) { nexts_fresh(s, d, i + 1, r, it) }
    else { r is Some && exists|n: int| #[trigger] is_steps(seg_len(s, i), d, n) && is_cut(s, i, j, n, r->0) && at(it, s, d, i, j + 1) }
}
/// the same at the start of an edge
pub open spec fn nexts_fresh<'a, T: @GV@>(s: Seq<T>, d: real, i: int, r: Option<T>, it: DiscreteLineSegmentIterator<'a, T>) -> bool {
    if i + 1 == s.len() { r == Some(s[i]) && at(it, s, d, i + 1, 0) }
    else { r is Some && exists|n: int| #[trigger] is_steps(seg_len(s, i), d, n) && is_cut(s, i, 0, n, r->0) && at(it, s, d, i, 1) }
}
"""


def make(repo, d):
    s = Spec("L16" if d == 2 else "L16_3", repo)
    r, gv = R[d], f"GenericVector{d}"
    cs = ("rx", "ry", "rz")[:d]
    s.prelude("vec", "prim", "stdx")
    s.broadcast("scal", f"vec{d}")
    s.type(r, "DiscreteLineSegmentIterator")
    s.pure(PURE)
    s.ghost(GHOST.replace("@GV@", gv).replace("@SQ@", f"sq{d}")
            .replace("@STEP@", " && ".join(f"{c}(st) == ({c}(s[i + 1]) - {c}(s[i])) / (n as real)" for c in cs))
            .replace("@CUT@", " && ".join(f"{c}(p) == {c}(s[i]) + (({c}(s[i + 1]) - {c}(s[i])) / (n as real)) * (j as real)" for c in cs)))
    it = "DiscreteLineSegmentIterator"
    s.fn(r, it, "new", ens="""rv(distance) > 0real && fits(points@, rv(distance)) ==> at(r, points@, rv(distance), 0, 0)""")
    dz = ", ".join(f"{c}(b) - {c}(a)" for c in cs) + (", 0real" if d == 2 else "")
    s.fn(r, it, "initialize_step", req="""old(self).current_index + 1 < old(self).points.len(), fits(old(self).points@, rv(old(self).distance))""",
         ens="""final(self).points == old(self).points, final(self).distance == old(self).distance,
        final(self).current_index == old(self).current_index, final(self).substep_index == old(self).substep_index,
        is_steps(seg_len(old(self).points@, old(self).current_index as int), rv(old(self).distance), final(self).num_substeps as int),
        step_of(final(self).step, old(self).points@, old(self).current_index as int, final(self).num_substeps as int)""",
         hints=[("entry", f"""proof {{
            let (s, i, d) = (self.points@, self.current_index as int, rv(self.distance));
            let (a, b) = (s[i], s[i + 1]);
            lemma_squares({dz});
            let q = sq{d}(b, a);
            let len = rsqrt(q);
            ax_rsqrt(q);
            assert(len == seg_len(s, i));
            lemma_zero_len(d);
            if len == 0real {{ lemma_root0(len, q); assert(0real / 1real == 0real); }}
            assert forall|c: real| len > 0real && #[trigger] is_int(c) && c - 1real < len / d <= c implies is_steps(len, d, c.floor()) && 1real <= c <= usize::MAX as int as real by {{
                lemma_ceil(len, d, c);
            }}
        }}""")])
    s.fn(r, f"Iterator for {it}", "next", inherent=f"impl<'a, T: {gv}> {it}<'a, T>", decreases="old(self).points@.len() - old(self).current_index",
         sig=lambda g, p, rt, w: (g, p, "Option<T>", w),
         rules=[sub_rule("std_contract", r"\.(copied)\(", r".\1_("), sub_rule("type", r"\(self\.substep_index\.as_\(\)\)", r"(AsPrim::<T::Scalar>::as_(self.substep_index))")],
         req="at(*old(self), old(self).points@, rv(old(self).distance), old(self).current_index as int, old(self).substep_index as int)",
         ens="""nexts(old(self).points@, rv(old(self).distance), old(self).current_index as int, old(self).substep_index as int, r, *final(self))""",
         hints=[("entry", """proof {
            let (s, d, i, j) = (self.points@, rv(self.distance), self.current_index as int, self.substep_index as int);
            assert forall|len: real, n: int, m: int| #[trigger] is_steps(len, d, n) && #[trigger] is_steps(len, d, m) implies n == m by { lemma_steps_unique(len, d, n, m); }
        }""")])
    tr = f"LineString{d}"
    s.trait_decls = {tr: 1}
    s.parts.append(("trait", (tr, f"{tr}<T: {gv}>", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {f"impl < T : {gv} > {tr} < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    s.fn(r, f"{tr} for Vec", "discretize", ens="rv(distance) > 0real && fits(self@, rv(distance)) ==> at(r, self@, rv(distance), 0, 0)",
         tens="rv(distance) > 0real && fits(self.pts(), rv(distance)) ==> at(r, self.pts(), rv(distance), 0, 0)")
    return s


def spec(repo):
    return make(repo, 2)
