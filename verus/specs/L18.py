from vgen import Spec, sub_rule, r_option_map

R = {2: "src/linestring_2d.rs", 3: "src/linestring_3d.rs"}
I = {2: "src/linestring_2d/impls.rs", 3: "src/linestring_3d/impls.rs"}

GHOST = """
/// w walks s and stands at its k-th pair
pub open spec fn win_at<'a, T: @GV@>(w: WindowIterator<'a, T>, s: Seq<T>, k: int) -> bool {
    0 <= k <= s.len() && win_rest(w.0) == s.skip(k) && win_size(w.0) == 2
}
pub open spec fn chk_at<'a, T: @GV@>(w: ChunkIterator<'a, T>, s: Seq<T>, k: int) -> bool {
    &&& 0 <= k && 2 * k <= s.len() && chk_size(w.0) == 2
    &&& chk_rest(w.0) == s.take(s.len() - s.len() % 2).skip(2 * k) && chk_rem(w.0) == s.skip(s.len() - s.len() % 2)
}
pub open spec fn max0(a: int) -> int { if a > 0 { a } else { 0 } }
"""


def window_base(s, d):
    """the pair iterator and its contract, for specs of functions that loop over it (proved again there)"""
    r, im, gv, ln = R[d], I[d], f"GenericVector{d}", f"Line{d}"
    s.prelude("iters")
    s.type(r, "WindowIterator")
    a = GHOST.index("pub open spec fn chk_at"); b = GHOST.index("pub open spec fn max0")
    s.ghost((GHOST[:a] + GHOST[b:]).replace("@GV@", gv))
    fn_window_next(s, d)


def fn_window_next(s, d):
    r, im, gv, ln = R[d], I[d], f"GenericVector{d}", f"Line{d}"
    s.fn(im, "Iterator for WindowIterator", "next", inherent=f"impl<'a, T: {gv}> WindowIterator<'a, T>", rules=[r_option_map],
         sig=lambda g, p, rt, w: (g, p, f"Option<{ln}<T>>", w),
         req="win_size(old(self).0) == 2",
         ens=f"""forall|s: Seq<T>, k: int| #[trigger] win_at(*old(self), s, k) ==> {{
            &&& r is Some <==> k + 1 < s.len()
            &&& r is Some ==> r->0 == ({ln} {{ start: s[k], end: s[k + 1] }}) && win_at(*final(self), s, k + 1)
            &&& r is None ==> win_at(*final(self), s, k)
        }}""", hints=[("wrap", """proof { assert forall|s: Seq<T>, k: int| #[trigger] win_at(*old(self), s, k) && k < s.len() implies
                s.skip(k).skip(1) =~= s.skip(k + 1) by {} }""")])


def fn_window_iter(s, d):
    s.fn(R[d], f"LineString{d} for Vec", "window_iter", ens="win_at(r, self@, 0)", tens="win_at(r, self.pts(), 0)",
         hints=[("entry", "assert(self@.skip(0) =~= self@);")])


def plain_values(s, d):
    """lines as plain values: made from points or from numbers, mapped, compared"""
    r, im, gv, ln = R[d], I[d], f"GenericVector{d}", f"Line{d}"
    c = ("rx", "ry", "rz")[:d]
    at = lambda p, a, k: ", ".join(f"{c[i]}({p}) == rv({a(k + i)})" for i in range(d))
    ends = lambda a: f"{at('r.start', a, 0)}, {at('r.end', a, d)}"
    hd = f"impl<T: {gv}> {ln}<T>"
    s.fn(r, ln, "new", ens="r.start == start && r.end == end")
    if d == 3:
        s.fn(r, ln, "apply", req="call_requires(f, (self.start,)) && call_requires(f, (self.end,))",
             ens="call_ensures(f, (self.start,), r.start) && call_ensures(f, (self.end,), r.end)")
        # Copy + Into<T> is taken at T itself: the conversion of the points is that of their type
        s.fn(im, "From for Line3", "from", inhead="From<[IT;2]>", inherent=hd, rename="from_points_",
             sig=lambda g, p, rt, w: ("", p.replace("IT", "T"), rt, ""), rules=[sub_rule("into_self", r"\.into\(\)", "")],
             ens="r.start == pos[0] && r.end == pos[1]")
        s.fn(im, "From for Line3", "from", inhead="From<[T::Scalar;6]>", inherent=hd, rename="from_numbers_",
             ens=ends(lambda k: f"value[{k}]"))
    else:
        s.fn(im, "From for Line2", "from", inhead="From<[T::Scalar;4]>", inherent=hd, rename="from_numbers_",
             ens=ends(lambda k: f"array[{k}]"))
        s.fn(im, "From for Line2", "from", inhead="From<[[T::Scalar;2];2]>", inherent=hd, rename="from_pairs_",
             ens=ends(lambda k: f"array[{k // 2}][{k % 2}]"))
        s.fn(im, "PartialEq for Line2", "eq", inherent=hd, rename="eq_",
             ens="r == (rx(self.start) == rx(other.start) && ry(self.start) == ry(other.start) "
                 "&& rx(self.end) == rx(other.end) && ry(self.end) == ry(other.end))")
        # approximately equal up to direction; with a tolerance the other direction counts only when the starts are apart
        eps = lambda g, p, rt, w: (g, p.replace("Self::Epsilon", "T::Scalar"), rt.replace("Self::Epsilon", "T::Scalar"), w)
        sc = sub_rule("scalar_method", r"T::Scalar::(ulps_eq|abs_diff_eq)\(", r"GenericScalar::\1(")
        at = lambda p, q: f"(rx({p}) == rx({q}) && ry({p}) == ry({q}))"
        s.fn(im, "UlpsEq for Line2", "ulps_eq", inherent=hd, sig=eps,
             ens=f"r == ({at('self.start', 'other.start')} && {at('self.end', 'other.end')} || {at('self.start', 'other.end')} && {at('self.end', 'other.start')})")
        at = lambda p, q: f"near({p}, {q}, rv(epsilon))"
        same, back = f"{at('self.start', 'other.start')} && {at('self.end', 'other.end')}", f"{at('self.start', 'other.end')} && {at('self.end', 'other.start')}"
        s.ghost("pub open spec fn near<T: HasXY>(p: T, q: T, e: real) -> bool { rabs(rx(p) - rx(q)) <= e && rabs(ry(p) - ry(q)) <= e }")
        s.fn(im, "AbsDiffEq for Line2", "abs_diff_eq", inherent=hd, sig=eps,
             ens=f"r ==> {same} || {back}, {same} ==> r, {back} && !{at('self.start', 'other.start')} ==> r")
        s.fn(im, "ExactSizeIterator for WindowIterator", "len", inherent=f"impl<'a, T: {gv}> WindowIterator<'a, T>", rename="exact_len_",
             ens="forall|s: Seq<T>, k: int| #[trigger] win_at(*self, s, k) ==> r == max0(s.len() - k - 1)")


def make(repo, d):
    s = Spec("L18" if d == 2 else "L18_3", repo)
    r, im, gv, ln = R[d], I[d], f"GenericVector{d}", f"Line{d}"
    s.prelude("vec", "iters")
    s.broadcast("scal", "veq")
    s.assumptions.append("L18: slice windows / chunks_exact of the standard library walk the consecutive / disjoint runs "
                         "(prelude iters.rs); comparison of single points is that of vector-traits")
    s.type(r, ln, prefix="#[derive(Clone, Copy)]\n")
    s.type(r, "WindowIterator")
    s.type(r, "ChunkIterator")
    s.ghost(GHOST.replace("@GV@", gv))
    ll = sub_rule("iterator_len", r"\.len\(\)", ".it_len()")
    plain_values(s, d)
    hd = lambda n: f"impl<'a, T: {gv}> {n}<'a, T>"
    item = lambda g, p, rt, w: (g, p, f"Option<{ln}<T>>", w)
    for n, at, cnt in (("WindowIterator", "win_at", "max0(s.len() - k - 1)"), ("ChunkIterator", "chk_at", "s.len() / 2 - k")):
        s.fn(r, n, "is_empty", rules=[ll], req="win_size(self.0) > 0" if n[0] == "W" else "chk_ok(self.0)",
             ens=f"""forall|s: Seq<T>, k: int| #[trigger] {at}(*self, s, k) ==> r == ({cnt} == 0)""")
        s.fn(r, n, "len", rules=[ll], ens=f"""forall|s: Seq<T>, k: int| #[trigger] {at}(*self, s, k) ==> r == {cnt}""")
    s.fn(r, "ChunkIterator", "remainder", ens="""forall|s: Seq<T>, k: int| #[trigger] chk_at(*self, s, k) ==>
            r@ == s.skip(s.len() - s.len() % 2)""")
    fn_window_next(s, d)
    s.fn(im, "Iterator for ChunkIterator", "next", inherent=hd("ChunkIterator"), rules=[r_option_map], sig=item,
         req="chk_size(old(self).0) == 2",
         ens="""forall|s: Seq<T>, k: int| #[trigger] chk_at(*old(self), s, k) ==> {
            &&& r is Some <==> 2 * k + 1 < s.len()
            &&& r is Some ==> (r->0).start == s[2 * k] && (r->0).end == s[2 * k + 1] && chk_at(*final(self), s, k + 1)
            &&& r is None ==> chk_at(*final(self), s, k)
        }""", hints=[("wrap", """proof { assert forall|s: Seq<T>, k: int| #[trigger] chk_at(*old(self), s, k) && 2 * k + 2 <= s.len() implies
                s.take(s.len() - s.len() % 2).skip(2 * k).skip(2) =~= s.take(s.len() - s.len() % 2).skip(2 * (k + 1)) by {} }""")])
    tr = f"LineString{d}"
    s.trait_decls = {tr: 1, "Approx": 1}
    s.parts.append(("trait", (tr, f"{tr}<T: {gv}>", """spec fn pts(&self) -> Seq<T>;
        spec fn connected(&self) -> bool;""")))
    s.parts.append(("trait", ("Approx", f"Approx<T: {gv}>", "")))
    eq = " && ".join(f"{c}(self@[0]) == {c}(self@.last())" for c in ("rx", "ry", "rz")[:d])
    s.impl_extra = {f"impl < T : {gv} > {tr} < T > for Vec < T >": f"""
    open spec fn pts(&self) -> Seq<T> {{ self@ }}
    open spec fn connected(&self) -> bool {{ self@.len() == 0 || ({eq}) }}
    """}
    lv = f"{tr} for Vec"
    s.fn(r, lv, "is_connected", ens="r == self.connected()", tens="r == self.connected()")
    if d == 2:
        s.fn(r, lv, "point_count", ens="r == if self@.len() > 2 && self.connected() { self@.len() - 1 } else { self@.len() as int }")
    fn_window_iter(s, d)
    s.fn(r, lv, "chunk_iter", ens="chk_at(r, self@, 0)",
         hints=[("entry", "proof { let q = self@.take(self@.len() - self@.len() % 2); assert(q.skip(0) =~= q); }")])
    s.fn(r, lv, "apply", req="forall|i: int| 0 <= i < old(self).pts().len() ==> call_requires(*f, (#[trigger] old(self).pts()[i],))",
         ens="""final(self)@.len() == old(self)@.len(),
        forall|i: int| 0 <= i < final(self)@.len() ==> call_ensures(*f, (old(self)@[i],), #[trigger] final(self)@[i])""",
         hints=[(("before_loop", 0), "let ghost v0 = self@; assert(v0 == old(self).pts());")],
         loops=[("for", """invariant it0.seq().len() == v0.len(), v0 == old(self)@, v0 == old(self).pts(),
            forall|i: int| 0 <= i < v0.len() ==> *(#[trigger] it0.seq()[i]) == v0[i],
            forall|i: int| 0 <= i < v0.len() ==> call_requires(*f, (#[trigger] old(self).pts()[i],)),
            forall|i: int| 0 <= i < it0.index@ ==> call_ensures(*f, (v0[i],), *final(#[trigger] it0.seq()[i])),""")])
    eps = lambda g, p, rt, w: (g, p.replace("<T::Scalar as AbsDiffEq>::Epsilon", "T::Scalar"), rt, w)
    for n, rel, extra in (("ulps_eq", "ueq", ", epsilon, max_ulps"), ("abs_diff_eq", "adeq", ", epsilon")):
        s.fn(r, "Approx for Vec", n, sig=eps,
             ens=f"""r == (self@.len() == other@.len() && forall|i: int| 0 <= i < self@.len() ==> {rel}(#[trigger] self@[i], other@[i]{extra}))""",
             loops=[("for", f"""invariant
                it0.seq().len() == self@.len(),
                forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] it0.seq()[i]).0 == self@[i] && *it0.seq()[i].1 == other@[i],
                all__ ==> forall|i: int| 0 <= i < it0.index@ ==> {rel}(#[trigger] self@[i], other@[i]{extra}),
                !all__ ==> exists|i: int| 0 <= i < self@.len() && !{rel}(#[trigger] self@[i], other@[i]{extra}),
              ensures all__ ==> forall|i: int| 0 <= i < self@.len() ==> {rel}(#[trigger] self@[i], other@[i]{extra}),""")],
             attrs="#[verifier::loop_isolation(false)]")
    return s


def spec(repo):
    return make(repo, 2)
