from vgen import Spec, sub_rule, r_enumerate, r_max_by, r_vec_list
import L17

R = {2: "src/linestring_2d.rs", 3: "src/linestring_3d.rs"}
S = {2: "src/linestring_2d/simplify.rs", 3: "src/linestring_3d/simplify.rs"}

DIST = {2: """
pub open spec fn is_d<T>(a: T, b: T, p: T, r: real) -> bool { is_seg_dist2(a, b, p, r) }
""", 3: """
pub open spec fn is_d<T>(a: T, b: T, p: T, r: real) -> bool {
    if rx(a) != rx(b) || ry(a) != ry(b) || rz(a) != rz(b) { is_line_dist3(a, b, p, r) } else { r == sq3(a, p) }
}
"""}

GHOST = """
pub open spec fn val<S>(s: S) -> real { rv(s) }
/// the squared distance from p to the line between a and b
pub open spec fn dist<T>(a: T, b: T, p: T) -> real { choose|r: real| is_d(a, b, p, r) }
pub proof fn lemma_dist_is<T>(a: T, b: T, p: T) ensures @DISTIS@
{
    assert forall|r: real| #[trigger] is_d(a, b, p, r) implies r == dist(a, b, p) by {
        let q = dist(a, b, p);
        assert(is_d(a, b, p, q));
        lemma_same(a, b, p, r, q);
    }
    @DISTIS2@
}
/// squared distance of the i-th point to the line through the ends of the stretch
pub open spec fn dev<T>(p: Seq<T>, i: int) -> real { dist(p[0], p[p.len() - 1], p[i]) }
pub open spec fn all_near<T>(p: Seq<T>, e: real) -> bool { forall|i: int| 0 < i < p.len() - 1 ==> #[trigger] dev(p, i) <= e }
/// m is a farthest inner point, and it is farther than e
pub open spec fn far<T>(p: Seq<T>, e: real, m: int) -> bool {
    0 < m < p.len() - 1 && dev(p, m) > e && forall|i: int| 0 < i < p.len() - 1 ==> #[trigger] dev(p, i) <= dev(p, m)
}
pub open spec fn shift(s: Seq<int>, m: int) -> Seq<int> { s.map_values(|x: int| x + m) }
/// pos are the positions (after the first) the algorithm keeps of the stretch p: the last one if all points
/// between are near the line through the ends, and else those of the two parts at a farthest point
pub open spec fn rdp<T>(p: Seq<T>, e: real, pos: Seq<int>) -> bool decreases p.len() {
    if p.len() <= 2 { pos == seq![p.len() - 1] }
    else {
        ||| all_near(p, e) && pos == seq![p.len() - 1]
        ||| exists|m: int, a: Seq<int>, b: Seq<int>| #![trigger split(p, m, a, b)] far(p, e, m) && pos == a + shift(b, m) && split(p, m, a, b)
            && 0 < m < p.len() - 1 && rdp(p.subrange(0, m + 1), e, a) && rdp(p.subrange(m, p.len() as int), e, b)
    }
}
pub open spec fn split<T>(p: Seq<T>, m: int, a: Seq<int>, b: Seq<int>) -> bool { true }
pub proof fn lemma_rdp_leaf<T>(p: Seq<T>, e: real)
    requires p.len() <= 2 || all_near(p, e) ensures rdp(p, e, seq![p.len() - 1])
{
}
pub proof fn lemma_rdp_node<T>(p: Seq<T>, e: real, m: int)
    requires p.len() > 2, far(p, e, m),
    ensures forall|a: Seq<int>, b: Seq<int>| #[trigger] rdp(p.subrange(0, m + 1), e, a) && #[trigger] rdp(p.subrange(m, p.len() as int), e, b)
        ==> rdp(p, e, a + shift(b, m)),
{
    assert forall|a: Seq<int>, b: Seq<int>| #[trigger] rdp(p.subrange(0, m + 1), e, a) && #[trigger] rdp(p.subrange(m, p.len() as int), e, b)
        implies rdp(p, e, a + shift(b, m)) by { assert(split(p, m, a, b)); }
}
/// what the relation means for the whole polyline
pub open spec fn prev(pos: Seq<int>, k: int) -> int { if k == 0 { 0 } else { pos[k - 1] } }
/// squared distance of the dropped i-th point to the line between the kept points around it
pub open spec fn dropped<T>(p: Seq<T>, pos: Seq<int>, k: int, i: int) -> real { dist(p[prev(pos, k)], p[pos[k]], p[i]) }
pub open spec fn kept<T>(p: Seq<T>, e: real, pos: Seq<int>) -> bool {
    &&& pos.len() >= 1 && pos.last() == p.len() - 1
    &&& forall|k: int| 0 <= k < pos.len() ==> (p.len() > 1 ==> prev(pos, k) < #[trigger] pos[k]) && 0 <= pos[k] < p.len()
    &&& forall|k: int, i: int| 0 <= k < pos.len() && prev(pos, k) < i < pos[k] ==> #[trigger] dropped(p, pos, k, i) <= e
}
pub proof fn lemma_kept_leaf<T>(p: Seq<T>, e: real)
    requires p.len() >= 1, p.len() <= 2 || all_near(p, e) ensures kept(p, e, seq![p.len() - 1])
{
    let pos = seq![p.len() - 1];
    assert(pos.len() == 1 && pos[0] == p.len() - 1);
    assert forall|k: int, i: int| 0 <= k < pos.len() && prev(pos, k) < i < pos[k] implies #[trigger] dropped(p, pos, k, i) <= e by {
        assert(dev(p, i) <= e);
    }
}
pub proof fn lemma_at<A>(p: Seq<A>, m: int)
    requires 0 < m < p.len() - 1
    ensures p.subrange(0, m + 1).len() == m + 1, p.subrange(m, p.len() as int).len() == p.len() - m,
        forall|i: int| 0 <= i <= m ==> #[trigger] p.subrange(0, m + 1)[i] == p[i],
        forall|i: int| 0 <= i < p.len() - m ==> #[trigger] p.subrange(m, p.len() as int)[i] == p[i + m],
{}
pub proof fn lemma_kept_at<T>(p: Seq<T>, e: real, m: int, a: Seq<int>, b: Seq<int>, k: int, i: int)
    requires 0 < m < p.len() - 1, kept(p.subrange(0, m + 1), e, a), kept(p.subrange(m, p.len() as int), e, b), 0 <= k < a.len() + b.len(), prev(a + shift(b, m), k) < i < (a + shift(b, m))[k]
    ensures dropped(p, a + shift(b, m), k, i) <= e
{
    let pos = a + shift(b, m);
    let (q1, q2) = (p.subrange(0, m + 1), p.subrange(m, p.len() as int));
    lemma_at(p, m);
    let n = a.len() as int;
    assert(a[n - 1] == m);
    if k < n { assert(pos[k] == a[k] && prev(pos, k) == prev(a, k)); } else { assert(pos[k] == b[k - n] + m && prev(pos, k) == prev(b, k - n) + m); }
    if k > 0 { if k < n { assert(prev(a, k - 1) < a[k - 1]); } else if k > n { assert(prev(b, k - n - 1) < b[k - n - 1]); } }
    if k < n {
        assert(0 <= prev(a, k)) by { if k > 0 { assert(0 <= a[k - 1]); } }
        assert(a[k] <= m);
        assert(q1[i] == p[i]); assert(q1[a[k]] == p[pos[k]]); assert(q1[prev(a, k)] == p[prev(pos, k)]);
        assert(dropped(q1, a, k, i) <= e);
    } else {
        let (k2, i2) = (k - n, i - m);
        assert(0 <= prev(b, k2)) by { if k2 > 0 { assert(0 <= b[k2 - 1]); } }
        assert(b[k2] == pos[k] - m);
        assert(q2[i2] == p[i]); assert(q2[b[k2]] == p[pos[k]]); assert(q2[prev(b, k2)] == p[prev(pos, k)]);
        assert(dropped(q2, b, k2, i2) <= e);
    }
}
pub proof fn lemma_kept_node<T>(p: Seq<T>, e: real, m: int, a: Seq<int>, b: Seq<int>)
    requires 0 < m < p.len() - 1, kept(p.subrange(0, m + 1), e, a), kept(p.subrange(m, p.len() as int), e, b),
    ensures kept(p, e, a + shift(b, m)),
{
    let pos = a + shift(b, m);
    let (q1, q2) = (p.subrange(0, m + 1), p.subrange(m, p.len() as int));
    lemma_at(p, m);
    let n = a.len() as int;
    assert(pos.len() == n + b.len());
    assert(a[n - 1] == m);
    assert forall|k: int| 0 <= k < pos.len() implies (if k < n { #[trigger] pos[k] == a[k] && prev(pos, k) == prev(a, k) }
        else { pos[k] == b[k - n] + m && prev(pos, k) == prev(b, k - n) + m }) by {}
    assert(b[b.len() - 1] == q2.len() - 1);
    assert(pos[pos.len() - 1] == b[b.len() - 1] + m);
    assert forall|k: int| 0 <= k < pos.len() implies (p.len() > 1 ==> prev(pos, k) < #[trigger] pos[k]) && 0 <= pos[k] < p.len() by {
        if k < n { assert(prev(a, k) < a[k]); } else { assert(prev(b, k - n) < b[k - n]); }
    }
    assert forall|k: int, i: int| 0 <= k < pos.len() && prev(pos, k) < i < pos[k] implies #[trigger] dropped(p, pos, k, i) <= e by { lemma_kept_at(p, e, m, a, b, k, i); }
}
pub proof fn lemma_kept<T>(p: Seq<T>, e: real, pos: Seq<int>)
    requires p.len() >= 1, rdp(p, e, pos) ensures kept(p, e, pos) decreases p.len()
{
    if p.len() <= 2 || (all_near(p, e) && pos == seq![p.len() - 1]) {
        lemma_kept_leaf(p, e);
    } else {
        let (m, a, b) = choose|m: int, a: Seq<int>, b: Seq<int>| #![trigger split(p, m, a, b)] far(p, e, m) && pos == a + shift(b, m) && split(p, m, a, b)
            && 0 < m < p.len() - 1 && rdp(p.subrange(0, m + 1), e, a) && rdp(p.subrange(m, p.len() as int), e, b);
        lemma_kept(p.subrange(0, m + 1), e, a);
        lemma_kept(p.subrange(m, p.len() as int), e, b);
        lemma_kept_node(p, e, m, a, b);
    }
}
/// the elements of s at the positions
pub open spec fn pick<A>(s: Seq<A>, pos: Seq<int>) -> Seq<A> { pos.map_values(|k: int| s[k]) }
/// the best position so far among the first n
pub open spec fn best_of<T, S>(p: Seq<T>, n: int, b: Option<(S, usize)>) -> bool {
    &&& b is None ==> n <= 1
    &&& b is Some ==> 0 < (b->0).1 < n && rv((b->0).0) == dev(p, (b->0).1 as int) && forall|i: int| 0 < i < n ==> #[trigger] dev(p, i) <= rv((b->0).0)
}
pub open spec fn it_at<A>(rest: Seq<&A>, s: Seq<A>, k: int) -> bool {
    0 <= k <= s.len() && rest.len() == s.len() - k && forall|j: int| 0 <= j < rest.len() ==> *(#[trigger] rest[j]) == s[k + j]
}
/// out grew by the kept elements of the stretch x
pub open spec fn grown<A, T>(old_: Seq<A>, new_: Seq<A>, x: Seq<A>, p: Seq<T>, e: real) -> bool {
    exists|pos: Seq<int>| #[trigger] rdp(p, e, pos) && new_ == old_ + pick(x, pos)
}
pub proof fn lemma_grown_leaf<A, T>(x: Seq<A>, p: Seq<T>, e: real)
    requires x.len() == p.len(), p.len() >= 1, p.len() <= 2 || all_near(p, e),
    ensures forall|o: Seq<A>| grown(o, #[trigger] o.push(x[x.len() - 1]), x, p, e)
{
    lemma_rdp_leaf(p, e);
    assert forall|o: Seq<A>| grown(o, #[trigger] o.push(x[x.len() - 1]), x, p, e) by {
        let pos = seq![p.len() - 1];
        assert(rdp(p, e, pos));
        assert(o.push(x[x.len() - 1]) =~= o + pick(x, pos));
    }
}
pub proof fn lemma_grown_node<A, T>(x: Seq<A>, p: Seq<T>, e: real, m: int, x1: Seq<A>, x2: Seq<A>, p1: Seq<T>, p2: Seq<T>)
    requires x.len() == p.len(), p.len() > 2, far(p, e, m), 0 < m < p.len() - 1, x1 == x.subrange(0, m + 1), x2 == x.subrange(m, x.len() as int),
        p1 == p.subrange(0, m + 1), p2 == p.subrange(m, p.len() as int),
    ensures forall|o: Seq<A>, n: Seq<A>, w: Seq<A>| #[trigger] grown(o, n, x1, p1, e) && #[trigger] grown(n, w, x2, p2, e) ==> grown(o, w, x, p, e)
{
    hide(rdp); hide(far);
    lemma_rdp_node(p, e, m);
    assert forall|o: Seq<A>, n: Seq<A>, w: Seq<A>| #[trigger] grown(o, n, x1, p1, e) && #[trigger] grown(n, w, x2, p2, e) implies grown(o, w, x, p, e) by {
        let a = choose|pos: Seq<int>| #[trigger] rdp(p1, e, pos) && n == o + pick(x1, pos);
        let b = choose|pos: Seq<int>| #[trigger] rdp(p2, e, pos) && w == n + pick(x2, pos);
        let pos = a + shift(b, m);
        assert(rdp(p, e, pos));
        lemma_kept(p1, e, a);
        lemma_kept(p2, e, b);
        lemma_pick(x, m, p, e, a, b);
        assert(w =~= o + pick(x, pos));
    }
}
pub proof fn lemma_pick<A, T>(x: Seq<A>, m: int, p: Seq<T>, e: real, a: Seq<int>, b: Seq<int>)
    requires x.len() == p.len(), 0 < m < p.len() - 1, kept(p.subrange(0, m + 1), e, a), kept(p.subrange(m, p.len() as int), e, b),
    ensures pick(x, a + shift(b, m)) == pick(x.subrange(0, m + 1), a) + pick(x.subrange(m, x.len() as int), b),
{
    lemma_at(x, m);
    lemma_at(p, m);
    let pos = a + shift(b, m);
    let (l, r) = (pick(x, pos), pick(x.subrange(0, m + 1), a) + pick(x.subrange(m, x.len() as int), b));
    assert forall|k: int| 0 <= k < l.len() implies l[k] == r[k] by {
        if k < a.len() { assert(0 <= a[k] < m + 1); } else { assert(0 <= b[k - a.len()]); }
    }
    assert(l =~= r);
}
/// all kept elements: the first one and those the recursion adds
pub open spec fn simplified<A, T>(r: Seq<A>, x: Seq<A>, p: Seq<T>, e: real) -> bool {
    exists|pos: Seq<int>| #[trigger] rdp(p, e, pos) && kept(p, e, pos) && r == seq![x[0]] + pick(x, pos)
}
pub proof fn lemma_simplified<A, T>(x: Seq<A>, p: Seq<T>, e: real)
    requires x.len() == p.len(), p.len() >= 1,
    ensures forall|o: Seq<A>, r: Seq<A>| o == seq![x[0]] && #[trigger] grown(o, r, x, p, e) ==> simplified(r, x, p, e)
{
    assert forall|o: Seq<A>, r: Seq<A>| o == seq![x[0]] && #[trigger] grown(o, r, x, p, e) implies simplified(r, x, p, e) by {
        let pos = choose|pos: Seq<int>| #[trigger] rdp(p, e, pos) && r == o + pick(x, pos);
        lemma_kept(p, e, pos);
    }
}
/// the points an index list names
pub open spec fn named<T>(v: Seq<T>, ix: Seq<usize>) -> Seq<T> { ix.map_values(|k: usize| v[k as int]) }
pub open spec fn in_range<T>(v: Seq<T>, ix: Seq<usize>) -> bool { forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] < v.len() }
"""

DI = {2: ("forall|r: real| #[trigger] is_seg_dist2(a, b, p, r) ==> r == dist(a, b, p)",
          "assert forall|r: real| #[trigger] is_seg_dist2(a, b, p, r) implies r == dist(a, b, p) by { assert(is_d(a, b, p, r)); }"),
      3: ("forall|r: real| #[trigger] is_line_dist3(a, b, p, r) && (rx(a) != rx(b) || ry(a) != ry(b) || rz(a) != rz(b)) ==> r == dist(a, b, p),\n"
          "    rx(a) == rx(b) && ry(a) == ry(b) && rz(a) == rz(b) ==> sq3(a, p) == dist(a, b, p)",
          "assert forall|r: real| #[trigger] is_line_dist3(a, b, p, r) && (rx(a) != rx(b) || ry(a) != ry(b) || rz(a) != rz(b)) implies r == dist(a, b, p) by { assert(is_d(a, b, p, r)); }\n"
          "    if rx(a) == rx(b) && ry(a) == ry(b) && rz(a) == rz(b) { assert(is_d(a, b, p, sq3(a, p))); }")}

SAME = {2: """
pub proof fn lemma_same<T>(a: T, b: T, p: T, r: real, q: real) requires is_d(a, b, p, r), is_d(a, b, p, q) ensures r == q {
    let t = choose|t: real| 0real <= t <= 1real && #[trigger] seg2(a, b, p, t) == r;
    let u = choose|u: real| 0real <= u <= 1real && #[trigger] seg2(a, b, p, u) == q;
}
""", 3: """
pub proof fn lemma_same<T>(a: T, b: T, p: T, r: real, q: real) requires is_d(a, b, p, r), is_d(a, b, p, q) ensures r == q {
    if rx(a) != rx(b) || ry(a) != ry(b) || rz(a) != rz(b) {
        let t = choose|t: real| #[trigger] seg3(a, b, p, t) == r;
        let u = choose|u: real| #[trigger] seg3(a, b, p, u) == q;
    }
}
"""}

LOOP = """invariant @P@.len() >= 3, @X@.len() == @P@.len(), skip0__ == 1, take0__ == @P@.len() - 2, it_at(w0__.remaining(), @X@, e0__ as int), e0__ <= @P@.len() - 1,
        @MORE@
        best_of(@P@, e0__ as int, best__),
    ensures best_of(@P@, @P@.len() - 1, best__),
    decreases @P@.len() - e0__"""


def make(repo, d):
    s = Spec("L09" if d == 2 else "L09_3", repo)
    r, si = R[d], S[d]
    L17.base(s)
    s.prelude("stdx")
    s.broadcast("scal", f"vec{d}")
    s.use("core::cmp::Ordering")
    s.use("vstd::std_specs::iter::IteratorSpec")
    s.ghost(DIST[d]); s.ghost(SAME[d]); s.ghost(GHOST.replace("@DISTIS@", DI[d][0]).replace("@DISTIS2@", DI[d][1]))
    tail = "lemma_dist_is(l0, l1, p);"
    if d == 2:
        L17.fns2(s, ", rv(r) == dist(l0, l1, p)", tail)
    else:
        L17.fns3(s, "", ", rv(r) == dist(l0, l1, p)", tail)
    sq = "val(distance_predicate) * val(distance_predicate)"

    def rec(name, out, x, p, more, entry="", pre=""):
        s.fn(si, None, name, rules=[r_max_by, r_enumerate],
             req=f"{x}.len() >= 1" + more,
             ens=f"grown(old({out})@, final({out})@, {x}@, {p}, val(distance_predicate_sq))",
             decreases=f"{x}.len()",
             loops=[("loop", LOOP.replace("@P@", p).replace("@X@", x + "@").replace("@MORE@", (more[2:] + "," if more else "") +
                     (" start_point == points@[0], end_point == points@[points@.len() - 1]," if not more else
                      " start_index == indices@[0], end_index == indices@[indices@.len() - 1],")))],
             hints=[("entry", f"""proof {{
                let (x, p, e) = ({x}@, {p}, val(distance_predicate_sq));
                {pre}
                if p.len() <= 2 || all_near(p, e) {{ lemma_grown_leaf(x, p, e); }}
                assert forall|m: int| p.len() > 2 && #[trigger] far(p, e, m) implies parts(x, p, e, m) by {{
                    {entry}
                    lemma_grown_node(x, p, e, m, x.subrange(0, m + 1), x.subrange(m, x.len() as int), p.subrange(0, m + 1), p.subrange(m, p.len() as int));
                }}
             }}"""),
                    (("after_loop", 0), f"""proof {{
                let (x, p, e, b) = ({x}@, {p}, val(distance_predicate_sq), best__);
                if val((b->0).0) <= e {{ assert(all_near(p, e)); }} else {{ assert(far(p, e, (b->0).1 as int)); assert(parts(x, p, e, (b->0).1 as int)); }}
             }}""")])
    s.ghost("""
pub open spec fn parts<A, T>(x: Seq<A>, p: Seq<T>, e: real, m: int) -> bool {
    forall|o: Seq<A>, n: Seq<A>, w: Seq<A>| #[trigger] grown(o, n, x.subrange(0, m + 1), p.subrange(0, m + 1), e)
        && #[trigger] grown(n, w, x.subrange(m, x.len() as int), p.subrange(m, p.len() as int), e) ==> grown(o, w, x, p, e)
}
""")
    rec("simplify_rdp_recursive", "rv", "points", "points@", "")
    rec("indexed_simplify_rdp_recursive", "simplified_indices", "indices", "named(vertices@, indices@)", ", in_range(vertices@, indices@)",
        "", """assert forall|k: int| 0 <= k <= x.len() implies #[trigger] named(vertices@, x.subrange(0, k)) == p.subrange(0, k) by {
                    assert(named(vertices@, x.subrange(0, k)) =~= p.subrange(0, k)); }
                assert forall|k: int| 0 <= k <= x.len() implies #[trigger] named(vertices@, x.subrange(k, x.len() as int)) == p.subrange(k, p.len() as int) by {
                    assert(named(vertices@, x.subrange(k, x.len() as int)) =~= p.subrange(k, p.len() as int)); }""")
    lem = lambda x, p: [("entry", f"proof {{ if {x}.len() > 0 {{ lemma_simplified({x}@, {p}, {sq}); }} }}")]
    tv = sub_rule("std_contract", r"\.(to_vec|clone)\(", r".\1_(")
    s.fn(si, None, "indexed_simplify_rdp", rules=[r_vec_list, tv],
         req="in_range(vertices@, indices@), vertices@.len() > 2 ==> indices@.len() >= 1",
         ens=f"if vertices@.len() <= 2 {{ r@ == indices@ }} else {{ simplified(r@, indices@, named(vertices@, indices@), {sq}) }}",
         hints=lem("indices", "named(vertices@, indices@)"))
    if d == 3:
        s.fn(si, None, "simplify_rdp", rules=[r_vec_list, tv], ens=f"if line@.len() <= 2 {{ r@ == line@ }} else {{ simplified(r@, line@, line@, {sq}) }}",
             hints=lem("line", "line@"))
    tr = f"LineString{d}"
    s.trait_decls = {tr: 1}
    s.parts.append(("trait", (tr, f"{tr}<T: GenericVector{d}>: Sized", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {f"impl < T : GenericVector{d} > {tr} < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    e = "if {p}.len() <= 2 {{ {r} == {p} }} else {{ simplified({r}, {p}, {p}, %s) }}" % sq
    s.fn(r, f"{tr} for Vec", "simplify_rdp", rules=[r_vec_list, tv], ens=e.format(p="self@", r="r@"), tens=e.format(p="self.pts()", r="r.pts()"), hints=lem("self", "self@"))
    return s


def spec(repo):
    return make(repo, 2)
