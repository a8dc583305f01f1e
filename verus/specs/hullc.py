"""Combining two convex hulls: ghost text of L07."""

COMBINE = """
/// a partial hull: a convex ring, or at most two points
pub open spec fn partial<T>(l: Seq<T>) -> bool { l.len() <= 2 || pos(l) }
/// the next point of its own list is better than all others of it
pub proof fn lemma_own<T>(l: Seq<T>, k: int) requires partial(l), 0 <= k < l.len() ensures l.len() > 1 ==> best(l, l[k], l[if k + 1 == l.len() { 0 } else { k + 1 }]), l.len() == 1 ==> forall|e: T| #[trigger] best(l, l[k], e)
{
    let n = l.len() as int;
    let p = l[k];
    if n == 1 { assert forall|e: T| #[trigger] best(l, p, e) by { lemma_better_self(p, e); } }
    else {
        let k2 = if k + 1 == n { 0 } else { k + 1 };
        let e = l[k2];
        lemma_better_self(p, e);
        assert forall|i: int| 0 <= i < n implies better(p, e, #[trigger] l[i]) by {
            if i != k && i != k2 { assert(convex(l)); lemma_corner(l, k, i); assert(edge(l, k, l[i]) == turn(p, e, l[i])); }
        }
    }
}
pub proof fn lemma_low<T>(s: Seq<T>, a: Seq<T>, b: Seq<T>) requires s == a + b, a.len() > 0, low(a[0], a), low(a[0], b) ensures low(s[0], s)
{ assert forall|i: int| 0 <= i < s.len() implies same(s[0], #[trigger] s[i]) || before(s[0], s[i]) by { if i < a.len() { assert(s[i] == a[i]); } else { assert(s[i] == b[i - a.len()]); } } }
/// distinct points: no more of them than there are
pub proof fn lemma_wrap_len<T>(s: Seq<T>, h: Seq<T>) requires wrap(s, h) ensures h.len() <= s.len()
{
    reveal(wrap);
    let x = Seq::new(h.len(), |i: int| s.index_of(h[i]));
    assert forall|i: int| 0 <= i < x.len() implies 0 <= #[trigger] x[i] < s.len() && s[x[i]] == h[i] by { assert(s.contains(h[i])); }
    assert(x.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < x.len() && i != j implies x[i] != x[j] by { if i < j { lemma_distinct(h, i, j); } else { lemma_distinct(h, j, i); } }
    }
    x.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    let r = vstd::set_lib::set_int_range(0, s.len() as int);
    assert(x.to_set().subset_of(r)) by { assert forall|a: int| #[trigger] x.to_set().contains(a) implies r.contains(a) by { let i = x.index_of(a); assert(x[i] == a); } }
    vstd::set_lib::lemma_len_subset(x.to_set(), r);
}
/// the next corner is searched among the j points from lo on: e is the best of them and of e0
#[verifier::opaque]
pub open spec fn seek<T>(s: Seq<T>, h: Seq<T>, p: int, e0: int, e: int, lo: int, j: int) -> bool {
    &&& wrap(s, h) && 0 <= p < s.len() && 0 <= e < s.len() && 0 <= e0 < s.len() && h.last() == s[p]
    &&& better(s[p], s[e], s[e0])
    &&& forall|i: int| lo <= i < lo + j && 0 <= i < s.len() ==> better(s[p], s[e], #[trigger] s[i])
}
pub proof fn lemma_seek0<T>(s: Seq<T>, h: Seq<T>, p: int, e0: int, lo: int) requires wrap(s, h), 0 <= p < s.len(), 0 <= e0 < s.len(), h.last() == s[p] ensures seek(s, h, p, e0, e0, lo, 0)
{ reveal(seek); lemma_better_self(s[p], s[e0]); }
pub proof fn lemma_seek<T>(s: Seq<T>, h: Seq<T>, p: int, e0: int, e: int, lo: int, j: int, f: int)
    requires seek(s, h, p, e0, e, lo, j), 0 <= lo, 0 <= j, lo + j < s.len(),
        f == e || (f == lo + j && (turn(s[p], s[e], s[lo + j]) < 0real || (turn(s[p], s[e], s[lo + j]) == 0real && sq(s[p], s[lo + j]) >= sq(s[p], s[e])))),
        f == lo + j || s[lo + j] == s[p] || s[lo + j] == s[e] || better(s[p], s[e], s[lo + j]),
    ensures seek(s, h, p, e0, f, lo, j + 1)
{
    reveal(seek);
    lemma_wrap_step(s, h, e, lo + j);
    lemma_wrap_step(s, h, lo + j, lo + j);
    assert forall|i: int| lo <= i < lo + j + 1 && 0 <= i < s.len() implies better(s[p], s[f], #[trigger] s[i]) by { if i < lo + j { assert(better(s[p], s[e], s[i])); } }
}
/// the points a, then the points b; the other list was searched, e0 is the best of the own one
pub proof fn lemma_sought<T>(a: Seq<T>, b: Seq<T>, s: Seq<T>, h: Seq<T>, p: int, e0: int, e: int, own_a: bool)
    requires s == a + b, if own_a { seek(s, h, p, e0, e, a.len() as int, b.len() as int) && best(a, s[p], s[e0]) } else { seek(s, h, p, e0, e, 0, a.len() as int) && best(b, s[p], s[e0]) },
    ensures if same(s[e], h[0]) { hull_of(s, h) } else { wrap(s, h.push(s[e])) }
{
    reveal(seek);
    let (wx, wy) = wdir(h);
    lemma_wrap_cones(s, h);
    assert(best(s, s[p], s[e])) by {
        assert forall|i: int| 0 <= i < s.len() implies better(s[p], s[e], #[trigger] s[i]) by {
            if own_a && i < a.len() { assert(a[i] == s[i]); assert(better(s[p], s[e0], a[i])); lemma_better_trans(s[p], s[e], s[e0], s[i], wx, wy); }
            if !own_a && i >= a.len() { assert(b[i - a.len()] == s[i]); assert(better(s[p], s[e0], b[i - a.len()])); lemma_better_trans(s[p], s[e], s[e0], s[i], wx, wy); }
        }
    }
    if same(s[e], h[0]) { lemma_wrap_end(s, h, s[e]); } else { assert(s.contains(s[e])); lemma_wrap_push(s, h, s[e]); }
}
pub proof fn lemma_seek_len<T>(s: Seq<T>, h: Seq<T>, p: int, e0: int, e: int, lo: int, j: int) requires seek(s, h, p, e0, e, lo, j) ensures 0 <= e < s.len(), 0 <= p < s.len() { reveal(seek); }
"""

# ghost text next to the code: indices
INDEX = """
/// where a vertex index is in the list of a's indices followed by those of b
pub open spec fn place(x: VertexIndex, n: int) -> int { if x.from_a { x.index_index as int } else { n + x.index_index } }
pub open spec fn placed(x: VertexIndex, a: Seq<usize>, b: Seq<usize>) -> bool {
    if x.from_a { x.index_index < a.len() && a[x.index_index as int] == x.index } else { x.index_index < b.len() && b[x.index_index as int] == x.index }
}
/// lists that can be combined: partial hulls, the first point of a the lowest of all
pub open spec fn combinable<T>(v: Seq<T>, a: Seq<usize>, b: Seq<usize>) -> bool {
    &&& valid(v, a) && valid(v, b)
    &&& a.len() > 0 && b.len() > 0 ==> low(v[a[0] as int], at(v, a)) && low(v[a[0] as int], at(v, b)) && partial(at(v, a)) && partial(at(v, b))
}
#[verifier::opaque]
pub open spec fn joined<T>(v: Seq<T>, a: Seq<usize>, b: Seq<usize>, r: Seq<usize>) -> bool { r.len() > 0 && r[0] == a[0] && hull_of(at(v, a) + at(v, b), at(v, r)) && named_by(r, a + b) }
pub open spec fn combined<T>(v: Seq<T>, a: Seq<usize>, b: Seq<usize>, r: Seq<usize>) -> bool { if a.len() == 0 { r == b } else if b.len() == 0 { r == a } else { joined(v, a, b, r) } }
pub proof fn lemma_places<T>(v: Seq<T>, a: Seq<usize>, b: Seq<usize>, x: VertexIndex) requires placed(x, a, b) ensures 0 <= place(x, a.len() as int) < (a + b).len(), (at(v, a) + at(v, b))[place(x, a.len() as int)] == v[x.index as int], (a + b).contains(x.index)
{ let c = a + b; assert(c[place(x, a.len() as int)] == x.index); }
pub proof fn lemma_wrap_around(k: int, n: int) requires 0 <= k < n ensures (k + 1) % n == if k + 1 == n { 0int } else { k + 1 }
{ if k + 1 == n { vstd::arithmetic::div_mod::lemma_mod_self_0(n); } else { vstd::arithmetic::div_mod::lemma_small_mod((k + 1) as nat, n as nat); } }
/// the own list of a vertex index
pub proof fn lemma_next<T>(v: Seq<T>, l: Seq<usize>, k: int, e: T) requires partial(at(v, l)), 0 <= k < l.len()
    ensures ({ let k2 = if k + 1 == l.len() { 0 } else { k + 1 }; best(at(v, l), v[l[k] as int], if l[k2] != l[k] { v[l[k2] as int] } else { e }) })
{
    let p = at(v, l);
    let k2 = if k + 1 == l.len() { 0int } else { k + 1 };
    lemma_own(p, k);
    if l[k2] == l[k] && l.len() > 1 {
        if l.len() > 2 { if k < k2 { lemma_distinct(p, k, k2); } else { lemma_distinct(p, k2, k); } }
        assert(p[k2] == p[k]);
        assert forall|i: int| 0 <= i < p.len() implies better(p[k], e, #[trigger] p[i]) by { lemma_better_self(p[k], e); }
    }
}
"""

PAR = """
pub type Hull = Result<Vec<usize>, LinestringError>;
pub open spec fn mergeable<T>(v: Seq<T>, x: Hull, y: Hull) -> bool { x is Ok && y is Ok ==> combinable(v, (x->Ok_0)@, (y->Ok_0)@) }
pub open spec fn merged<T>(v: Seq<T>, x: Hull, y: Hull, o: Hull) -> bool { x is Ok && y is Ok ==> o is Ok && combined(v, (x->Ok_0)@, (y->Ok_0)@, (o->Ok_0)@) }
/// the hull of a piece of s
#[verifier::opaque]
pub open spec fn item<T>(v: Seq<T>, s: Seq<usize>, y: Hull) -> bool { y is Ok && (y->Ok_0)@.len() > 0 && named_by((y->Ok_0)@, s) && partial(at(v, (y->Ok_0)@)) }
/// acc is the hull of the items xs and of the lowest point
#[verifier::opaque]
pub open spec fn gathered<T>(v: Seq<T>, s: Seq<usize>, st: usize, xs: Seq<Hull>, acc: Hull) -> bool {
    &&& acc is Ok && (acc->Ok_0)@.len() > 0 && (acc->Ok_0)@[0] == st && pos(at(v, (acc->Ok_0)@)) && named_by((acc->Ok_0)@, s)
    &&& forall|j: int| 0 <= j < xs.len() ==> (#[trigger] xs[j]) is Ok
    &&& forall|j: int, i: int| 0 <= j < xs.len() && 0 <= i < (xs[j]->Ok_0)@.len() ==> cov(at(v, (acc->Ok_0)@), v[#[trigger] (xs[j]->Ok_0)@[i] as int])
}
/// the lowest point of s
pub open spec fn lowest<T>(v: Seq<T>, s: Seq<usize>, st: usize) -> bool { valid(v, s) && s.contains(st) && low(v[st as int], at(v, s)) }
pub proof fn lemma_gathered0<T>(v: Seq<T>, s: Seq<usize>, st: usize, o: Hull) requires lowest(v, s, st), o is Ok, (o->Ok_0)@.len() == 1, (o->Ok_0)@[0] == st ensures gathered(v, s, st, Seq::<Hull>::empty(), o) { reveal(gathered); }
pub proof fn lemma_named_low<T>(v: Seq<T>, s: Seq<usize>, st: usize, h: Seq<usize>) requires lowest(v, s, st), named_by(h, s) ensures low(v[st as int], at(v, h)), valid(v, h)
{
    let p = at(v, h);
    assert forall|i: int| 0 <= i < p.len() implies same(v[st as int], #[trigger] p[i]) || before(v[st as int], p[i]) by { assert(s.contains(h[i])); let j = s.index_of(h[i]); assert(at(v, s)[j] == p[i]); }
    lemma_valid(v, h, s);
}
/// what the combination of two hulls covers
pub proof fn lemma_joined<T>(v: Seq<T>, s: Seq<usize>, a: Seq<usize>, b: Seq<usize>, r: Seq<usize>) requires joined(v, a, b, r), named_by(a, s), named_by(b, s)
    ensures pos(at(v, r)), named_by(r, s), r.len() > 0, r[0] == a[0], forall|p: T| cov(at(v, a), p) ==> #[trigger] cov(at(v, r), p), forall|i: int| 0 <= i < b.len() ==> cov(at(v, r), v[#[trigger] b[i] as int]),
        forall|p: T| cov(at(v, b), p) ==> #[trigger] cov(at(v, r), p)
{
    reveal(joined);
    let (pa, pb, h) = (at(v, a), at(v, b), at(v, r));
    let u = pa + pb;
    assert forall|i: int| 0 <= i < pa.len() implies cov(h, #[trigger] pa[i]) by { assert(u[i] == pa[i]); }
    assert forall|i: int| 0 <= i < b.len() implies cov(h, v[#[trigger] b[i] as int]) by { assert(u[pa.len() + i] == pb[i]); assert(pb[i] == v[b[i] as int]); }
    assert forall|i: int| 0 <= i < pb.len() implies cov(h, #[trigger] pb[i]) by { assert(pb[i] == v[b[i] as int]); }
    lemma_cov_trans(pa, h); lemma_cov_trans(pb, h);
    assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) by { assert((a + b).contains(r[i])); let k = (a + b).index_of(r[i]); if k < a.len() { assert(s.contains(a[k])); } else { assert(s.contains(b[k - a.len()])); } }
}
pub proof fn lemma_fold_req<T>(v: Seq<T>, s: Seq<usize>, st: usize, xs: Seq<Hull>, x: Hull, y: Hull) requires lowest(v, s, st), gathered(v, s, st, xs, x), item(v, s, y) ensures mergeable(v, x, y)
{ reveal(gathered); reveal(item); lemma_named_low(v, s, st, (x->Ok_0)@); lemma_named_low(v, s, st, (y->Ok_0)@); }
pub proof fn lemma_fold<T>(v: Seq<T>, s: Seq<usize>, st: usize, xs: Seq<Hull>, x: Hull, y: Hull, o: Hull) requires lowest(v, s, st), gathered(v, s, st, xs, x), item(v, s, y), merged(v, x, y, o) ensures gathered(v, s, st, xs.push(y), o)
{
    reveal(gathered); reveal(item);
    lemma_fold_req(v, s, st, xs, x, y);
    lemma_joined(v, s, (x->Ok_0)@, (y->Ok_0)@, (o->Ok_0)@);
    let zs = xs.push(y);
    assert forall|j: int, i: int| 0 <= j < zs.len() && 0 <= i < (zs[j]->Ok_0)@.len() implies cov(at(v, (o->Ok_0)@), v[#[trigger] (zs[j]->Ok_0)@[i] as int]) by { if j < xs.len() { assert(zs[j] == xs[j]); assert(cov(at(v, (x->Ok_0)@), v[(xs[j]->Ok_0)@[i] as int])); } }
}
pub proof fn lemma_join_req<T>(v: Seq<T>, s: Seq<usize>, st: usize, xs: Seq<Hull>, x: Hull, ys: Seq<Hull>, y: Hull) requires lowest(v, s, st), gathered(v, s, st, xs, x), gathered(v, s, st, ys, y) ensures mergeable(v, x, y)
{ reveal(gathered); lemma_named_low(v, s, st, (x->Ok_0)@); lemma_named_low(v, s, st, (y->Ok_0)@); }
pub proof fn lemma_join<T>(v: Seq<T>, s: Seq<usize>, st: usize, xs: Seq<Hull>, x: Hull, ys: Seq<Hull>, y: Hull, o: Hull) requires lowest(v, s, st), gathered(v, s, st, xs, x), gathered(v, s, st, ys, y), merged(v, x, y, o) ensures gathered(v, s, st, xs + ys, o)
{
    reveal(gathered);
    lemma_join_req(v, s, st, xs, x, ys, y);
    lemma_joined(v, s, (x->Ok_0)@, (y->Ok_0)@, (o->Ok_0)@);
    let zs = xs + ys;
    assert forall|j: int| 0 <= j < zs.len() implies (#[trigger] zs[j]) is Ok by { if j < xs.len() { assert(xs[j] is Ok); } else { assert(ys[j - xs.len()] is Ok); } }
    assert forall|j: int, i: int| 0 <= j < zs.len() && 0 <= i < (zs[j]->Ok_0)@.len() implies cov(at(v, (o->Ok_0)@), v[#[trigger] (zs[j]->Ok_0)@[i] as int]) by {
        if j < xs.len() { assert(zs[j] == xs[j]); assert(cov(at(v, (x->Ok_0)@), v[(xs[j]->Ok_0)@[i] as int])); } else { assert(zs[j] == ys[j - xs.len()]); assert(cov(at(v, (y->Ok_0)@), v[(ys[j - xs.len()]->Ok_0)@[i] as int])); }
    }
}
/// the lowest points of the pieces, the lowest of these
pub proof fn lemma_lowest<T>(v: Seq<T>, s: Seq<usize>, r: Seq<&[usize]>, l: Seq<usize>, k: int)
    requires valid(v, s), pieces(r, s), l.len() == r.len(), forall|j: int| 0 <= j < r.len() ==> lowest(v, r[j]@, #[trigger] l[j]), 0 <= k < l.len(), low(v[l[k] as int], at(v, l)),
    ensures lowest(v, s, l[k])
{
    reveal(pieces);
    let st = v[l[k] as int];
    let p = at(v, s);
    assert forall|i: int| 0 <= i < p.len() implies same(st, #[trigger] p[i]) || before(st, p[i]) by {
        let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.contains(s[i]);
        let m = r[j]@.index_of(s[i]);
        assert(lowest(v, r[j]@, l[j]));
        assert(at(v, r[j]@)[m] == p[i]);
        assert(at(v, l)[j] == v[l[j] as int]);
    }
    assert(lowest(v, r[k]@, l[k]));
    let m = r[k]@.index_of(l[k]);
    assert(s.contains(r[k]@[m]));
}
pub proof fn lemma_piece<T>(v: Seq<T>, s: Seq<usize>, r: Seq<&[usize]>, j: int) requires valid(v, s), pieces(r, s), 0 <= j < r.len() ensures valid(v, r[j]@), r[j]@.len() > 0, named_by(r[j]@, s)
{ reveal(pieces); assert forall|i: int| 0 <= i < r[j]@.len() implies s.contains(#[trigger] r[j]@[i]) by {} lemma_valid(v, r[j]@, s); }
/// the hull of a piece
pub proof fn lemma_hull_item<T>(v: Seq<T>, s: Seq<usize>, c: Seq<usize>, y: Hull) requires valid(v, s), named_by(c, s), c.len() > 0, y is Ok, ihull(v, istrip(c), (y->Ok_0)@)
    ensures item(v, s, y), forall|i: int| 0 <= i < c.len() ==> cov(at(v, (y->Ok_0)@), v[#[trigger] c[i] as int])
{
    reveal(item); reveal(ihull_of);
    let (t, h) = (istrip(c), (y->Ok_0)@);
    assert forall|i: int| 0 <= i < c.len() implies t.contains(#[trigger] c[i]) by { if i == t.len() { assert(t[0] == c[i]); } else { assert(t[i] == c[i]); } }
    assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(s.contains(c[i])); }
    if t.len() > 2 { assert(at(v, t).len() > 0); assert forall|i: int| 0 <= i < h.len() implies s.contains(#[trigger] h[i]) by { assert(t.contains(h[i])); let k = t.index_of(h[i]); assert(s.contains(t[k])); } }
    assert forall|i: int| 0 <= i < c.len() implies cov(at(v, h), v[#[trigger] c[i] as int]) by {
        assert(t.contains(c[i])); let k = t.index_of(c[i]);
        if t.len() > 2 { assert(cov(at(v, h), at(v, t)[k])); } else { lemma_cov_member(at(v, h), k); }
    }
}
/// the hull of all pieces
pub proof fn lemma_gathered<T>(v: Seq<T>, s: Seq<usize>, st: usize, r: Seq<&[usize]>, xs: Seq<Hull>, o: Hull)
    requires lowest(v, s, st), pieces(r, s), xs.len() == r.len(), gathered(v, s, st, xs, o), forall|j: int| 0 <= j < r.len() ==> (#[trigger] xs[j]) is Ok && ihull(v, istrip(r[j]@), (xs[j]->Ok_0)@),
    ensures o is Ok, ihull_of(v, s, (o->Ok_0)@)
{
    reveal(gathered); reveal(ihull_of);
    let h = (o->Ok_0)@;
    let (p, q) = (at(v, h), at(v, s));
    assert forall|i: int| 0 <= i < q.len() implies cov(p, #[trigger] q[i]) by {
        assert(exists|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.contains(s[i])) by { reveal(pieces); }
        let j = choose|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.contains(s[i]);
        let m = r[j]@.index_of(s[i]);
        lemma_piece(v, s, r, j);
        let y = xs[j];
        lemma_hull_item(v, s, r[j]@, y);
        let g = at(v, (y->Ok_0)@);
        assert(cov(g, v[r[j]@[m] as int]));
        assert forall|i: int| 0 <= i < g.len() implies cov(p, #[trigger] g[i]) by { assert(cov(p, v[(xs[j]->Ok_0)@[i] as int])); }
        lemma_cov_trans(g, p);
    }
    assert forall|i: int| 0 <= i < p.len() implies q.contains(#[trigger] p[i]) by { assert(s.contains(h[i])); let j = s.index_of(h[i]); assert(q[j] == p[i]); }
}
/// a closed loop of the corners; two points or fewer are returned as they are
pub open spec fn presult<T>(v: Seq<T>, s: Seq<usize>, r: Seq<usize>) -> bool { if s.len() <= 2 { r == s } else { exists|h: Seq<usize>| ihull_of(v, s, h) && r == #[trigger] iclosed(h) } }
pub proof fn lemma_presult<T>(v: Seq<T>, s: Seq<usize>, h: Seq<usize>) requires s.len() > 2, ihull_of(v, s, h) ensures presult(v, s, iclosed(h)) {}
pub open spec fn loop_of<T>(h: Seq<T>) -> Seq<T> { if h.len() > 1 { h.push(h[0]) } else { h } }
/// the same for the points of a polyline
pub open spec fn ppresult<T>(s: Seq<T>, r: Seq<T>) -> bool { if s.len() <= 2 { r == s } else { exists|h: Seq<T>| hull_of(s, h) && r == #[trigger] loop_of(h) } }
pub open spec fn iota(n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| i as usize) }
pub proof fn lemma_iota<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures valid(s, iota(s.len() as int)), istrip(iota(s.len() as int)) == iota(s.len() as int), at(s, iota(s.len() as int)) == s
{
    let x = iota(s.len() as int);
    assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] == i by {}
    assert(at(s, x) =~= s);
    if x.len() > 1 { assert(x[0] == 0); assert(x.last() == x.len() - 1); }
}
pub proof fn lemma_points<T>(s: Seq<T>, x: Seq<usize>, r: Seq<T>) requires s.len() <= usize::MAX, presult(s, iota(s.len() as int), x), r == at(s, x) ensures ppresult(s, r), valid(s, x)
{
    let n = iota(s.len() as int);
    lemma_iota(s);
    if s.len() > 2 {
        reveal(ihull_of);
        let h = choose|h: Seq<usize>| ihull_of(s, n, h) && x == #[trigger] iclosed(h);
        let g = at(s, h);
        assert(hull_of(s, g));
        assert(r =~= loop_of(g));
        assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i]) < s.len() by { assert(n.contains(h[i])); }
    }
}
"""
