"""L10: Visvalingam-Whyatt. The main loop is proved to remove, each time, a point of least area; the order of the
priority queue is the verified `cmp`, the queue and the map themselves are trusted containers."""
from vgen import Spec, sub_rule, r_enumerate, r_option_map

R = {2: "src/linestring_2d.rs", 3: "src/linestring_3d.rs"}
S = {2: "src/linestring_2d/simplify.rs", 3: "src/linestring_3d/simplify.rs"}
I = {2: "src/linestring_2d/impls.rs", 3: "src/linestring_3d/impls.rs"}

TRI = {2: """
/// the square of twice the area
pub open spec fn tri<T>(a: T, b: T, c: T) -> real {
    let d = rx(a) * ry(b) + rx(b) * ry(c) + rx(c) * ry(a) - rx(a) * ry(c) - rx(b) * ry(a) - rx(c) * ry(b);
    d * d
}
""", 3: """
/// the square of twice the area
pub open spec fn tri<T>(a: T, b: T, c: T) -> real {
    let x = (ry(a) - ry(b)) * (rz(c) - rz(b)) - (ry(c) - ry(b)) * (rz(a) - rz(b));
    let y = (rx(a) - rx(b)) * (rz(c) - rz(b)) - (rx(c) - rx(b)) * (rz(a) - rz(b));
    let z = (rx(a) - rx(b)) * (ry(c) - ry(b)) - (rx(c) - rx(b)) * (ry(a) - ry(b));
    x * x + y * y + z * z
}
"""}

GHOST = """
pub open spec fn val<S>(s: S) -> real { rv(s) }
pub type Links<S> = Map<usize, (usize, usize, S)>;
/// the i-th of: the first point, the removable points left, the one after them (point number n is the first again)
pub open spec fn ext(last: usize, rem: Seq<usize>, i: int) -> usize { if i <= 0 { 0 } else if i > rem.len() { last } else { rem[i - 1] } }
pub open spec fn pt<T>(p: Seq<T>, i: int) -> T { p[i % (p.len() as int)] }
/// area of the i-th removable point with its neighbours
pub open spec fn area<T>(p: Seq<T>, last: usize, rem: Seq<usize>, i: int) -> real {
    tri(pt(p, ext(last, rem, i) as int), pt(p, ext(last, rem, i + 1) as int), pt(p, ext(last, rem, i + 2) as int))
}
pub open spec fn smallest<T>(p: Seq<T>, last: usize, rem: Seq<usize>, i: int) -> bool {
    0 <= i < rem.len() && forall|j: int| 0 <= j < rem.len() ==> area(p, last, rem, i) <= #[trigger] area(p, last, rem, j)
}
/// all points that may be removed
pub open spec fn init(last: usize) -> Seq<usize> { Seq::new((last - 1) as nat, |i: int| (i + 1) as usize) }
/// rem is what is left after removing a point of least area k times
pub open spec fn removed<T>(p: Seq<T>, last: usize, k: int, rem: Seq<usize>) -> bool decreases k {
    if k <= 0 { k == 0 && rem == init(last) }
    else { exists|q: Seq<usize>, i: int| #![trigger q.remove(i)] removed(p, last, k - 1, q) && smallest(p, last, q, i) && rem == q.remove(i) }
}
pub open spec fn ascending(rem: Seq<usize>, last: usize) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < rem.len() ==> #[trigger] rem[i] < #[trigger] rem[j]
    &&& forall|i: int| 0 <= i < rem.len() ==> 0 < #[trigger] rem[i] < last
}
pub open spec fn link_at<T, S>(m: Links<S>, p: Seq<T>, last: usize, rem: Seq<usize>, i: int) -> bool {
    let k = rem[i];
    m.dom().contains(k) && m[k].0 == ext(last, rem, i) && m[k].1 == ext(last, rem, i + 2) && rv(m[k].2) == area(p, last, rem, i)
}
pub open spec fn links<T, S>(m: Links<S>, p: Seq<T>, last: usize, rem: Seq<usize>) -> bool {
    &&& ascending(rem, last) && 0 < last <= p.len()
    &&& forall|i: int| 0 <= i < rem.len() ==> #[trigger] link_at(m, p, last, rem, i)
    &&& forall|k: usize| #[trigger] m.dom().contains(k) ==> rem.contains(k)
}
/// the map holds the points left after d removals
#[verifier::opaque]
pub open spec fn core<T, S>(p: Seq<T>, last: usize, m: Links<S>, d: int) -> bool {
    exists|rem: Seq<usize>| #[trigger] removed(p, last, d, rem) && links(m, p, last, rem)
}
/// m1 is m without k, its neighbours joined
pub open spec fn relinked<T, S>(p: Seq<T>, m: Links<S>, m1: Links<S>, k: usize) -> bool {
    let (pv, nx) = (m[k].0, m[k].1);
    &&& m1.dom() =~= m.dom().remove(k)
    &&& forall|j: usize| #[trigger] m1.dom().contains(j) && j != pv && j != nx ==> m1[j] == m[j]
    &&& m.dom().contains(pv) ==> m1[pv].0 == m[pv].0 && m1[pv].1 == nx && rv(m1[pv].2) == tri(pt(p, m[pv].0 as int), pt(p, pv as int), pt(p, nx as int))
    &&& m.dom().contains(nx) ==> m1[nx].0 == pv && m1[nx].1 == m[nx].1 && rv(m1[nx].2) == tri(pt(p, pv as int), pt(p, nx as int), pt(p, m[nx].1 as int))
}
pub open spec fn least<S>(m: Links<S>, k: usize) -> bool { forall|j: usize| #[trigger] m.dom().contains(j) ==> rv(m[k].2) <= rv(m[j].2) }
pub open spec fn has<T: @GV@>(h: BinaryHeap<PriorityDistance<T>>, k: usize, a: real) -> bool {
    exists|e: PriorityDistance<T>| #[trigger] in_heap(h, e) && e.index == k && rv(e.key) == a
}
/// every point left is in the queue with its area
pub open spec fn queued<T: @GV@, S>(h: BinaryHeap<PriorityDistance<T>>, m: Links<S>) -> bool {
    forall|k: usize| #[trigger] m.dom().contains(k) ==> has(h, k, rv(m[k].2))
}
pub open spec fn pcmp<T: @GV@>(a: PriorityDistance<T>, b: PriorityDistance<T>) -> Ordering {
    if rv(a.key) < rv(b.key) { Ordering::Greater } else if rv(a.key) > rv(b.key) { Ordering::Less } else { Ordering::Equal }
}
impl<T: @GV@> HeapItem for PriorityDistance<T> { open spec fn hcmp(a: Self, b: Self) -> Ordering { pcmp(a, b) } }
/// one more point at the end
pub proof fn lemma_grow<T, S>(m: Links<S>, m1: Links<S>, p: Seq<T>, l: usize)
    requires
        links(m, p, l, init(l)), l < p.len(), m1.dom() =~= m.dom().insert(l), forall|j: usize| #[trigger] m.dom().contains(j) && j != l ==> m1[j] == m[j],
        m1[l].0 == l - 1, m1[l].1 == l + 1, rv(m1[l].2) == tri(p[l - 1], p[l as int], pt(p, l + 1)),
    ensures links(m1, p, (l + 1) as usize, init((l + 1) as usize)),
{
    let l1 = (l + 1) as usize;
    let (q, r) = (init(l), init(l1));
    assert(q.len() == l - 1 && r.len() == l);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] link_at(m1, p, l1, r, i) by {
        let k = r[i];
        assert(k == i + 1);
        assert(ext(l1, r, i) == i && ext(l1, r, i + 1) == i + 1 && ext(l1, r, i + 2) == i + 2);
        lemma_small(i, p.len() as int); lemma_small(i + 1, p.len() as int);
        if i < l - 1 {
            assert(q[i] == k);
            assert(link_at(m, p, l, q, i));
            assert(ext(l, q, i) == i && ext(l, q, i + 1) == i + 1 && ext(l, q, i + 2) == i + 2);
        }
    }
    assert forall|k: usize| #[trigger] m1.dom().contains(k) implies r.contains(k) by {
        if k == l { assert(r[l - 1] == l); } else { let i = q.index_of(k); assert(q.contains(k)); assert(q[i] == k); assert(r[i] == k); }
    }
    assert(ascending(r, l1));
}
pub proof fn lemma_small(i: int, n: int) requires 0 <= i < n ensures i % n == i { vstd::arithmetic::div_mod::lemma_small_mod(i as nat, n as nat); }
pub proof fn lemma_wrap<T>(p: Seq<T>) requires p.len() > 0 ensures pt(p, p.len() as int) == p[0] { vstd::arithmetic::div_mod::lemma_mod_self_0(p.len() as int); }
pub proof fn lemma_relink_at<T, S>(p: Seq<T>, last: usize, m: Links<S>, m1: Links<S>, rem: Seq<usize>, i: int, j: int)
    requires
        links(m, p, last, rem), 0 <= i < rem.len(), relinked(p, m, m1, rem[i]), 0 <= j < rem.len() - 1,
    ensures link_at(m1, p, last, rem.remove(i), j),
{
    let k = rem[i];
    let q = rem.remove(i);
    let o = if j < i { j } else { j + 1 };
    let x = q[j];
    assert(x == rem[o]);
    assert(link_at(m, p, last, rem, i));
    assert(link_at(m, p, last, rem, o));
    let (pv, nx) = (m[k].0, m[k].1);
    assert(pv == ext(last, rem, i) && nx == ext(last, rem, i + 2));
    assert(m.dom().contains(x) && m[x].0 == ext(last, rem, o) && m[x].1 == ext(last, rem, o + 2) && rv(m[x].2) == area(p, last, rem, o));
    lemma_ext(last, rem, i, j); lemma_ext(last, rem, i, j + 1); lemma_ext(last, rem, i, j + 2);
    assert(x != k) by { if o < i { assert(rem[o] < rem[i]); } else { assert(rem[i] < rem[o]); } }
    assert(m1.dom().contains(x));
    if j == i - 1 {
        assert(x == pv);
        assert(m1[x].0 == ext(last, q, j) && m1[x].1 == ext(last, q, j + 2));
        assert(ext(last, q, j + 1) == pv);
        assert(rv(m1[x].2) == area(p, last, q, j));
    } else if j == i {
        assert(x == nx);
        assert(m1[x].0 == ext(last, q, j) && m1[x].1 == ext(last, q, j + 2));
        assert(ext(last, q, j + 1) == nx);
        assert(rv(m1[x].2) == area(p, last, q, j));
    } else {
        assert(x != pv) by { if i > 0 { assert(pv == rem[i - 1]); if o < i - 1 { assert(rem[o] < rem[i - 1]); } else { assert(rem[i - 1] < rem[o]); } } }
        assert(x != nx) by { if i + 1 < rem.len() { assert(nx == rem[i + 1]); if o < i + 1 { assert(rem[o] < rem[i + 1]); } else { assert(rem[i + 1] < rem[o]); } } }
        assert(m1[x] == m[x]);
        assert(ext(last, q, j) == ext(last, rem, o) && ext(last, q, j + 1) == ext(last, rem, o + 1) && ext(last, q, j + 2) == ext(last, rem, o + 2));
        assert(area(p, last, q, j) == area(p, last, rem, o));
    }
}
pub proof fn lemma_ext(last: usize, rem: Seq<usize>, i: int, z: int)
    requires 0 <= i < rem.len(),
    ensures ext(last, rem.remove(i), z) == if z <= i { ext(last, rem, z) } else { ext(last, rem, z + 1) },
{}
/// the neighbours of a removed point have been joined
pub proof fn lemma_relink<T, S>(p: Seq<T>, last: usize, m: Links<S>, m1: Links<S>, rem: Seq<usize>, i: int)
    requires links(m, p, last, rem), 0 <= i < rem.len(), relinked(p, m, m1, rem[i]),
    ensures links(m1, p, last, rem.remove(i)),
{
    let k = rem[i];
    let q = rem.remove(i);
    assert(link_at(m, p, last, rem, i));
    let (pv, nx) = (m[k].0, m[k].1);
    assert forall|j: int| 0 <= j < q.len() implies #[trigger] link_at(m1, p, last, q, j) by { lemma_relink_at(p, last, m, m1, rem, i, j); }
    assert forall|x: usize| #[trigger] m1.dom().contains(x) implies q.contains(x) by {
        assert(m.dom().contains(x));
        let o = rem.index_of(x);
        assert(rem[o] == x && o != i);
        if o < i { assert(q[o] == x); } else { assert(q[o - 1] == x); }
    }
    assert(ascending(q, last));
}
/// a point of least area may be removed
pub proof fn lemma_core<T, S>(p: Seq<T>, last: usize, m: Links<S>, d: int)
    requires core(p, last, m, d), d >= 0,
    ensures
        last <= p.len(),
        forall|k: usize| #[trigger] m.dom().contains(k) ==> m[k].0 < p.len() && m[k].1 <= p.len() && pt(p, m[k].0 as int) == p[m[k].0 as int] && m[k].0 < k && k < p.len() && k < m[k].1,
        forall|k: usize, m1: Links<S>, d1: int| #![trigger m.dom().contains(k), core(p, last, m1, d1)]
        m.dom().contains(k) && least(m, k) && relinked(p, m, m1, k) && d1 == d + 1 ==> core(p, last, m1, d1),
{
    reveal(core);
    let rem = choose|rem: Seq<usize>| #[trigger] removed(p, last, d, rem) && links(m, p, last, rem);
    assert forall|k: usize| #[trigger] m.dom().contains(k) implies m[k].0 < p.len() && m[k].1 <= p.len() && pt(p, m[k].0 as int) == p[m[k].0 as int] && m[k].0 < k && k < p.len() && k < m[k].1 by {
        let i = rem.index_of(k);
        assert(rem.contains(k));
        assert(rem[i] == k);
        assert(link_at(m, p, last, rem, i));
        lemma_small(m[k].0 as int, p.len() as int);
    }
    assert forall|k: usize, m1: Links<S>, d1: int| #![trigger m.dom().contains(k), core(p, last, m1, d1)]
        m.dom().contains(k) && least(m, k) && relinked(p, m, m1, k) && d1 == d + 1 implies core(p, last, m1, d1) by {
        let i = rem.index_of(k);
        assert(rem.contains(k));
        assert(rem[i] == k);
        assert(link_at(m, p, last, rem, i));
        assert forall|j: int| 0 <= j < rem.len() implies area(p, last, rem, i) <= #[trigger] area(p, last, rem, j) by { assert(link_at(m, p, last, rem, j)); assert(m.dom().contains(rem[j])); }
        assert(smallest(p, last, rem, i));
        lemma_relink(p, last, m, m1, rem, i);
        assert(removed(p, last, d1, rem.remove(i)));
    }
}
pub proof fn lemma_start<T, S>(p: Seq<T>, last: usize, m: Links<S>)
    requires links(m, p, last, init(last)),
    ensures core(p, last, m, 0), last >= 1, m.dom().len() == last - 1,
{
    reveal(core);
    let rem = init(last);
    assert forall|k: usize| #[trigger] m.dom().contains(k) <==> rem.contains(k) by { if rem.contains(k) { let i = rem.index_of(k); assert(link_at(m, p, last, rem, i)); } }
    lemma_len(rem, m);
    assert(removed(p, last, 0, init(last)));
}
pub proof fn lemma_len<V>(rem: Seq<usize>, m: Map<usize, V>)
    requires forall|i: int, j: int| 0 <= i < j < rem.len() ==> #[trigger] rem[i] < #[trigger] rem[j], forall|k: usize| #[trigger] m.dom().contains(k) <==> rem.contains(k),
    ensures m.dom().len() == rem.len(),
{
    assert(rem.no_duplicates());
    rem.unique_seq_to_set();
    assert(m.dom() =~= rem.to_set());
}
/// strictly ascending lists of the same numbers are equal
pub proof fn lemma_same_list(a: Seq<usize>, b: Seq<usize>)
    requires
        forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] < #[trigger] a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] < #[trigger] b[j],
        forall|k: usize| #[trigger] a.contains(k) <==> b.contains(k),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } assert(a =~= b); }
    else if b.len() == 0 { assert(a.contains(a[0])); }
    else {
        let (x, y) = (a.last(), b.last());
        assert(a.contains(x) && b.contains(y));
        assert(b.contains(x) && a.contains(y));
        let (i, j) = (b.index_of(x), a.index_of(y));
        assert(b[i] == x && a[j] == y);
        if i < b.len() - 1 { assert(x < y); } 
        if j < a.len() - 1 { assert(y < x); }
        assert(x == y);
        let (a1, b1) = (a.drop_last(), b.drop_last());
        assert forall|k: usize| #[trigger] a1.contains(k) <==> b1.contains(k) by {
            if a1.contains(k) { let z = a1.index_of(k); assert(a[z] == k && k < x); assert(a.contains(k)); let w = b.index_of(k); assert(b[w] == k); assert(b1[w] == k); }
            if b1.contains(k) { let z = b1.index_of(k); assert(b[z] == k && k < x); assert(b.contains(k)); assert(a.contains(k)); let w = a.index_of(k); assert(a[w] == k); assert(a1[w] == k); }
        }
        lemma_same_list(a1, b1);
        assert(a =~= a1.push(x) && b =~= b1.push(x));
    }
}
pub proof fn lemma_end<T, S>(p: Seq<T>, last: usize, m: Links<S>, d: int) -> (rem: Seq<usize>)
    requires core(p, last, m, d),
    ensures removed(p, last, d, rem), ascending(rem, last), last <= p.len(), m.dom().len() == rem.len(), forall|ks: Seq<usize>| #[trigger] keys_of(ks, m) ==> ks == rem,
{
    reveal(core);
    let rem = choose|rem: Seq<usize>| #[trigger] removed(p, last, d, rem) && links(m, p, last, rem);
    assert forall|k: usize| #[trigger] m.dom().contains(k) <==> rem.contains(k) by { if rem.contains(k) { let i = rem.index_of(k); assert(link_at(m, p, last, rem, i)); } }
    lemma_len(rem, m);
    assert forall|ks: Seq<usize>| #[trigger] keys_of(ks, m) implies ks == rem by {
        assert forall|k: usize| #[trigger] ks.contains(k) <==> rem.contains(k) by { assert(m.dom().contains(k) <==> rem.contains(k)); }
        lemma_same_list(ks, rem);
    }
    rem
}
pub open spec fn named<T>(p: Seq<T>, ix: Seq<usize>) -> Seq<T> { ix.map_values(|k: usize| p[k as int]) }
"""
RES = {2: """
pub open spec fn closed_line<T>(p: Seq<T>) -> bool { p.len() == 0 || (rx(p[0]) == rx(p.last()) && ry(p[0]) == ry(p.last())) }
pub open spec fn last_of<T>(p: Seq<T>) -> usize { if closed_line(p) { p.len() as usize } else { (p.len() - 1) as usize } }
/// the result of removing del points: two removable points stay, if there were two
pub open spec fn vw<T>(p: Seq<T>, del: usize, r: Seq<T>) -> bool {
    exists|k: int, rem: Seq<usize>| #[trigger] removed(p, last_of(p), k, rem) && vw_of(p, del, r, k, rem)
}
pub open spec fn vw_of<T>(p: Seq<T>, del: usize, r: Seq<T>, k: int, rem: Seq<usize>) -> bool {
    &&& k <= del && (k == del || rem.len() == 2 || rem.len() == 0)
    &&& last_of(p) > 2 ==> rem.len() >= 2
    &&& r == named(p, if closed_line(p) { seq![0usize] + rem } else { seq![0usize] + rem + seq![(p.len() - 1) as usize] })
}
""", 3: """
pub open spec fn last_of<T>(p: Seq<T>) -> usize { (p.len() - 1) as usize }
/// the result of removing del points, and the last one
pub open spec fn vw<T>(p: Seq<T>, del: usize, r: Seq<T>) -> bool {
    exists|k: int, rem: Seq<usize>| #[trigger] removed(p, last_of(p), k, rem) && vw_of(p, del, r, k, rem)
}
pub open spec fn vw_of<T>(p: Seq<T>, del: usize, r: Seq<T>, k: int, rem: Seq<usize>) -> bool {
    &&& k <= del && (k == del || rem.len() == 0)
    &&& r == named(p, seq![0usize] + rem)
}
"""}

IT = """
pub open spec fn it_at<A>(rest: Seq<&A>, s: Seq<A>, k: int) -> bool {
    0 <= k <= s.len() && rest.len() == s.len() - k && forall|j: int| 0 <= j < rest.len() ==> *(#[trigger] rest[j]) == s[k + j]
}
pub open spec fn max2(a: int) -> usize { if a >= 2 { a as usize } else { 2 } }
"""


def make(repo, d):
    s = Spec("L10" if d == 2 else "L10_3", repo)
    r, si, im, gv, ln = R[d], S[d], I[d], f"GenericVector{d}", f"Line{d}"
    s.prelude("vec", "iters", "stdx", "graphx", "heapx")
    s.broadcast("scal", "veq")
    s.use("core::cmp::Ordering")
    s.use("vstd::std_specs::iter::IteratorSpec")
    s.assumptions.append("L10: BinaryHeap::pop takes an item that none is greater than (prelude heapx.rs), AHashMap is a map (graphx.rs), "
                         "iterators over usize that are chained and collected are the lists of their items")
    s.type(r, ln, prefix="#[derive(Clone, Copy)]\n")
    s.type(r, "PriorityDistance")
    s.ghost(TRI[d] + GHOST.replace("@GV@", gv) + RES[d] + IT)
    s.fn(r, ln, "triangle_area_squared_times_4", ens="rv(r) == tri(%sp1, %sp2, %sp3)" % (("",) * 3 if d == 2 else ("*",) * 3))
    s.fn(im, "Ord for PriorityDistance", "cmp", inherent=f"impl<T: {gv}> PriorityDistance<T>", ens="r == pcmp(*self, *other)")
    s.fn(im, "PartialOrd for PriorityDistance", "partial_cmp", inherent=f"impl<T: {gv}> PriorityDistance<T>", ens="r == Some(pcmp(*self, *other))")
    s.fn(im, "PartialEq for PriorityDistance", "eq", inherent=f"impl<T: {gv}> PriorityDistance<T>", rename="eq_", ens="r == (pcmp(*self, *other) == Ordering::Equal)")
    cont = "|| link_tree.len() == 2" 
    rules = [r_enumerate,
             sub_rule("enumerate", r"(\w+)\.iter\(\)\s*\.enumerate\(\)\s*\.skip\((\d+)\)", r"enum_iter_(\1, \2)"),
             sub_rule("enumerate", r"(\w+)\.iter\(\)\s*\.enumerate\(\)", r"enum_iter_(\1, 0)"),
             sub_rule("once", r"\[([^\[\]]*)\]\s*\.iter\(\)\s*\.copied\(\)", r"once_(\1)"),
             sub_rule("sorted_keys", r"\.keys\(\)\s*\.sorted_unstable\(\)\s*\.copied\(\)", ".sorted_keys_()"),
             sub_rule("chain", r"\.chain\(", ".chain_("),
             sub_rule("path", r"\bahash::", ""),
             sub_rule("std_contract", r"\.(copied|clone|to_vec)\(", r".\1_("),
             r_option_map]
    st = f"core(line@, last, hm(link_tree), deleted_nodes as int), queued(search_tree, hm(link_tree))"
    floor = "last > 2 ==> hm(link_tree).dom().len() >= 2, " if d == 2 else ""
    stop = "deleted_nodes == points_to_delete || hm(link_tree).dom().len() == 0" + (" || hm(link_tree).dom().len() == 2" if d == 2 else "")
    outl = lambda n, full: f"""invariant line@.len() >= 3, it0.seq() == {full}, ascending(rem, last), last <= line@.len(),
            out__@.len() == it0.index@, forall|i: int| 0 <= i < it0.index@ ==> #[trigger] out__@[i] == line@[it0.seq()[i] as int]""".replace("it0", f"it{n}")
    loops = [("loop", """invariant line@.len() >= 3, line@.len() <= usize::MAX, skip0__ == 2, it_at(w0__.remaining(), line@, e0__ as int),
            en_seq(iter_i) == line@, en_seq(iter_j) == line@, en_pos(iter_i) == max2(e0__ as int) - 2, en_pos(iter_j) == max2(e0__ as int) - 1,
            links(hm(link_tree), line@, (max2(e0__ as int) - 1) as usize, init((max2(e0__ as int) - 1) as usize)), queued(search_tree, hm(link_tree)),
          ensures e0__ == line@.len(),
          decreases line@.len() - e0__"""),
             ("loop", f"""invariant line@.len() >= 3, line_points_len == line@.len(), last == last_of(line@), {st}, deleted_nodes <= points_to_delete, {floor}
          ensures {stop},
          decreases hm(link_tree).dom().len(), heap_len(search_tree)""")]
    if d == 2:
        loops += [("for", outl(2, "seq![0usize] + (rem + seq![(line@.len() - 1) as usize])")), ("for", outl(3, "seq![0usize] + rem"))]
    else:
        loops += [("for", outl(2, "seq![0usize] + rem"))]
    s.fn(si, None, "simplify_vw", rules=rules, ens="if line@.len() <= 2 { r@ == line@ } else { vw(line@, points_to_delete, r@) }", loops=loops,
         hints=[(("body_start", 0), "let ghost m0 = hm(link_tree); let ghost e0 = e0__;"),
                (("body_end", 0), "proof { if e0 >= 2 { lemma_small(e0 as int, line@.len() as int); lemma_grow(m0, hm(link_tree), line@, (e0 - 1) as usize); } }"),
                ("entry", "let ghost mut m2 = Map::empty();"), (("after_loop", 0), "proof { m2 = hm(link_tree); }"),
                (("before_loop", 1), "let ghost last = last_of(line@); proof { if last == line@.len() { lemma_wrap(line@); lemma_small(last - 1, last as int); assert(m2.dom().insert((last - 1) as usize) =~= hm(link_tree).dom()); lemma_grow(m2, hm(link_tree), line@, (last - 1) as usize); } lemma_start(line@, last, hm(link_tree)); }"),
                (("body_start", 1), "proof { if heap_len(search_tree) == 0 { ax_heap_empty(search_tree); assert(hm(link_tree).dom() =~= Set::empty()); } lemma_core(line@, last, hm(link_tree), deleted_nodes as int); }"),
                (("after_loop", 1), "let ghost rem = lemma_end(line@, last, hm(link_tree), deleted_nodes as int);"),
                ] + [(("after_loop", 2 + j), f"proof {{ assert(out__@ =~= named(line@, {f})); assert(vw_of(line@, points_to_delete, out__@, deleted_nodes as int, rem)); }}")
                     for j, f in enumerate(["seq![0usize] + rem + seq![(line@.len() - 1) as usize]", "seq![0usize] + rem"] if d == 2 else ["seq![0usize] + rem"])])
    tr = f"LineString{d}"
    s.trait_decls = {tr: 1}
    s.parts.append(("trait", (tr, f"{tr}<T: {gv}>: Sized", "spec fn pts(&self) -> Seq<T>;")))
    s.impl_extra = {f"impl < T : {gv} > {tr} < T > for Vec < T >": "open spec fn pts(&self) -> Seq<T> { self@ }"}
    if d == 2:
        s.fn(r, f"{tr} for Vec", "is_connected", ens="r == closed_line(self@)", tens="r == closed_line(self.pts())")
    e = "if {p}.len() <= 2 {{ {r} == {p} }} else {{ vw({p}, points_to_delete, {r}) }}"
    s.fn(r, f"{tr} for Vec", "simplify_vw", ens=e.format(p="self@", r="r@"), tens=e.format(p="self.pts()", r="r.pts()"))
    return s


def spec(repo):
    return make(repo, 2)
