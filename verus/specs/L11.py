"""L11: divide_into_shapes. The adjacency map of the edge list, the unwinding of one line and the two
stages of the division are under contract; graphs are stated over the edge list itself."""
from vgen import Spec, sub_rule

R = "src/shape.rs"

GHOST = """
pub type Adj = Map<usize, Vec<usize>>;
/// the j-th listed edge joins a and b
pub open spec fn is_pair(ix: Seq<usize>, j: int, a: usize, b: usize) -> bool {
    (ix[2 * j] == a && ix[2 * j + 1] == b) || (ix[2 * j] == b && ix[2 * j + 1] == a)
}
/// one of the first n listed edges joins a and b
pub open spec fn edge_n(ix: Seq<usize>, n: int, a: usize, b: usize) -> bool { exists|j: int| 0 <= j < n && #[trigger] is_pair(ix, j, a, b) }
pub open spec fn edge(ix: Seq<usize>, a: usize, b: usize) -> bool { edge_n(ix, ix.len() as int / 2, a, b) }
/// a has exactly two neighbours
pub open spec fn deg2(ix: Seq<usize>, a: usize) -> bool {
    exists|b: usize, c: usize| b != c && edge(ix, a, b) && edge(ix, a, c) && #[trigger] only(ix, a, b, c)
}
pub open spec fn only(ix: Seq<usize>, a: usize, b: usize, c: usize) -> bool { forall|x: usize| #[trigger] edge(ix, a, x) ==> x == b || x == c }
/// the edges are between distinct vertices whose numbers leave room for one more
pub open spec fn input_ok(ix: Seq<usize>) -> bool {
    forall|i: int, j: int| 0 <= i && j == i + 1 && j < ix.len() && i % 2 == 0 ==> #[trigger] ix[i] != #[trigger] ix[j] && ix[i] < usize::MAX && ix[j] < usize::MAX
}
/// what a map of neighbours says about its graph
pub open spec fn nb(m: Adj, a: usize, b: usize) -> bool { m.dom().contains(a) && m[a]@.contains(b) }
pub open spec fn two(m: Adj, a: usize) -> bool { m.dom().contains(a) && m[a]@.len() == 2 }
pub open spec fn graph(m: Adj, max: usize) -> bool {
    &&& max < usize::MAX
    &&& forall|a: usize, b: usize| #[trigger] nb(m, a, b) ==> a != b && a <= max && b <= max && nb(m, b, a)
    &&& forall|a: usize| #[trigger] m.dom().contains(a) ==> m[a]@.no_duplicates() && a <= max && m[a]@.len() > 0
}
/// m is the map of neighbours of the first n listed edges
pub open spec fn adj_of(m: Adj, ix: Seq<usize>, n: int, max: usize) -> bool {
    &&& graph(m, max)
    &&& forall|a: usize, b: usize| #[trigger] nb(m, a, b) <==> edge_n(ix, n, a, b)
}
// ---- sets of vertices
pub open spec fn at_bit(v: SetVob, i: usize) -> bool { i < vbits(v.vob).len() && vbits(v.vob)[i as int] }
pub open spec fn bits(s: Seq<bool>) -> Set<int> { vstd::set_lib::set_int_range(0, s.len() as int).filter(|i: int| 0 <= i < s.len() && s[i]) }
pub open spec fn sv_ok(v: SetVob) -> bool { v.number_of_set_bits == bits(vbits(v.vob)).len() }
pub open spec fn sized(v: SetVob, max: usize) -> bool { sv_ok(v) && vbits(v.vob).len() == max + 1 }
pub proof fn lemma_bits_in(s: Seq<bool>) ensures forall|i: int| #[trigger] bits(s).contains(i) <==> 0 <= i < s.len() && s[i], bits(s).len() <= s.len()
{
    vstd::set_lib::lemma_int_range(0, s.len() as int);
    vstd::set_lib::lemma_len_subset(bits(s), vstd::set_lib::set_int_range(0, s.len() as int));
}
pub proof fn lemma_bits_set(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(),
    ensures bits(s.update(i, true)).len() == bits(s).len() + if s[i] { 0int } else { 1int }, bits(s.update(i, true)).len() <= s.len(),
{
    lemma_bits_in(s); lemma_bits_in(s.update(i, true));
    assert(bits(s.update(i, true)) =~= bits(s).insert(i));
}
/// v and t mark different vertices; how many are marked by neither
pub proof fn lemma_count(v: SetVob, t: SetVob, max: usize)
    requires sized(v, max), sized(t, max), forall|i: usize| !(#[trigger] at_bit(v, i) && at_bit(t, i)),
    ensures
        v.number_of_set_bits + t.number_of_set_bits <= max + 1,
        v.number_of_set_bits + t.number_of_set_bits >= max + 1 ==> forall|i: usize| i <= max ==> #[trigger] at_bit(v, i) || at_bit(t, i),
        v.number_of_set_bits + t.number_of_set_bits < max + 1 ==> exists|i: usize| i <= max && !(#[trigger] at_bit(v, i)) && !at_bit(t, i),
        forall|i: usize, j: usize| i != j && i <= max && j <= max && !(#[trigger] at_bit(v, i)) && !at_bit(t, i) && !(#[trigger] at_bit(v, j)) && !at_bit(t, j)
            ==> v.number_of_set_bits + t.number_of_set_bits < max,
{
    let (a, b) = (bits(vbits(v.vob)), bits(vbits(t.vob)));
    lemma_bits_in(vbits(v.vob)); lemma_bits_in(vbits(t.vob));
    let all = vstd::set_lib::set_int_range(0, max + 1);
    vstd::set_lib::lemma_int_range(0, max + 1);
    assert forall|i: int| !(a.contains(i) && b.contains(i)) by { if a.contains(i) && b.contains(i) { assert(at_bit(v, i as usize) && at_bit(t, i as usize)); } }
    assert(a.disjoint(b));
    vstd::set_lib::lemma_set_disjoint_lens(a, b);
    let u = a.union(b);
    assert(u.subset_of(all));
    vstd::set_lib::lemma_len_subset(u, all);
    if u.len() >= max + 1 {
        vstd::set_lib::lemma_subset_equality(u, all);
        assert forall|i: usize| i <= max implies #[trigger] at_bit(v, i) || at_bit(t, i) by { assert(all.contains(i as int)); assert(u.contains(i as int)); }
    } else {
        if forall|i: int| all.contains(i) ==> u.contains(i) { assert(u =~= all); assert(false); }
        let i = choose|i: int| all.contains(i) && !u.contains(i);
        assert(!at_bit(v, i as usize) && !at_bit(t, i as usize));
    }
    assert forall|i: usize, j: usize| i != j && i <= max && j <= max && !(#[trigger] at_bit(v, i)) && !at_bit(t, i) && !(#[trigger] at_bit(v, j)) && !at_bit(t, j)
            implies v.number_of_set_bits + t.number_of_set_bits < max by {
        let w = u.insert(i as int).insert(j as int);
        assert(!u.contains(i as int) && !u.contains(j as int));
        assert(w.subset_of(all));
        vstd::set_lib::lemma_len_subset(w, all);
    }
}
// ---- shapes
/// positions g, i: the i-th edge of shape g joins a and b
pub open spec fn at(gs: Seq<Vec<usize>>, g: int, i: int, a: usize, b: usize) -> bool {
    0 <= g < gs.len() && win(gs[g]@, i, a, b)
}
pub open spec fn win(l: Seq<usize>, i: int, a: usize, b: usize) -> bool {
    0 <= i && i + 1 < l.len() && ((l[i] == a && l[i + 1] == b) || (l[i] == b && l[i + 1] == a))
}
pub open spec fn vx(l: Seq<usize>, i: int) -> usize { l[i] }
/// l runs along edges, continues only through vertices with two neighbours and is closed or ends elsewhere
pub open spec fn shape_ok(ix: Seq<usize>, l: Seq<usize>) -> bool {
    &&& l.len() >= 2
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < l.len() ==> edge(ix, #[trigger] vx(l, i), #[trigger] vx(l, j))
    &&& forall|i: int| 0 < i < l.len() - 1 ==> deg2(ix, #[trigger] vx(l, i))
    &&& l[0] == l.last() || (!deg2(ix, l[0]) && !deg2(ix, l.last()))
}
pub open spec fn line_ok(m: Adj, l: Seq<usize>) -> bool {
    &&& l.len() >= 2
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < l.len() ==> nb(m, #[trigger] vx(l, i), #[trigger] vx(l, j))
    &&& forall|i: int| 0 < i < l.len() - 1 ==> two(m, #[trigger] vx(l, i))
    &&& l[0] == l.last() || (!two(m, l[0]) && !two(m, l.last()))
}
pub open spec fn distinct_edges(l: Seq<usize>) -> bool { forall|i: int, j: int, a: usize, b: usize| #[trigger] win(l, i, a, b) && #[trigger] win(l, j, a, b) ==> i == j }
/// the shapes hold exactly the edges in c, each once
pub open spec fn holds(m: Adj, gs: Seq<Vec<usize>>, c: spec_fn(usize, usize) -> bool) -> bool {
    &&& forall|g: int| 0 <= g < gs.len() ==> line_ok(m, #[trigger] gs[g]@)
    &&& forall|g: int, i: int, a: usize, b: usize| #[trigger] at(gs, g, i, a, b) ==> nb(m, a, b) && c(a, b)
    &&& forall|a: usize, b: usize| #[trigger] nb(m, a, b) && c(a, b) ==> exists|g: int, i: int| #[trigger] at(gs, g, i, a, b)
    &&& forall|g: int, i: int, h: int, j: int, a: usize, b: usize| #[trigger] at(gs, g, i, a, b) && #[trigger] at(gs, h, j, a, b) ==> g == h && i == j
}
pub proof fn lemma_add(m: Adj, gs: Seq<Vec<usize>>, c: spec_fn(usize, usize) -> bool, l: Vec<usize>, d: spec_fn(usize, usize) -> bool, max: usize)
    requires
        graph(m, max),
        holds(m, gs, c), line_ok(m, l@), distinct_edges(l@),
        forall|i: int, a: usize, b: usize| #[trigger] win(l@, i, a, b) ==> !c(a, b) && d(a, b),
        forall|a: usize, b: usize| #[trigger] nb(m, a, b) && c(a, b) ==> d(a, b),
        forall|a: usize, b: usize| #[trigger] nb(m, a, b) && d(a, b) ==> c(a, b) || exists|i: int| #[trigger] win(l@, i, a, b),
    ensures holds(m, gs.push(l), d),
{
    let q = gs.push(l);
    let n = gs.len() as int;
    assert forall|g: int, i: int, a: usize, b: usize| #[trigger] at(q, g, i, a, b) implies nb(m, a, b) && d(a, b) && (g < n ==> at(gs, g, i, a, b) && c(a, b)) && (g == n ==> win(l@, i, a, b) && !c(a, b)) by {
        if g < n { assert(at(gs, g, i, a, b)); }
        else { assert(win(l@, i, a, b)); assert(nb(m, vx(l@, i), vx(l@, i + 1))); }
    }
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && d(a, b) implies exists|g: int, i: int| #[trigger] at(q, g, i, a, b) by {
        if c(a, b) {
            let (g, i) = choose|g: int, i: int| #[trigger] at(gs, g, i, a, b);
            assert(at(q, g, i, a, b));
        } else {
            let i = choose|i: int| #[trigger] win(l@, i, a, b);
            assert(at(q, n, i, a, b));
        }
    }
    assert forall|g: int| 0 <= g < q.len() implies line_ok(m, #[trigger] q[g]@) by { if g < n { assert(q[g] == gs[g]); } }
}
/// same edges, said differently
pub proof fn lemma_same(m: Adj, gs: Seq<Vec<usize>>, c: spec_fn(usize, usize) -> bool, d: spec_fn(usize, usize) -> bool)
    requires holds(m, gs, c), forall|a: usize, b: usize| #[trigger] nb(m, a, b) ==> (c(a, b) <==> d(a, b)),
    ensures holds(m, gs, d),
{}
// ---- unwinding
pub open spec fn is_term(m: Adj, t: SetVob, max: usize) -> bool { sized(t, max) && forall|i: usize| i <= max ==> (#[trigger] at_bit(t, i) <==> !two(m, i)) }
/// marked vertices have two neighbours, and those of them with two neighbours are marked as well
pub open spec fn closed(m: Adj, v: SetVob, max: usize) -> bool {
    &&& sized(v, max)
    &&& forall|a: usize| #[trigger] at_bit(v, a) ==> two(m, a)
    &&& forall|a: usize, b: usize| at_bit(v, a) && #[trigger] nb(m, a, b) && two(m, b) ==> at_bit(v, b)
}
/// only rings are left
pub open spec fn rings(m: Adj, v: SetVob) -> bool { forall|a: usize, b: usize| #[trigger] nb(m, a, b) && two(m, a) && !at_bit(v, a) ==> two(m, b) }
/// q starts as l does and l[i]'s neighbours are those before and after it
pub open spec fn chain(m: Adj, q: Seq<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() ==> nb(m, #[trigger] vx(q, i), #[trigger] vx(q, j))
    &&& forall|i: int| 0 < i < q.len() - 1 ==> two(m, #[trigger] vx(q, i)) && q[i - 1] != q[i + 1]
}
/// exactly the vertices of q from position off to n are newly marked
pub open spec fn marks(v0: SetVob, v: SetVob, q: Seq<usize>, off: int, n: int) -> bool {
    &&& forall|i: int| off <= i < n ==> at_bit(v, #[trigger] vx(q, i)) && !at_bit(v0, vx(q, i))
    &&& forall|a: usize| #[trigger] at_bit(v, a) ==> at_bit(v0, a) || exists|i: int| off <= i < n && #[trigger] vx(q, i) == a
    &&& forall|a: usize| #[trigger] at_bit(v0, a) ==> at_bit(v, a)
    &&& forall|i: int, j: int| off <= i < n && off <= j < n && #[trigger] vx(q, i) == #[trigger] vx(q, j) ==> i == j
}
/// state of unwind_line: line, then the vertex to be visited next
pub open spec fn winding(m: Adj, max: usize, v0: SetVob, v: SetVob, line: Seq<usize>, cur: usize, prev: Option<usize>, open: bool, first: usize) -> bool {
    let off = if open { 1int } else { 0int };
    let q = line.push(cur);
    &&& q.len() > off
    &&& q[0] == first
    &&& chain(m, q)
    &&& marks(v0, v, q, off, line.len() as int)
    &&& sized(v, max)
    &&& forall|i: int| off <= i < line.len() ==> two(m, #[trigger] vx(q, i))
    &&& open ==> !two(m, first)
    &&& !open ==> two(m, cur)
    &&& line.len() == off ==> two(m, cur)
    &&& cur <= max
    &&& !at_bit(v, cur)
    &&& prev is Some <==> line.len() > 0
    &&& prev is Some ==> prev->0 == line.last()
}
/// members of two-element neighbourhoods
pub proof fn lemma_two(m: Adj, max: usize, a: usize, b: usize, c: usize)
    requires graph(m, max), two(m, a), nb(m, a, b), nb(m, a, c), b != c,
    ensures forall|x: usize| nb(m, a, x) ==> x == b || x == c,
{
    let s = m[a]@;
    assert(s.contains(b) && s.contains(c));
    assert forall|x: usize| nb(m, a, x) implies x == b || x == c by {
        let (i, j, k) = (s.index_of(b), s.index_of(c), s.index_of(x));
    }
}
pub proof fn lemma_pick(m: Adj, max: usize, a: usize)
    requires graph(m, max), two(m, a),
    ensures nb(m, a, m[a]@[0]), nb(m, a, m[a]@[1]), m[a]@[0] != m[a]@[1], forall|x: usize| nb(m, a, x) ==> x == m[a]@[0] || x == m[a]@[1],
{
    assert(m[a]@.contains(m[a]@[0]) && m[a]@.contains(m[a]@[1]));
    lemma_two(m, max, a, m[a]@[0], m[a]@[1]);
}
pub proof fn lemma_chain(m: Adj, q: Seq<usize>, o: usize)
    requires chain(m, q), q.len() > 0, nb(m, q.last(), o), q.len() > 1 ==> two(m, q.last()) && q[q.len() - 2] != o ensures chain(m, q.push(o))
{
    let r = q.push(o);
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < r.len() implies nb(m, #[trigger] vx(r, i), #[trigger] vx(r, j)) by {
        assert(vx(r, i) == vx(q, i)); if j < q.len() { assert(vx(r, j) == vx(q, j)); }
    }
    assert forall|i: int| 0 < i < r.len() - 1 implies two(m, #[trigger] vx(r, i)) && r[i - 1] != r[i + 1] by {
        assert(vx(r, i) == vx(q, i)); assert(r[i - 1] == q[i - 1]); if i < q.len() - 1 { assert(r[i + 1] == q[i + 1]); }
    }
}
/// the other neighbour of the vertex just put on the line is new, or the ring closes
pub proof fn lemma_next(m: Adj, max: usize, v0: SetVob, v: SetVob, line: Seq<usize>, cur: usize, prev: Option<usize>, open: bool, first: usize, v1: SetVob, o: usize)
    requires
        graph(m, max), closed(m, v0, max), winding(m, max, v0, v, line, cur, prev, open, first), two(m, cur),
        !open ==> rings(m, v0),
        sized(v1, max), forall|a: usize| #[trigger] at_bit(v1, a) <==> at_bit(v, a) || a == cur,
        nb(m, cur, o), prev is Some ==> o != prev->0,
    ensures
        !at_bit(v1, o) ==> winding(m, max, v0, v1, line.push(cur), o, Some(cur), open, first),
        at_bit(v1, o) ==> !open && line.len() >= 2 && o == first,
        chain(m, line.push(cur).push(o)), marks(v0, v1, line.push(cur).push(o), if open { 1int } else { 0int }, line.len() as int + 1),
        forall|i: int| (if open { 1int } else { 0int }) <= i < line.len() + 1 ==> two(m, #[trigger] vx(line.push(cur), i)),
{
    let off = if open { 1int } else { 0int };
    let n = line.len() as int;
    let q = line.push(cur);
    let r = q.push(o);
    assert(r.len() == n + 2);
    assert forall|i: int| 0 <= i <= n implies #[trigger] vx(r, i) == vx(q, i) by {}
    assert(vx(q, n) == cur && vx(r, n + 1) == o && vx(r, n) == cur);
    assert(n > 0 ==> q[n - 1] == line.last());
    lemma_chain(m, q, o);
    assert(chain(m, r));
    assert forall|i: int| off <= i < n + 1 implies at_bit(v1, #[trigger] vx(r, i)) && !at_bit(v0, vx(r, i)) by {
        if i < n { assert(vx(r, i) == vx(q, i)); } else { }
    }
    assert forall|a: usize| #[trigger] at_bit(v1, a) implies at_bit(v0, a) || exists|i: int| off <= i < n + 1 && #[trigger] vx(r, i) == a by {
        if a == cur { assert(vx(r, n) == a); }
        else if !at_bit(v0, a) { let i = choose|i: int| off <= i < n && #[trigger] vx(q, i) == a; assert(vx(r, i) == a); }
    }
    assert forall|i: int, j: int| off <= i < n + 1 && off <= j < n + 1 && #[trigger] vx(r, i) == #[trigger] vx(r, j) implies i == j by {
        if i < n { assert(vx(r, i) == vx(q, i)); } if j < n { assert(vx(r, j) == vx(q, j)); }
    }
    assert(marks(v0, v1, r, off, n + 1));
    assert forall|i: int| off <= i < n + 1 implies two(m, #[trigger] vx(q, i)) by {}
    if at_bit(v1, o) {
        if at_bit(v0, o) { assert(nb(m, o, cur)); assert(at_bit(v0, cur)); assert(false); }
        assert(o != cur);
        let j = choose|i: int| off <= i < n && #[trigger] vx(q, i) == o;
        assert(nb(m, o, cur));
        if j > 0 {
            assert(nb(m, vx(q, j - 1), vx(q, j)));
            assert(nb(m, vx(q, j), vx(q, j + 1)));
            assert(nb(m, o, q[j - 1]) && nb(m, o, q[j + 1]));
            lemma_two(m, max, o, q[j - 1], q[j + 1]);
            if cur == q[j + 1] {
                if j + 1 < n { assert(vx(q, j + 1) == cur); assert(at_bit(v, cur)); } else { assert(o == line.last()); }
            } else {
                if j - 1 >= off { assert(vx(q, j - 1) == cur); assert(at_bit(v, cur)); } else { assert(q[j - 1] == first); assert(!two(m, first)); }
            }
            assert(false);
        }
        assert(j == 0 && !open);
        if n == 1 { assert(line.last() == o); }
        assert(o == first);
    } else {
        assert(o <= max);
        if !open { assert(rings(m, v0)); assert(!at_bit(v0, cur)); assert(two(m, o)); }
        assert forall|i: int| off <= i < n + 1 implies two(m, #[trigger] vx(r, i)) by { assert(vx(r, i) == vx(q, i)); }
        assert(r[0] == q[0]);
    }
}
/// what unwind_line has found: q, closed or ending at vertices without two neighbours
pub open spec fn unwound(m: Adj, max: usize, v0: SetVob, v: SetVob, q: Seq<usize>, open: bool) -> bool {
    &&& closed(m, v, max)
    &&& line_ok(m, q) && distinct_edges(q)
    &&& forall|a: usize| #[trigger] at_bit(v0, a) ==> at_bit(v, a)
    &&& forall|i: int, a: usize, b: usize| #[trigger] win(q, i, a, b) ==> !at_bit(v0, a) && !at_bit(v0, b) && (at_bit(v, a) || at_bit(v, b))
    &&& forall|a: usize, b: usize| #[trigger] nb(m, a, b) && (at_bit(v, a) || at_bit(v, b)) && !at_bit(v0, a) && !at_bit(v0, b) ==> exists|i: int| #[trigger] win(q, i, a, b)
}
pub proof fn lemma_done(m: Adj, max: usize, v0: SetVob, v: SetVob, q: Seq<usize>, open: bool)
    requires
        graph(m, max), closed(m, v0, max), sized(v, max), chain(m, q),
        q.len() >= if open { 3int } else { 4int },
        marks(v0, v, q, if open { 1int } else { 0int }, q.len() - 1),
        open ==> !two(m, q[0]) && !two(m, q.last()),
        !open ==> q[0] == q.last() && two(m, q[0]),
    ensures unwound(m, max, v0, v, q, open),
{
    let off = if open { 1int } else { 0int };
    let n = q.len() as int;
    assert forall|a: usize| #[trigger] at_bit(v, a) implies two(m, a) by {
        if !at_bit(v0, a) { let i = choose|i: int| off <= i < n - 1 && #[trigger] vx(q, i) == a; if i > 0 { assert(two(m, vx(q, i))); } else { assert(a == q[0]); } }
    }
    // neighbours of the new vertices are those on the line
    assert forall|k: int, w: usize| off <= k < n - 1 && #[trigger] nb(m, vx(q, k), w) implies exists|i: int| #[trigger] win(q, i, vx(q, k), w) by {
        if k > 0 {
            assert(nb(m, vx(q, k - 1), vx(q, k)) && nb(m, vx(q, k), vx(q, k + 1)));
            assert(nb(m, q[k], q[k - 1]) && nb(m, q[k], q[k + 1]));
            lemma_two(m, max, q[k], q[k - 1], q[k + 1]);
            if w == q[k - 1] { assert(win(q, k - 1, vx(q, k), w)); } else { assert(win(q, k, vx(q, k), w)); }
        } else {
            assert(nb(m, vx(q, 0), vx(q, 1)) && nb(m, vx(q, n - 2), vx(q, n - 1)));
            assert(vx(q, 1) != vx(q, n - 2));
            assert(nb(m, q[0], q[1]) && nb(m, q[0], q[n - 2]));
            lemma_two(m, max, q[0], q[1], q[n - 2]);
            if w == q[1] { assert(win(q, 0, vx(q, k), w)); } else { assert(win(q, n - 2, vx(q, k), w)); }
        }
    }
    assert forall|a: usize, b: usize| at_bit(v, a) && #[trigger] nb(m, a, b) && two(m, b) implies at_bit(v, b) by {
        if !at_bit(v0, a) {
            let k = choose|i: int| off <= i < n - 1 && #[trigger] vx(q, i) == a;
            assert(nb(m, vx(q, k), b));
            let i = choose|i: int| #[trigger] win(q, i, vx(q, k), b);
            let j = if q[i] == b { i } else { i + 1 };
            assert(q[j] == b);
            if off <= j < n - 1 { assert(vx(q, j) == b); }
            else if j == 0 { assert(!two(m, q[0])); }
            else { if open { assert(!two(m, q.last())); } else { assert(vx(q, 0) == b); } }
        }
    }
    assert(line_ok(m, q));
    assert forall|i: int, a: usize, b: usize| #[trigger] win(q, i, a, b) implies !at_bit(v0, a) && !at_bit(v0, b) && (at_bit(v, a) || at_bit(v, b)) by {
        let k = if i >= off { i } else { i + 1 };
        assert(off <= k < n - 1);
        assert(at_bit(v, vx(q, k)) && !at_bit(v0, vx(q, k)));
        assert(nb(m, vx(q, i), vx(q, i + 1)));
        assert(nb(m, a, b) && nb(m, b, a));
    }
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && (at_bit(v, a) || at_bit(v, b)) && !at_bit(v0, a) && !at_bit(v0, b) implies exists|i: int| #[trigger] win(q, i, a, b) by {
        assert(nb(m, b, a));
        let x = if at_bit(v, a) { a } else { b };
        let y = if at_bit(v, a) { b } else { a };
        let k = choose|i: int| off <= i < n - 1 && #[trigger] vx(q, i) == x;
        assert(nb(m, vx(q, k), y));
        let i = choose|i: int| #[trigger] win(q, i, vx(q, k), y);
        assert(win(q, i, a, b));
    }
    assert forall|i: int, j: int, a: usize, b: usize| #[trigger] win(q, i, a, b) && #[trigger] win(q, j, a, b) implies i == j by {
        if i < j { lemma_apart(m, v0, v, q, open, i, j, a, b); } else if j < i { lemma_apart(m, v0, v, q, open, j, i, a, b); }
    }
}
pub proof fn lemma_apart(m: Adj, v0: SetVob, v: SetVob, q: Seq<usize>, open: bool, i: int, j: int, a: usize, b: usize)
    requires
        chain(m, q), q.len() >= if open { 3int } else { 4int },
        marks(v0, v, q, if open { 1int } else { 0int }, q.len() - 1),
        forall|a: usize| #[trigger] at_bit(v, a) ==> two(m, a),
        open ==> !two(m, q[0]) && !two(m, q.last()),
        !open ==> q[0] == q.last(),
        i < j, win(q, i, a, b), win(q, j, a, b),
    ensures false,
{
    let off = if open { 1int } else { 0int };
    let n = q.len() as int;
    assert(at_bit(v, vx(q, j)));
    if q[i] == q[j] {
        if i >= off { assert(vx(q, i) == vx(q, j)); }
    } else {
        assert(q[i + 1] == q[j] && q[i] == q[j + 1]);
        if i + 1 < n - 1 { assert(vx(q, i + 1) == vx(q, j)); }
        assert(i + 1 == j);
        assert(two(m, vx(q, j)));
        assert(q[j - 1] != q[j + 1]);
    }
}
// ---- dividing
/// edges still to be looked at from v
pub open spec fn rem_at(cs: Seq<(usize, Vec<usize>)>, k: int, a: usize, b: usize) -> bool { 0 <= k < cs.len() && cs[k].0 == a && cs[k].1@.contains(b) }
pub open spec fn rem(cs: Seq<(usize, Vec<usize>)>, a: usize, b: usize) -> bool { exists|k: int| #[trigger] rem_at(cs, k, a, b) }
pub open spec fn cands_ok(m: Adj, cs: Seq<(usize, Vec<usize>)>) -> bool {
    &&& forall|k: int| 0 <= k < cs.len() ==> m.dom().contains((#[trigger] cs[k]).0) && !two(m, cs[k].0) && cs[k].1@.no_duplicates()
            && forall|x: usize| #[trigger] cs[k].1@.contains(x) ==> nb(m, cs[k].0, x)
    &&& forall|k: int, l: int| 0 <= k < cs.len() && 0 <= l < cs.len() && (#[trigger] cs[k]).0 == (#[trigger] cs[l]).0 ==> k == l
}
pub open spec fn cands_all(m: Adj, cs: Seq<(usize, Vec<usize>)>) -> bool { forall|a: usize, b: usize| #[trigger] nb(m, a, b) && !two(m, a) ==> rem(cs, a, b) }
/// the edges found so far
pub open spec fn cov(m: Adj, v: SetVob, cs: Seq<(usize, Vec<usize>)>) -> spec_fn(usize, usize) -> bool {
    |a: usize, b: usize| at_bit(v, a) || at_bit(v, b) || (!two(m, a) && !two(m, b) && !(if a < b { rem(cs, a, b) } else { rem(cs, b, a) }))
}
/// first stage; `next` has been taken from the candidate `cur` and not been followed yet
pub open spec fn stage1(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob, cs: Seq<(usize, Vec<usize>)>, cur: usize, next: Option<usize>) -> bool {
    &&& graph(m, max) && closed(m, v, max) && cands_ok(m, cs)
    &&& holds(m, gs, cov(m, v, cs))
    &&& forall|a: usize, b: usize| #[trigger] nb(m, a, b) && !two(m, a) && two(m, b) && !rem(cs, a, b) ==> at_bit(v, b) || (next == Some(b) && a == cur)
    &&& next is Some ==> nb(m, cur, next->0) && !two(m, cur) && two(m, next->0) && !at_bit(v, next->0)
}
pub open spec fn stage2(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob) -> bool {
    &&& graph(m, max) && closed(m, v, max) && rings(m, v)
    &&& holds(m, gs, cov(m, v, Seq::empty()))
}
/// the last candidate loses its last neighbour
pub proof fn lemma_popped(m: Adj, max: usize, cs: Seq<(usize, Vec<usize>)>, c1: Seq<(usize, Vec<usize>)>, n: usize)
    requires graph(m, max), cands_ok(m, cs), cs.len() > 0, c1.len() == cs.len(), forall|k: int| 0 <= k < cs.len() - 1 ==> #[trigger] c1[k] == cs[k],
        c1.last().0 == cs.last().0, cs.last().1@.len() > 0, c1.last().1@ == cs.last().1@.drop_last(), n == cs.last().1@.last(),
    ensures cands_ok(m, c1), nb(m, cs.last().0, n), !rem(c1, cs.last().0, n), rem(cs, cs.last().0, n),
        forall|a: usize, b: usize| #[trigger] rem(c1, a, b) <==> rem(cs, a, b) && !(a == cs.last().0 && b == n),
{
    let e = cs.len() - 1;
    let (s, s1) = (cs[e].1@, c1[e].1@);
    assert(cs.last() == cs[e] && c1.last() == c1[e]);
    assert(s[s.len() - 1] == n);
    assert(s.contains(n));
    assert forall|x: usize| #[trigger] s1.contains(x) <==> s.contains(x) && x != n by {
        if s1.contains(x) { let i = s1.index_of(x); assert(s[i] == x); assert(s[i] != s[s.len() - 1]); }
        if s.contains(x) && x != n { let i = s.index_of(x); assert(s1[i] == x); }
    }
    assert forall|k: int| 0 <= k < c1.len() implies m.dom().contains((#[trigger] c1[k]).0) && !two(m, c1[k].0) && c1[k].1@.no_duplicates()
            && forall|x: usize| #[trigger] c1[k].1@.contains(x) ==> nb(m, c1[k].0, x) by { assert(cs[k].0 == c1[k].0); if k < e { assert(c1[k] == cs[k]); } }
    assert forall|k: int, l: int| 0 <= k < c1.len() && 0 <= l < c1.len() && (#[trigger] c1[k]).0 == (#[trigger] c1[l]).0 implies k == l by { assert(cs[k].0 == cs[l].0); }
    assert forall|a: usize, b: usize| #[trigger] rem(c1, a, b) <==> rem(cs, a, b) && !(a == cs.last().0 && b == n) by {
        if rem(c1, a, b) {
            let k = choose|k: int| #[trigger] rem_at(c1, k, a, b);
            assert(cs[k].0 == c1[k].0);
            if k < e { assert(c1[k] == cs[k]); }
            assert(rem_at(cs, k, a, b));
            if a == cs.last().0 { assert(k == e); }
        }
        if rem(cs, a, b) && !(a == cs.last().0 && b == n) {
            let k = choose|k: int| #[trigger] rem_at(cs, k, a, b);
            if k < e { assert(c1[k] == cs[k]); }
            assert(rem_at(c1, k, a, b));
        }
    }
    assert(rem_at(cs, e, cs.last().0, n));
}
/// an emptied candidate is dropped
pub proof fn lemma_dropped(m: Adj, cs: Seq<(usize, Vec<usize>)>)
    requires cands_ok(m, cs), cs.len() > 0, cs.last().1@.len() == 0,
    ensures cands_ok(m, cs.drop_last()), forall|a: usize, b: usize| #[trigger] rem(cs.drop_last(), a, b) <==> rem(cs, a, b),
{
    let c1 = cs.drop_last();
    assert forall|a: usize, b: usize| #[trigger] rem(c1, a, b) <==> rem(cs, a, b) by {
        if rem(c1, a, b) { let k = choose|k: int| #[trigger] rem_at(c1, k, a, b); assert(c1[k] == cs[k]); assert(rem_at(cs, k, a, b)); }
        if rem(cs, a, b) { let k = choose|k: int| #[trigger] rem_at(cs, k, a, b); assert(k < cs.len() - 1); assert(c1[k] == cs[k]); assert(rem_at(c1, k, a, b)); }
    }
    assert forall|k: int| 0 <= k < c1.len() implies m.dom().contains((#[trigger] c1[k]).0) && !two(m, c1[k].0) && c1[k].1@.no_duplicates()
            && forall|x: usize| #[trigger] c1[k].1@.contains(x) ==> nb(m, c1[k].0, x) by { assert(c1[k] == cs[k]); }
    assert forall|k: int, l: int| 0 <= k < c1.len() && 0 <= l < c1.len() && (#[trigger] c1[k]).0 == (#[trigger] c1[l]).0 implies k == l by { assert(cs[k].0 == cs[l].0); }
}
/// a found line joins the shapes
pub proof fn lemma_found(m: Adj, max: usize, gs: Seq<Vec<usize>>, v0: SetVob, v: SetVob, cs: Seq<(usize, Vec<usize>)>, l: Vec<usize>, open: bool)
    requires graph(m, max), closed(m, v0, max), holds(m, gs, cov(m, v0, cs)), unwound(m, max, v0, v, l@, open),
    ensures holds(m, gs.push(l), cov(m, v, cs)),
{
    let (c, d) = (cov(m, v0, cs), cov(m, v, cs));
    assert forall|i: int, a: usize, b: usize| #[trigger] win(l@, i, a, b) implies !c(a, b) && d(a, b) by {
        assert(at_bit(v, a) || at_bit(v, b));
        assert(two(m, a) || two(m, b));
    }
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && d(a, b) implies c(a, b) || exists|i: int| #[trigger] win(l@, i, a, b) by {
        if !at_bit(v0, a) && !at_bit(v0, b) && (at_bit(v, a) || at_bit(v, b)) { let i = choose|i: int| #[trigger] win(l@, i, a, b); }
    }
    lemma_add(m, gs, c, l, d, max);
}
pub proof fn lemma_deg(m: Adj, ix: Seq<usize>, max: usize, a: usize)
    requires adj_of(m, ix, ix.len() as int / 2, max),
    ensures deg2(ix, a) <==> two(m, a),
{
    if two(m, a) {
        lemma_pick(m, max, a);
        let (b, c) = (m[a]@[0], m[a]@[1]);
        assert forall|x: usize| #[trigger] edge(ix, a, x) implies x == b || x == c by { assert(nb(m, a, x)); }
        assert(only(ix, a, b, c));
    }
    if deg2(ix, a) {
        let (b, c) = choose|b: usize, c: usize| b != c && edge(ix, a, b) && edge(ix, a, c) && #[trigger] only(ix, a, b, c);
        assert(nb(m, a, b) && nb(m, a, c));
        let s = m[a]@;
        assert forall|x: usize| #[trigger] s.contains(x) implies x == b || x == c by { assert(nb(m, a, x)); assert(edge(ix, a, x)); }
        let (i, j) = (s.index_of(b), s.index_of(c));
        if s.len() > 2 {
            let k = if i != 0 && j != 0 { 0int } else if i != 1 && j != 1 { 1int } else { 2int };
            assert(s.contains(s[k]));
        }
    }
}
/// the shapes hold every edge of the list once
pub open spec fn divided(ix: Seq<usize>, gs: Seq<Vec<usize>>) -> bool {
    &&& forall|g: int| 0 <= g < gs.len() ==> shape_ok(ix, #[trigger] gs[g]@)
    &&& forall|a: usize, b: usize| #[trigger] edge(ix, a, b) ==> exists|g: int, i: int| #[trigger] at(gs, g, i, a, b)
    &&& forall|g: int, i: int, h: int, j: int, a: usize, b: usize| #[trigger] at(gs, g, i, a, b) && #[trigger] at(gs, h, j, a, b) ==> g == h && i == j
}
pub proof fn lemma_divided(m: Adj, ix: Seq<usize>, max: usize, gs: Seq<Vec<usize>>, v: SetVob)
    requires adj_of(m, ix, ix.len() as int / 2, max), holds(m, gs, cov(m, v, Seq::empty())), forall|a: usize| #[trigger] two(m, a) ==> at_bit(v, a),
    ensures divided(ix, gs),
{
    let c = cov(m, v, Seq::empty());
    assert forall|a: usize, b: usize| #[trigger] edge(ix, a, b) implies exists|g: int, i: int| #[trigger] at(gs, g, i, a, b) by {
        assert(nb(m, a, b));
        if rem(Seq::empty(), a, b) { let k = choose|k: int| #[trigger] rem_at(Seq::empty(), k, a, b); }
        if rem(Seq::empty(), b, a) { let k = choose|k: int| #[trigger] rem_at(Seq::empty(), k, b, a); }
        assert(c(a, b));
    }
    assert forall|g: int| 0 <= g < gs.len() implies shape_ok(ix, #[trigger] gs[g]@) by {
        let l = gs[g]@;
        assert(line_ok(m, l));
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < l.len() implies edge(ix, #[trigger] vx(l, i), #[trigger] vx(l, j)) by { assert(nb(m, vx(l, i), vx(l, j))); }
        assert forall|i: int| 0 < i < l.len() - 1 implies deg2(ix, #[trigger] vx(l, i)) by { lemma_deg(m, ix, max, vx(l, i)); }
        lemma_deg(m, ix, max, l[0]); lemma_deg(m, ix, max, l.last());
    }
}
/// what is left when nothing but rings is: three vertices at least
pub proof fn lemma_left(m: Adj, max: usize, v: SetVob, t: SetVob, a: usize)
    requires graph(m, max), closed(m, v, max), rings(m, v), is_term(m, t, max), a <= max, !at_bit(v, a), !at_bit(t, a),
    ensures v.number_of_set_bits + t.number_of_set_bits < max,
{
    lemma_pick(m, max, a);
    let b = m[a]@[0];
    assert(nb(m, a, b) && nb(m, b, a));
    assert(two(m, b));
    assert(!at_bit(v, b)); assert(!at_bit(t, b));
    lemma_excl(m, max, v, t);
    lemma_count(v, t, max);
}
pub proof fn lemma_excl(m: Adj, max: usize, v: SetVob, t: SetVob)
    requires closed(m, v, max), is_term(m, t, max),
    ensures forall|i: usize| !(#[trigger] at_bit(v, i) && at_bit(t, i)),
{
    assert forall|i: usize| !(#[trigger] at_bit(v, i) && at_bit(t, i)) by { if at_bit(v, i) { assert(i <= max); assert(two(m, i)); } }
}
"""


GHOST2 = """
pub open spec fn max_of(t: SetVob) -> usize { (vbits(t.vob).len() - 1) as usize }
pub open spec fn nbs(m: Adj, a: usize) -> Seq<usize> { if m.dom().contains(a) { m[a]@ } else { Seq::empty() } }
pub open spec fn plus(m: Adj, a: usize, b: usize) -> Seq<usize> { if nbs(m, a).contains(b) { nbs(m, a) } else { nbs(m, a).push(b) } }
/// one more edge
pub proof fn lemma_joined(m: Adj, m1: Adj, ix: Seq<usize>, k: int, x0: usize, x1: usize, i: usize, j: usize)
    requires
        adj_of(m, ix, k, x0), 0 <= k, 2 * k + 1 < ix.len(), input_ok(ix), i == ix[2 * k], j == ix[2 * k + 1], x1 == if x0 >= i { if x0 >= j { x0 } else { j } } else if i >= j { i } else { j },
        m1.dom() == m.dom().insert(i).insert(j), m1[i]@ == plus(m, i, j), m1[j]@ == plus(m, j, i),
        forall|a: usize| a != i && a != j && m.dom().contains(a) ==> #[trigger] m1[a] == m[a],
    ensures adj_of(m1, ix, k + 1, x1),
{
    assert(i != j && i < usize::MAX && j < usize::MAX) by { assert((2 * k) % 2 == 0); let i2 = 2 * k; let j2 = i2 + 1; assert(ix[i2] != ix[j2]); }
    lemma_plus(m, i, j); lemma_plus(m, j, i);
    assert forall|a: usize, b: usize| #[trigger] nb(m1, a, b) <==> nb(m, a, b) || (a == i && b == j) || (a == j && b == i) by {
        if a != i && a != j && m.dom().contains(a) { assert(m1[a] == m[a]); }
    }
    assert forall|a: usize| #[trigger] m1.dom().contains(a) implies m1[a]@.no_duplicates() && a <= x1 && m1[a]@.len() > 0 by {
        if a != i && a != j { assert(m1[a] == m[a]); }
    }
    assert forall|a: usize, b: usize| #[trigger] nb(m1, a, b) <==> edge_n(ix, k + 1, a, b) by {
        if nb(m1, a, b) {
            if nb(m, a, b) { let e = choose|e: int| 0 <= e < k && #[trigger] is_pair(ix, e, a, b); assert(is_pair(ix, e, a, b)); }
            else { assert(is_pair(ix, k, a, b)); }
        }
        if edge_n(ix, k + 1, a, b) {
            let e = choose|e: int| 0 <= e < k + 1 && #[trigger] is_pair(ix, e, a, b);
            if e < k { assert(edge_n(ix, k, a, b)); assert(nb(m, a, b)); }
        }
    }
}
pub proof fn lemma_plus(m: Adj, a: usize, b: usize)
    requires m.dom().contains(a) ==> m[a]@.no_duplicates(),
    ensures plus(m, a, b).no_duplicates(), plus(m, a, b).len() > 0, forall|x: usize| #[trigger] plus(m, a, b).contains(x) <==> nb(m, a, x) || x == b,
{
    let (s, p) = (nbs(m, a), plus(m, a, b));
    assert forall|x: usize| #[trigger] p.contains(x) <==> s.contains(x) || x == b by {
        if s.contains(x) { let i = s.index_of(x); assert(p[i] == x); }
        if x == b && !s.contains(b) { assert(p[s.len() as int] == b); }
    }
    if s.contains(b) { let i = s.index_of(b); assert(s.len() > 0); }
}
/// vertex v has been looked at
pub proof fn lemma_cand(m: Adj, c0: Seq<(usize, Vec<usize>)>, c1: Seq<(usize, Vec<usize>)>, v: usize)
    requires
        cands_ok(m, c0), forall|k: int| 0 <= k < c0.len() ==> (#[trigger] c0[k]).0 < v,
        forall|a: usize, b: usize| #[trigger] nb(m, a, b) && !two(m, a) && a < v ==> rem(c0, a, b),
        forall|a: usize| #[trigger] m.dom().contains(a) ==> m[a]@.no_duplicates(),
        m.dom().contains(v) && !two(m, v) ==> c1.len() == c0.len() + 1 && c1.drop_last() =~= c0 && c1.last().0 == v && c1.last().1@ == m[v]@,
        !m.dom().contains(v) || two(m, v) ==> c1 == c0,
    ensures
        cands_ok(m, c1), forall|k: int| 0 <= k < c1.len() ==> (#[trigger] c1[k]).0 <= v,
        forall|a: usize, b: usize| #[trigger] nb(m, a, b) && !two(m, a) && a <= v ==> rem(c1, a, b),
{
    let n = c0.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] c1[k] == c0[k] by { if c1.len() == n + 1 { assert(c1.drop_last()[k] == c1[k]); } }
    assert forall|k: int| 0 <= k < c1.len() implies m.dom().contains((#[trigger] c1[k]).0) && !two(m, c1[k].0) && c1[k].1@.no_duplicates()
            && (forall|x: usize| #[trigger] c1[k].1@.contains(x) ==> nb(m, c1[k].0, x)) && (k < n ==> c1[k].0 < v) && (k == n ==> c1[k].0 == v) by {
        if k < n { assert(c1[k] == c0[k]); } else { assert(c1[k] == c1.last()); }
    }
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && !two(m, a) && a <= v implies rem(c1, a, b) by {
        if a < v { let k = choose|k: int| #[trigger] rem_at(c0, k, a, b); assert(c1[k] == c0[k]); assert(rem_at(c1, k, a, b)); }
        else { assert(rem_at(c1, n, a, b)); }
    }
}
/// a neighbour has been taken from the last candidate
pub proof fn lemma_taken(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob, cs: Seq<(usize, Vec<usize>)>, c1: Seq<(usize, Vec<usize>)>, n: usize)
    requires
        cs.len() > 0, stage1(m, max, gs, v, cs, cs.last().0, None), c1.len() == cs.len(), forall|k: int| 0 <= k < cs.len() - 1 ==> #[trigger] c1[k] == cs[k],
        c1.last().0 == cs.last().0, cs.last().1@.len() > 0, c1.last().1@ == cs.last().1@.drop_last(), n == cs.last().1@.last(),
    ensures
        nb(m, cs.last().0, n), n <= max,
        two(m, n) && at_bit(v, n) ==> stage1(m, max, gs, v, c1, cs.last().0, None),
        two(m, n) && !at_bit(v, n) ==> stage1(m, max, gs, v, c1, cs.last().0, Some(n)),
        !two(m, n) && cs.last().0 >= n ==> stage1(m, max, gs, v, c1, cs.last().0, None),
        !two(m, n) && cs.last().0 < n ==> forall|l: Vec<usize>| #[trigger] pair(l, cs.last().0, n) ==> stage1(m, max, gs.push(l), v, c1, cs.last().0, None),
{
    let cur = cs.last().0;
    let e = cs.len() - 1;
    assert(cs[e].0 == cur && !two(m, cur));
    lemma_popped(m, max, cs, c1, n);
    let (c, d) = (cov(m, v, cs), cov(m, v, c1));
    if two(m, n) || cur >= n {
        assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) implies (c(a, b) <==> d(a, b)) by {}
        lemma_same(m, gs, c, d);
    } else {
        assert forall|l: Vec<usize>| #[trigger] pair(l, cur, n) implies stage1(m, max, gs.push(l), v, c1, cur, None) by {
            let q = l@;
            assert(nb(m, cur, n) && nb(m, n, cur));
            assert(line_ok(m, q));
            assert forall|i: int, a: usize, b: usize| #[trigger] win(q, i, a, b) implies !c(a, b) && d(a, b) by { assert(i == 0); assert(rem(cs, cur, n)); assert(!rem(c1, cur, n)); if at_bit(v, cur) || at_bit(v, n) { assert(false); } }
            assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && d(a, b) implies c(a, b) || exists|i: int| #[trigger] win(q, i, a, b) by {
                if !c(a, b) { assert(win(q, 0, a, b)); }
            }
            lemma_add(m, gs, c, l, d, max);
        }
    }
}
pub open spec fn pair(l: Vec<usize>, a: usize, b: usize) -> bool { l@.len() == 2 && l@[0] == a && l@[1] == b }
pub open spec fn sum(v: SetVob, t: SetVob) -> int { v.number_of_set_bits + t.number_of_set_bits }
/// the marks of the vertices with two neighbours
pub open spec fn used(ix: Seq<usize>, v: Seq<bool>) -> bool {
    &&& forall|a: usize| a < v.len() ==> (#[trigger] v[a as int] <==> deg2(ix, a))
    &&& forall|i: int| 0 <= i < ix.len() - ix.len() % 2 ==> #[trigger] ix[i] < v.len()
}
"""

GHOST3 = """
/// the last candidate has been emptied
pub proof fn lemma_emptied(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob, cs: Seq<(usize, Vec<usize>)>, cur: usize)
    requires cs.len() > 0, stage1(m, max, gs, v, cs, cur, None), cs.last().1@.len() == 0,
    ensures stage1(m, max, gs, v, cs.drop_last(), cur, None),
{
    let c1 = cs.drop_last();
    lemma_dropped(m, cs);
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) implies (cov(m, v, cs)(a, b) <==> cov(m, v, c1)(a, b)) by {}
    lemma_same(m, gs, cov(m, v, cs), cov(m, v, c1));
}
pub proof fn lemma_begin(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob, cs: Seq<(usize, Vec<usize>)>, cur: usize)
    requires graph(m, max), gs.len() == 0, sized(v, max), forall|i: usize| !#[trigger] at_bit(v, i), cands_ok(m, cs), cands_all(m, cs),
    ensures stage1(m, max, gs, v, cs, cur, None),
{
    let c = cov(m, v, cs);
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) implies !c(a, b) by { assert(nb(m, b, a)); }
}
pub proof fn lemma_stages(m: Adj, max: usize, gs: Seq<Vec<usize>>, v: SetVob, cs: Seq<(usize, Vec<usize>)>, cur: usize)
    requires stage1(m, max, gs, v, cs, cur, None), cs.len() == 0,
    ensures stage2(m, max, gs, v),
{
    assert(cs =~= Seq::empty());
    assert forall|a: usize, b: usize| #[trigger] nb(m, a, b) && two(m, a) && !at_bit(v, a) implies two(m, b) by {
        assert(nb(m, b, a));
        if rem(cs, b, a) { let k = choose|k: int| #[trigger] rem_at(cs, k, b, a); }
    }
}
/// the line from `cur` by `next` has been followed
pub proof fn lemma_followed(m: Adj, max: usize, gs: Seq<Vec<usize>>, v0: SetVob, v: SetVob, cs: Seq<(usize, Vec<usize>)>, cur: usize, next: usize, l: Vec<usize>)
    requires stage1(m, max, gs, v0, cs, cur, Some(next)), unwound(m, max, v0, v, l@, true), at_bit(v, next),
    ensures stage1(m, max, gs.push(l), v, cs, cur, None),
{
    lemma_found(m, max, gs, v0, v, cs, l, true);
}
pub proof fn lemma_ring(m: Adj, max: usize, gs: Seq<Vec<usize>>, v0: SetVob, v: SetVob, l: Vec<usize>)
    requires stage2(m, max, gs, v0), unwound(m, max, v0, v, l@, false),
    ensures stage2(m, max, gs.push(l), v),
{
    lemma_found(m, max, gs, v0, v, Seq::empty(), l, false);
}
/// the sum of the marks decides whether all is done
pub proof fn lemma_sum(m: Adj, max: usize, v: SetVob, t: SetVob)
    requires graph(m, max), closed(m, v, max), rings(m, v), is_term(m, t, max),
    ensures sum(v, t) <= max + 1, sum(v, t) >= max ==> forall|a: usize| #[trigger] two(m, a) ==> at_bit(v, a),
{
    lemma_excl(m, max, v, t);
    lemma_count(v, t, max);
    if sum(v, t) >= max {
        assert forall|a: usize| #[trigger] two(m, a) implies at_bit(v, a) by {
            if !at_bit(v, a) { assert(!at_bit(t, a)); lemma_left(m, max, v, t, a); }
        }
    }
}
/// a vertex yet to be visited that is not the last one
pub proof fn lemma_some(m: Adj, max: usize, v: SetVob, t: SetVob) -> (r: usize)
    requires graph(m, max), closed(m, v, max), rings(m, v), is_term(m, t, max), sum(v, t) <= max,
    ensures r < max, !at_bit(v, r), !at_bit(t, r),
{
    lemma_excl(m, max, v, t);
    lemma_count(v, t, max);
    let a = choose|i: usize| i <= max && !(#[trigger] at_bit(v, i)) && !at_bit(t, i);
    assert(two(m, a));
    lemma_pick(m, max, a);
    let b = m[a]@[0];
    assert(nb(m, a, b) && nb(m, b, a));
    assert(two(m, b) && !at_bit(v, b) && !at_bit(t, b));
    if a < max { a } else { b }
}
pub proof fn lemma_used(m: Adj, ix: Seq<usize>, max: usize, v: SetVob)
    requires adj_of(m, ix, ix.len() as int / 2, max), closed(m, v, max), forall|a: usize| #[trigger] two(m, a) ==> at_bit(v, a),
    ensures used(ix, vbits(v.vob)),
{
    let s = vbits(v.vob);
    assert forall|a: usize| a < s.len() implies (#[trigger] s[a as int] <==> deg2(ix, a)) by {
        lemma_deg(m, ix, max, a);
        assert(s[a as int] == at_bit(v, a));
    }
    assert forall|i: int| 0 <= i < ix.len() - ix.len() % 2 implies #[trigger] ix[i] < s.len() by {
        let j = i / 2;
        let (a, b) = (ix[2 * j], ix[2 * j + 1]);
        assert(is_pair(ix, j, a, b) && is_pair(ix, j, b, a));
        assert(edge_n(ix, ix.len() as int / 2, a, b) && edge_n(ix, ix.len() as int / 2, b, a));
        assert(nb(m, a, b) && nb(m, b, a));
    }
}
"""


def spec(repo):
    s = Spec("L11", repo)
    s.prelude("vec", "iters", "graphx")
    s.assumptions.append("L11: AHashMap, SmallVec and Vob behave as the map, vector and bit vector of prelude graphx.rs; vertex numbers are below usize::MAX")
    sv = sub_rule("SmallVec", r"SmallVec\s*<\s*\[\s*usize\s*;\s*2\s*\]\s*>", "Vec<usize>")
    eod = sub_rule("entry_or_default", r"\.entry\((\w+)\)\s*\.or_default\(\)", r".entry_or_default(\1)")
    ctn = sub_rule("contains", r"\.contains\(&", ".contains_(&")
    cl = sub_rule("clone", r"\bneighbours\.clone\(\)", "neighbours.clone_()")
    asr = sub_rule("assert", r"\bassert!\(", "rt_assert(")
    sg = lambda g, p, rt, w: (g, sv(p, {}), sv(rt, {}) if rt else rt, w)
    s.type(R, "SetVob")
    s.ghost(GHOST + GHOST2 + GHOST3)
    s.fn(R, "SetVob", "fill_with_false", ens="sv_ok(r), vbits(r.vob).len() == size, forall|i: usize| !#[trigger] at_bit(r, i)", sig=sg,
         hints=[("wrap", """proof { lemma_bits_in(vbits(r__.vob)); assert(bits(vbits(r__.vob)) =~= Set::<int>::empty()); }""")])
    s.fn(R, "SetVob", "get", req="index < vbits(self.vob).len()", ens="r == at_bit(*self, index)")
    s.fn(R, "SetVob", "set", req="index < vbits(old(self).vob).len(), sv_ok(*old(self)), vbits(old(self).vob).len() <= usize::MAX",
         ens="""sv_ok(*final(self)), vbits(final(self).vob).len() == vbits(old(self).vob).len(),
        forall|i: usize| #[trigger] at_bit(*final(self), i) <==> at_bit(*old(self), i) || i == index,
        final(self).number_of_set_bits <= vbits(old(self).vob).len(), final(self).number_of_set_bits == old(self).number_of_set_bits + if at_bit(*old(self), index) { 0int } else { 1int }""",
         hints=[("entry", """let ghost b0 = vbits(self.vob);
            proof { lemma_bits_set(b0, index as int); if b0[index as int] { assert(b0.update(index as int, true) =~= b0); } }""")])
    s.fn(R, "SetVob", "number_of_set_bits", ens="r == self.number_of_set_bits")
    mx = "max_of(*termination_nodes)"
    hyp = f"graph(hm(*adjacency_map), {mx}), is_term(hm(*adjacency_map), *termination_nodes, {mx}), closed(hm(*adjacency_map), V0, {mx})"
    s.fn(R, None, "unwind_line", sig=sg, rules=[asr],
         req=hyp.replace("V0", "*old(visited)") + f""", current <= {mx}, !at_bit(*old(visited), current),
        next is Some ==> !two(hm(*adjacency_map), current) && nb(hm(*adjacency_map), current, next->0) && two(hm(*adjacency_map), next->0) && !at_bit(*old(visited), next->0),
        next is None ==> two(hm(*adjacency_map), current) && rings(hm(*adjacency_map), *old(visited))""",
         ens=f"""r@.len() > 1, unwound(hm(*adjacency_map), {mx}, *old(visited), *final(visited), if next is Some {{ r@ }} else {{ r@.push(r@[0]) }}, next is Some),
        next is Some ==> at_bit(*final(visited), next->0), final(visited).number_of_set_bits > old(visited).number_of_set_bits""",
         loops=[("loop", f"invariant_except_break winding(hm(*adjacency_map), {mx}, v0, *visited, line@, current, prev, next is Some, first), visited.number_of_set_bits <= {mx} + 1, invariant " + hyp.replace("V0", "v0") + f""", next is None ==> rings(hm(*adjacency_map), v0),
            next is Some ==> at_bit(*visited, next->0) || current == next->0, next is Some ==> !two(hm(*adjacency_map), first) && two(hm(*adjacency_map), next->0),
            v0.number_of_set_bits <= visited.number_of_set_bits,
            line@.len() > if next is Some {{ 1int }} else {{ 0int }} ==> v0.number_of_set_bits < visited.number_of_set_bits,
          ensures line@.len() > 1, unwound(hm(*adjacency_map), {mx}, v0, *visited, if next is Some {{ line@ }} else {{ line@.push(line@[0]) }}, next is Some),
            next is Some ==> at_bit(*visited, next->0), visited.number_of_set_bits > v0.number_of_set_bits,
          decreases {mx} + 2 - visited.number_of_set_bits""")],
         hints=[("entry", "let ghost v0 = *visited; let ghost first = current; proof { lemma_bits_in(vbits(v0.vob)); }"),
                (("body_start", 0), f"""let ghost vb = *visited; let ghost l0 = line@;
                proof {{
                    if !two(hm(*adjacency_map), current) {{ lemma_done(hm(*adjacency_map), {mx}, v0, *visited, line@.push(current), next is Some); }}
                }}"""),
                (("after", "visited . set ( current ) ;", 1), f"""proof {{
                    let m = hm(*adjacency_map);
                    lemma_pick(m, {mx}, current);
                    let (a, b) = (m[current]@[0], m[current]@[1]);
                    if prev is None || a != prev->0 {{ lemma_next(m, {mx}, v0, vb, l0, current, prev, next is Some, first, *visited, a); }}
                    if prev is None || b != prev->0 {{ lemma_next(m, {mx}, v0, vb, l0, current, prev, next is Some, first, *visited, b); }}
                    if next is None && l0.len() > 1 {{ if at_bit(*visited, first) {{ if nb(m, current, first) && prev->0 != first {{
                        lemma_done(m, {mx}, v0, *visited, l0.push(current).push(first), false); }} }} }}
                }}"""),
                ])
    s.fn(R, None, "adjacency_map", sig=sg, rules=[sv, eod, ctn],
         req="input_ok(indices@)",
         ens="adj_of(hm(r.1), indices@, indices@.len() as int / 2, r.0)",
         loops=[("loop", """invariant input_ok(indices@), 0 <= k0__ + 1 <= indices@.len() as int / 2, chk_ok(w0__), chk_size(w0__) == 2,
            chk_rest(w0__) == indices@.take(indices@.len() - indices@.len() % 2).skip(2 * (k0__ + 1)),
            adj_of(hm(adjacency_map), indices@, k0__ + 1, max_index),
          ensures k0__ + 1 == indices@.len() as int / 2,
          decreases indices@.len() as int / 2 - k0__""")],
         hints=[(("body_start", 0), "let ghost m0 = hm(adjacency_map); let ghost x0 = max_index; let ghost i_ = indices@[2 * k0__ + 2]; let ghost j_ = indices@[2 * k0__ + 3];"),
                (("body_end", 0), "proof { lemma_joined(m0, hm(adjacency_map), indices@, k0__, x0, max_index, i_, j_); }")])
    s.fn(R, None, "termination_candidate_nodes", sig=sg, rules=[sv, cl],
         req="graph(hm(*adjacency_map), max_index)",
         ens="is_term(hm(*adjacency_map), r.0, max_index), cands_ok(hm(*adjacency_map), r.1@), cands_all(hm(*adjacency_map), r.1@)",
         loops=[("for", """invariant graph(hm(*adjacency_map), max_index), sized(termination_nodes, max_index),
            forall|i: usize| i <= max_index ==> (#[trigger] at_bit(termination_nodes, i) <==> i < v_id && !two(hm(*adjacency_map), i)),
            cands_ok(hm(*adjacency_map), candidate_nodes@), forall|k: int| 0 <= k < candidate_nodes@.len() ==> (#[trigger] candidate_nodes@[k]).0 < v_id,
            forall|a: usize, b: usize| #[trigger] nb(hm(*adjacency_map), a, b) && !two(hm(*adjacency_map), a) && a < v_id ==> rem(candidate_nodes@, a, b)""")],
         hints=[(("body_start", 0), "let ghost c0 = candidate_nodes@;"),
                (("body_end", 0), """proof { lemma_cand(hm(*adjacency_map), c0, candidate_nodes@, v_id); }""")])
    div = "hm(adjacency_map), max_index"
    fixed = f"graph({div}), adj_of(hm(adjacency_map), indices@, indices@.len() as int / 2, max_index), is_term(hm(adjacency_map), termination_nodes, max_index)"
    st1 = "stage1({}, group_container@, visited, {}, current, {})"
    s.fn(R, None, "divide_into_shapes", sig=sg, rules=[sv, asr],
         req="input_ok(indices@)", ens="divided(indices@, r.0@), used(indices@, vbits(r.1))",
         loops=[
             ("while", f"invariant {fixed}, {st1.format(div, 'candidate_nodes@', 'None')}, "
                       "ensures candidate_nodes@.len() == 0, decreases max_index + 2 - visited.number_of_set_bits, candidate_nodes@.len()"),
             ("while", f"invariant {fixed}, {st1.format(div, 'candidate_nodes@', 'next_vertex')}, visited.number_of_set_bits == n0, "
                       "ensures next_vertex is None ==> candidate_nodes@.len() == 0, decreases candidate_nodes@.len()"),
             ("while", f"invariant {fixed}, c0.len() > 0, c0.last().0 == current, candidate_nodes@ =~= c0.update(c0.len() - 1, (current, *final(array))), visited.number_of_set_bits == n0, next_vertex is None, "
                       f"{st1.format(div, 'c0.update(c0.len() - 1, (current, *array))', 'None')}, decreases array@.len()"),
             ("loop", "invariant_except_break sum(visited, termination_nodes) <= max_index, forall|i: usize| i < min_index ==> #[trigger] at_bit(visited, i) || at_bit(termination_nodes, i), "
                      f"invariant {fixed}, stage2({div}, group_container@, visited), "
                      "ensures forall|a: usize| #[trigger] two(hm(adjacency_map), a) ==> at_bit(visited, a), "
                      "decreases max_index + 2 - visited.number_of_set_bits"),
             ("while", f"invariant {fixed}, current == min_index, current <= r_ < max_index, !at_bit(visited, r_), !at_bit(termination_nodes, r_), sized(visited, max_index), "
                       "forall|i: usize| i < min_index ==> #[trigger] at_bit(visited, i) || at_bit(termination_nodes, i), "
                       "ensures !at_bit(visited, current) && !at_bit(termination_nodes, current), decreases max_index - current"),
         ],
         hints=[
             (("before_loop", 0), f"proof {{ lemma_begin({div}, group_container@, visited, candidate_nodes@, current); lemma_bits_in(vbits(visited.vob)); }}"),
             (("body_start", 0), "let ghost n0 = visited.number_of_set_bits; let ghost g0 = group_container@; let ghost v0 = visited;"),
             (("after_loop", 1), "let ghost g1 = group_container@;"),
             (("body_end", 0), f"""proof {{ lemma_bits_in(vbits(visited.vob));
                if next_vertex is Some {{ lemma_followed({div}, g1, v0, visited, candidate_nodes@, current, next_vertex->0, group_container@.last()); 
                    assert(group_container@ =~= g1.push(group_container@.last())); }} }}"""),
             (("body_start", 1), "let ghost c0 = candidate_nodes@;"),
             (("body_end", 2), """proof { if current < n_vertex && group_container@.len() > g2.len() {
                 assert(pair(group_container@.last(), current, n_vertex)); assert(group_container@ =~= g2.push(group_container@.last())); } }"""),
             (("before", "break 'outer ;", 0), "proof { assert(candidate_nodes@ =~= c0.update(c0.len() - 1, (current, *array))); }"),
             (("before_loop", 2), "proof { assert(c0.update(c0.len() - 1, (current, *array)) =~= c0); }"),
             (("body_start", 2), "let ghost cs = c0.update(c0.len() - 1, (current, *array)); let ghost g2 = group_container@;"),
             (("after", "let n_vertex = array . pop ( ) . unwrap ( ) ;"), f"""proof {{
                 lemma_taken({div}, group_container@, visited, cs, c0.update(c0.len() - 1, (current, *array)), n_vertex); }}"""),
             (("after_loop", 2), f"""proof {{ let cs = c0.update(c0.len() - 1, (current, *array));
                 lemma_emptied({div}, group_container@, visited, cs, current);
                 assert(cs.drop_last() =~= c0.drop_last()); }}"""),
             (("body_end", 1), "proof { assert(candidate_nodes@ =~= c0.drop_last()); }"),
             (("after_loop", 0), f"proof {{ lemma_stages({div}, group_container@, visited, candidate_nodes@, current); lemma_sum({div}, visited, termination_nodes); }}"),
             (("body_start", 3), f"let ghost g0 = group_container@; let ghost v0 = visited; let ghost r_ = lemma_some({div}, visited, termination_nodes);"),
             (("after", "group_container . push ( line ) ;"), f"""proof {{
                 lemma_ring({div}, g0, v0, visited, group_container@.last());
                 assert(group_container@ =~= g0.push(group_container@.last()));
                 lemma_sum({div}, visited, termination_nodes);
                 assert forall|i: usize| i < min_index implies #[trigger] at_bit(visited, i) || at_bit(termination_nodes, i) by {{ assert(at_bit(v0, i) || at_bit(termination_nodes, i)); }} }}"""),
             ("tail", f"proof {{ lemma_divided(hm(adjacency_map), indices@, max_index, group_container@, visited); lemma_used(hm(adjacency_map), indices@, max_index, visited); }}"),
         ])
    return s
