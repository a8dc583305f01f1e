// TRUSTED: pieces of a slice, and rayon's reduce as any tree of combinations.
/// r are pieces of s, not empty, that make up s
#[verifier::opaque]
pub open spec fn pieces(r: Seq<&[usize]>, s: Seq<usize>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j])@.len() > 0
    &&& forall|j: int, i: int| 0 <= j < r.len() && 0 <= i < r[j]@.len() ==> s.contains(#[trigger] r[j]@[i])
    &&& forall|i: int| 0 <= i < s.len() ==> exists|j: int| 0 <= j < r.len() && (#[trigger] r[j])@.contains(#[trigger] s[i])
}
/// .chunks(n).collect()
#[verifier::external_body]
pub fn chunks_<'a>(s: &'a [usize], n: usize) -> (r: Vec<&'a [usize]>) requires n > 0 ensures pieces(r@, s@) { s.chunks(n).collect() }
/// (a..b).collect()
pub fn range_vec_(a: usize, b: usize) -> (r: Vec<usize>) requires a <= b ensures r@ == Seq::new((b - a) as nat, |i: int| (a + i) as usize)
{
    let mut r: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b invariant a <= i <= b, r@.len() == i - a, forall|k: int| 0 <= k < r@.len() ==> #[trigger] r@[k] == a + k decreases b - i { r.push(i); i += 1; }
    assert(r@ =~= Seq::new((b - a) as nat, |i: int| (a + i) as usize));
    r
}
/// rayon: a part of the items is folded from the identity on, the results of neighbouring parts are combined
#[verifier::external_body]
pub fn reduce_<A, I: Fn() -> A, F: Fn(A, A) -> A>(items: Vec<A>, id: I, op: F, inv: Ghost<spec_fn(Seq<A>, A) -> bool>) -> (r: A)
    requires
        id.requires(()), forall|x: A| #[trigger] id.ensures((), x) ==> (inv@)(Seq::<A>::empty(), x),
        forall|xs: Seq<A>, x: A, y: A| #[trigger] (inv@)(xs, x) && #[trigger] items@.contains(y) ==> op.requires((x, y)),
        forall|xs: Seq<A>, x: A, y: A, o: A| #[trigger] (inv@)(xs, x) && items@.contains(y) && #[trigger] op.ensures((x, y), o) ==> (inv@)(xs.push(y), o),
        forall|xs: Seq<A>, x: A, ys: Seq<A>, y: A| #[trigger] (inv@)(xs, x) && #[trigger] (inv@)(ys, y) ==> op.requires((x, y)),
        forall|xs: Seq<A>, x: A, ys: Seq<A>, y: A, o: A| #[trigger] (inv@)(xs, x) && #[trigger] (inv@)(ys, y) && #[trigger] op.ensures((x, y), o) ==> (inv@)(xs + ys, o),
    ensures (inv@)(items@, r)
{ unimplemented!() }
