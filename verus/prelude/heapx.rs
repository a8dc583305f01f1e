// TRUSTED: std::collections::BinaryHeap (pop takes an item no other is greater than, by the items' own order),
// iterators over usize as the list of their items, enumerated slice iterators.
/// hcmp: what Ord::cmp of the items answers (proved of the real cmp)
pub trait HeapItem: Sized { spec fn hcmp(a: Self, b: Self) -> core::cmp::Ordering; }
pub open spec fn total<K: HeapItem>() -> bool {
    &&& forall|a: K, b: K| #[trigger] K::hcmp(a, b) == core::cmp::Ordering::Less <==> K::hcmp(b, a) == core::cmp::Ordering::Greater
    &&& forall|a: K, b: K, c: K| #[trigger] K::hcmp(a, b) != core::cmp::Ordering::Greater && #[trigger] K::hcmp(b, c) != core::cmp::Ordering::Greater
        ==> K::hcmp(a, c) != core::cmp::Ordering::Greater
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BinaryHeap<K> { v: Vec<K> }
pub uninterp spec fn in_heap<K>(h: BinaryHeap<K>, x: K) -> bool;
pub uninterp spec fn heap_len<K>(h: BinaryHeap<K>) -> nat;
impl<K: HeapItem> BinaryHeap<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) requires total::<K>(), ensures heap_len(r) == 0, forall|y: K| !#[trigger] in_heap(r, y) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (heap_len(*self) == 0), r ==> forall|y: K| !#[trigger] in_heap(*self, y) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: K)
        ensures heap_len(*final(self)) == heap_len(*old(self)) + 1, in_heap(*final(self), x),
            forall|y: K| #![trigger in_heap(*old(self), y)] #![trigger in_heap(*final(self), y)] in_heap(*final(self), y) <==> in_heap(*old(self), y) || y == x { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<K>)
        ensures r is None <==> heap_len(*old(self)) == 0,
            r is None ==> *final(self) == *old(self),
            r is Some ==> {
                &&& heap_len(*final(self)) == heap_len(*old(self)) - 1
                &&& in_heap(*old(self), r->0)
                &&& forall|y: K| #[trigger] in_heap(*old(self), y) ==> K::hcmp(y, r->0) != core::cmp::Ordering::Greater
                &&& forall|y: K| #![trigger in_heap(*old(self), y)] #![trigger in_heap(*final(self), y)] y != r->0 ==> (in_heap(*final(self), y) <==> in_heap(*old(self), y))
            } { unimplemented!() }
}
/// [x].iter().copied()
#[verifier::external_body]
pub fn once_(x: usize) -> (r: Vec<usize>) ensures r@ == seq![x] { vec![x] }
pub trait ChainX { spec fn us0_(&self) -> Seq<usize>; fn chain_(self, b: Vec<usize>) -> (r: Vec<usize>) ensures r@ == self.us0_() + b@; }
impl ChainX for Vec<usize> {
    open spec fn us0_(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn chain_(self, b: Vec<usize>) -> (r: Vec<usize>) { self.into_iter().chain(b).collect() }
}
/// .iter().enumerate() and .iter().enumerate().skip(n) called by hand
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumIter<'a, T> { v: &'a [T] }
pub uninterp spec fn en_seq<'a, T>(w: EnumIter<'a, T>) -> Seq<T>;
pub uninterp spec fn en_pos<'a, T>(w: EnumIter<'a, T>) -> int;
impl<'a, T> EnumIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures en_seq(*final(self)) == en_seq(*old(self)),
            r is Some <==> en_pos(*old(self)) < en_seq(*old(self)).len(),
            r is Some ==> (r->0).0 == en_pos(*old(self)) && *((r->0).1) == en_seq(*old(self))[en_pos(*old(self))] && en_pos(*final(self)) == en_pos(*old(self)) + 1
    { unimplemented!() }
}
#[verifier::external_body]
pub fn enum_iter_<'a, T>(s: &'a [T], n: usize) -> (r: EnumIter<'a, T>) ensures en_seq(r) == s@, en_pos(r) == n { unimplemented!() }
pub assume_specification [core::cmp::Ordering::reverse](o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, _ => o };
#[verifier::external_body]
pub proof fn ax_heap_empty<K>(h: BinaryHeap<K>) requires heap_len(h) == 0 ensures forall|y: K| !#[trigger] in_heap(h, y) {}
