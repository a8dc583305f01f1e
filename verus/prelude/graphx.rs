// TRUSTED: contracts of the containers used by shape.rs. AHashMap<usize, SmallVec<[usize; 2]>>
// is a map from usize to a vector (SmallVec is verified as Vec, whose operations it has),
// Vob<u32> a vector of bits.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct AHashMap<K, V> { k: Vec<(K, V)> }
pub uninterp spec fn hm<K, V>(m: AHashMap<K, V>) -> Map<K, V>;
impl<K, V> AHashMap<K, V> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures hm(r) == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures hm(r) == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> hm(*self).dom().contains(*k), r is Some ==> *(r->0) == hm(*self)[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures hm(*final(self)) == hm(*old(self)).insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures hm(*final(self)) == hm(*old(self)).remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == hm(*self).dom().len() { unimplemented!() }
}
/// ks are the keys of m in ascending order
pub open spec fn keys_of<V>(ks: Seq<usize>, m: Map<usize, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] < #[trigger] ks[j]
    &&& forall|k: usize| #[trigger] m.dom().contains(k) <==> ks.contains(k)
}
impl<V> AHashMap<usize, V> {
    /// .keys().sorted_unstable().copied() as the list of its items
    #[verifier::external_body]
    pub fn sorted_keys_(&self) -> (r: Vec<usize>) ensures keys_of(r@, hm(*self)) { unimplemented!() }
}
impl AHashMap<usize, Vec<usize>> {
    /// .entry(k).or_default()
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: usize) -> (r: &mut Vec<usize>)
        ensures hm(*old(self)).dom().contains(k) ==> *r == hm(*old(self))[k],
            !hm(*old(self)).dom().contains(k) ==> (*r)@ == Seq::<usize>::empty(),
            hm(*final(self)) == hm(*old(self)).insert(k, *final(r)) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Vob<T> { v: Vec<T> }
pub uninterp spec fn vbits<T>(v: Vob<T>) -> Seq<bool>;
impl Vob<u32> {
    #[verifier::external_body]
    pub fn new_with_storage_type(n: usize) -> (r: Self) ensures vbits(r) == Seq::<bool>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn resize(&mut self, n: usize, v: bool)
        ensures vbits(*final(self)).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] vbits(*final(self))[i]
            == if i < vbits(*old(self)).len() { vbits(*old(self))[i] } else { v } { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<bool>)
        ensures i < vbits(*self).len() ==> r == Some(vbits(*self)[i as int]), i >= vbits(*self).len() ==> r is None { unimplemented!() }
    /// v[i]
    #[verifier::external_body]
    pub fn at_(&self, i: usize) -> (r: bool) requires i < vbits(*self).len(), ensures r == vbits(*self)[i as int] { unimplemented!() }
    /// true if the bit changed
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, v: bool) -> (r: bool)
        requires i < vbits(*old(self)).len(),
        ensures r == (vbits(*old(self))[i as int] != v), vbits(*final(self)) == vbits(*old(self)).update(i as int, v) { unimplemented!() }
}
pub trait UVec { spec fn us_(&self) -> Seq<usize>; fn contains_(&self, x: &usize) -> (r: bool) ensures r == self.us_().contains(*x);
    fn clone_(&self) -> (r: Vec<usize>) ensures r@ == self.us_(); }
impl UVec for Vec<usize> {
    open spec fn us_(&self) -> Seq<usize> { self@ }
    #[verifier::external_body]
    fn contains_(&self, x: &usize) -> (r: bool) { self.contains(x) }
    #[verifier::external_body]
    fn clone_(&self) -> (r: Vec<usize>) { self.clone() }
}
/// assert!(e): proved, so it cannot panic
pub fn rt_assert(e: bool) requires e {}
