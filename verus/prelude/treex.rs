// TRUSTED: contracts of the containers of the sweep line. BTreeMap is a map ordered by the keys'
// Ord::cmp, which must be the order by y, then x of their position (KeyOrd, proved for the real
// implementation); AHashSet<usize> a set of numbers.
pub open spec fn klt(a: V, b: V) -> bool { a.y < b.y || (a.y == b.y && a.x < b.x) }
pub open spec fn kcmp(a: V, b: V) -> Ordering { if klt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait KeyOrd: Sized + Copy {
    spec fn kp(&self) -> V;
    fn key_cmp(&self, other: &Self) -> (r: Ordering) ensures r == kcmp(self.kp(), other.kp());
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(W)]
pub struct BTreeMap<K, W> { k: Vec<(K, W)> }
pub uninterp spec fn bm<K, W>(m: BTreeMap<K, W>) -> Map<V, (K, W)>;
pub axiom fn ax_bm<K: KeyOrd, W>(m: BTreeMap<K, W>)
    ensures forall|p: V| #[trigger] bm(m).dom().contains(p) ==> bm(m)[p].0.kp() == p;
pub open spec fn bfill<K, W>(m: Map<V, (K, W)>, k: K, p: V, w: W) -> Map<V, (K, W)> {
    m.insert(p, (if m.dom().contains(p) { m[p].0 } else { k }, w))
}
impl<K: KeyOrd, W> BTreeMap<K, W> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures bm(r) == Map::<V, (K, W)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures bm(r) == Map::<V, (K, W)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> bm(*self).dom() =~= Set::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == bm(*self).dom().len(), r == 0 <==> bm(*self).dom() =~= Set::<V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut W>)
        ensures r is Some <==> bm(*old(self)).dom().contains(k.kp()),
            match r {
                Some(w) => *w == bm(*old(self))[k.kp()].1 && bm(*final(self)) == bfill(bm(*old(self)), *k, k.kp(), *final(w)),
                None => bm(*final(self)) == bm(*old(self)),
            } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, w: W) -> (r: Option<W>) ensures bm(*final(self)) == bfill(bm(*old(self)), k, k.kp(), w) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<W>)
        ensures r is Some <==> bm(*old(self)).dom().contains(k.kp()), r is Some ==> r->0 == bm(*old(self))[k.kp()].1,
            bm(*final(self)) == bm(*old(self)).remove(k.kp()) { unimplemented!() }
    /// .iter().next()
    #[verifier::external_body]
    pub fn first_(&self) -> (r: Option<(&K, &W)>)
        ensures match r {
            Some(e) => bm(*self).dom().contains(e.0.kp()) && bm(*self)[e.0.kp()] == (*e.0, *e.1)
                && forall|q: V| #[trigger] bm(*self).dom().contains(q) ==> !klt(q, e.0.kp()),
            None => bm(*self).dom() =~= Set::<V>::empty(),
        } { unimplemented!() }
    /// .pop_first()
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (r: Option<(K, W)>)
        ensures match r {
            Some(e) => bm(*old(self)).dom().contains(e.0.kp()) && bm(*old(self))[e.0.kp()] == e
                && bm(*final(self)) == bm(*old(self)).remove(e.0.kp())
                && forall|q: V| #[trigger] bm(*old(self)).dom().contains(q) ==> !klt(q, e.0.kp()),
            None => bm(*old(self)).dom() =~= Set::<V>::empty() && bm(*final(self)) == bm(*old(self)),
        } { unimplemented!() }
    /// the items of .into_iter()
    #[verifier::external_body]
    pub fn into_vec_(self) -> (r: Vec<(K, W)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> bm(self).dom().contains((#[trigger] r@[i]).0.kp()) && bm(self)[r@[i].0.kp()] == r@[i],
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> klt((#[trigger] r@[i]).0.kp(), (#[trigger] r@[j]).0.kp()),
            forall|p: V| #[trigger] bm(self).dom().contains(p) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.kp() == p { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct AHashSet<K> { k: Vec<K> }
pub uninterp spec fn hs(s: AHashSet<usize>) -> Set<usize>;
impl AHashSet<usize> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures hs(r) == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures hs(r) == Set::<usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize) -> (r: bool) ensures hs(*final(self)) == hs(*old(self)).insert(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &usize) -> (r: bool) ensures hs(*final(self)) == hs(*old(self)).remove(*k) { unimplemented!() }
    /// the items of .iter()
    #[verifier::external_body]
    pub fn list_(&self) -> (r: Vec<usize>) ensures r@.no_duplicates(), forall|x: usize| #[trigger] r@.contains(x) <==> hs(*self).contains(x) { unimplemented!() }
}
pub open spec fn ascending(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub trait IdList { spec fn ids_(&self) -> Seq<usize>;
    fn sort_ids_(&mut self) ensures final(self).ids_().len() == old(self).ids_().len(), forall|x: usize| #[trigger] final(self).ids_().contains(x) <==> old(self).ids_().contains(x),
        ascending(final(self).ids_()), old(self).ids_().no_duplicates() ==> final(self).ids_().no_duplicates();
    fn dedup_ids_(&mut self) ensures final(self).ids_().len() <= old(self).ids_().len(), forall|x: usize| #[trigger] final(self).ids_().contains(x) <==> old(self).ids_().contains(x),
        ascending(old(self).ids_()) ==> final(self).ids_().no_duplicates(), old(self).ids_().no_duplicates() ==> final(self).ids_() == old(self).ids_(); }
impl IdList for Vec<usize> {
    open spec fn ids_(&self) -> Seq<usize> { self@ }
    /// .sort_unstable()
    #[verifier::external_body]
    fn sort_ids_(&mut self) { self.sort_unstable() }
    /// .dedup(): only repetitions are removed
    #[verifier::external_body]
    fn dedup_ids_(&mut self) { self.dedup() }
}
pub open spec fn ol(o: Option<Vec<usize>>) -> Seq<usize> { match o { Some(v) => v@, None => Seq::<usize>::empty() } }
/// o.iter().flatten() as a slice (a Vec has at most isize::MAX bytes)
#[verifier::external_body]
pub fn flat_(o: &Option<Vec<usize>>) -> (r: &[usize]) ensures r@ == ol(*o), r@.len() <= usize::MAX / 8 { match o { Some(v) => v.as_slice(), None => &[] } }
