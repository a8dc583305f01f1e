// TRUSTED: contracts of the standard library's slice iterators over windows
// and exact chunks. win_rest / chk_rest are the elements not yet walked past.
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExWindows<'a, T: 'a>(std::slice::Windows<'a, T>);
#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExChunksExact<'a, T: 'a>(std::slice::ChunksExact<'a, T>);

pub uninterp spec fn win_rest<'a, T>(w: std::slice::Windows<'a, T>) -> Seq<T>;
pub uninterp spec fn win_size<'a, T>(w: std::slice::Windows<'a, T>) -> nat;
pub assume_specification<'a, T> [<[T]>::windows](s: &'a [T], size: usize) -> (r: std::slice::Windows<'a, T>)
    requires size != 0,
    ensures win_rest(r) == s@, win_size(r) == size as nat;
pub assume_specification<'a, T> [<std::slice::Windows<'a, T> as Iterator>::next](w: &mut std::slice::Windows<'a, T>) -> (r: Option<&'a [T]>)
    ensures win_size(*final(w)) == win_size(*old(w)),
        win_rest(*old(w)).len() < win_size(*old(w)) ==> r is None && win_rest(*final(w)) == win_rest(*old(w)),
        win_rest(*old(w)).len() >= win_size(*old(w)) ==> r is Some && (r->0)@ == win_rest(*old(w)).take(win_size(*old(w)) as int)
            && win_rest(*final(w)) == win_rest(*old(w)).skip(1);

pub uninterp spec fn chk_rest<'a, T>(w: std::slice::ChunksExact<'a, T>) -> Seq<T>;
pub uninterp spec fn chk_rem<'a, T>(w: std::slice::ChunksExact<'a, T>) -> Seq<T>;
pub uninterp spec fn chk_size<'a, T>(w: std::slice::ChunksExact<'a, T>) -> nat;
/// chk_rest has a multiple of the chunk size elements
pub open spec fn chk_ok<'a, T>(w: std::slice::ChunksExact<'a, T>) -> bool {
    chk_size(w) > 0 && chk_rest(w).len() % chk_size(w) == 0
}
pub assume_specification<'a, T> [<[T]>::chunks_exact](s: &'a [T], size: usize) -> (r: std::slice::ChunksExact<'a, T>)
    requires size != 0,
    ensures chk_ok(r), chk_size(r) == size as nat,
        chk_rest(r) == s@.take(s@.len() - s@.len() % size as nat), chk_rem(r) == s@.skip(s@.len() - s@.len() % size as nat);
pub assume_specification<'a, T> [<std::slice::ChunksExact<'a, T> as Iterator>::next](w: &mut std::slice::ChunksExact<'a, T>) -> (r: Option<&'a [T]>)
    ensures chk_size(*final(w)) == chk_size(*old(w)), chk_rem(*final(w)) == chk_rem(*old(w)),
        chk_rest(*old(w)).len() < chk_size(*old(w)) ==> r is None && chk_rest(*final(w)) == chk_rest(*old(w)),
        chk_rest(*old(w)).len() >= chk_size(*old(w)) ==> r is Some && (r->0)@ == chk_rest(*old(w)).take(chk_size(*old(w)) as int)
            && chk_rest(*final(w)) == chk_rest(*old(w)).skip(chk_size(*old(w)) as int);
pub assume_specification<'a, T> [std::slice::ChunksExact::<'a, T>::remainder](w: &std::slice::ChunksExact<'a, T>) -> (r: &'a [T])
    ensures r@ == chk_rem(*w);

/// `.len()` of the two iterators (a provided method of ExactSizeIterator in std)
pub trait ItLen { spec fn it_len_spec(&self) -> int; fn it_len(&self) -> (r: usize) ensures r as int == self.it_len_spec(); }
impl<'a, T> ItLen for std::slice::Windows<'a, T> {
    open spec fn it_len_spec(&self) -> int { if win_rest(*self).len() < win_size(*self) { 0int } else { win_rest(*self).len() - win_size(*self) + 1 } }
    #[verifier::external_body]
    fn it_len(&self) -> (r: usize) { self.len() }
}
impl<'a, T> ItLen for std::slice::ChunksExact<'a, T> {
    open spec fn it_len_spec(&self) -> int { chk_rest(*self).len() as int / chk_size(*self) as int }
    #[verifier::external_body]
    fn it_len(&self) -> (r: usize) { self.len() }
}
