// TRUSTED: the order of angles, sorting by a comparison function.
/// seen from the origin, for points to the right of the y axis or on its positive half: atan2 grows counter-clockwise
pub axiom fn ax_atan2(x1: real, y1: real, x2: real, y2: real)
    requires x1 > 0real || (x1 == 0real && y1 > 0real), x2 > 0real || (x2 == 0real && y2 > 0real),
    ensures ratan2(y1, x1) <= ratan2(y2, x2) <==> x1 * y2 - y1 * x2 >= 0real;
/// the key a list is sorted by: the first real, then the second
pub trait SortItem: Sized { spec fn skey(a: Self) -> (real, real); }
impl<A, S> SortItem for (A, S, S) { open spec fn skey(a: Self) -> (real, real) { (rv(a.1), rv(a.2)) } }
pub open spec fn lex(a: (real, real), b: (real, real)) -> Ordering {
    if a.0 < b.0 { Ordering::Less } else if a.0 > b.0 { Ordering::Greater } else if a.1 < b.1 { Ordering::Less } else if a.1 > b.1 { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn sorted<A: SortItem>(s: Seq<A>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lex(A::skey(#[trigger] s[i]), A::skey(#[trigger] s[j])) != Ordering::Greater }
#[verifier::opaque]
pub open spec fn same_items<A>(s: Seq<A>, t: Seq<A>) -> bool {
    &&& s.len() == t.len()
    &&& forall|i: int| 0 <= i < s.len() ==> t.contains(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < t.len() ==> s.contains(#[trigger] t[i])
}
/// .sort_unstable_by(f), for an f proved to compare the keys (a total order)
#[verifier::external_body]
pub fn sort_by_<A: SortItem, F: Fn(&A, &A) -> Ordering>(v: &mut Vec<A>, f: F)
    requires forall|a: &A, b: &A| #[trigger] f.requires((a, b)), forall|a: &A, b: &A, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == lex(A::skey(*a), A::skey(*b)),
    ensures sorted(final(v)@), same_items(final(v)@, old(v)@),
{ v.sort_unstable_by(f) }
/// .sort_unstable_by(f), for an f that says Greater when not le, Less when not le the other way round, and Less or Equal for a tie
#[verifier::external_body]
pub fn sort_ties_<A, F: Fn(&A, &A) -> Ordering>(v: &mut Vec<A>, f: F, Ghost(le): Ghost<spec_fn(A, A) -> bool>)
    requires
        forall|a: &A, b: &A| #[trigger] f.requires((a, b)),
        forall|a: &A, b: &A, o: Ordering| #[trigger] f.ensures((a, b), o) ==> (o == Ordering::Greater <==> !le(*a, *b)) && (!le(*b, *a) ==> o == Ordering::Less),
        forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> le(old(v)@[i], old(v)@[j]) || #[trigger] le(old(v)@[j], old(v)@[i]),
        forall|i: int, j: int, k: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() && 0 <= k < old(v)@.len() && #[trigger] le(old(v)@[i], old(v)@[j]) && #[trigger] le(old(v)@[j], old(v)@[k]) ==> le(old(v)@[i], old(v)@[k]),
    ensures
        same_items(final(v)@, old(v)@),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> #[trigger] le(final(v)@[i], final(v)@[j]),
{ v.sort_unstable_by(f) }
/// the text of an error
#[verifier::external_body]
pub fn stub_string() -> (r: String) { String::new() }
/// .then_with(|| o) for an o without effects
pub assume_specification [core::cmp::Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering) ensures r == if a == Ordering::Equal { b } else { a };
pub proof fn lemma_item<A>(s: Seq<A>, t: Seq<A>, i: int) requires same_items(s, t), 0 <= i < s.len() ensures t.contains(s[i]) { reveal(same_items); }
/// a vector of sized items takes no more than isize::MAX bytes
pub axiom fn ax_vec_len(v: &Vec<usize>) ensures v@.len() <= isize::MAX;
