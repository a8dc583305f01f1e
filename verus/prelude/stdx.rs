// TRUSTED: contracts of standard library methods vstd does not specify (or
// specifies too weakly for Copy types). A method call `.m(..)` of the source
// is renamed to `.m_(..)`; the body is the standard library's method.
pub trait OptX<T> { fn cloned_(self) -> Option<T>; }
impl<'a, T: Copy> OptX<T> for Option<&'a T> {
    #[verifier::external_body]
    fn cloned_(self) -> (r: Option<T>)
        ensures self is None ==> r is None, self is Some ==> r == Some(*(self->0))
    { self.cloned() }
}
/// one of the points is (x, y)
pub open spec fn has_pt<T>(s: Seq<T>, x: real, y: real) -> bool { exists|i: int| 0 <= i < s.len() && rx(#[trigger] s[i]) == x && ry(s[i]) == y }
pub trait VecX2<T: GenericVector2> { spec fn s_(&self) -> Seq<T>; fn contains_(&self, x: &T) -> (r: bool)
    ensures r == has_pt(self.s_(), rx(*x), ry(*x)); }
impl<T: GenericVector2> VecX2<T> for Vec<T> {
    open spec fn s_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn contains_(&self, x: &T) -> (r: bool) { self.contains(x) }
}
pub trait OptX3<T> { fn copied_(self) -> Option<T>; }
impl<'a, T: Copy> OptX3<T> for Option<&'a T> {
    #[verifier::external_body]
    fn copied_(self) -> (r: Option<T>)
        ensures self is None ==> r is None, self is Some ==> r == Some(*(self->0))
    { self.copied() }
}
pub trait SliceX<T> { spec fn sv_(&self) -> Seq<T>; fn to_vec_(&self) -> (r: Vec<T>) ensures r@ == self.sv_(); }
impl<T: Copy> SliceX<T> for [T] {
    open spec fn sv_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn to_vec_(&self) -> (r: Vec<T>) { self.to_vec() }
}
pub trait VecX1<T> { spec fn cv_(&self) -> Seq<T>; fn clone_(&self) -> (r: Vec<T>) ensures r@ == self.cv_(); }
impl<T: Copy> VecX1<T> for Vec<T> {
    open spec fn cv_(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn clone_(&self) -> (r: Vec<T>) { self.clone() }
}
