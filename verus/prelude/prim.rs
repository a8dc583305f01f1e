// TRUSTED: usize -> scalar conversion of num-traits (AsPrimitive), treated as exact.
pub trait AsPrim<S> { fn as_(self) -> (r: S) ensures rv(r) == self.as_int() as real; spec fn as_int(self) -> int; }
impl<S: GenericScalar> AsPrim<S> for usize {
    open spec fn as_int(self) -> int { self as int }
    #[verifier::external_body]
    fn as_(self) -> (r: S) { unimplemented!() }
}
