// TRUSTED: model of the scalar and vector traits of the `vector-traits` crate.
// Machine floats are treated as real numbers: rv is the value of a scalar,
// rx, ry, rz are the components of a vector. Nothing below is proved; every
// line is a contract assumed for the implementations in vector-traits.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::{Add, Sub, Mul, Div, Neg, AddAssign};
use core::cmp::Ordering;

pub uninterp spec fn rv<S>(s: S) -> real;
pub uninterp spec fn rx<T>(t: T) -> real;
pub uninterp spec fn ry<T>(t: T) -> real;
pub uninterp spec fn rz<T>(t: T) -> real;
pub uninterp spec fn rsqrt(r: real) -> real;
pub uninterp spec fn ratan2(y: real, x: real) -> real;
pub uninterp spec fn finite<S>(s: S) -> bool;
/// the x / y coordinate is a finite number
pub uninterp spec fn finx<T>(p: T) -> bool;
pub uninterp spec fn finy<T>(p: T) -> bool;
pub open spec fn fin2<T>(p: T) -> bool { finx(p) && finy(p) }

/// square root of a non-negative real
pub axiom fn ax_rsqrt(r: real) requires r >= 0real ensures rsqrt(r) >= 0real, rsqrt(r) * rsqrt(r) == r;

pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a >= 0real { a } else { -a } }

pub trait GenericScalar: Sized + Copy + PartialEq + PartialOrd
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self>
    + Div<Self, Output = Self> + Neg<Output = Self>
{
    const ZERO: Self;
    const ONE: Self;
    const TWO: Self;
    const THREE: Self;
    const INFINITY: Self;
    const NEG_INFINITY: Self;
    fn zero() -> (r: Self) ensures rv(r) == 0real;
    fn one() -> (r: Self) ensures rv(r) == 1real;
    fn default_epsilon() -> Self;
    fn default_max_ulps() -> u32;
    fn max_value() -> Self;
    fn min(self, other: Self) -> (r: Self)
        ensures rv(r) == rmin(rv(self), rv(other)), r == self || r == other;
    fn max(self, other: Self) -> (r: Self)
        ensures rv(r) == rmax(rv(self), rv(other)), r == self || r == other;
    fn abs(self) -> (r: Self) ensures rv(r) == rabs(rv(self));
    fn sqrt(self) -> (r: Self)
        ensures rv(self) >= 0real ==> rv(r) == rsqrt(rv(self)) && rv(r) >= 0real && rv(r) * rv(r) == rv(self);
    fn atan2(self, other: Self) -> (r: Self) ensures rv(r) == ratan2(rv(self), rv(other));
    fn is_finite(self) -> (r: bool) ensures r == finite(self);
    fn is_nan(self) -> (r: bool) ensures r == false;
    fn ulps_eq(&self, other: &Self, epsilon: Self, max_ulps: u32) -> (r: bool)
        ensures r == (rv(*self) == rv(*other));
    fn abs_diff_eq(&self, other: &Self, epsilon: Self) -> (r: bool)
        ensures r == (rabs(rv(*self) - rv(*other)) <= rv(epsilon));
    fn ceil(self) -> (r: Self)
        ensures is_int(rv(r)), rv(r) - 1real < rv(self) <= rv(r);
    fn as_(self) -> (r: usize)
        ensures 0real <= rv(self) && rv(self) <= usize::MAX as int as real && is_int(rv(self))
            ==> r as int as real == rv(self);
}

pub open spec fn is_int(r: real) -> bool { r == r.floor() as real }

pub fn ulps_eq_s<S: GenericScalar>(a: S, b: S) -> (r: bool)
    ensures r == (rv(a) == rv(b)),
{ a.ulps_eq(&b, S::default_epsilon(), S::default_max_ulps()) }

pub fn in_range_incl<S: GenericScalar>(a: S, b: S, x: S) -> (r: bool)
    ensures r == (rv(a) <= rv(x) && rv(x) <= rv(b)),
{ broadcast use scal; a <= x && x <= b }

pub broadcast axiom fn ax_add<S: GenericScalar>(a: S, b: S)
    ensures rv(#[trigger] <S as AddSpec>::add_spec(a, b)) == rv(a) + rv(b);
pub broadcast axiom fn ax_add_r<S: GenericScalar>(a: S, b: S)
    ensures #[trigger] <S as AddSpec>::add_req(a, b);
pub broadcast axiom fn ax_add_o<S: GenericScalar>()
    ensures #[trigger] <S as AddSpec>::obeys_add_spec();
pub broadcast axiom fn ax_sub<S: GenericScalar>(a: S, b: S)
    ensures rv(#[trigger] <S as SubSpec>::sub_spec(a, b)) == rv(a) - rv(b);
pub broadcast axiom fn ax_sub_r<S: GenericScalar>(a: S, b: S)
    ensures #[trigger] <S as SubSpec>::sub_req(a, b);
pub broadcast axiom fn ax_sub_o<S: GenericScalar>()
    ensures #[trigger] <S as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn ax_mul<S: GenericScalar>(a: S, b: S)
    ensures rv(#[trigger] <S as MulSpec>::mul_spec(a, b)) == rv(a) * rv(b);
pub broadcast axiom fn ax_mul_r<S: GenericScalar>(a: S, b: S)
    ensures #[trigger] <S as MulSpec>::mul_req(a, b);
pub broadcast axiom fn ax_mul_o<S: GenericScalar>()
    ensures #[trigger] <S as MulSpec>::obeys_mul_spec();
pub broadcast axiom fn ax_div<S: GenericScalar>(a: S, b: S)
    requires rv(b) != 0real
    ensures rv(#[trigger] <S as DivSpec>::div_spec(a, b)) == rv(a) / rv(b);
pub broadcast axiom fn ax_div_r<S: GenericScalar>(a: S, b: S)
    ensures #[trigger] <S as DivSpec>::div_req(a, b);
pub broadcast axiom fn ax_div_o<S: GenericScalar>()
    ensures #[trigger] <S as DivSpec>::obeys_div_spec();
pub broadcast axiom fn ax_neg<S: GenericScalar>(a: S)
    ensures rv(#[trigger] <S as NegSpec>::neg_spec(a)) == -rv(a);
pub broadcast axiom fn ax_neg_r<S: GenericScalar>(a: S)
    ensures #[trigger] <S as NegSpec>::neg_req(a);
pub broadcast axiom fn ax_neg_o<S: GenericScalar>()
    ensures #[trigger] <S as NegSpec>::obeys_neg_spec();
pub broadcast axiom fn ax_eq<S: GenericScalar>(a: S, b: S)
    ensures (#[trigger] <S as PartialEqSpec>::eq_spec(&a, &b)) == (rv(a) == rv(b));
pub broadcast axiom fn ax_eq_o<S: GenericScalar>()
    ensures #[trigger] <S as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_cmp<S: GenericScalar>(a: S, b: S)
    ensures (#[trigger] <S as PartialOrdSpec>::partial_cmp_spec(&a, &b)) ==
        (if rv(a) < rv(b) { Some(Ordering::Less) } else if rv(a) > rv(b) { Some(Ordering::Greater) }
         else { Some(Ordering::Equal) });
pub broadcast axiom fn ax_cmp_o<S: GenericScalar>()
    ensures #[trigger] <S as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_zero<S: GenericScalar>() ensures rv(#[trigger] S::ZERO) == 0real;
pub broadcast axiom fn ax_one<S: GenericScalar>() ensures rv(#[trigger] S::ONE) == 1real;
pub broadcast axiom fn ax_two<S: GenericScalar>() ensures rv(#[trigger] S::TWO) == 2real;
pub broadcast axiom fn ax_three<S: GenericScalar>() ensures rv(#[trigger] S::THREE) == 3real;

pub broadcast group scal {
    ax_add, ax_add_r, ax_add_o, ax_sub, ax_sub_r, ax_sub_o, ax_mul, ax_mul_r, ax_mul_o,
    ax_div, ax_div_r, ax_div_o, ax_neg, ax_neg_r, ax_neg_o, ax_eq, ax_eq_o, ax_cmp, ax_cmp_o,
    ax_zero, ax_one, ax_two, ax_three,
}

pub trait HasXY: Sized + Copy {
    type Scalar: GenericScalar;
    fn new_2d(x: Self::Scalar, y: Self::Scalar) -> (r: Self)
        ensures rx(r) == rv(x), ry(r) == rv(y);
    fn x(self) -> (r: Self::Scalar) ensures rv(r) == rx(self), finite(r) == finx(self);
    fn set_x(&mut self, val: Self::Scalar)
        ensures rx(*final(self)) == rv(val), ry(*final(self)) == ry(*old(self)),
            rz(*final(self)) == rz(*old(self));
    fn y(self) -> (r: Self::Scalar) ensures rv(r) == ry(self), finite(r) == finy(self);
    fn set_y(&mut self, val: Self::Scalar)
        ensures ry(*final(self)) == rv(val), rx(*final(self)) == rx(*old(self)),
            rz(*final(self)) == rz(*old(self));
}

pub trait HasXYZ: HasXY {
    fn new_3d(x: Self::Scalar, y: Self::Scalar, z: Self::Scalar) -> (r: Self)
        ensures rx(r) == rv(x), ry(r) == rv(y), rz(r) == rv(z);
    fn z(self) -> (r: Self::Scalar) ensures rv(r) == rz(self);
    fn set_z(&mut self, val: Self::Scalar)
        ensures rz(*final(self)) == rv(val), rx(*final(self)) == rx(*old(self)),
            ry(*final(self)) == ry(*old(self));
}

pub trait GenericVector2: HasXY + PartialEq + Neg<Output = Self> + Sub<Self, Output = Self>
    + Add<Self, Output = Self> + Mul<Self::Scalar, Output = Self> + Div<Self::Scalar, Output = Self>
{
    type Vector3: GenericVector3<Scalar = Self::Scalar, Vector2 = Self>;
    fn to_3d(self, z: Self::Scalar) -> (r: Self::Vector3)
        ensures rx(r) == rx(self), ry(r) == ry(self), rz(r) == rv(z);
    fn magnitude(self) -> (r: Self::Scalar)
        ensures rv(r) >= 0real, rv(r) == rsqrt(rx(self) * rx(self) + ry(self) * ry(self)), rv(r) * rv(r) == rx(self) * rx(self) + ry(self) * ry(self);
    fn magnitude_sq(self) -> (r: Self::Scalar)
        ensures rv(r) == rx(self) * rx(self) + ry(self) * ry(self);
    fn dot(self, other: Self) -> (r: Self::Scalar)
        ensures rv(r) == rx(self) * rx(other) + ry(self) * ry(other);
    fn perp_dot(self, rhs: Self) -> (r: Self::Scalar)
        ensures rv(r) == rx(self) * ry(rhs) - ry(self) * rx(rhs);
    fn distance(self, rhs: Self) -> (r: Self::Scalar)
        ensures rv(r) >= 0real, rv(r) * rv(r) == sq2(self, rhs), rv(r) == rsqrt(sq2(self, rhs)), sq2(self, rhs) == sq2(rhs, self);
    fn distance_sq(self, rhs: Self) -> (r: Self::Scalar)
        ensures rv(r) == sq2(self, rhs), sq2(self, rhs) == sq2(rhs, self);
    fn is_ulps_eq(self, other: Self, epsilon: Self::Scalar, max_ulps: u32) -> (r: bool)
        ensures r == ueq(self, other, epsilon, max_ulps);
    fn is_abs_diff_eq(self, other: Self, epsilon: Self::Scalar) -> (r: bool)
        ensures r == adeq(self, other, epsilon);
}

pub open spec fn sq2<T>(a: T, b: T) -> real {
    (rx(a) - rx(b)) * (rx(a) - rx(b)) + (ry(a) - ry(b)) * (ry(a) - ry(b))
}
pub open spec fn sq3<T>(a: T, b: T) -> real {
    (rx(a) - rx(b)) * (rx(a) - rx(b)) + (ry(a) - ry(b)) * (ry(a) - ry(b))
        + (rz(a) - rz(b)) * (rz(a) - rz(b))
}

/// approximate equality of vectors within units in the last place / within a distance per component
pub uninterp spec fn ueq<T, S>(a: T, b: T, eps: S, ulps: u32) -> bool;
pub uninterp spec fn adeq<T, S>(a: T, b: T, eps: S) -> bool;
/// modelled as exact equality of the real components
pub broadcast axiom fn ax_ueq2<T: GenericVector2>(a: T, b: T, eps: T::Scalar, ulps: u32)
    ensures #[trigger] ueq(a, b, eps, ulps) == (rx(a) == rx(b) && ry(a) == ry(b));
pub broadcast axiom fn ax_ueq3<T: GenericVector3>(a: T, b: T, eps: T::Scalar, ulps: u32)
    ensures #[trigger] ueq(a, b, eps, ulps) == (rx(a) == rx(b) && ry(a) == ry(b) && rz(a) == rz(b));

pub broadcast axiom fn v2_add<T: GenericVector2>(a: T, b: T)
    ensures rx(#[trigger] <T as AddSpec>::add_spec(a, b)) == rx(a) + rx(b),
        ry(<T as AddSpec>::add_spec(a, b)) == ry(a) + ry(b);
pub broadcast axiom fn v2_add_r<T: GenericVector2>(a: T, b: T)
    ensures #[trigger] <T as AddSpec>::add_req(a, b);
pub broadcast axiom fn v2_add_o<T: GenericVector2>()
    ensures #[trigger] <T as AddSpec>::obeys_add_spec();
pub broadcast axiom fn v2_sub<T: GenericVector2>(a: T, b: T)
    ensures rx(#[trigger] <T as SubSpec>::sub_spec(a, b)) == rx(a) - rx(b),
        ry(<T as SubSpec>::sub_spec(a, b)) == ry(a) - ry(b);
pub broadcast axiom fn v2_sub_r<T: GenericVector2>(a: T, b: T)
    ensures #[trigger] <T as SubSpec>::sub_req(a, b);
pub broadcast axiom fn v2_sub_o<T: GenericVector2>()
    ensures #[trigger] <T as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn v2_mul<T: GenericVector2>(a: T, b: T::Scalar)
    ensures rx(#[trigger] <T as MulSpec<T::Scalar>>::mul_spec(a, b)) == rx(a) * rv(b),
        ry(<T as MulSpec<T::Scalar>>::mul_spec(a, b)) == ry(a) * rv(b);
pub broadcast axiom fn v2_mul_r<T: GenericVector2>(a: T, b: T::Scalar)
    ensures #[trigger] <T as MulSpec<T::Scalar>>::mul_req(a, b);
pub broadcast axiom fn v2_mul_o<T: GenericVector2>()
    ensures #[trigger] <T as MulSpec<T::Scalar>>::obeys_mul_spec();
pub broadcast axiom fn v2_div<T: GenericVector2>(a: T, b: T::Scalar)
    requires rv(b) != 0real
    ensures rx(#[trigger] <T as DivSpec<T::Scalar>>::div_spec(a, b)) == rx(a) / rv(b),
        ry(<T as DivSpec<T::Scalar>>::div_spec(a, b)) == ry(a) / rv(b);
pub broadcast axiom fn v2_div_r<T: GenericVector2>(a: T, b: T::Scalar)
    ensures #[trigger] <T as DivSpec<T::Scalar>>::div_req(a, b);
pub broadcast axiom fn v2_div_o<T: GenericVector2>()
    ensures #[trigger] <T as DivSpec<T::Scalar>>::obeys_div_spec();
pub broadcast axiom fn v2_neg<T: GenericVector2>(a: T)
    ensures rx(#[trigger] <T as NegSpec>::neg_spec(a)) == -rx(a),
        ry(<T as NegSpec>::neg_spec(a)) == -ry(a);
pub broadcast axiom fn v2_neg_r<T: GenericVector2>(a: T)
    ensures #[trigger] <T as NegSpec>::neg_req(a);
pub broadcast axiom fn v2_neg_o<T: GenericVector2>()
    ensures #[trigger] <T as NegSpec>::obeys_neg_spec();
pub broadcast axiom fn v2_eq<T: GenericVector2>(a: T, b: T)
    ensures (#[trigger] <T as PartialEqSpec>::eq_spec(&a, &b)) == (rx(a) == rx(b) && ry(a) == ry(b));
pub broadcast axiom fn v2_eq_o<T: GenericVector2>()
    ensures #[trigger] <T as PartialEqSpec>::obeys_eq_spec();

/// vector equality only (== is exact, the approximate comparisons stay uninterpreted)
pub broadcast group veq { v2_eq, v2_eq_o, v3_eq, v3_eq_o }
pub broadcast group vec2 {
    v2_add, v2_add_r, v2_add_o, v2_sub, v2_sub_r, v2_sub_o, v2_mul, v2_mul_r, v2_mul_o,
    v2_div, v2_div_r, v2_div_o, v2_neg, v2_neg_r, v2_neg_o, v2_eq, v2_eq_o, ax_ueq2,
}

pub trait GenericVector3: HasXYZ + PartialEq + Neg<Output = Self> + Sub<Self, Output = Self>
    + Add<Self, Output = Self> + Mul<Self::Scalar, Output = Self> + Div<Self::Scalar, Output = Self>
{
    type Vector2: HasXY<Scalar = Self::Scalar>;
    fn to_2d(&self) -> (r: Self::Vector2) ensures rx(r) == rx(*self), ry(r) == ry(*self);
    fn magnitude(self) -> (r: Self::Scalar)
        ensures rv(r) >= 0real,
            rv(r) == rsqrt(rx(self) * rx(self) + ry(self) * ry(self) + rz(self) * rz(self)),
            rv(r) * rv(r) == rx(self) * rx(self) + ry(self) * ry(self) + rz(self) * rz(self);
    fn magnitude_sq(self) -> (r: Self::Scalar)
        ensures rv(r) == rx(self) * rx(self) + ry(self) * ry(self) + rz(self) * rz(self);
    fn dot(self, other: Self) -> (r: Self::Scalar)
        ensures rv(r) == rx(self) * rx(other) + ry(self) * ry(other) + rz(self) * rz(other);
    fn distance(self, rhs: Self) -> (r: Self::Scalar)
        ensures rv(r) >= 0real, rv(r) * rv(r) == sq3(self, rhs), rv(r) == rsqrt(sq3(self, rhs)), sq3(self, rhs) == sq3(rhs, self);
    fn distance_sq(self, rhs: Self) -> (r: Self::Scalar)
        ensures rv(r) == sq3(self, rhs), sq3(self, rhs) == sq3(rhs, self);
    fn is_ulps_eq(self, other: Self, epsilon: Self::Scalar, max_ulps: u32) -> (r: bool)
        ensures r == ueq(self, other, epsilon, max_ulps);
    fn is_abs_diff_eq(self, other: Self, epsilon: Self::Scalar) -> (r: bool)
        ensures r == adeq(self, other, epsilon);
}

pub broadcast axiom fn v3_add<T: GenericVector3>(a: T, b: T)
    ensures rx(#[trigger] <T as AddSpec>::add_spec(a, b)) == rx(a) + rx(b),
        ry(<T as AddSpec>::add_spec(a, b)) == ry(a) + ry(b),
        rz(<T as AddSpec>::add_spec(a, b)) == rz(a) + rz(b);
pub broadcast axiom fn v3_add_r<T: GenericVector3>(a: T, b: T)
    ensures #[trigger] <T as AddSpec>::add_req(a, b);
pub broadcast axiom fn v3_add_o<T: GenericVector3>()
    ensures #[trigger] <T as AddSpec>::obeys_add_spec();
pub broadcast axiom fn v3_sub<T: GenericVector3>(a: T, b: T)
    ensures rx(#[trigger] <T as SubSpec>::sub_spec(a, b)) == rx(a) - rx(b),
        ry(<T as SubSpec>::sub_spec(a, b)) == ry(a) - ry(b),
        rz(<T as SubSpec>::sub_spec(a, b)) == rz(a) - rz(b);
pub broadcast axiom fn v3_sub_r<T: GenericVector3>(a: T, b: T)
    ensures #[trigger] <T as SubSpec>::sub_req(a, b);
pub broadcast axiom fn v3_sub_o<T: GenericVector3>()
    ensures #[trigger] <T as SubSpec>::obeys_sub_spec();
pub broadcast axiom fn v3_mul<T: GenericVector3>(a: T, b: T::Scalar)
    ensures rx(#[trigger] <T as MulSpec<T::Scalar>>::mul_spec(a, b)) == rx(a) * rv(b),
        ry(<T as MulSpec<T::Scalar>>::mul_spec(a, b)) == ry(a) * rv(b),
        rz(<T as MulSpec<T::Scalar>>::mul_spec(a, b)) == rz(a) * rv(b);
pub broadcast axiom fn v3_mul_r<T: GenericVector3>(a: T, b: T::Scalar)
    ensures #[trigger] <T as MulSpec<T::Scalar>>::mul_req(a, b);
pub broadcast axiom fn v3_mul_o<T: GenericVector3>()
    ensures #[trigger] <T as MulSpec<T::Scalar>>::obeys_mul_spec();
pub broadcast axiom fn v3_div<T: GenericVector3>(a: T, b: T::Scalar)
    requires rv(b) != 0real
    ensures rx(#[trigger] <T as DivSpec<T::Scalar>>::div_spec(a, b)) == rx(a) / rv(b),
        ry(<T as DivSpec<T::Scalar>>::div_spec(a, b)) == ry(a) / rv(b),
        rz(<T as DivSpec<T::Scalar>>::div_spec(a, b)) == rz(a) / rv(b);
pub broadcast axiom fn v3_div_r<T: GenericVector3>(a: T, b: T::Scalar)
    ensures #[trigger] <T as DivSpec<T::Scalar>>::div_req(a, b);
pub broadcast axiom fn v3_div_o<T: GenericVector3>()
    ensures #[trigger] <T as DivSpec<T::Scalar>>::obeys_div_spec();
pub broadcast axiom fn v3_eq<T: GenericVector3>(a: T, b: T)
    ensures (#[trigger] <T as PartialEqSpec>::eq_spec(&a, &b)) ==
        (rx(a) == rx(b) && ry(a) == ry(b) && rz(a) == rz(b));
pub broadcast axiom fn v3_eq_o<T: GenericVector3>()
    ensures #[trigger] <T as PartialEqSpec>::obeys_eq_spec();

pub broadcast group vec3 {
    v3_add, v3_add_r, v3_add_o, v3_sub, v3_sub_r, v3_sub_o, v3_mul, v3_mul_r, v3_mul_o,
    v3_div, v3_div_r, v3_div_o, v3_eq, v3_eq_o, ax_ueq3,
}
