// Trusted shims: assumed contracts on the dependencies of the extracted code (std, num, chrono,
// regex). Everything marked external_body here is an assumption, listed as such in the evidence.
#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, unused_assignments, unused_parens, unused_braces, unreachable_code, unused_must_use, non_camel_case_types, unreachable_patterns, path_statements, unused_labels, redundant_semicolons, unused_unsafe, unused_attributes, nonstandard_style)]
use vstd::prelude::*;
use std::rc::Rc;
use std::cmp::Ordering;

verus! {

// ---------------------------------------------------------------- operators
pub trait VAdd<R>: Sized { type O; spec fn vadd_req(self, r: R) -> bool; spec fn vadd_ens(self, r: R, o: Self::O) -> bool;
    fn vadd(self, r: R) -> (o: Self::O) requires self.vadd_req(r) ensures self.vadd_ens(r, o); }
pub trait VSub<R>: Sized { type O; spec fn vsub_req(self, r: R) -> bool; spec fn vsub_ens(self, r: R, o: Self::O) -> bool;
    fn vsub(self, r: R) -> (o: Self::O) requires self.vsub_req(r) ensures self.vsub_ens(r, o); }
pub trait VMul<R>: Sized { type O; spec fn vmul_req(self, r: R) -> bool; spec fn vmul_ens(self, r: R, o: Self::O) -> bool;
    fn vmul(self, r: R) -> (o: Self::O) requires self.vmul_req(r) ensures self.vmul_ens(r, o); }
pub trait VDiv<R>: Sized { type O; spec fn vdiv_req(self, r: R) -> bool; spec fn vdiv_ens(self, r: R, o: Self::O) -> bool;
    fn vdiv(self, r: R) -> (o: Self::O) requires self.vdiv_req(r) ensures self.vdiv_ens(r, o);
    fn vdiv_mp(self, r: R) -> (o: Self::O) ensures self.vdiv_req(r), self.vdiv_ens(r, o); }
pub trait VNeg: Sized { type O; spec fn vneg_req(self) -> bool; spec fn vneg_ens(self, o: Self::O) -> bool;
    fn vneg(self) -> (o: Self::O) requires self.vneg_req() ensures self.vneg_ens(o); }
pub trait VEq<R: ?Sized> { spec fn veq_req(&self, other: &R) -> bool; spec fn veq_ens(&self, other: &R, r: bool) -> bool;
    fn veq(&self, other: &R) -> (r: bool) requires self.veq_req(other) ensures self.veq_ens(other, r); }
pub trait VFrom<S>: Sized { spec fn vfrom_req(s: S) -> bool; spec fn vfrom_ens(s: S, r: Self) -> bool;
    fn vfrom(s: S) -> (r: Self) requires Self::vfrom_req(s) ensures Self::vfrom_ens(s, r); }
pub trait VInto<T>: Sized { spec fn vinto_req(self) -> bool; spec fn vinto_ens(self, r: T) -> bool;
    fn v_into(self) -> (r: T) requires self.vinto_req() ensures self.vinto_ens(r); }
impl<S, T: VFrom<S>> VInto<T> for S {
    open spec fn vinto_req(self) -> bool { T::vfrom_req(self) }
    open spec fn vinto_ens(self, r: T) -> bool { T::vfrom_ens(self, r) }
    fn v_into(self) -> (r: T) { T::vfrom(self) }
}
pub trait VCmp<R: ?Sized> { spec fn v_cmp_req(&self, other: &R) -> bool; spec fn v_cmp_ens(&self, other: &R, r: Ordering) -> bool;
    fn v_cmp(&self, other: &R) -> (r: Ordering) requires self.v_cmp_req(other) ensures self.v_cmp_ens(other, r); }
pub trait VPCmp<R: ?Sized> { spec fn v_partial_cmp_req(&self, other: &R) -> bool; spec fn v_partial_cmp_ens(&self, other: &R, r: Option<Ordering>) -> bool;
    fn v_partial_cmp(&self, other: &R) -> (r: Option<Ordering>) requires self.v_partial_cmp_req(other) ensures self.v_partial_cmp_ens(other, r); }
// < <= > >= : specified by lt_s (strict order) and eq_s on the views
pub trait VOrd<R: ?Sized> { spec fn vord_req(&self, other: &R) -> bool; spec fn lt_s(&self, other: &R) -> bool; spec fn gt_s(&self, other: &R) -> bool;
    spec fn le_s(&self, other: &R) -> bool; spec fn ge_s(&self, other: &R) -> bool; spec fn vord_post(&self, other: &R) -> bool;
    fn vlt(&self, other: &R) -> (r: bool) requires self.vord_req(other) ensures r == self.lt_s(other), self.vord_post(other);
    fn vgt(&self, other: &R) -> (r: bool) requires self.vord_req(other) ensures r == self.gt_s(other), self.vord_post(other);
    fn vle(&self, other: &R) -> (r: bool) requires self.vord_req(other) ensures r == self.le_s(other), self.vord_post(other);
    fn vge(&self, other: &R) -> (r: bool) requires self.vord_req(other) ensures r == self.ge_s(other), self.vord_post(other);
}
pub open spec fn ord_of(lt: bool, eq: bool) -> Ordering { if lt { Ordering::Less } else if eq { Ordering::Equal } else { Ordering::Greater } }

macro_rules! int_ops { ($t:ty) => { verus!{
impl VAdd<$t> for $t { type O = $t; open spec fn vadd_req(self, r: $t) -> bool { <$t>::MIN <= self + r <= <$t>::MAX }
    open spec fn vadd_ens(self, r: $t, o: $t) -> bool { o == self + r } fn vadd(self, r: $t) -> (o: $t) { self + r } }
impl VSub<$t> for $t { type O = $t; open spec fn vsub_req(self, r: $t) -> bool { <$t>::MIN <= self - r <= <$t>::MAX }
    open spec fn vsub_ens(self, r: $t, o: $t) -> bool { o == self - r } fn vsub(self, r: $t) -> (o: $t) { (self - r) as $t } }
impl VEq<$t> for $t { open spec fn veq_req(&self, other: &$t) -> bool { true } open spec fn veq_ens(&self, other: &$t, r: bool) -> bool { r == (*self == *other) }
    fn veq(&self, other: &$t) -> (r: bool) { *self == *other } }
impl VOrd<$t> for $t { open spec fn vord_req(&self, other: &$t) -> bool { true } open spec fn vord_post(&self, other: &$t) -> bool { true }
    open spec fn lt_s(&self, other: &$t) -> bool { *self < *other } open spec fn gt_s(&self, other: &$t) -> bool { *self > *other }
    open spec fn le_s(&self, other: &$t) -> bool { *self <= *other } open spec fn ge_s(&self, other: &$t) -> bool { *self >= *other }
    fn vlt(&self, other: &$t) -> (r: bool) { *self < *other } fn vgt(&self, other: &$t) -> (r: bool) { *self > *other }
    fn vle(&self, other: &$t) -> (r: bool) { *self <= *other } fn vge(&self, other: &$t) -> (r: bool) { *self >= *other } }
impl VCmp<$t> for $t { open spec fn v_cmp_req(&self, other: &$t) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &$t, r: Ordering) -> bool { r == ord_of(*self < *other, *self == *other) }
    fn v_cmp(&self, other: &$t) -> (r: Ordering) { if *self < *other { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater } } }
} } }
impl VToOwned for usize { type Own = usize; open spec fn own_ens(&self, r: usize) -> bool { r == *self } fn v_to_owned(&self) -> (r: usize) { *self } }
int_ops!(usize);
int_ops!(u32);
int_ops!(u64);
int_ops!(i32);
impl VEq<char> for char { open spec fn veq_req(&self, other: &char) -> bool { true } open spec fn veq_ens(&self, other: &char, r: bool) -> bool { r == (*self == *other) }
    fn veq(&self, other: &char) -> (r: bool) { *self == *other } }
impl VEq<bool> for bool { open spec fn veq_req(&self, other: &bool) -> bool { true } open spec fn veq_ens(&self, other: &bool, r: bool) -> bool { r == (*self == *other) }
    fn veq(&self, other: &bool) -> (r: bool) { *self == *other } }
impl<'a, 'b, A: VEq<B> + ?Sized, B: ?Sized> VEq<&'b B> for &'a A {
    open spec fn veq_req(&self, other: &&'b B) -> bool { (**self).veq_req(*other) }
    open spec fn veq_ens(&self, other: &&'b B, r: bool) -> bool { (**self).veq_ens(*other, r) }
    fn veq(&self, other: &&'b B) -> (r: bool) { (**self).veq(*other) } }
impl<T: VEq<T>> VEq<Rc<T>> for Rc<T> {
    open spec fn veq_req(&self, other: &Rc<T>) -> bool { (**self).veq_req(&**other) }
    open spec fn veq_ens(&self, other: &Rc<T>, r: bool) -> bool { (**self).veq_ens(&**other, r) }
    fn veq(&self, other: &Rc<T>) -> (r: bool) { (**self).veq(&**other) } }
impl<T: VEq<T>> VEq<Option<T>> for Option<T> {
    open spec fn veq_req(&self, other: &Option<T>) -> bool { self is Some && other is Some ==> (self->0).veq_req(&other->0) }
    open spec fn veq_ens(&self, other: &Option<T>, r: bool) -> bool { if self is Some && other is Some { (self->0).veq_ens(&other->0, r) } else { r == (self is None && other is None) } }
    fn veq(&self, other: &Option<T>) -> (r: bool) { match self { Some(x) => match other { Some(y) => x.veq(y), None => false }, None => match other { Some(_) => false, None => true } } } }
impl VEq<String> for String { open spec fn veq_req(&self, other: &String) -> bool { true } open spec fn veq_ens(&self, other: &String, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &String) -> (r: bool) { unimplemented!() } }
impl VEq<str> for str { open spec fn veq_req(&self, other: &str) -> bool { true } open spec fn veq_ens(&self, other: &str, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &str) -> (r: bool) { unimplemented!() } }
impl VEq<str> for String { open spec fn veq_req(&self, other: &str) -> bool { true } open spec fn veq_ens(&self, other: &str, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &str) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<&'a str> for String { open spec fn veq_req(&self, other: &&'a str) -> bool { true } open spec fn veq_ens(&self, other: &&'a str, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> VEq<String> for &'a str { open spec fn veq_req(&self, other: &String) -> bool { true } open spec fn veq_ens(&self, other: &String, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &String) -> (r: bool) { unimplemented!() } }

pub trait VBitAnd<R>: Sized { spec fn band_s(self, r: R) -> bool; fn vbitand(self, r: R) -> (o: bool) ensures o == self.band_s(r); }
impl VBitAnd<bool> for bool { open spec fn band_s(self, r: bool) -> bool { self && r } fn vbitand(self, r: bool) -> (o: bool) { self && r } }
impl<'a> VBitAnd<bool> for &'a bool { open spec fn band_s(self, r: bool) -> bool { *self && r } fn vbitand(self, r: bool) -> (o: bool) { *self && r } }
pub trait VBitOr<R>: Sized { spec fn bor_s(self, r: R) -> bool; fn vbitor(self, r: R) -> (o: bool) ensures o == self.bor_s(r); }
impl VBitOr<bool> for bool { open spec fn bor_s(self, r: bool) -> bool { self || r } fn vbitor(self, r: bool) -> (o: bool) { self || r } }
pub trait VBitXor<R>: Sized { spec fn bxor_s(self, r: R) -> bool; fn vbitxor(self, r: R) -> (o: bool) ensures o == self.bxor_s(r); }
impl VBitXor<bool> for bool { open spec fn bxor_s(self, r: bool) -> bool { self != r } fn vbitxor(self, r: bool) -> (o: bool) { self != r } }

// reflexive From
impl<T> VFrom<T> for T { open spec fn vfrom_req(s: T) -> bool { true } open spec fn vfrom_ens(s: T, r: T) -> bool { r == s } fn vfrom(s: T) -> (r: T) { s } }

// ---------------------------------------------------------------- values
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn v_clone(&self) -> (r: Self) { unimplemented!() } }
pub trait VDefault: Sized { spec fn vdef_ens(r: Self) -> bool; fn vdefault() -> (r: Self) ensures Self::vdef_ens(r); }
#[verifier::external_body]
pub fn vat<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vuse<T: ?Sized>(t: &T) { unimplemented!() }
#[verifier::external_body]
pub fn type_name<T>() -> (r: &'static str) { unimplemented!() }
#[verifier::external_body]
pub fn vformat_any() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn v_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn v_panic_mp<T>() -> (r: T) ensures false { unimplemented!() }
pub trait VUnwrap<T>: Sized { spec fn unw_ok(self) -> bool; spec fn unw(self) -> T;
    fn v_unwrap(self) -> (r: T) requires self.unw_ok() ensures r == self.unw();
    fn v_unwrap_mp(self) -> (r: T) ensures self.unw_ok(), r == self.unw(); }
impl<T> VUnwrap<T> for Option<T> { open spec fn unw_ok(self) -> bool { self is Some } open spec fn unw(self) -> T { self->0 }
    fn v_unwrap(self) -> (r: T) { match self { Some(x) => x, None => v_panic() } }
    fn v_unwrap_mp(self) -> (r: T) { match self { Some(x) => x, None => v_panic_mp() } } }
impl<T, E> VUnwrap<T> for Result<T, E> { open spec fn unw_ok(self) -> bool { self is Ok } open spec fn unw(self) -> T { self->Ok_0 }
    fn v_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => v_panic() } }
    fn v_unwrap_mp(self) -> (r: T) { match self { Ok(x) => x, Err(_) => v_panic_mp() } } }
pub trait VOptExt<T>: Sized { spec fn some_s(&self) -> bool; spec fn orv(self, d: T) -> T;
    fn v_is_some(&self) -> (r: bool) ensures r == self.some_s(); fn v_is_none(&self) -> (r: bool) ensures r == !self.some_s();
    fn v_unwrap_or(self, d: T) -> (r: T) ensures r == self.orv(d); }
impl<T> VOptExt<T> for Option<T> { open spec fn some_s(&self) -> bool { *self is Some } open spec fn orv(self, d: T) -> T { match self { Some(x) => x, None => d } }
    fn v_is_some(&self) -> (r: bool) { match self { Some(_) => true, None => false } } fn v_is_none(&self) -> (r: bool) { match self { Some(_) => false, None => true } }
    fn v_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } } }
pub trait VResExt: Sized { spec fn ok_s(&self) -> bool; fn v_is_ok(&self) -> (r: bool) ensures r == self.ok_s(); fn v_is_err(&self) -> (r: bool) ensures r == !self.ok_s(); }
impl<T, E> VResExt for Result<T, E> { open spec fn ok_s(&self) -> bool { *self is Ok }
    fn v_is_ok(&self) -> (r: bool) { match self { Ok(_) => true, Err(_) => false } } fn v_is_err(&self) -> (r: bool) { match self { Ok(_) => false, Err(_) => true } } }
pub trait VAsRef: Sized { type Out; spec fn asref_ens(self, r: Self::Out) -> bool; fn v_as_ref(self) -> (r: Self::Out) ensures self.asref_ens(r); }
impl<'a, T> VAsRef for &'a Option<T> { type Out = Option<&'a T>;
    open spec fn asref_ens(self, r: Option<&'a T>) -> bool { match *self { Some(x) => r == Some(&x), None => r == None::<&'a T> } }
    fn v_as_ref(self) -> (r: Option<&'a T>) { match self { Some(x) => Some(x), None => None } } }
impl<'a, T> VAsRef for &'a Rc<T> { type Out = &'a T;
    open spec fn asref_ens(self, r: &'a T) -> bool { *r == **self }
    fn v_as_ref(self) -> (r: &'a T) { &**self } }
pub trait VDeref: Sized { type Out; spec fn deref_ens(self, r: Self::Out) -> bool; fn v_deref(self) -> (r: Self::Out) ensures self.deref_ens(r); }
impl<'a, T> VDeref for &'a Rc<T> { type Out = &'a T; open spec fn deref_ens(self, r: &'a T) -> bool { *r == **self } fn v_deref(self) -> (r: &'a T) { &**self } }
impl<'a, T> VDeref for &'a Vec<T> { type Out = &'a Vec<T>; open spec fn deref_ens(self, r: &'a Vec<T>) -> bool { *r == *self } fn v_deref(self) -> (r: &'a Vec<T>) { self } }
pub trait VToOwned { type Own; spec fn own_ens(&self, r: Self::Own) -> bool; fn v_to_owned(&self) -> (r: Self::Own) ensures self.own_ens(r); }

// ---------------------------------------------------------------- RefCell / Weak (borrow flags dropped)
pub struct RefCell<T> { pub v: T }
impl<T> RefCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { RefCell { v } }
    pub fn replace(&mut self, x: T) -> (r: T) ensures final(self).v == x, r == old(self).v { let mut y = x; std::mem::swap(&mut self.v, &mut y); y }
}
/// what a cell that is written through a shared reference may hold: the invariant its owner keeps. Every read of such a cell
/// (v_take_of) may rely on it, every write (v_put_of) has to keep it; the cells are private to their modules and start empty.
pub trait CellInv<T> { spec fn cell_inv(&self, t: T) -> bool; }
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn v_take_of<O: CellInv<T>>(&self, o: &O) -> (r: T) ensures o.cell_inv(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put_of<O: CellInv<T>>(&self, o: &O, t: T) requires o.cell_inv(t) { unimplemented!() }
}
pub trait VBorrow { type T; spec fn vborrow_s(&self) -> Self::T; fn v_borrow(&self) -> (r: &Self::T) ensures *r == self.vborrow_s(); }
impl<U> VBorrow for RefCell<U> { type T = U; open spec fn vborrow_s(&self) -> U { self.v } fn v_borrow(&self) -> (r: &U) { &self.v } }
impl VBorrow for BigRational { type T = BigRational; open spec fn vborrow_s(&self) -> BigRational { *self } fn v_borrow(&self) -> (r: &BigRational) { self } }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Weak<T> { x: std::marker::PhantomData<T> }
#[verifier::external_body]
pub fn v_downgrade<T>(r: &Rc<T>) -> (w: Weak<T>) { unimplemented!() }
impl<T> VDefault for Weak<T> { open spec fn vdef_ens(r: Self) -> bool { true } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }

// ---------------------------------------------------------------- num: exact rationals and integers
#[verifier::external_body]
pub struct BigRational { x: u64 }
impl View for BigRational { type V = real; uninterp spec fn view(&self) -> real; }
#[verifier::external_body]
pub struct BigInt { x: u64 }
impl View for BigInt { type V = int; uninterp spec fn view(&self) -> int; }
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
impl BigRational {
    #[verifier::external_body]
    pub fn new(n: BigInt, d: BigInt) -> (r: Self) requires d@ != 0 ensures r@ == (n@ as real) / (d@ as real), d@ == 1 ==> r@ == n@ as real { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0real) { unimplemented!() }
    #[verifier::external_body]
    pub fn abs(&self) -> (r: Self) ensures r@ == absr(self@) { unimplemented!() }
    // Inv / division: defined for every non-zero divisor, panics on zero
    #[verifier::external_body]
    pub fn v_inv(self) -> (r: Self) requires self@ != 0real ensures r@ == 1real / self@, r@ * self@ == 1real { unimplemented!() }
    #[verifier::external_body]
    pub fn v_inv_mp(self) -> (r: Self) ensures self@ != 0real, r@ == 1real / self@, r@ * self@ == 1real { unimplemented!() }
}
impl VFrom<BigInt> for BigRational { open spec fn vfrom_req(s: BigInt) -> bool { true } open spec fn vfrom_ens(s: BigInt, r: BigRational) -> bool { r@ == s@ as real }
    #[verifier::external_body] fn vfrom(s: BigInt) -> (r: BigRational) { unimplemented!() } }
impl VFrom<i32> for BigInt { open spec fn vfrom_req(s: i32) -> bool { true } open spec fn vfrom_ens(s: i32, r: BigInt) -> bool { r@ == s as int }
    #[verifier::external_body] fn vfrom(s: i32) -> (r: BigInt) { unimplemented!() } }
/// towards zero
pub open spec fn trunc_r(x: real) -> int { if x < 0real { -((-x).floor()) } else { x.floor() } }
impl BigRational {
    #[verifier::external_body]
    pub fn trunc(&self) -> (r: Self) ensures r@ == trunc_r(self@) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn fract(&self) -> (r: Self) ensures r@ == self@ - trunc_r(self@) as real { unimplemented!() }
    #[verifier::external_body]
    pub fn numer(&self) -> (r: &BigInt) ensures self@ == self@.floor() as real ==> r@ == self@.floor() { unimplemented!() }
}
impl VMul<BigInt> for BigRational { type O = BigRational; open spec fn vmul_req(self, r: BigInt) -> bool { true } open spec fn vmul_ens(self, r: BigInt, o: BigRational) -> bool { o@ == self@ * (r@ as real) }
    #[verifier::external_body] fn vmul(self, r: BigInt) -> (o: BigRational) { unimplemented!() } }
impl VAdd<BigInt> for BigRational { type O = BigRational; open spec fn vadd_req(self, r: BigInt) -> bool { true } open spec fn vadd_ens(self, r: BigInt, o: BigRational) -> bool { o@ == self@ + (r@ as real) }
    #[verifier::external_body] fn vadd(self, r: BigInt) -> (o: BigRational) { unimplemented!() } }
pub open spec fn pow_s(b: int, n: nat) -> int decreases n { if n == 0 { 1 } else { b * pow_s(b, (n - 1) as nat) } }
/// + and integer powers where an overflow panics (debug profile) or is out of the property's scope
pub trait VOvf: Sized { fn v_addc(self, r: Self) -> (o: Self) ensures Self::addc_s(self, r, o); spec fn addc_s(self, r: Self, o: Self) -> bool; }
macro_rules! ovf { ($t:ty) => { verus!{
impl VOvf for $t { open spec fn addc_s(self, r: $t, o: $t) -> bool { o == self + r } #[verifier::external_body] fn v_addc(self, r: $t) -> (o: $t) { unimplemented!() } }
} } }
ovf!(usize); ovf!(u32); ovf!(u64); ovf!(i32);
pub trait VPow: Sized { spec fn pow_ens(self, n: u32, r: Self) -> bool; fn v_pow(self, n: u32) -> (r: Self) ensures self.pow_ens(n, r); }
impl VPow for i32 { open spec fn pow_ens(self, n: u32, r: i32) -> bool { i32::MIN <= pow_s(self as int, n as nat) <= i32::MAX ==> r == pow_s(self as int, n as nat) } #[verifier::external_body] fn v_pow(self, n: u32) -> (r: i32) { unimplemented!() } }
#[verifier::external_body]
pub fn abs(x: BigRational) -> (r: BigRational) ensures r@ == absr(x@) { unimplemented!() }
macro_rules! rat_ops { ($l:ty, $r:ty) => { verus!{
impl VAdd<$r> for $l { type O = BigRational; open spec fn vadd_req(self, r: $r) -> bool { true } open spec fn vadd_ens(self, r: $r, o: BigRational) -> bool { o@ == self@ + r@ }
    #[verifier::external_body] fn vadd(self, r: $r) -> (o: BigRational) { unimplemented!() } }
impl VSub<$r> for $l { type O = BigRational; open spec fn vsub_req(self, r: $r) -> bool { true } open spec fn vsub_ens(self, r: $r, o: BigRational) -> bool { o@ == self@ - r@ }
    #[verifier::external_body] fn vsub(self, r: $r) -> (o: BigRational) { unimplemented!() } }
impl VMul<$r> for $l { type O = BigRational; open spec fn vmul_req(self, r: $r) -> bool { true } open spec fn vmul_ens(self, r: $r, o: BigRational) -> bool { o@ == self@ * r@ }
    #[verifier::external_body] fn vmul(self, r: $r) -> (o: BigRational) { unimplemented!() } }
impl VDiv<$r> for $l { type O = BigRational; open spec fn vdiv_req(self, r: $r) -> bool { r@ != 0real } open spec fn vdiv_ens(self, r: $r, o: BigRational) -> bool { o@ == self@ / r@ }
    #[verifier::external_body] fn vdiv(self, r: $r) -> (o: BigRational) { unimplemented!() }
    #[verifier::external_body] fn vdiv_mp(self, r: $r) -> (o: BigRational) { unimplemented!() } }
} } }
rat_ops!(BigRational, BigRational);
rat_ops!(&BigRational, BigRational);
rat_ops!(BigRational, &BigRational);
rat_ops!(&BigRational, &BigRational);
impl VNeg for BigRational { type O = BigRational; open spec fn vneg_req(self) -> bool { true } open spec fn vneg_ens(self, o: BigRational) -> bool { o@ == -self@ }
    #[verifier::external_body] fn vneg(self) -> (o: BigRational) { unimplemented!() } }
impl VEq<BigRational> for BigRational { open spec fn veq_req(&self, other: &BigRational) -> bool { true } open spec fn veq_ens(&self, other: &BigRational, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &BigRational) -> (r: bool) { unimplemented!() } }
impl VCmp<BigRational> for BigRational { open spec fn v_cmp_req(&self, other: &BigRational) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &BigRational, r: Ordering) -> bool { r == ord_of(self@ < other@, self@ == other@) }
    #[verifier::external_body] fn v_cmp(&self, other: &BigRational) -> (r: Ordering) { unimplemented!() } }
impl VToOwned for BigRational { type Own = BigRational; open spec fn own_ens(&self, r: BigRational) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: BigRational) { unimplemented!() } }

// ---------------------------------------------------------------- hash containers
// Keys are identified by kid(): the value on which Eq and Hash of the key type agree.
pub trait KeyId { type Id; spec fn kid(&self) -> Self::Id; }
impl<T: KeyId> KeyId for Rc<T> { type Id = T::Id; open spec fn kid(&self) -> T::Id { (**self).kid() } }
impl<T: KeyId> KeyId for Option<T> { type Id = Option<T::Id>; open spec fn kid(&self) -> Option<T::Id> { match *self { None => None, Some(x) => Some(x.kid()) } } }
impl KeyId for String { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self@ } }
impl KeyId for str { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self@ } }
impl<'a, T: KeyId + ?Sized> KeyId for &'a T { type Id = T::Id; open spec fn kid(&self) -> T::Id { (**self).kid() } }
impl<A: KeyId, B: KeyId> KeyId for (A, B) { type Id = (A::Id, B::Id); open spec fn kid(&self) -> (A::Id, B::Id) { (self.0.kid(), self.1.kid()) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: KeyId, V> View for HashMap<K, V> { type V = Map<K::Id, (K, V)>; uninterp spec fn view(&self) -> Map<K::Id, (K, V)>; }
#[verifier::external_body]
pub broadcast proof fn hashmap_inv<K: KeyId, V>(m: HashMap<K, V>, id: K::Id)
    requires #[trigger] m@.dom().contains(id) ensures m@[id].0.kid() == id {}
pub open spec fn enumerates<K: KeyId, V>(s: Seq<(&K, &V)>, m: Map<K::Id, (K, V)>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kid()) && m[s[i].0.kid()] == (*s[i].0, *s[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kid() != (#[trigger] s[j]).0.kid()
    &&& forall|id: K::Id| #[trigger] m.dom().contains(id) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == id
}
pub open spec fn enumerates_own<K: KeyId, V>(s: Seq<(K, V)>, m: Map<K::Id, (K, V)>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kid()) && m[s[i].0.kid()] == s[i]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kid() != (#[trigger] s[j]).0.kid()
    &&& forall|id: K::Id| #[trigger] m.dom().contains(id) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == id
}
pub open spec fn enumerates_vals<K: KeyId, V>(s: Seq<&V>, m: Map<K::Id, (K, V)>) -> bool {
    exists|p: Seq<(&K, &V)>| #[trigger] enumerates(p, m) && s.len() == p.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == p[i].1
}
impl<K: KeyId, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::Id,(K,V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_get<Q: KeyId<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
      ensures r is Some <==> self@.dom().contains(k.kid()), r is Some ==> *r->0 == self@[k.kid()].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains_key<Q: KeyId<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K, v: V) -> (r: Option<V>)
      ensures final(self)@ == old(self)@.insert(k.kid(), (if old(self)@.dom().contains(k.kid()) { old(self)@[k.kid()].0 } else { k }, v)),
        r is Some <==> old(self)@.dom().contains(k.kid()), r is Some ==> r->0 == old(self)@[k.kid()].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn v_clear(&mut self) ensures final(self)@ == Map::<K::Id,(K,V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::Id,(K,V)>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: Vec<(&K, &V)>) ensures enumerates(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_into_iter(self) -> (r: Vec<(K, V)>) ensures enumerates_own(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_values(&self) -> (r: Vec<&V>) ensures enumerates_vals::<K, V>(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_to_owned(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn v_extend(&mut self, other: Vec<(K, V)>)
      ensures final(self)@ == extend_with(old(self)@, other@, other@.len() as int) { unimplemented!() }
}
pub type Iter<'a, K, V> = Vec<(&'a K, &'a V)>;
pub open spec fn extend_with<K: KeyId, V>(m: Map<K::Id, (K, V)>, s: Seq<(K, V)>, n: int) -> Map<K::Id, (K, V)> decreases n {
    if n <= 0 { m } else { let p = extend_with(m, s, n - 1); p.insert(s[n-1].0.kid(), (if p.dom().contains(s[n-1].0.kid()) { p[s[n-1].0.kid()].0 } else { s[n-1].0 }, s[n-1].1)) }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: Vec<K> }
impl<K: KeyId> View for HashSet<K> { type V = Map<K::Id, K>; uninterp spec fn view(&self) -> Map<K::Id, K>; }
pub open spec fn enumerates_set<K: KeyId>(s: Seq<&K>, m: Map<K::Id, K>) -> bool {
    &&& s.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).kid()) && m[s[i].kid()] == *s[i]
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).kid() != (#[trigger] s[j]).kid()
    &&& forall|id: K::Id| #[trigger] m.dom().contains(id) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kid() == id
}
impl<K: KeyId> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::Id, K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_insert(&mut self, k: K) -> (r: bool)
      ensures final(self)@ == old(self)@.insert(k.kid(), if old(self)@.dom().contains(k.kid()) { old(self)@[k.kid()] } else { k }), r == !old(self)@.dom().contains(k.kid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_contains<Q: KeyId<Id = K::Id> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kid()) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_iter(&self) -> (r: Vec<&K>) ensures enumerates_set(r@, self@) { unimplemented!() }
}
impl<K: KeyId> VDefault for HashSet<K> { open spec fn vdef_ens(r: Self) -> bool { r@ == Map::<K::Id, K>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
impl<T> VDefault for Vec<T> { open spec fn vdef_ens(r: Self) -> bool { r@ == Seq::<T>::empty() } fn vdefault() -> (r: Self) { Vec::new() } }

// ---------------------------------------------------------------- iteration
pub trait VIntoIter: Sized { type It; spec fn into_it_ens(self, r: Vec<Self::It>) -> bool; fn v_into_it(self) -> (r: Vec<Self::It>) ensures self.into_it_ens(r); }
impl<T> VIntoIter for Vec<T> { type It = T; open spec fn into_it_ens(self, r: Vec<T>) -> bool { r@ == self@ } fn v_into_it(self) -> (r: Vec<T>) { self } }
impl<'a, T> VIntoIter for &'a Vec<T> { type It = &'a T; open spec fn into_it_ens(self, r: Vec<&'a T>) -> bool { r@.len() == self@.len() && forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] }
    #[verifier::external_body] fn v_into_it(self) -> (r: Vec<&'a T>) { unimplemented!() } }
impl<K: KeyId, V> VIntoIter for HashMap<K, V> { type It = (K, V); open spec fn into_it_ens(self, r: Vec<(K, V)>) -> bool { enumerates_own(r@, self@) }
    #[verifier::external_body] fn v_into_it(self) -> (r: Vec<(K, V)>) { unimplemented!() } }
pub open spec fn enumerates_set_own<K: KeyId>(s: Seq<K>, m: Map<K::Id, K>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).kid())
    &&& forall|id: K::Id| #[trigger] m.dom().contains(id) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kid() == id
}
impl<K: KeyId> VIntoIter for HashSet<K> { type It = K; open spec fn into_it_ens(self, r: Vec<K>) -> bool { enumerates_set_own(r@, self@) }
    #[verifier::external_body] fn v_into_it(self) -> (r: Vec<K>) { unimplemented!() } }
impl<'a, K: KeyId, V> VIntoIter for &'a HashMap<K, V> { type It = (&'a K, &'a V); open spec fn into_it_ens(self, r: Vec<(&'a K, &'a V)>) -> bool { enumerates(r@, self@) }
    #[verifier::external_body] fn v_into_it(self) -> (r: Vec<(&'a K, &'a V)>) { unimplemented!() } }
pub trait VVecExt<T> { spec fn vw(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: Vec<&T>) ensures r@.len() == self.vw().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vw()[i];
    fn v_into_iter(self) -> (r: Vec<T>) where Self: Sized ensures r@ == self.vw();
    fn v_len(&self) -> (r: usize) ensures r == self.vw().len();
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.vw().len() == 0);
    fn v_get(&self, i: usize) -> (r: Option<&T>) ensures r is Some <==> i < self.vw().len(), r is Some ==> *r->0 == self.vw()[i as int];
    fn v_append(&mut self, o: &mut Vec<T>) ensures final(self).vw() == old(self).vw() + old(o)@, final(o)@ == Seq::<T>::empty();
    fn v_sort_perm(&mut self) ensures final(self).vw().to_multiset() == old(self).vw().to_multiset(), final(self).vw().len() == old(self).vw().len();
}
impl<T> VVecExt<T> for Vec<T> { open spec fn vw(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_iter(&self) -> (r: Vec<&T>) { unimplemented!() }
    fn v_into_iter(self) -> (r: Vec<T>) { self }
    fn v_len(&self) -> (r: usize) { self.len() }
    fn v_is_empty(&self) -> (r: bool) { self.len() == 0 }
    #[verifier::external_body] fn v_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_append(&mut self, o: &mut Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_sort_perm(&mut self) { unimplemented!() }
}
/// the order is a total preorder on the elements that satisfy `on`
pub open spec fn preorder<T>(ord: spec_fn(T, T) -> Ordering, on: spec_fn(T) -> bool) -> bool {
    &&& forall|a: T, b: T| on(a) && on(b) ==> ((#[trigger] ord(a, b)) is Less <==> ord(b, a) is Greater) && (ord(a, b) is Equal <==> ord(b, a) is Equal)
    &&& forall|a: T, b: T, c: T| on(a) && on(b) && on(c) && !((#[trigger] ord(a, b)) is Greater) && !((#[trigger] ord(b, c)) is Greater) ==> !(ord(a, c) is Greater)
}
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]) && (forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)) }
/// t is s sorted: the same elements, in order, equal ones in the order they had
pub open spec fn sorted_from<T>(s: Seq<T>, t: Seq<T>, p: Seq<int>, ord: spec_fn(T, T) -> Ordering) -> bool {
    &&& is_perm(p, s.len() as int) && t.len() == s.len()
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> ord(#[trigger] t[i], #[trigger] t[j]) is Less || (ord(t[i], t[j]) is Equal && p[i] < p[j])
}
#[verifier::external_body]
pub fn v_sort_by<T, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F, Ghost(ord): Ghost<spec_fn(T, T) -> Ordering>, Ghost(on): Ghost<spec_fn(T) -> bool>)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> on(#[trigger] old(v)@[i]), forall|a: &T, b: &T| on(*a) && on(*b) ==> #[trigger] f.requires((a, b)),
      forall|a: &T, b: &T, o: Ordering| #[trigger] f.ensures((a, b), o) ==> o == ord(*a, *b), preorder(ord, on)
    ensures exists|p: Seq<int>| #[trigger] sorted_from(old(v)@, final(v)@, p, ord) { unimplemented!() }
/// what is printed; colour escapes aside
#[verifier::external_body]
pub struct Out { x: String }
impl View for Out { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Out {
    #[verifier::external_body] pub fn v_print(&mut self, s: String) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn v_nl(&mut self) ensures final(self)@ == old(self)@.push('\n') { unimplemented!() }
}
pub trait VPush<T> { spec fn push_ens(&self, x: T, n: &Self) -> bool; fn v_push(&mut self, x: T) ensures old(self).push_ens(x, final(self)); }
impl<T> VPush<T> for Vec<T> { open spec fn push_ens(&self, x: T, n: &Self) -> bool { n@ == self@.push(x) } fn v_push(&mut self, x: T) { self.push(x) } }
impl VPush<char> for String { open spec fn push_ens(&self, x: char, n: &Self) -> bool { n@ == self@.push(x) } #[verifier::external_body] fn v_push(&mut self, x: char) { unimplemented!() } }
pub trait VPop { type T; spec fn pop_ens(&self, n: &Self, r: Option<Self::T>) -> bool; fn v_pop(&mut self) -> (r: Option<Self::T>) ensures old(self).pop_ens(final(self), r); }
impl<U> VPop for Vec<U> { type T = U; open spec fn pop_ens(&self, n: &Self, r: Option<U>) -> bool { if self@.len() == 0 { r is None && n@ == self@ } else { r == Some(self@.last()) && n@ == self@.drop_last() } } fn v_pop(&mut self) -> (r: Option<U>) { self.pop() } }
impl VPop for String { type T = char; open spec fn pop_ens(&self, n: &Self, r: Option<char>) -> bool { if self@.len() == 0 { r is None && n@ == self@ } else { r == Some(self@.last()) && n@ == self@.drop_last() } } #[verifier::external_body] fn v_pop(&mut self) -> (r: Option<char>) { unimplemented!() } }
#[verifier::external_body]
pub fn v_it_rev<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body]
pub fn v_it_take<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= v@.len() { v@.subrange(0, n as int) } else { v@ }) { unimplemented!() }
#[verifier::external_body]
pub fn v_it_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>) ensures r@ == (if n <= v@.len() { v@.subrange(n as int, v@.len() as int) } else { Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn v_it_next<T>(v: Vec<T>) -> (r: Option<T>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn v_it_last<T>(v: Vec<T>) -> (r: Option<T>) ensures r == (if v@.len() > 0 { Some(v@.last()) } else { None }) { unimplemented!() }
#[verifier::external_body]
pub fn v_it_nth<T>(v: Vec<T>, n: usize) -> (r: Option<T>) ensures r == (if n < v@.len() { Some(v@[n as int]) } else { None }) { unimplemented!() }
pub fn v_like<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { Vec::new() }
pub fn v_like_opt<T>(v: &Vec<T>) -> (r: Option<T>) ensures r is None { None }
/// the elements of s[..n] that satisfy p, in order
pub open spec fn sfilter<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) -> Seq<T> decreases n {
    if n <= 0 { Seq::empty() } else if p(s[n - 1]) { sfilter(s, n - 1, p).push(s[n - 1]) } else { sfilter(s, n - 1, p) }
}
pub proof fn lemma_sfilter<T>(s: Seq<T>, n: int, p: spec_fn(T) -> bool) -> (idx: Seq<int>)
    requires 0 <= n <= s.len()
    ensures idx.len() == sfilter(s, n, p).len(),
        forall|j: int| 0 <= j < idx.len() ==> 0 <= #[trigger] idx[j] < n && sfilter(s, n, p)[j] == s[idx[j]] && p(s[idx[j]]),
        forall|j: int, k: int| 0 <= j < k < idx.len() ==> #[trigger] idx[j] < #[trigger] idx[k],
        forall|k: int| 0 <= k < n && p(#[trigger] s[k]) ==> exists|j: int| 0 <= j < idx.len() && #[trigger] idx[j] == k,
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let i0 = lemma_sfilter(s, n - 1, p);
        if p(s[n - 1]) {
            let r = i0.push(n - 1);
            assert forall|k: int| 0 <= k < n && p(#[trigger] s[k]) implies exists|j: int| 0 <= j < r.len() && #[trigger] r[j] == k by {
                if k == n - 1 { assert(r[r.len() - 1] == k); } else { let j = choose|j: int| 0 <= j < i0.len() && #[trigger] i0[j] == k; assert(r[j] == k); }
            }
            r
        } else { i0 }
    }
}
/// building a map from pairs with distinct keys
pub proof fn lemma_extend<K: KeyId, V>(s: Seq<(K, V)>, n: int)
    requires 0 <= n <= s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kid() != (#[trigger] s[j]).0.kid()
    ensures
        forall|i: int| 0 <= i < n ==> extend_with(Map::<K::Id, (K, V)>::empty(), s, n).dom().contains((#[trigger] s[i]).0.kid()) && extend_with(Map::<K::Id, (K, V)>::empty(), s, n)[s[i].0.kid()] == s[i],
        forall|id: K::Id| #[trigger] extend_with(Map::<K::Id, (K, V)>::empty(), s, n).dom().contains(id) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id,
    decreases n
{ if n > 0 { lemma_extend(s, n - 1);
    let m0 = extend_with(Map::<K::Id, (K, V)>::empty(), s, n - 1); let m1 = extend_with(Map::<K::Id, (K, V)>::empty(), s, n);
    assert forall|id: K::Id| #[trigger] m1.dom().contains(id) implies exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id by {
        if id == s[n - 1].0.kid() {} else { assert(m0.dom().contains(id)); } } } }
pub trait VColl<T>: Sized { spec fn coll_ens(v: Vec<T>, r: Self) -> bool; fn v_coll(v: Vec<T>) -> (r: Self) ensures Self::coll_ens(v, r); }
impl<T> VColl<T> for Vec<T> { open spec fn coll_ens(v: Vec<T>, r: Self) -> bool { r@ == v@ } fn v_coll(v: Vec<T>) -> (r: Self) { v } }
impl<K: KeyId, V> VColl<(K, V)> for HashMap<K, V> { open spec fn coll_ens(v: Vec<(K, V)>, r: Self) -> bool { r@ == extend_with(Map::<K::Id, (K, V)>::empty(), v@, v@.len() as int) }
    #[verifier::external_body] fn v_coll(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() } }
impl VColl<char> for String { open spec fn coll_ens(v: Vec<char>, r: Self) -> bool { r@ == v@ } #[verifier::external_body] fn v_coll(v: Vec<char>) -> (r: Self) { unimplemented!() } }
impl<'a> VColl<&'a char> for String { open spec fn coll_ens(v: Vec<&'a char>, r: Self) -> bool { r@.len() == v@.len() && forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < r@.len() ==> r@[i] == *v@[i] } #[verifier::external_body] fn v_coll(v: Vec<&'a char>) -> (r: Self) { unimplemented!() } }


// ---------------------------------------------------------------- strings
// A str is the sequence of its characters. Case mapping, trimming classes and byte lengths are uninterpreted functions of it.
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn clen(c: char) -> nat { if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 } }
pub open spec fn utf8_len(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { utf8_len(s.drop_last()) + clen(s.last()) } }
/// byte offset n falls between two characters
pub open spec fn is_bound(s: Seq<char>, n: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] utf8_len(s.take(k)) == n }
pub open spec fn byte_idx(s: Seq<char>, n: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] utf8_len(s.take(k)) == n }
pub broadcast proof fn utf8_zero(s: Seq<char>) ensures #![trigger utf8_len(s)] utf8_len(s) >= s.len(), utf8_len(s) == 0 <==> s.len() == 0 decreases s.len() { if s.len() > 0 { utf8_zero(s.drop_last()); } }
pub proof fn utf8_mono(s: Seq<char>, j: int, k: int) requires 0 <= j < k <= s.len() ensures utf8_len(s.take(j)) < utf8_len(s.take(k)) decreases k - j
{ assert(s.take(k).drop_last() =~= s.take(k - 1)); if j < k - 1 { utf8_mono(s, j, k - 1); } }
pub broadcast proof fn byte_one(s: Seq<char>) requires s.len() > 0, (s[0] as int) < 0x80 ensures #![trigger byte_idx(s, 1)] #![trigger is_bound(s, 1)] is_bound(s, 1), byte_idx(s, 1) == 1
{ assert(s.take(1).drop_last() =~= Seq::<char>::empty()); assert(utf8_len(Seq::<char>::empty()) == 0); assert(s.take(1).last() == s[0]); assert(utf8_len(s.take(1)) == 1); let k = byte_idx(s, 1); if k < 1 { utf8_mono(s, k, 1); } else if k > 1 { utf8_mono(s, 1, k); } }
pub broadcast proof fn byte_zero(s: Seq<char>) ensures #![trigger byte_idx(s, 0)] #![trigger is_bound(s, 0)] is_bound(s, 0), byte_idx(s, 0) == 0
{ assert(s.take(0) =~= Seq::<char>::empty()); assert(utf8_len(s.take(0)) == 0); let k = byte_idx(s, 0); if k > 0 { utf8_mono(s, 0, k); } }
pub broadcast proof fn byte_all(s: Seq<char>) ensures #![trigger byte_idx(s, utf8_len(s) as int)] #![trigger is_bound(s, utf8_len(s) as int)] is_bound(s, utf8_len(s) as int), byte_idx(s, utf8_len(s) as int) == s.len()
{ assert(s.take(s.len() as int) =~= s); let k = byte_idx(s, utf8_len(s) as int); if k < s.len() { utf8_mono(s, k, s.len() as int); } }
pub broadcast proof fn byte_last(s: Seq<char>) requires s.len() > 0, (s.last() as int) < 0x80 ensures #![trigger byte_idx(s, utf8_len(s) - 1)] #![trigger is_bound(s, utf8_len(s) - 1)] is_bound(s, utf8_len(s) - 1), byte_idx(s, utf8_len(s) - 1) == s.len() - 1
{ assert(s.take(s.len() - 1) =~= s.drop_last()); assert(utf8_len(s.take(s.len() - 1)) == utf8_len(s) - 1); let k = byte_idx(s, utf8_len(s) - 1); if k < s.len() - 1 { utf8_mono(s, k, s.len() - 1); } else if k > s.len() - 1 { utf8_mono(s, s.len() - 1, k); } }
pub broadcast group bytes_b { utf8_zero, byte_one, byte_zero, byte_all, byte_last }
/// order of strings
pub uninterp spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool;
#[verifier::external_body]
pub broadcast proof fn str_total(a: Seq<char>, b: Seq<char>) ensures #![trigger str_lt(a, b)] str_lt(a, b) <==> (a != b && !str_lt(b, a)) {}
#[verifier::external_body]
pub broadcast proof fn str_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires #[trigger] str_lt(a, b), #[trigger] str_lt(b, c) ensures str_lt(a, c) {}
pub open spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering { ord_of(str_lt(a, b), a == b) }
pub uninterp spec fn c_white(c: char) -> bool;
pub uninterp spec fn c_numeric(c: char) -> bool;
#[verifier::external_body]
pub broadcast proof fn lower_idem(s: Seq<char>) ensures #[trigger] lower(lower(s)) == lower(s) {}
#[verifier::external_body]
pub broadcast proof fn numeric_us(c: char) ensures #![trigger c_numeric(c)] c_numeric(c) ==> c != '_' && c != '+' && c != '-' && c != '.' && c != '\n' && !c_white(c) {}
#[verifier::external_body]
pub broadcast proof fn white_nl(c: char) ensures #![trigger c_white(c)] c == '\n' || c == '\r' || c == ' ' || c == '\t' ==> c_white(c) {}
pub trait VPat { spec fn patv(self) -> Seq<char>; }
impl VPat for char { open spec fn patv(self) -> Seq<char> { seq![self] } }
impl<'a> VPat for &'a str { open spec fn patv(self) -> Seq<char> { self@ } }
impl<'a, 'b> VPat for &'a &'b str { open spec fn patv(self) -> Seq<char> { (*self)@ } }
impl<'a> VPat for &'a String { open spec fn patv(self) -> Seq<char> { self@ } }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) =~= p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) =~= p }
pub broadcast proof fn prefix_first(p: Seq<char>, s: Seq<char>) requires #[trigger] is_prefix(p, s), p.len() > 0 ensures s[0] == p[0] { assert(s.take(p.len() as int)[0] == s[0]); }
/// reading numbers: digits with an optional minus sign in front
pub open spec fn is_dig(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn all_dig(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
pub open spec fn digits_val(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { digits_val(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn unsigned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '-' { s.skip(1) } else { s } }
pub open spec fn int_text(s: Seq<char>) -> bool { unsigned(s).len() > 0 && all_dig(unsigned(s)) }
pub open spec fn int_val(s: Seq<char>) -> int { if s.len() > 0 && s[0] == '-' { -digits_val(unsigned(s)) } else { digits_val(s) } }
pub open spec fn plain_num(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '_' && s[i] != '+' }
pub struct ParseNumError;
pub trait VFromStr: Sized { spec fn fs_ens(s: Seq<char>, r: Result<Self, ParseNumError>) -> bool; fn v_from_str<S: VStrExt + ?Sized>(s: &S) -> (r: Result<Self, ParseNumError>) ensures Self::fs_ens(s.sv(), r); }
impl VFromStr for u64 { open spec fn fs_ens(s: Seq<char>, r: Result<Self, ParseNumError>) -> bool { (r is Ok && int_text(s) ==> r->Ok_0 == int_val(s)) && (all_dig(s) && s.len() > 0 && digits_val(s) <= u64::MAX ==> r is Ok) }
    #[verifier::external_body] fn v_from_str<S: VStrExt + ?Sized>(s: &S) -> (r: Result<Self, ParseNumError>) { unimplemented!() } }
impl VFromStr for BigInt { open spec fn fs_ens(s: Seq<char>, r: Result<Self, ParseNumError>) -> bool { (plain_num(s) ==> (r is Ok <==> int_text(s))) && (r is Ok && int_text(s) ==> r->Ok_0@ == int_val(s)) }
    #[verifier::external_body] fn v_from_str<S: VStrExt + ?Sized>(s: &S) -> (r: Result<Self, ParseNumError>) { unimplemented!() } }
impl VFromStr for i32 { open spec fn fs_ens(s: Seq<char>, r: Result<Self, ParseNumError>) -> bool { r is Ok && int_text(s) ==> r->Ok_0 == int_val(s) }
    #[verifier::external_body] fn v_from_str<S: VStrExt + ?Sized>(s: &S) -> (r: Result<Self, ParseNumError>) { unimplemented!() } }
impl VFromStr for u32 { open spec fn fs_ens(s: Seq<char>, r: Result<Self, ParseNumError>) -> bool { r is Ok && int_text(s) ==> r->Ok_0 == int_val(s) }
    #[verifier::external_body] fn v_from_str<S: VStrExt + ?Sized>(s: &S) -> (r: Result<Self, ParseNumError>) { unimplemented!() } }
pub trait VStrExt { spec fn sv(&self) -> Seq<char>;
    fn v_as_str(&self) -> (r: &str) ensures r@ == self.sv();
    fn v_chars(&self) -> (r: Vec<char>) ensures r@ == self.sv(), r@.len() < usize::MAX;
    fn v_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.sv());
    fn v_trim(&self) -> (r: &str) ensures r@ == trim_s(self.sv());
    fn v_len(&self) -> (r: usize) ensures r == utf8_len(self.sv());
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn v_lines(&self) -> (r: Vec<&str>);
    fn v_slice_from(&self, n: usize) -> (r: &str) requires is_bound(self.sv(), n as int) ensures r@ == self.sv().skip(byte_idx(self.sv(), n as int));
    fn v_slice(&self, n: usize, m: usize) -> (r: &str) requires n <= m, is_bound(self.sv(), n as int), is_bound(self.sv(), m as int) ensures r@ == self.sv().subrange(byte_idx(self.sv(), n as int), byte_idx(self.sv(), m as int));
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.patv(), self.sv());
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.patv(), self.sv());
}
pub open spec fn trim_front(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if c_white(s[0]) { trim_front(s.drop_first()) } else { s } }
pub open spec fn trim_back(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else if c_white(s.last()) { trim_back(s.drop_last()) } else { s } }
pub open spec fn trim_s(s: Seq<char>) -> Seq<char> { trim_back(trim_front(s)) }
impl VStrExt for String { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, n: usize, m: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
impl VStrExt for str { open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_chars(&self) -> (r: Vec<char>) { unimplemented!() }
    #[verifier::external_body] fn v_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_lines(&self) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, n: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, n: usize, m: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
pub trait VToString { spec fn tostr(&self) -> Seq<char>; fn v_to_string(&self) -> (r: String) ensures r@ == self.tostr(); }
impl VToString for String { open spec fn tostr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for str { open spec fn tostr(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
impl VToString for char { open spec fn tostr(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
/// what `{}` prints
pub trait VDisp { spec fn disp(&self) -> Seq<char>; fn v_disp(&self) -> (r: String) ensures r@ == self.disp(); }
impl VDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
/// decimal digits
pub open spec fn digit_c(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit_c(n as int)] } else { dec(n / 10).push(digit_c((n % 10) as int)) } }
impl VDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDisp for BigInt { open spec fn disp(&self) -> Seq<char> { if self@ >= 0 { dec(self@ as nat) } else { "-"@ + dec((-self@) as nat) } } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
/// zeros in front up to width w; numbers that are not negative
pub open spec fn pad0(s: Seq<char>, w: int) -> Seq<char> { if s.len() < w { Seq::new((w - s.len()) as nat, |i: int| '0') + s } else { s } }
pub trait VDisp0 { spec fn disp0_ens(&self, w: usize, r: Seq<char>) -> bool; fn v_disp0(&self, w: usize) -> (r: String) ensures self.disp0_ens(w, r@); }
impl VDisp0 for u64 { open spec fn disp0_ens(&self, w: usize, r: Seq<char>) -> bool { r == pad0(dec(*self as nat), w as int) } #[verifier::external_body] fn v_disp0(&self, w: usize) -> (r: String) { unimplemented!() } }
impl VDisp0 for BigInt { open spec fn disp0_ens(&self, w: usize, r: Seq<char>) -> bool { self@ >= 0 ==> r == pad0(dec(self@ as nat), w as int) } #[verifier::external_body] fn v_disp0(&self, w: usize) -> (r: String) { unimplemented!() } }
impl<'a, T: VDisp0 + ?Sized> VDisp0 for &'a T { open spec fn disp0_ens(&self, w: usize, r: Seq<char>) -> bool { (**self).disp0_ens(w, r) } fn v_disp0(&self, w: usize) -> (r: String) { (**self).v_disp0(w) } }
/// blanks up to width w (in characters), before (r) or after (l)
pub open spec fn padr(s: Seq<char>, w: int) -> Seq<char> { if s.len() < w { Seq::new((w - s.len()) as nat, |i: int| ' ') + s } else { s } }
pub open spec fn padl(s: Seq<char>, w: int) -> Seq<char> { if s.len() < w { s + Seq::new((w - s.len()) as nat, |i: int| ' ') } else { s } }
pub trait VDispR { spec fn rdisp(&self) -> Seq<char>; fn v_dispr(&self, w: usize) -> (r: String) ensures r@ == padr(self.rdisp(), w as int); }
pub trait VDispL { spec fn ldisp(&self) -> Seq<char>; fn v_displ(&self, w: usize) -> (r: String) ensures r@ == padl(self.ldisp(), w as int); }
impl VDispR for usize { open spec fn rdisp(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn v_dispr(&self, w: usize) -> (r: String) { unimplemented!() } }
impl VDispR for String { open spec fn rdisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_dispr(&self, w: usize) -> (r: String) { unimplemented!() } }
impl VDispL for String { open spec fn ldisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_displ(&self, w: usize) -> (r: String) { unimplemented!() } }
impl<'a> VDispR for &'a str { open spec fn rdisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_dispr(&self, w: usize) -> (r: String) { unimplemented!() } }
impl<'a> VDispL for &'a str { open spec fn ldisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_displ(&self, w: usize) -> (r: String) { unimplemented!() } }
// ---- std::fmt: a formatter collects the text; writing to it does not fail
pub struct FmtError;
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter<'a> { x: &'a str }
impl<'a> View for Formatter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> Formatter<'a> {
    #[verifier::external_body] pub fn v_write(&mut self, s: String) -> (r: FmtResult) ensures r is Ok, final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn v_new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn v_done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
/// what the project's own Display implementations add to the text
pub trait Display { spec fn fmt_ens(&self, t: Seq<char>) -> bool; fn fmt(&self, f: &mut Formatter<'_>) -> (r: FmtResult) ensures r is Ok, old(f)@.len() <= final(f)@.len(), final(f)@.take(old(f)@.len() as int) == old(f)@, self.fmt_ens(final(f)@.skip(old(f)@.len() as int)); }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn v_disp(&self) -> (r: String) { (**self).v_disp() } }
impl<T: VDisp> VDisp for Rc<T> { open spec fn disp(&self) -> Seq<char> { (**self).disp() } fn v_disp(&self) -> (r: String) { (**self).v_disp() } }
impl VToOwned for str { type Own = String; open spec fn own_ens(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn v_to_owned(&self) -> (r: String) { unimplemented!() } }
impl<'a> VFrom<&'a str> for String { open spec fn vfrom_req(s: &'a str) -> bool { true } open spec fn vfrom_ens(s: &'a str, r: String) -> bool { r@ == s@ } #[verifier::external_body] fn vfrom(s: &'a str) -> (r: String) { unimplemented!() } }
pub trait VTruncate { spec fn trv(&self) -> Seq<char>; fn v_truncate(&mut self, n: usize) ensures is_bound(old(self).trv(), n as int) || n >= utf8_len(old(self).trv()), final(self).trv() == if n >= utf8_len(old(self).trv()) { old(self).trv() } else { old(self).trv().take(byte_idx(old(self).trv(), n as int)) }; }
impl VTruncate for String { open spec fn trv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_truncate(&mut self, n: usize) { unimplemented!() } }
pub trait VPushStr { fn v_push_str(&mut self, s: &str) ensures final(self).psv() == old(self).psv() + s@; spec fn psv(&self) -> Seq<char>; }
impl VPushStr for String { open spec fn psv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_push_str(&mut self, s: &str) { unimplemented!() } }
pub trait VCharExt { fn v_is_whitespace(&self) -> (r: bool) ensures r == c_white(self.cv()); fn v_is_numeric(&self) -> (r: bool) ensures r == c_numeric(self.cv()); spec fn cv(&self) -> char; }
impl VCharExt for char { open spec fn cv(&self) -> char { *self } #[verifier::external_body] fn v_is_whitespace(&self) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn v_is_numeric(&self) -> (r: bool) { unimplemented!() } }
impl VDefault for String { open spec fn vdef_ens(r: Self) -> bool { r@ == Seq::<char>::empty() } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }

// ---------------------------------------------------------------- regex: matching is a function of pattern and text
pub uninterp spec fn re_matches(pat: Seq<char>, s: Seq<char>) -> bool;
pub uninterp spec fn re_valid(pat: Seq<char>) -> bool;
#[verifier::external_body]
pub struct Regex { x: String }
#[verifier::external_body]
pub struct RegexError { x: String }
impl View for Regex { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Regex {
    #[verifier::external_body]
    pub fn new(p: &str) -> (r: Result<Regex, RegexError>) ensures r is Ok <==> re_valid(p@), r is Ok ==> r->Ok_0@ == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == re_matches(self@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}

// ---------------------------------------------------------------- dates: a day number
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NaiveDate { x: i64 }
impl View for NaiveDate { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub broadcast proof fn date_ext(a: NaiveDate, b: NaiveDate) requires #[trigger] a@ == #[trigger] b@ ensures a == b {}
/// how a day is written
pub uninterp spec fn date_text(d: int) -> Seq<char>;
impl VDisp for NaiveDate { open spec fn disp(&self) -> Seq<char> { date_text(self@) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl KeyId for NaiveDate { type Id = int; open spec fn kid(&self) -> int { self@ } }
impl VEq<NaiveDate> for NaiveDate { open spec fn veq_req(&self, other: &NaiveDate) -> bool { true } open spec fn veq_ens(&self, other: &NaiveDate, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &NaiveDate) -> (r: bool) { unimplemented!() } }
impl VCmp<NaiveDate> for NaiveDate { open spec fn v_cmp_req(&self, other: &NaiveDate) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &NaiveDate, r: Ordering) -> bool { r == ord_of(self@ < other@, self@ == other@) }
    #[verifier::external_body] fn v_cmp(&self, other: &NaiveDate) -> (r: Ordering) { unimplemented!() } }
impl VOrd<NaiveDate> for NaiveDate { open spec fn vord_req(&self, other: &NaiveDate) -> bool { true } open spec fn vord_post(&self, other: &NaiveDate) -> bool { true }
    open spec fn lt_s(&self, other: &NaiveDate) -> bool { self@ < other@ } open spec fn gt_s(&self, other: &NaiveDate) -> bool { self@ > other@ }
    open spec fn le_s(&self, other: &NaiveDate) -> bool { self@ <= other@ } open spec fn ge_s(&self, other: &NaiveDate) -> bool { self@ >= other@ }
    #[verifier::external_body] fn vlt(&self, other: &NaiveDate) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vgt(&self, other: &NaiveDate) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vle(&self, other: &NaiveDate) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vge(&self, other: &NaiveDate) -> (r: bool) { unimplemented!() } }

// ---- spans of days
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Duration { x: i64 }
impl View for Duration { type V = int; uninterp spec fn view(&self) -> int; }
#[verifier::external_body]
pub broadcast proof fn span_ext(a: Duration, b: Duration) requires #[trigger] a@ == #[trigger] b@ ensures a == b {}
impl VSub<NaiveDate> for NaiveDate { type O = Duration; open spec fn vsub_req(self, r: NaiveDate) -> bool { true } open spec fn vsub_ens(self, r: NaiveDate, o: Duration) -> bool { o@ == self@ - r@ }
    #[verifier::external_body] fn vsub(self, r: NaiveDate) -> (o: Duration) { unimplemented!() } }
impl VAdd<Duration> for Duration { type O = Duration; open spec fn vadd_req(self, r: Duration) -> bool { true } open spec fn vadd_ens(self, r: Duration, o: Duration) -> bool { o@ == self@ + r@ }
    #[verifier::external_body] fn vadd(self, r: Duration) -> (o: Duration) { unimplemented!() } }
impl VEq<Duration> for Duration { open spec fn veq_req(&self, other: &Duration) -> bool { true } open spec fn veq_ens(&self, other: &Duration, r: bool) -> bool { r == (self@ == other@) }
    #[verifier::external_body] fn veq(&self, other: &Duration) -> (r: bool) { unimplemented!() } }
impl VCmp<Duration> for Duration { open spec fn v_cmp_req(&self, other: &Duration) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &Duration, r: Ordering) -> bool { r == ord_of(self@ < other@, self@ == other@) }
    #[verifier::external_body] fn v_cmp(&self, other: &Duration) -> (r: Ordering) { unimplemented!() } }
impl VOrd<Duration> for Duration { open spec fn vord_req(&self, other: &Duration) -> bool { true } open spec fn vord_post(&self, other: &Duration) -> bool { true }
    open spec fn lt_s(&self, other: &Duration) -> bool { self@ < other@ } open spec fn gt_s(&self, other: &Duration) -> bool { self@ > other@ }
    open spec fn le_s(&self, other: &Duration) -> bool { self@ <= other@ } open spec fn ge_s(&self, other: &Duration) -> bool { self@ >= other@ }
    #[verifier::external_body] fn vlt(&self, other: &Duration) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vgt(&self, other: &Duration) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vle(&self, other: &Duration) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vge(&self, other: &Duration) -> (r: bool) { unimplemented!() } }
impl VOrd<str> for str { open spec fn vord_req(&self, other: &str) -> bool { true } open spec fn vord_post(&self, other: &str) -> bool { true }
    open spec fn lt_s(&self, other: &str) -> bool { str_lt(self@, other@) } open spec fn gt_s(&self, other: &str) -> bool { str_lt(other@, self@) }
    open spec fn le_s(&self, other: &str) -> bool { !str_lt(other@, self@) } open spec fn ge_s(&self, other: &str) -> bool { !str_lt(self@, other@) }
    #[verifier::external_body] fn vlt(&self, other: &str) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vgt(&self, other: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vle(&self, other: &str) -> (r: bool) { unimplemented!() } #[verifier::external_body] fn vge(&self, other: &str) -> (r: bool) { unimplemented!() } }
impl<'a, 'b, A: VOrd<B> + ?Sized, B: ?Sized> VOrd<&'b B> for &'a A { open spec fn vord_req(&self, other: &&'b B) -> bool { (**self).vord_req(*other) } open spec fn vord_post(&self, other: &&'b B) -> bool { (**self).vord_post(*other) }
    open spec fn lt_s(&self, other: &&'b B) -> bool { (**self).lt_s(*other) } open spec fn gt_s(&self, other: &&'b B) -> bool { (**self).gt_s(*other) }
    open spec fn le_s(&self, other: &&'b B) -> bool { (**self).le_s(*other) } open spec fn ge_s(&self, other: &&'b B) -> bool { (**self).ge_s(*other) }
    fn vlt(&self, other: &&'b B) -> (r: bool) { (**self).vlt(*other) } fn vgt(&self, other: &&'b B) -> (r: bool) { (**self).vgt(*other) }
    fn vle(&self, other: &&'b B) -> (r: bool) { (**self).vle(*other) } fn vge(&self, other: &&'b B) -> (r: bool) { (**self).vge(*other) } }
/// pairs: the first, then the second
impl<A: VCmp<A>, B: VCmp<B>> VCmp<(A, B)> for (A, B) { open spec fn v_cmp_req(&self, other: &(A, B)) -> bool { self.0.v_cmp_req(&other.0) && self.1.v_cmp_req(&other.1) }
    open spec fn v_cmp_ens(&self, other: &(A, B), r: Ordering) -> bool { exists|a: Ordering, b: Ordering| #[trigger] self.0.v_cmp_ens(&other.0, a) && #[trigger] self.1.v_cmp_ens(&other.1, b) && r == (if a is Equal { b } else { a }) }
    fn v_cmp(&self, other: &(A, B)) -> (r: Ordering) { let a = self.0.v_cmp(&other.0); let b = self.1.v_cmp(&other.1); match a { Ordering::Equal => b, _ => a } } }
impl<'a> VCmp<&'a str> for &'a str { open spec fn v_cmp_req(&self, other: &&'a str) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &&'a str, r: Ordering) -> bool { r == ord_of(str_lt((**self)@, (**other)@), (**self)@ == (**other)@) }
    #[verifier::external_body] fn v_cmp(&self, other: &&'a str) -> (r: Ordering) { unimplemented!() } }

impl VCmp<String> for String { open spec fn v_cmp_req(&self, other: &String) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &String, r: Ordering) -> bool { r == ord_of(str_lt(self@, other@), self@ == other@) }
    #[verifier::external_body] fn v_cmp(&self, other: &String) -> (r: Ordering) { unimplemented!() } }
impl VCmp<str> for str { open spec fn v_cmp_req(&self, other: &str) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &str, r: Ordering) -> bool { r == ord_of(str_lt(self@, other@), self@ == other@) }
    #[verifier::external_body] fn v_cmp(&self, other: &str) -> (r: Ordering) { unimplemented!() } }
pub open spec fn ostr_lt(a: Option<Seq<char>>, b: Option<Seq<char>>) -> bool { match (a, b) { (Some(x), Some(y)) => str_lt(x, y), (None, Some(_)) => true, _ => false } }
pub open spec fn ostr(a: Option<String>) -> Option<Seq<char>> { match a { Some(x) => Some(x@), None => None } }
impl VCmp<Option<String>> for Option<String> { open spec fn v_cmp_req(&self, other: &Option<String>) -> bool { true }
    open spec fn v_cmp_ens(&self, other: &Option<String>, r: Ordering) -> bool { r == ord_of(ostr_lt(ostr(*self), ostr(*other)), ostr(*self) == ostr(*other)) }
    #[verifier::external_body] fn v_cmp(&self, other: &Option<String>) -> (r: Ordering) { unimplemented!() } }

// ---------------------------------------------------------------- opaque: paths, coloured text
#[verifier::external_body]
pub struct PathBuf { x: String }
/// what is in a file: a journal has fewer than 2^31 characters
pub uninterp spec fn file_text(p: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct IoError { x: String }
impl VToString for IoError { uninterp spec fn tostr(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn read_to_string(p: &PathBuf) -> (r: Result<String, IoError>) ensures r is Ok ==> r->Ok_0@ == file_text(p@) && r->Ok_0@.len() <= i32::MAX { unimplemented!() }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl PathBuf { #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@ { unimplemented!() } }
impl KeyId for PathBuf { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub struct ColoredString { x: String }
impl View for ColoredString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// printed text is taken without the colour escapes
impl VDisp for ColoredString { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
impl VDispR for ColoredString { open spec fn rdisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_dispr(&self, w: usize) -> (r: String) { unimplemented!() } }
impl VDispL for ColoredString { open spec fn ldisp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_displ(&self, w: usize) -> (r: String) { unimplemented!() } }
impl ColoredString { #[verifier::external_body] pub fn v_len(&self) -> (r: usize) { unimplemented!() } }
impl<'a> VFrom<&'a str> for ColoredString { open spec fn vfrom_req(s: &'a str) -> bool { true } open spec fn vfrom_ens(s: &'a str, r: ColoredString) -> bool { r@ == s@ } #[verifier::external_body] fn vfrom(s: &'a str) -> (r: ColoredString) { unimplemented!() } }
/// colouring keeps the text
pub trait VColor { spec fn colv(&self) -> Seq<char>; fn red(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bold(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn normal(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn blue(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_red(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn underline(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn cyan(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn green(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn yellow(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn magenta(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn white(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn black(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_green(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_yellow(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_blue(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_magenta(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_cyan(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn bright_white(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn dimmed(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn italic(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn purple(&self) -> (r: ColoredString) ensures r@ == self.colv(); fn clear(&self) -> (r: ColoredString) ensures r@ == self.colv(); }
macro_rules! colors { ($t:ty) => { verus!{ impl VColor for $t { open spec fn colv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn red(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bold(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn normal(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn blue(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_red(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn underline(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn cyan(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn green(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn yellow(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn magenta(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn white(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn black(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_green(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_yellow(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_blue(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_magenta(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_cyan(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn bright_white(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn dimmed(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn italic(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn purple(&self) -> (r: ColoredString) { unimplemented!() } #[verifier::external_body] fn clear(&self) -> (r: ColoredString) { unimplemented!() } } } } }
colors!(str);
colors!(String);
colors!(ColoredString);

// ---------------------------------------------------------------- terminal
pub struct Width(pub u16);
pub struct Height(pub u16);
#[verifier::external_body]
pub fn terminal_size() -> (r: Option<(Width, Height)>) { unimplemented!() }

// ---------------------------------------------------------------- names and aliases
pub trait HasName { spec fn name_s(&self) -> Seq<char>; fn get_name(&self) -> (r: &str) ensures r@ == self.name_s(); }
pub trait HasAliases { spec fn aliases_s(&self) -> Map<Seq<char>, String>; fn get_aliases(&self) -> (r: &HashSet<String>) ensures r@ == self.aliases_s(); }
pub trait FromDirective { spec fn fromdir_s(&self) -> bool; fn is_from_directive(&self) -> (r: bool) ensures r == self.fromdir_s(); }

// ---------------------------------------------------------------- the parts of a name
/// where the last of the characters c is in s, -1 if there is none
pub open spec fn last_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_of(s.drop_last(), c) } }
/// s cut at every ':'
pub open spec fn parts(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() { let k = last_of(s, ':'); if 0 <= k < s.len() { parts(s.take(k)).push(s.skip(k + 1)) } else { seq![s] } }
/// the first n of them with ':' between
pub open spec fn joined(p: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else if n == 1 { p[0] } else { joined(p, n - 1).push(':') + p[n - 1] } }
pub trait VSplit { spec fn splv(&self) -> Seq<char>;
    fn v_split<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) ensures p@ == seq![':'] ==> r@.len() == parts(self.splv()).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == parts(self.splv())[i];
    fn v_matches<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) ensures p@ == seq![':'] ==> r@.len() == parts(self.splv()).len() - 1; }
impl VSplit for str { open spec fn splv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) { unimplemented!() } #[verifier::external_body] fn v_matches<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) { unimplemented!() } }
impl VSplit for String { open spec fn splv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_split<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) { unimplemented!() } #[verifier::external_body] fn v_matches<'a>(&'a self, p: &str) -> (r: Vec<&'a str>) { unimplemented!() } }
pub open spec fn strs(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub trait VJoin { spec fn joinv(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures sep@ == seq![':'] ==> r@ == joined(self.joinv(), self.joinv().len() as int); }
impl VJoin for Vec<String> { open spec fn joinv(&self) -> Seq<Seq<char>> { strs(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
/// the day it is
pub uninterp spec fn today() -> int;
pub struct Utc;
pub struct DateTime { x: i64 }
pub struct NaiveDateTime { x: i64 }
impl Utc { #[verifier::external_body] pub fn now() -> (r: DateTime) { unimplemented!() } }
impl DateTime { #[verifier::external_body] pub fn naive_local(&self) -> (r: NaiveDateTime) { unimplemented!() } }
impl NaiveDateTime { #[verifier::external_body] pub fn date(&self) -> (r: NaiveDate) ensures r@ == today() { unimplemented!() } }

} // verus!
pub use value_expr::Node;
