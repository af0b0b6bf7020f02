//! num-bigint over i64 (feature wide: i128), for bounded model checking: every operation outside is a panic.
pub use real_bigint::{BigUint, ParseBigIntError, Sign, ToBigUint};
use num_integer::{Integer, Roots};
use num_traits::*;
use real_bigint::BigInt as Z;
use std::cmp::Ordering;
use std::convert::TryFrom;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

#[cfg(not(feature = "wide"))]
type W = i64;
#[cfg(feature = "wide")]
type W = i128;
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct BigInt(W);

trait From_<T> {
    fn from_(t: T) -> W;
}
macro_rules! from_ { ($($t:ty),*) => { $( impl From_<$t> for W { #[allow(irrefutable_let_patterns)] fn from_(t: $t) -> W { if let Ok(w) = W::try_from(t) { w } else { panic!("outside the stand-in") } } } )* } }
from_!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

fn c(z: Z) -> BigInt { BigInt(W::try_from(z.to_i128().unwrap()).unwrap()) }
impl BigInt {
    fn get(&self) -> Z { Z::from(self.0) }
}
fn v_add(a: &W, b: &W) -> W { W::checked_add(*a, *b).unwrap() }
fn v_sub(a: &W, b: &W) -> W { W::checked_sub(*a, *b).unwrap() }
fn v_mul(a: &W, b: &W) -> W {
    if *a == 0 || *b == 0 { 0 } else if *a == 1 { *b } else if *b == 1 { *a } else { W::checked_mul(*a, *b).unwrap() }
}
fn v_div(a: &W, b: &W) -> W { a / b }
fn v_rem(a: &W, b: &W) -> W { a % b }
fn v_neg(a: &W) -> W { -a }
fn v_abs(a: &W) -> W { a.abs() }
fn v_div_floor(a: &W, b: &W) -> W { a.div_floor(b) }
fn v_mod_floor(a: &W, b: &W) -> W { a.mod_floor(b) }
fn v_pow(a: &W, n: u32) -> W { W::checked_pow(*a, n).unwrap() }
macro_rules! fmt_impl { ($($t:ident),*) => { $( impl fmt::$t for BigInt { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::$t::fmt(&self.0, f) } } )* } }
fmt_impl!(Display, Binary, Octal, LowerHex, UpperHex);
impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<BigInt, ParseBigIntError> { Z::from_str(s).map(c) }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<BigInt, ParseBigIntError> { Z::from_str_radix(s, r).map(c) }
}

// ---- operators --------------------------------------------------------------------------------------
macro_rules! binop {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $v:ident; $($t:ty),*) => {
        impl $Tr<BigInt> for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a> $Tr<&'a BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &'a BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a> $Tr<BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a, 'b> $Tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: &'b BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl $TrA<BigInt> for BigInt { fn $fa(&mut self, o: BigInt) { self.0 = $v(&self.0, &o.0); } }
        impl<'a> $TrA<&'a BigInt> for BigInt { fn $fa(&mut self, o: &'a BigInt) { self.0 = $v(&self.0, &o.0); } }
        $(
            impl $Tr<$t> for BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { BigInt($v(&self.0, &W::from_(o))) } }
            impl<'a> $Tr<&'a $t> for BigInt { type Output = BigInt; fn $f(self, o: &'a $t) -> BigInt { BigInt($v(&self.0, &W::from_(*o))) } }
            impl<'a> $Tr<$t> for &'a BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { BigInt($v(&self.0, &W::from_(o))) } }
            impl<'a, 'b> $Tr<&'b $t> for &'a BigInt { type Output = BigInt; fn $f(self, o: &'b $t) -> BigInt { BigInt($v(&self.0, &W::from_(*o))) } }
            impl $Tr<BigInt> for $t { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&W::from_(self), &o.0)) } }
            impl<'a> $Tr<&'a BigInt> for $t { type Output = BigInt; fn $f(self, o: &'a BigInt) -> BigInt { BigInt($v(&W::from_(self), &o.0)) } }
            impl<'a> $Tr<BigInt> for &'a $t { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&W::from_(*self), &o.0)) } }
            impl<'a, 'b> $Tr<&'b BigInt> for &'a $t { type Output = BigInt; fn $f(self, o: &'b BigInt) -> BigInt { BigInt($v(&W::from_(*self), &o.0)) } }
            impl $TrA<$t> for BigInt { fn $fa(&mut self, o: $t) { self.0 = $v(&self.0, &W::from_(o)); } }
        )*
    };
}
binop!(Add, add, AddAssign, add_assign, v_add; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Sub, sub, SubAssign, sub_assign, v_sub; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Mul, mul, MulAssign, mul_assign, v_mul; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Div, div, DivAssign, div_assign, v_div; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Rem, rem, RemAssign, rem_assign, v_rem; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

fn v_and(a: &W, b: &W) -> W { a & b }
fn v_or(a: &W, b: &W) -> W { a | b }
fn v_xor(a: &W, b: &W) -> W { a ^ b }
binop!(BitAnd, bitand, BitAndAssign, bitand_assign, v_and;);
binop!(BitOr, bitor, BitOrAssign, bitor_assign, v_or;);
binop!(BitXor, bitxor, BitXorAssign, bitxor_assign, v_xor;);

fn v_shl(a: &W, n: usize) -> W { v_mul(a, &if n < W::BITS as usize - 1 { (1 as W) << n } else { panic!("outside the stand-in") }) }
fn v_shr(a: &W, n: usize) -> W { if n > 63 { if *a < 0 { -1 } else { 0 } } else { a >> n } }
impl Shl<usize> for BigInt { type Output = BigInt; fn shl(self, n: usize) -> BigInt { BigInt(v_shl(&self.0, n)) } }
impl<'a> Shl<usize> for &'a BigInt { type Output = BigInt; fn shl(self, n: usize) -> BigInt { BigInt(v_shl(&self.0, n)) } }
impl ShlAssign<usize> for BigInt { fn shl_assign(&mut self, n: usize) { self.0 = v_shl(&self.0, n); } }
impl Shr<usize> for BigInt { type Output = BigInt; fn shr(self, n: usize) -> BigInt { BigInt(v_shr(&self.0, n)) } }
impl<'a> Shr<usize> for &'a BigInt { type Output = BigInt; fn shr(self, n: usize) -> BigInt { BigInt(v_shr(&self.0, n)) } }
impl ShrAssign<usize> for BigInt { fn shr_assign(&mut self, n: usize) { self.0 = v_shr(&self.0, n); } }

impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(v_neg(&self.0)) } }
impl<'a> Neg for &'a BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(v_neg(&self.0)) } }
impl Not for BigInt { type Output = BigInt; fn not(self) -> BigInt { BigInt(-1 - self.0) } }
impl<'a> Not for &'a BigInt { type Output = BigInt; fn not(self) -> BigInt { BigInt(-1 - self.0) } }

impl Zero for BigInt {
    fn zero() -> BigInt { BigInt(0) }
    fn is_zero(&self) -> bool { self.0 == 0 }
}
impl One for BigInt {
    fn one() -> BigInt { BigInt(1) }
    fn is_one(&self) -> bool { self.0 == 1 }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt { BigInt(v_abs(&self.0)) }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if self <= o { BigInt::zero() } else { self - o }
    }
    fn signum(&self) -> BigInt {
        match self.sign() { Sign::Plus => BigInt::one(), Sign::Minus => -BigInt::one(), Sign::NoSign => BigInt::zero() }
    }
    fn is_positive(&self) -> bool { self.0 > 0 }
    fn is_negative(&self) -> bool { self.0 < 0 }
}

macro_rules! pow_impl {
    ($($t:ty),*) => { $(
        impl<'a> Pow<$t> for &'a BigInt { type Output = BigInt; fn pow(self, n: $t) -> BigInt { BigInt(v_pow(&self.0, n as u32)) } }
        impl<'a, 'b> Pow<&'b $t> for &'a BigInt { type Output = BigInt; fn pow(self, n: &'b $t) -> BigInt { BigInt(v_pow(&self.0, *n as u32)) } }
    )* };
}
pow_impl!(u8, u16, u32, u64, usize, u128);

impl CheckedAdd for BigInt { fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) } }
impl CheckedSub for BigInt { fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) } }
impl CheckedMul for BigInt { fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) } }
impl CheckedDiv for BigInt {
    fn checked_div(&self, o: &BigInt) -> Option<BigInt> { if o.is_zero() { None } else { Some(self / o) } }
}

impl Integer for BigInt {
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) { (self / o, self % o) }
    fn div_floor(&self, o: &BigInt) -> BigInt { BigInt(v_div_floor(&self.0, &o.0)) }
    fn mod_floor(&self, o: &BigInt) -> BigInt { BigInt(v_mod_floor(&self.0, &o.0)) }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) { (self.div_floor(o), self.mod_floor(o)) }
    fn gcd(&self, o: &BigInt) -> BigInt { BigInt(self.0.gcd(&o.0)) }
    fn lcm(&self, o: &BigInt) -> BigInt {
        if self.is_zero() && o.is_zero() {
            return BigInt::zero();
        }
        (self * o.div_floor(&self.gcd(o))).abs()
    }
    fn divides(&self, o: &BigInt) -> bool { self.is_multiple_of(o) }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        if o.is_zero() {
            panic!("attempt to divide by zero");
        }
        (self % o).is_zero()
    }
    fn is_even(&self) -> bool { self.0 & 1 == 0 }
    fn is_odd(&self) -> bool { !self.is_even() }
}
impl Roots for BigInt {
    fn nth_root(&self, n: u32) -> BigInt { c(self.get().nth_root(n)) }
    fn sqrt(&self) -> BigInt { c(self.get().sqrt()) }
    fn cbrt(&self) -> BigInt { c(self.get().cbrt()) }
}

macro_rules! to_prim {
    ($($f:ident, $t:ident;)*) => { $(
        fn $f(&self) -> Option<$t> { self.0.$f() }
    )* };
}
impl ToPrimitive for BigInt {
    to_prim! { to_i8, i8; to_i16, i16; to_i32, i32; to_i64, i64; to_i128, i128; to_isize, isize;
               to_u8, u8; to_u16, u16; to_u32, u32; to_u64, u64; to_u128, u128; to_usize, usize; }
    fn to_f32(&self) -> Option<f32> { self.get().to_f32() }
    fn to_f64(&self) -> Option<f64> { self.get().to_f64() }
}
macro_rules! from_prim {
    ($($f:ident, $t:ident;)*) => { $( fn $f(n: $t) -> Option<BigInt> { Some(BigInt::from(n)) } )* };
}
impl FromPrimitive for BigInt {
    from_prim! { from_i8, i8; from_i16, i16; from_i32, i32; from_i64, i64; from_i128, i128; from_isize, isize;
                 from_u8, u8; from_u16, u16; from_u32, u32; from_u64, u64; from_u128, u128; from_usize, usize; }
    fn from_f64(n: f64) -> Option<BigInt> { Z::from_f64(n).map(c) }
    fn from_f32(n: f32) -> Option<BigInt> { Z::from_f32(n).map(c) }
}
macro_rules! from_impl {
    ($($t:ty),*) => { $(
        impl From<$t> for BigInt { fn from(n: $t) -> BigInt { BigInt(W::from_(n)) } }
        impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt(W::from_(*self))) } }
    )* };
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
from_impl!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
impl From<BigUint> for BigInt { fn from(n: BigUint) -> BigInt { c(Z::from(n)) } }
impl From<Z> for BigInt { fn from(n: Z) -> BigInt { c(n) } }
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
impl ToBigInt for BigUint { fn to_bigint(&self) -> Option<BigInt> { Some(c(Z::from(self.clone()))) } }
impl ToBigInt for f32 { fn to_bigint(&self) -> Option<BigInt> { BigInt::from_f32(*self) } }
impl ToBigInt for f64 { fn to_bigint(&self) -> Option<BigInt> { BigInt::from_f64(*self) } }
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        if self.is_negative() { None } else { self.get().to_biguint() }
    }
}

impl BigInt {
    pub fn new(s: Sign, d: Vec<u32>) -> BigInt { c(Z::new(s, d)) }
    pub fn from_biguint(s: Sign, d: BigUint) -> BigInt { c(Z::from_biguint(s, d)) }
    pub fn from_slice(s: Sign, d: &[u32]) -> BigInt { c(Z::from_slice(s, d)) }
    pub fn assign_from_slice(&mut self, s: Sign, d: &[u32]) { *self = BigInt::from_slice(s, d) }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> BigInt { c(Z::from_bytes_be(s, b)) }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> BigInt { c(Z::from_bytes_le(s, b)) }
    pub fn from_signed_bytes_be(b: &[u8]) -> BigInt { c(Z::from_signed_bytes_be(b)) }
    pub fn from_signed_bytes_le(b: &[u8]) -> BigInt { c(Z::from_signed_bytes_le(b)) }
    pub fn parse_bytes(b: &[u8], r: u32) -> Option<BigInt> { Z::parse_bytes(b, r).map(c) }
    pub fn from_radix_be(s: Sign, b: &[u8], r: u32) -> Option<BigInt> { Z::from_radix_be(s, b, r).map(c) }
    pub fn from_radix_le(s: Sign, b: &[u8], r: u32) -> Option<BigInt> { Z::from_radix_le(s, b, r).map(c) }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) { self.get().to_bytes_be() }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) { self.get().to_bytes_le() }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> { self.get().to_signed_bytes_be() }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> { self.get().to_signed_bytes_le() }
    pub fn to_str_radix(&self, r: u32) -> String {
        if r == 10 { format!("{}", self) } else { self.get().to_str_radix(r) }
    }
    pub fn to_radix_be(&self, r: u32) -> (Sign, Vec<u8>) { self.get().to_radix_be(r) }
    pub fn to_radix_le(&self, r: u32) -> (Sign, Vec<u8>) { self.get().to_radix_le(r) }
    pub fn sign(&self) -> Sign {
        if self.0 == 0 {
            Sign::NoSign
        } else if self.0 < 0 {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn bits(&self) -> usize { (64 - self.0.unsigned_abs().leading_zeros()) as usize }
    pub fn to_biguint(&self) -> Option<BigUint> { ToBigUint::to_biguint(self) }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) }
    pub fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) }
    pub fn checked_div(&self, o: &BigInt) -> Option<BigInt> { CheckedDiv::checked_div(self, o) }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        if e.is_negative() {
            panic!("negative exponentiation is not supported!");
        }
        let (mut e, mut b) = (e.clone(), self.mod_floor(m));
        let mut r = BigInt::one().mod_floor(m);
        while !e.is_zero() {
            if e.is_odd() {
                r = (&r * &b).mod_floor(m);
            }
            b = (&b * &b).mod_floor(m);
            e = e / 2;
        }
        r
    }
    pub fn sqrt(&self) -> Self { Roots::sqrt(self) }
    pub fn cbrt(&self) -> Self { Roots::cbrt(self) }
    pub fn nth_root(&self, n: u32) -> Self { Roots::nth_root(self, n) }
}

impl<T> Sum<T> for BigInt where BigInt: Add<T, Output = BigInt> {
    fn sum<I: Iterator<Item = T>>(it: I) -> BigInt { it.fold(BigInt::zero(), |a, b| a + b) }
}
impl<T> Product<T> for BigInt where BigInt: Mul<T, Output = BigInt> {
    fn product<I: Iterator<Item = T>>(it: I) -> BigInt { it.fold(BigInt::one(), |a, b| a * b) }
}
