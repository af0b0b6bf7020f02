use crate::engine::{self, abort, concretize, is_neg, is_zero, tick, with};
use crate::expr::V;
use crate::{Sign, U, Z};
use num_integer::{Integer, Roots};
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, FromPrimitive, Num, One, Pow, Signed, ToPrimitive, Zero};
use real_bigint::{BigUint, ParseBigIntError, ToBigUint};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::iter::{Product, Sum};
use std::ops::*;
use std::str::FromStr;

#[derive(Clone)]
pub struct BigInt(V);

impl BigInt {
    pub fn from_v(v: V) -> BigInt {
        BigInt(v)
    }
    pub fn v(&self) -> &V {
        &self.0
    }
    pub fn concrete(&self) -> Option<&Z> {
        match &self.0 {
            V::C(z) => Some(z),
            V::N(_) => None,
        }
    }
    fn get(&self) -> Z {
        concretize(&self.0)
    }
}

fn c(z: Z) -> BigInt {
    BigInt(V::C(z))
}

// ---- core arithmetic ---------------------------------------------------------------------------
fn v_add(a: &V, b: &V) -> V {
    tick();
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(x + y),
        _ => with(|e| {
            let (a, b) = (e.pinned(a), e.pinned(b));
            e.dag.add(&a, &b)
        }),
    }
}
fn v_sub(a: &V, b: &V) -> V {
    tick();
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(x - y),
        _ => with(|e| {
            let (a, b) = (e.pinned(a), e.pinned(b));
            e.dag.sub(&a, &b)
        }),
    }
}
fn v_mul(a: &V, b: &V) -> V {
    tick();
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(x * y),
        _ => with(|e| {
            let (a, b) = (e.pinned(a), e.pinned(b));
            e.dag.mul(&a, &b)
        }),
    }
}
fn v_neg(a: &V) -> V {
    match a {
        V::C(x) => V::C(-x.clone()),
        _ => with(|e| {
            let a = e.pinned(a);
            e.dag.neg(&a)
        }),
    }
}

/// a divisor turned into sign and positive magnitude; symbolic ones are split by sign, and
/// enumerated when they can take few values
fn divisor(b: &V) -> (bool, V) {
    if is_zero(b) {
        panic!("attempt to divide by zero");
    }
    let neg = is_neg(b);
    let m = if neg { v_neg(b) } else { b.clone() };
    if let V::N(_) = m {
        let (lo, hi) = with(|e| e.dag.range(&m));
        if let (Some(lo), Some(hi)) = (lo, hi) {
            if hi - lo <= Z::from(128) {
                return (neg, V::C(concretize(&m)));
            }
        }
    }
    (neg, m)
}

/// floor quotient and remainder by a positive divisor
fn fdivmod(a: &V, m: &V) -> (V, V) {
    match (a, m) {
        (V::C(x), V::C(y)) => {
            let (q, r) = x.div_mod_floor(y);
            (V::C(q), V::C(r))
        }
        (_, V::C(y)) => with(|e| {
            let q = e.dag.div_c(a, y);
            let r = e.dag.mod_c(a, y);
            (q, r)
        }),
        (_, V::N(id)) => {
            let q = with(|e| e.dag.div_s(a, *id));
            let qm = v_mul(&q, m);
            let r = v_sub(a, &qm);
            // 0 <= r < m holds by definition of the quotient: the node carries it
            (q, r)
        }
    }
}
fn fmod(a: &V, m: &V) -> V {
    match (a, m) {
        (V::C(x), V::C(y)) => V::C(x.mod_floor(y)),
        (_, V::C(y)) => with(|e| e.residue(a, y)),
        _ => fdivmod(a, m).1,
    }
}
fn fdiv(a: &V, m: &V) -> V {
    match (a, m) {
        (V::C(x), V::C(y)) => V::C(x.div_floor(y)),
        (_, V::C(y)) => with(|e| e.dag.div_c(a, y)),
        _ => fdivmod(a, m).0,
    }
}

fn v_div_floor(a: &V, b: &V) -> V {
    tick();
    let (a, b) = (&with(|e| e.pinned(a)), &with(|e| e.pinned(b)));
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x.div_floor(y));
    }
    let (neg, m) = divisor(b);
    let a = if neg { v_neg(a) } else { a.clone() };
    fdiv(&a, &m)
}
fn v_mod_floor(a: &V, b: &V) -> V {
    tick();
    let (a, b) = (&with(|e| e.pinned(a)), &with(|e| e.pinned(b)));
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x.mod_floor(y));
    }
    let (neg, m) = divisor(b);
    if neg {
        let r = fmod(&v_neg(a), &m);
        v_neg(&r)
    } else {
        fmod(a, &m)
    }
}
fn v_div(a: &V, b: &V) -> V {
    tick();
    let (a, b) = (&with(|e| e.pinned(a)), &with(|e| e.pinned(b)));
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x / y);
    }
    let (neg, m) = divisor(b);
    let aneg = is_neg(a);
    let abs = if aneg { v_neg(a) } else { a.clone() };
    let q = fdiv(&abs, &m);
    if neg != aneg {
        v_neg(&q)
    } else {
        q
    }
}
fn v_rem(a: &V, b: &V) -> V {
    tick();
    let (a, b) = (&with(|e| e.pinned(a)), &with(|e| e.pinned(b)));
    if let (V::C(x), V::C(y)) = (a, b) {
        return V::C(x % y);
    }
    let (_, m) = divisor(b);
    let aneg = is_neg(a);
    let abs = if aneg { v_neg(a) } else { a.clone() };
    let r = fmod(&abs, &m);
    if aneg {
        v_neg(&r)
    } else {
        r
    }
}
fn v_cmp(a: &V, b: &V) -> Ordering {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x.cmp(y);
    }
    let d = v_sub(a, b);
    if is_zero(&d) {
        Ordering::Equal
    } else if is_neg(&d) {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}
fn v_eq(a: &V, b: &V) -> bool {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x == y;
    }
    if a == b {
        return true;
    }
    let d = v_sub(a, b);
    is_zero(&d)
}
fn v_lt(a: &V, b: &V) -> bool {
    if let (V::C(x), V::C(y)) = (a, b) {
        return x < y;
    }
    let d = v_sub(a, b);
    is_neg(&d)
}
fn v_abs(a: &V) -> V {
    if is_neg(a) {
        v_neg(a)
    } else {
        a.clone()
    }
}
fn v_pow(a: &V, n: &U) -> V {
    tick();
    match a {
        V::C(z) => {
            let n = n.to_usize().unwrap_or_else(|| engine::abort("exponent too large"));
            V::C(num_traits::pow(z.clone(), n))
        }
        _ => match with(|e| e.pinned(a)) {
            V::C(z) => v_pow(&V::C(z), n),
            a => with(|e| e.dag.pow(&a, n)),
        },
    }
}

// ---- comparisons, hash, formatting -----------------------------------------------------------------
impl PartialEq for BigInt {
    fn eq(&self, o: &BigInt) -> bool {
        tick();
        v_eq(&self.0, &o.0)
    }
}
impl Eq for BigInt {}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &BigInt) -> bool {
        tick();
        v_lt(&self.0, &o.0)
    }
    fn gt(&self, o: &BigInt) -> bool {
        tick();
        v_lt(&o.0, &self.0)
    }
    fn le(&self, o: &BigInt) -> bool {
        tick();
        !v_lt(&o.0, &self.0)
    }
    fn ge(&self, o: &BigInt) -> bool {
        tick();
        !v_lt(&self.0, &o.0)
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        tick();
        v_cmp(&self.0, &o.0)
    }
}
impl Hash for BigInt {
    // equal values must hash alike, whatever their form
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u8.hash(h)
    }
}
impl Default for BigInt {
    fn default() -> BigInt {
        BigInt::zero()
    }
}

macro_rules! fmt_impl {
    ($t:ident) => {
        impl fmt::$t for BigInt {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                match &self.0 {
                    V::C(z) => fmt::$t::fmt(z, f),
                    V::N(_) => {
                        let z = self.get();
                        fmt::$t::fmt(&z, f)
                    }
                }
            }
        }
    };
}
fmt_impl!(Binary);
fmt_impl!(Octal);
fmt_impl!(LowerHex);
fmt_impl!(UpperHex);

impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            V::C(z) => fmt::Display::fmt(z, f),
            V::N(_) => {
                // the sign is part of the lexical structure; the digits are a token
                let neg = is_neg(&self.0);
                let m = if neg { v_neg(&self.0) } else { self.0.clone() };
                match m {
                    V::N(id) => f.pad_integral(!neg, "", &format!("\u{27e8}{}\u{27e9}", id)),
                    V::C(z) => f.pad_integral(!neg, "", &z.to_string()),
                }
            }
        }
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match &self.0 {
            V::C(z) => fmt::Debug::fmt(z, f),
            V::N(id) => write!(f, "\u{27e8}{}\u{27e9}", id),
        }
    }
}
impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<BigInt, ParseBigIntError> {
        Z::from_str(s).map(c)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<BigInt, ParseBigIntError> {
        Z::from_str_radix(s, r).map(c)
    }
}

// ---- operators --------------------------------------------------------------------------------------
macro_rules! binop {
    ($Tr:ident, $f:ident, $TrA:ident, $fa:ident, $v:ident; $($t:ty),*) => {
        impl $Tr<BigInt> for BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a> $Tr<&'a BigInt> for BigInt { type Output = BigInt; fn $f(self, o: &'a BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a> $Tr<BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl<'a, 'b> $Tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $f(self, o: &'b BigInt) -> BigInt { BigInt($v(&self.0, &o.0)) } }
        impl $TrA<BigInt> for BigInt { fn $fa(&mut self, o: BigInt) { self.0 = $v(&self.0, &o.0); } }
        impl<'a> $TrA<&'a BigInt> for BigInt { fn $fa(&mut self, o: &'a BigInt) { self.0 = $v(&self.0, &o.0); } }
        $(
            impl $Tr<$t> for BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { BigInt($v(&self.0, &V::C(Z::from(o)))) } }
            impl<'a> $Tr<&'a $t> for BigInt { type Output = BigInt; fn $f(self, o: &'a $t) -> BigInt { BigInt($v(&self.0, &V::C(Z::from(*o)))) } }
            impl<'a> $Tr<$t> for &'a BigInt { type Output = BigInt; fn $f(self, o: $t) -> BigInt { BigInt($v(&self.0, &V::C(Z::from(o)))) } }
            impl<'a, 'b> $Tr<&'b $t> for &'a BigInt { type Output = BigInt; fn $f(self, o: &'b $t) -> BigInt { BigInt($v(&self.0, &V::C(Z::from(*o)))) } }
            impl $Tr<BigInt> for $t { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&V::C(Z::from(self)), &o.0)) } }
            impl<'a> $Tr<&'a BigInt> for $t { type Output = BigInt; fn $f(self, o: &'a BigInt) -> BigInt { BigInt($v(&V::C(Z::from(self)), &o.0)) } }
            impl<'a> $Tr<BigInt> for &'a $t { type Output = BigInt; fn $f(self, o: BigInt) -> BigInt { BigInt($v(&V::C(Z::from(*self)), &o.0)) } }
            impl<'a, 'b> $Tr<&'b BigInt> for &'a $t { type Output = BigInt; fn $f(self, o: &'b BigInt) -> BigInt { BigInt($v(&V::C(Z::from(*self)), &o.0)) } }
            impl $TrA<$t> for BigInt { fn $fa(&mut self, o: $t) { self.0 = $v(&self.0, &V::C(Z::from(o))); } }
        )*
    };
}
binop!(Add, add, AddAssign, add_assign, v_add; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Sub, sub, SubAssign, sub_assign, v_sub; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Mul, mul, MulAssign, mul_assign, v_mul; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Div, div, DivAssign, div_assign, v_div; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
binop!(Rem, rem, RemAssign, rem_assign, v_rem; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

fn v_and(a: &V, b: &V) -> V {
    match (a, b) {
        (V::C(x), V::C(y)) => V::C(x & y),
        // x & (2^k - 1) is x mod 2^k
        (V::N(_), V::C(m)) | (V::C(m), V::N(_)) if m.is_positive() && (m & (m + Z::one())).is_zero() => {
            let x = if let V::N(_) = a { a } else { b };
            let md = m + Z::one();
            with(|e| e.dag.mod_c(x, &md))
        }
        _ => V::C(concretize(a) & concretize(b)),
    }
}
fn v_or(a: &V, b: &V) -> V {
    V::C(concretize(a) | concretize(b))
}
fn v_xor(a: &V, b: &V) -> V {
    V::C(concretize(a) ^ concretize(b))
}
binop!(BitAnd, bitand, BitAndAssign, bitand_assign, v_and;);
binop!(BitOr, bitor, BitOrAssign, bitor_assign, v_or;);
binop!(BitXor, bitxor, BitXorAssign, bitxor_assign, v_xor;);

fn v_shl(a: &V, n: usize) -> V {
    v_mul(a, &V::C(Z::one() << n))
}
fn v_shr(a: &V, n: usize) -> V {
    v_div_floor(a, &V::C(Z::one() << n))
}
impl Shl<usize> for BigInt { type Output = BigInt; fn shl(self, n: usize) -> BigInt { BigInt(v_shl(&self.0, n)) } }
impl<'a> Shl<usize> for &'a BigInt { type Output = BigInt; fn shl(self, n: usize) -> BigInt { BigInt(v_shl(&self.0, n)) } }
impl ShlAssign<usize> for BigInt { fn shl_assign(&mut self, n: usize) { self.0 = v_shl(&self.0, n); } }
impl Shr<usize> for BigInt { type Output = BigInt; fn shr(self, n: usize) -> BigInt { BigInt(v_shr(&self.0, n)) } }
impl<'a> Shr<usize> for &'a BigInt { type Output = BigInt; fn shr(self, n: usize) -> BigInt { BigInt(v_shr(&self.0, n)) } }
impl ShrAssign<usize> for BigInt { fn shr_assign(&mut self, n: usize) { self.0 = v_shr(&self.0, n); } }

impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { tick(); BigInt(v_neg(&self.0)) } }
impl<'a> Neg for &'a BigInt { type Output = BigInt; fn neg(self) -> BigInt { tick(); BigInt(v_neg(&self.0)) } }
impl Not for BigInt { type Output = BigInt; fn not(self) -> BigInt { BigInt(v_sub(&V::int(-1), &self.0)) } }
impl<'a> Not for &'a BigInt { type Output = BigInt; fn not(self) -> BigInt { BigInt(v_sub(&V::int(-1), &self.0)) } }

impl Zero for BigInt {
    fn zero() -> BigInt { c(Z::zero()) }
    fn is_zero(&self) -> bool { tick(); is_zero(&self.0) }
}
impl One for BigInt {
    fn one() -> BigInt { c(Z::one()) }
    fn is_one(&self) -> bool { tick(); v_eq(&self.0, &V::int(1)) }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt { tick(); BigInt(v_abs(&self.0)) }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if self <= o { BigInt::zero() } else { self - o }
    }
    fn signum(&self) -> BigInt {
        match self.sign() { Sign::Plus => BigInt::one(), Sign::Minus => -BigInt::one(), Sign::NoSign => BigInt::zero() }
    }
    fn is_positive(&self) -> bool { tick(); v_lt(&V::int(0), &self.0) }
    fn is_negative(&self) -> bool { tick(); is_neg(&self.0) }
}

macro_rules! pow_impl {
    ($($t:ty),*) => { $(
        impl<'a> Pow<$t> for &'a BigInt { type Output = BigInt; fn pow(self, n: $t) -> BigInt { BigInt(v_pow(&self.0, &U::from(n))) } }
        impl<'a, 'b> Pow<&'b $t> for &'a BigInt { type Output = BigInt; fn pow(self, n: &'b $t) -> BigInt { BigInt(v_pow(&self.0, &U::from(*n))) } }
    )* };
}
pow_impl!(u8, u16, u32, u64, usize, u128);

impl CheckedAdd for BigInt { fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) } }
impl CheckedSub for BigInt { fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) } }
impl CheckedMul for BigInt { fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) } }
impl CheckedDiv for BigInt {
    fn checked_div(&self, o: &BigInt) -> Option<BigInt> { if o.is_zero() { None } else { Some(self / o) } }
}

impl Integer for BigInt {
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) { (self / o, self % o) }
    fn div_floor(&self, o: &BigInt) -> BigInt { BigInt(v_div_floor(&self.0, &o.0)) }
    fn mod_floor(&self, o: &BigInt) -> BigInt { BigInt(v_mod_floor(&self.0, &o.0)) }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) { (self.div_floor(o), self.mod_floor(o)) }
    fn gcd(&self, o: &BigInt) -> BigInt {
        if let (V::C(x), V::C(y)) = (&self.0, &o.0) {
            return c(x.gcd(y));
        }
        let (mut a, mut b) = (v_abs(&self.0), v_abs(&o.0));
        while !is_zero(&b) {
            let r = v_mod_floor(&a, &b);
            a = b;
            b = r;
        }
        BigInt(a)
    }
    fn lcm(&self, o: &BigInt) -> BigInt {
        if self.is_zero() && o.is_zero() {
            return BigInt::zero();
        }
        (self * o.div_floor(&self.gcd(o))).abs()
    }
    fn divides(&self, o: &BigInt) -> bool { self.is_multiple_of(o) }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        if o.is_zero() {
            panic!("attempt to divide by zero");
        }
        (self % o).is_zero()
    }
    fn is_even(&self) -> bool { tick(); is_zero(&v_mod_floor(&self.0, &V::int(2))) }
    fn is_odd(&self) -> bool { !self.is_even() }
}
impl Roots for BigInt {
    fn nth_root(&self, n: u32) -> BigInt { c(self.get().nth_root(n)) }
    fn sqrt(&self) -> BigInt { c(self.get().sqrt()) }
    fn cbrt(&self) -> BigInt { c(self.get().cbrt()) }
}

/// a primitive conversion: out of range is one case, in range forks over the values
fn prim(v: &V, lo: Z, hi: Z) -> Option<Z> {
    if let V::C(z) = v {
        return Some(z.clone());
    }
    if v_lt(v, &V::C(lo.clone())) || v_lt(&V::C(hi.clone()), v) {
        return None;
    }
    if with(|e| e.few_values(v)) {
        return Some(concretize(v));
    }
    // many values: the ones where machine arithmetic goes wrong and a few small ones, then no further
    let (r, q) = (hi.sqrt(), hi.cbrt());
    let mut at: Vec<Z> = vec![hi.clone(), lo.clone(), &r + 1, &hi / 2 + 1, &lo / 2 - 1, -&r - 1, &q + 1, &hi / 3 + 1, -&q - 1, &hi - 1, &lo + 1];
    at.extend([i32::max_value(), i32::min_value(), 65537, -1, 0, 1, 2, 3, 5].iter().map(|i| Z::from(*i)));
    for z in at {
        if z >= lo && z <= hi && v_eq(v, &V::C(z.clone())) {
            return Some(z);
        }
    }
    abort("a machine conversion of a value with many possible ones: only a few of them were explored")
}
macro_rules! to_prim {
    ($($f:ident, $t:ident;)*) => { $(
        fn $f(&self) -> Option<$t> { prim(&self.0, Z::from($t::min_value()), Z::from($t::max_value())).and_then(|z| z.$f()) }
    )* };
}
impl ToPrimitive for BigInt {
    to_prim! { to_i8, i8; to_i16, i16; to_i32, i32; to_i64, i64; to_i128, i128; to_isize, isize;
               to_u8, u8; to_u16, u16; to_u32, u32; to_u64, u64; to_u128, u128; to_usize, usize; }
    fn to_f32(&self) -> Option<f32> { self.get().to_f32() }
    fn to_f64(&self) -> Option<f64> { self.get().to_f64() }
}
macro_rules! from_prim {
    ($($f:ident, $t:ident;)*) => { $( fn $f(n: $t) -> Option<BigInt> { Some(BigInt::from(n)) } )* };
}
impl FromPrimitive for BigInt {
    from_prim! { from_i8, i8; from_i16, i16; from_i32, i32; from_i64, i64; from_i128, i128; from_isize, isize;
                 from_u8, u8; from_u16, u16; from_u32, u32; from_u64, u64; from_u128, u128; from_usize, usize; }
    fn from_f64(n: f64) -> Option<BigInt> { Z::from_f64(n).map(c) }
    fn from_f32(n: f32) -> Option<BigInt> { Z::from_f32(n).map(c) }
}
macro_rules! from_impl {
    ($($t:ty),*) => { $(
        impl From<$t> for BigInt { fn from(n: $t) -> BigInt { c(Z::from(n)) } }
        impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(c(Z::from(*self))) } }
    )* };
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
from_impl!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
impl From<BigUint> for BigInt { fn from(n: BigUint) -> BigInt { c(Z::from(n)) } }
impl From<Z> for BigInt { fn from(n: Z) -> BigInt { c(n) } }
impl ToBigInt for BigInt { fn to_bigint(&self) -> Option<BigInt> { Some(self.clone()) } }
impl ToBigInt for BigUint { fn to_bigint(&self) -> Option<BigInt> { Some(c(Z::from(self.clone()))) } }
impl ToBigInt for f32 { fn to_bigint(&self) -> Option<BigInt> { BigInt::from_f32(*self) } }
impl ToBigInt for f64 { fn to_bigint(&self) -> Option<BigInt> { BigInt::from_f64(*self) } }
impl ToBigUint for BigInt {
    fn to_biguint(&self) -> Option<BigUint> {
        if self.is_negative() { None } else { self.get().to_biguint() }
    }
}

impl BigInt {
    pub fn new(s: Sign, d: Vec<u32>) -> BigInt { c(Z::new(s, d)) }
    pub fn from_biguint(s: Sign, d: BigUint) -> BigInt { c(Z::from_biguint(s, d)) }
    pub fn from_slice(s: Sign, d: &[u32]) -> BigInt { c(Z::from_slice(s, d)) }
    pub fn assign_from_slice(&mut self, s: Sign, d: &[u32]) { *self = BigInt::from_slice(s, d) }
    pub fn from_bytes_be(s: Sign, b: &[u8]) -> BigInt { c(Z::from_bytes_be(s, b)) }
    pub fn from_bytes_le(s: Sign, b: &[u8]) -> BigInt { c(Z::from_bytes_le(s, b)) }
    pub fn from_signed_bytes_be(b: &[u8]) -> BigInt { c(Z::from_signed_bytes_be(b)) }
    pub fn from_signed_bytes_le(b: &[u8]) -> BigInt { c(Z::from_signed_bytes_le(b)) }
    pub fn parse_bytes(b: &[u8], r: u32) -> Option<BigInt> { Z::parse_bytes(b, r).map(c) }
    pub fn from_radix_be(s: Sign, b: &[u8], r: u32) -> Option<BigInt> { Z::from_radix_be(s, b, r).map(c) }
    pub fn from_radix_le(s: Sign, b: &[u8], r: u32) -> Option<BigInt> { Z::from_radix_le(s, b, r).map(c) }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) { self.get().to_bytes_be() }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) { self.get().to_bytes_le() }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> { self.get().to_signed_bytes_be() }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> { self.get().to_signed_bytes_le() }
    pub fn to_str_radix(&self, r: u32) -> String {
        if r == 10 { format!("{}", self) } else { self.get().to_str_radix(r) }
    }
    pub fn to_radix_be(&self, r: u32) -> (Sign, Vec<u8>) { self.get().to_radix_be(r) }
    pub fn to_radix_le(&self, r: u32) -> (Sign, Vec<u8>) { self.get().to_radix_le(r) }
    pub fn sign(&self) -> Sign {
        if is_zero(&self.0) {
            Sign::NoSign
        } else if is_neg(&self.0) {
            Sign::Minus
        } else {
            Sign::Plus
        }
    }
    pub fn bits(&self) -> usize {
        if let V::C(z) = &self.0 {
            return z.bits();
        }
        let a = v_abs(&self.0);
        let mut n = 0;
        let mut p = Z::one();
        while !v_lt(&a, &V::C(p.clone())) {
            n += 1;
            p = p << 1;
            if n > 4096 {
                engine::abort("bits() of an unbounded value");
            }
        }
        n
    }
    pub fn to_biguint(&self) -> Option<BigUint> { ToBigUint::to_biguint(self) }
    pub fn checked_add(&self, o: &BigInt) -> Option<BigInt> { Some(self + o) }
    pub fn checked_sub(&self, o: &BigInt) -> Option<BigInt> { Some(self - o) }
    pub fn checked_mul(&self, o: &BigInt) -> Option<BigInt> { Some(self * o) }
    pub fn checked_div(&self, o: &BigInt) -> Option<BigInt> { CheckedDiv::checked_div(self, o) }
    pub fn modpow(&self, e: &Self, m: &Self) -> Self {
        if let (V::C(x), V::C(y), V::C(z)) = (&self.0, &e.0, &m.0) {
            return c(x.modpow(y, z));
        }
        if e.is_negative() {
            panic!("negative exponentiation is not supported!");
        }
        if m.is_zero() {
            panic!("divide by zero!");
        }
        if let V::C(y) = &e.0 {
            let u = y.to_biguint().unwrap();
            let p = BigInt(with(|g| match &self.0 { V::C(z) => g.dag.pow(&V::C(z.clone()), &u), v => g.dag.pow(v, &u) }));
            return p.mod_floor(m);
        }
        let (mut e, mut b) = (e.clone(), self.mod_floor(m));
        let mut r = BigInt::one().mod_floor(m);
        while !e.is_zero() {
            if e.is_odd() {
                r = (&r * &b).mod_floor(m);
            }
            b = (&b * &b).mod_floor(m);
            e = e / 2;
        }
        r
    }
    pub fn sqrt(&self) -> Self { Roots::sqrt(self) }
    pub fn cbrt(&self) -> Self { Roots::cbrt(self) }
    pub fn nth_root(&self, n: u32) -> Self { Roots::nth_root(self, n) }
}

impl<T> Sum<T> for BigInt where BigInt: Add<T, Output = BigInt> {
    fn sum<I: Iterator<Item = T>>(it: I) -> BigInt { it.fold(BigInt::zero(), |a, b| a + b) }
}
impl<T> Product<T> for BigInt where BigInt: Mul<T, Output = BigInt> {
    fn product<I: Iterator<Item = T>>(it: I) -> BigInt { it.fold(BigInt::one(), |a, b| a * b) }
}
