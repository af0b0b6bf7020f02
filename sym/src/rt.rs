//! harness runtime, symbolic side
use num_bigint::{sym, BigInt};

pub const SYMBOLIC: bool = true;

pub fn int(name: &str) -> BigInt {
    sym::int(name)
}
pub fn int_ge(name: &str, lo: i64) -> BigInt {
    sym::int_range(name, Some(&BigInt::from(lo)), None)
}
pub fn int_in(name: &str, lo: &BigInt, hi: &BigInt) -> BigInt {
    sym::int_range(name, Some(lo), Some(hi))
}
/// one of 0..n, every one explored
pub fn choose(name: &str, n: usize) -> usize {
    use num_traits::ToPrimitive;
    let v = sym::int_range(name, Some(&BigInt::from(0)), Some(&BigInt::from(n as u64 - 1)));
    sym::concretize(&v).to_usize().unwrap()
}
pub fn assume(b: bool) {
    sym::assume(b)
}
/// symbolically there is no such limit
pub fn not_native_if(_b: bool) {}
pub fn check(b: bool, msg: &str) {
    sym::check(b, msg)
}
pub fn cover(label: &str) {
    sym::cover(label)
}
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    sym::panics(f).is_err()
}
pub fn parse_int(s: &str) -> Option<BigInt> {
    sym::parse_token(s)
}
/// a number token of rendered text: decimal digits or a symbolic token
pub fn is_number_char(c: char) -> bool {
    c.is_ascii_digit() || c == '\u{27e8}' || c == '\u{27e9}'
}

/// restricts the path to y^2 = f (mod p); p a prime, 3 mod 4; y an input
pub fn assume_square(y: &BigInt, f: &BigInt, p: &BigInt) {
    sym::assume_square(y, f, p)
}

/// restricts the path to v != 0 modulo p (p = 0: as an integer)
pub fn assume_nonzero(v: &BigInt, p: &BigInt) {
    sym::assume_nonzero(v, p)
}

/// equations between symbolic values that are not forced are taken to fail from here on, without
/// a look at the other side (the report lists what was set aside)
pub fn generic(on: bool) {
    sym::generic(on)
}

/// inputs that the solver finds to have a single value left become constants from there on
pub fn propagate(on: bool) {
    sym::pinning(on)
}

/// conditions on inputs with small ranges go to the solver as truth tables over those ranges
pub fn tables(on: bool) {
    sym::tables(on)
}
