//! harness runtime, native side: inputs come from a counterexample (or witness) file
use num_bigint::BigInt;
use num_traits::Zero;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub const SYMBOLIC: bool = false;

pub enum Outcome {
    Assume,
    Skip,
    Violation(String),
}

thread_local! {
    pub static MODEL: RefCell<BTreeMap<String, BigInt>> = RefCell::new(BTreeMap::new());
    pub static COVERS: RefCell<BTreeSet<String>> = RefCell::new(BTreeSet::new());
    pub static CHECKS: RefCell<u64> = RefCell::new(0);
}

fn lookup(name: &str) -> Option<BigInt> {
    MODEL.with(|m| m.borrow().get(name).cloned())
}
pub fn int(name: &str) -> BigInt {
    lookup(name).unwrap_or_else(BigInt::zero)
}
pub fn int_ge(name: &str, lo: i64) -> BigInt {
    let lo = BigInt::from(lo);
    let v = lookup(name).unwrap_or_else(|| lo.clone());
    assume(v >= lo);
    v
}
pub fn int_in(name: &str, lo: &BigInt, hi: &BigInt) -> BigInt {
    let v = lookup(name).unwrap_or_else(|| lo.clone());
    assume(&v >= lo && &v <= hi);
    v
}
pub fn choose(name: &str, n: usize) -> usize {
    use num_traits::ToPrimitive;
    int_in(name, &BigInt::from(0), &BigInt::from(n as u64 - 1)).to_usize().unwrap()
}
pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Outcome::Assume);
    }
}
/// the native run would need numbers beyond any memory
pub fn not_native_if(b: bool) {
    if b {
        std::panic::panic_any(Outcome::Skip);
    }
}
pub fn check(b: bool, msg: &str) {
    CHECKS.with(|c| *c.borrow_mut() += 1);
    if !b {
        std::panic::panic_any(Outcome::Violation(msg.to_string()));
    }
}
pub fn cover(label: &str) {
    COVERS.with(|c| {
        c.borrow_mut().insert(label.to_string());
    });
}
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(_) => false,
        Err(p) => {
            if p.is::<Outcome>() {
                std::panic::resume_unwind(p)
            }
            true
        }
    }
}
pub fn parse_int(s: &str) -> Option<BigInt> {
    BigInt::parse_bytes(s.as_bytes(), 10)
}
pub fn is_number_char(c: char) -> bool {
    c.is_ascii_digit()
}

pub fn assume_square(y: &BigInt, f: &BigInt, p: &BigInt) {
    use num_integer::Integer;
    assume((y * y - f).mod_floor(p).is_zero())
}

pub fn assume_nonzero(v: &BigInt, p: &BigInt) {
    use num_integer::Integer;
    assume(if p.is_zero() { !v.is_zero() } else { !v.mod_floor(p).is_zero() })
}

pub fn generic(_on: bool) {}

pub fn propagate(_on: bool) {}

pub fn tables(_on: bool) {}
