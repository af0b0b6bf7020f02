//! Symbolic stand-in for num-bigint 0.2.x (see Cargo.toml).  `BigInt` has the same API surface;
//! its values are concrete integers or nodes of a symbolic DAG.
pub use real_bigint::{BigUint, ParseBigIntError, Sign, ToBigUint};

pub type Z = real_bigint::BigInt;
pub type U = real_bigint::BigUint;

pub mod engine;
pub mod expr;
mod fd;
mod table;
pub mod field;
pub mod solver;
mod surface;

pub use surface::{BigInt, ToBigInt};

/// harness side of the stand-in
pub mod sym {
    pub use crate::engine::{active, assume, check, cover, explore, note_problem, panics, Config, Report, Violation, CURRENT, HEARTBEAT};
    use crate::surface::BigInt;
    use crate::Z;

    pub fn z(s: &str) -> Z {
        Z::parse_bytes(s.as_bytes(), 10).expect("integer")
    }
    pub fn int(name: &str) -> BigInt {
        BigInt::from_v(crate::engine::new_var(name, None, None))
    }
    pub fn int_range(name: &str, lo: Option<&BigInt>, hi: Option<&BigInt>) -> BigInt {
        let c = |b: Option<&BigInt>| b.map(|b| b.concrete().expect("bounds of an input must be concrete").clone());
        BigInt::from_v(crate::engine::new_var(name, c(lo), c(hi)))
    }
    pub fn concretize(b: &BigInt) -> BigInt {
        BigInt::from(crate::engine::concretize(b.v()))
    }
    pub fn is_symbolic(b: &BigInt) -> bool {
        b.concrete().is_none()
    }
    /// the integer a rendered token stands for
    pub fn parse_token(s: &str) -> Option<BigInt> {
        if let Some(r) = s.strip_prefix('\u{27e8}') {
            let r = r.strip_suffix('\u{27e9}')?;
            return Some(BigInt::from_v(crate::expr::V::N(r.parse().ok()?)));
        }
        Z::parse_bytes(s.as_bytes(), 10).map(BigInt::from)
    }
    /// y^2 = f modulo the prime p from here on, p = 3 mod 4; y an input
    pub fn assume_square(y: &BigInt, f: &BigInt, p: &BigInt) {
        crate::engine::assume_square(y.v(), f.v(), p.concrete().expect("concrete modulus"))
    }
    /// v is not zero modulo p (0: as an integer) from here on
    pub fn assume_nonzero(v: &BigInt, p: &BigInt) {
        crate::engine::assume_nonzero(v.v(), p.concrete().expect("concrete modulus"))
    }
    /// from here on every equation that is not forced is taken to fail
    pub fn generic(on: bool) {
        crate::engine::with(|e| e.generic = on)
    }
    pub fn tables(on: bool) {
        crate::engine::with(|e| e.dag.tables.on = on)
    }
    pub fn pinning(on: bool) {
        crate::engine::with(|e| e.pinning = on)
    }
    pub fn show(b: &BigInt) -> String {
        crate::engine::with(|e| e.show(b.v(), 8))
    }
}
