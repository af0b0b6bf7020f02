//! reference polynomials and builders; none of this uses /repo's arithmetic
use super::rt::*;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use ellipticcurve::term::{Monomial, Term};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};
use std::collections::BTreeMap;

pub fn b(n: i64) -> BigInt {
    BigInt::from(n)
}
pub fn big(s: &str) -> BigInt {
    BigInt::parse_bytes(s.as_bytes(), 10).unwrap()
}
pub fn m61() -> BigInt {
    big("2305843009213693951")
}
pub fn secp_p() -> BigInt {
    big("115792089237316195423570985008687907853269984665640564039457584007908834671663")
}

/// exponents of x, y, q and the subscripted variable
pub type Key = (i32, i32, i32, Option<(i32, i32)>);
pub type Ref = BTreeMap<Key, BigInt>;

pub fn mono(k: &Key) -> Monomial {
    Monomial {
        xpow: k.0,
        ypow: k.1,
        qpow: k.2,
        variable: match k.3 {
            None => SubscriptedVariable { i: 0, j: 0, empty: true },
            Some((i, j)) => SubscriptedVariable { i, j, empty: false },
        },
    }
}
pub fn key(m: &Monomial) -> Key {
    (m.xpow, m.ypow, m.qpow, if m.variable.empty { None } else { Some((m.variable.i, m.variable.j)) })
}
pub fn xk(x: i32) -> Key {
    (x, 0, 0, None)
}
pub fn xyk(x: i32, y: i32) -> Key {
    (x, y, 0, None)
}
pub fn qk(q: i32) -> Key {
    (0, 0, q, None)
}
pub fn term(k: &Key, c: &BigInt) -> Term {
    Term { coef: c.clone(), monomial: mono(k) }
}
/// the coefficients must be nonzero
pub fn pol(r: &Ref) -> Polynomial {
    let mut p = Polynomial::new();
    for (k, c) in r {
        p.terms.insert(mono(k), c.clone());
    }
    p
}
pub fn to_ref(p: &Polynomial) -> Ref {
    let mut r = Ref::new();
    for (m, c) in &p.terms {
        r.insert(key(m), c.clone());
    }
    r
}
/// canonical polynomial with arbitrary coefficients at the given monomials (zero: no such term)
pub fn any_ref(name: &str, keys: &[Key]) -> Ref {
    let mut r = Ref::new();
    for (i, k) in keys.iter().enumerate() {
        let c = int(&format!("{}{}", name, i));
        if !c.is_zero() {
            r.insert(*k, c);
        }
    }
    r
}
/// same, coefficients in -m..=m
pub fn small_ref(name: &str, keys: &[Key], m: i64) -> Ref {
    let mut r = Ref::new();
    for (i, k) in keys.iter().enumerate() {
        let c = int_in(&format!("{}{}", name, i), &b(-m), &b(m));
        if !c.is_zero() {
            r.insert(*k, c);
        }
    }
    r
}
/// same as any_ref, every coefficient nonzero
pub fn nz_ref(name: &str, keys: &[Key]) -> Ref {
    let mut r = Ref::new();
    for (i, k) in keys.iter().enumerate() {
        let c = int(&format!("{}{}", name, i));
        assume(!c.is_zero());
        r.insert(*k, c);
    }
    r
}
/// univariate in x, coefficients arbitrary in [0, p) with the leading one nonzero
pub fn mod_ref(name: &str, deg: i32, p: i64) -> Ref {
    let mut r = Ref::new();
    for i in 0..=deg {
        let c = int_in(&format!("{}{}", name, i), &b(0), &b(p - 1));
        if i == deg {
            assume(!c.is_zero());
        }
        if !c.is_zero() {
            r.insert(xk(i), c);
        }
    }
    r
}
pub fn radd(a: &Ref, c: &Ref) -> Ref {
    let mut r = a.clone();
    for (k, v) in c {
        let w = r.remove(k).unwrap_or_else(BigInt::zero);
        r.insert(*k, w + v);
    }
    r
}
pub fn rscale(a: &Ref, s: &BigInt) -> Ref {
    a.iter().map(|(k, v)| (*k, v * s)).collect()
}
pub fn rneg(a: &Ref) -> Ref {
    rscale(a, &b(-1))
}
pub fn rsub(a: &Ref, c: &Ref) -> Ref {
    radd(a, &rneg(c))
}
pub fn kmul(i: &Key, j: &Key) -> Key {
    (i.0 + j.0, i.1 + j.1, i.2 + j.2, if i.3.is_some() { i.3 } else { j.3 })
}
pub fn rmul(a: &Ref, c: &Ref) -> Ref {
    let mut r = Ref::new();
    for (i, v) in a {
        for (j, w) in c {
            let k = kmul(i, j);
            let s = r.remove(&k).unwrap_or_else(BigInt::zero);
            r.insert(k, s + v * w);
        }
    }
    r
}
pub fn rone() -> Ref {
    let mut r = Ref::new();
    r.insert(xk(0), BigInt::one());
    r
}
pub fn rpow(a: &Ref, n: u32) -> Ref {
    let mut r = rone();
    for _ in 0..n {
        r = rmul(&r, a);
    }
    r
}
pub fn rmod(a: &Ref, p: &BigInt) -> Ref {
    a.iter().map(|(k, v)| (*k, v.mod_floor(p))).collect()
}
pub fn rcoef(a: &Ref, k: &Key) -> BigInt {
    a.get(k).cloned().unwrap_or_else(BigInt::zero)
}
/// drop the coefficients that are zero
pub fn rtrim(a: &Ref) -> Ref {
    a.iter().filter(|(_, v)| !v.is_zero()).map(|(k, v)| (*k, v.clone())).collect()
}
/// same polynomial function, coefficient by coefficient
pub fn same(p: &Polynomial, r: &Ref, msg: &str) {
    let s = to_ref(p);
    for k in s.keys().chain(r.keys()) {
        check(rcoef(&s, k) == rcoef(r, k), msg);
    }
}
/// coefficients agree modulo p
pub fn same_mod(p: &Polynomial, r: &Ref, m: &BigInt, msg: &str) {
    let s = to_ref(p);
    for k in s.keys().chain(r.keys()) {
        check((rcoef(&s, k) - rcoef(r, k)).mod_floor(m).is_zero(), msg);
    }
}
pub fn canonical(p: &Polynomial, msg: &str) {
    for (_, c) in &p.terms {
        check(!c.is_zero(), msg);
    }
}
pub fn ipow(x: &BigInt, n: u32) -> BigInt {
    let mut r = b(1);
    for _ in 0..n {
        r = r * x;
    }
    r
}
pub fn in_range(c: &BigInt, p: &BigInt) -> bool {
    c >= &b(0) && c < p
}
/// v as a constant: forks over its values in lo..=hi
pub fn settle(_name: &str, lo: i64, hi: i64, v: &BigInt) -> BigInt {
    for k in lo..=hi {
        if *v == b(k) {
            return b(k);
        }
    }
    assume(false);
    b(0)
}
