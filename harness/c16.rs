//! C16 division polynomials
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::division_polynomial::{omega, phi, psi};
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::Zero;

/// y^2 replaced by x^3 + a x + c, in the harness's own arithmetic
fn on_curve(r: &Ref, a: &BigInt, c: &BigInt) -> Ref {
    let mut f = Ref::new();
    f.insert(xk(3), b(1));
    f.insert(xk(1), a.clone());
    f.insert(xk(0), c.clone());
    let mut out = Ref::new();
    for (k, v) in r {
        let mut t = Ref::new();
        t.insert((k.0, k.1 % 2, k.2, k.3), v.clone());
        out = radd(&out, &rmul(&t, &rpow(&f, (k.1 / 2) as u32)));
    }
    out
}
fn none(r: &Ref, msg: &str) {
    for v in r.values() {
        check(v.is_zero(), msg);
    }
}
fn value(r: &Ref, x: &BigInt, y: &BigInt) -> BigInt {
    let mut s = b(0);
    for (k, v) in r {
        check(k.2 == 0 && k.3.is_none() && k.0 >= 0 && k.1 >= 0, "a polynomial in x and y");
        s = s + v * ipow(x, k.0 as u32) * ipow(y, k.1 as u32);
    }
    s
}
fn zero_mod(v: BigInt, p: &BigInt) -> bool {
    v.mod_floor(p).is_zero()
}

/// psi_0..psi_4 as published
fn published(n: i32, a: &BigInt, c: &BigInt) -> Ref {
    let mut r = Ref::new();
    let two = |v: &BigInt| v * v;
    match n {
        0 => {}
        1 => {
            r.insert(xk(0), b(1));
        }
        2 => {
            r.insert(xyk(0, 1), b(2));
        }
        3 => {
            r.insert(xk(4), b(3));
            r.insert(xk(2), b(6) * a);
            r.insert(xk(1), b(12) * c);
            r.insert(xk(0), b(0) - two(a));
        }
        _ => {
            r.insert(xyk(6, 1), b(4));
            r.insert(xyk(4, 1), b(20) * a);
            r.insert(xyk(3, 1), b(80) * c);
            r.insert(xyk(2, 1), b(-20) * two(a));
            r.insert(xyk(1, 1), b(-16) * a * c);
            r.insert(xyk(0, 1), b(-32) * two(c) - b(4) * a * two(a));
        }
    }
    r
}

fn fold(ec: &EllipticCurve, q: &ECPoint, n: i32) -> ECPoint {
    let mut r = ECPoint { x: b(0), y: b(1), z: b(0) };
    for _ in 0..n {
        r = ec.plus(&r, q);
    }
    r
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    let range = 12i64;
    v.push(
        Case::new("C16", "published", "psi_0..psi_4, a and b in -12..=12", move || {
            let (a, c) = (int_in("a", &b(-range), &b(range)), int_in("b", &b(-range), &b(range)));
            for n in 0..=4 {
                let q = psi(&a, &c, n);
                let d = on_curve(&rsub(&to_ref(&q), &published(n, &a, &c)), &a, &c);
                none(&d, "psi_0..psi_4");
                canonical(&q, "no zero terms");
            }
        })
        .cost(5)
        .fns(&["division_polynomial::psi"]),
    );
    let bound = |gen: bool| {
        if gen {
            "all integers a, b except zeros of the coefficients met (listed in the evidence)".to_string()
        } else {
            format!("a and b in -{}..={}, whatever vanishes", range, range)
        }
    };
    let curve = move |gen: bool| {
        let r = if gen { (int("a"), int("b")) } else { (int_in("a", &b(-range), &b(range)), int_in("b", &b(-range), &b(range))) };
        generic(gen);
        r
    };
    for (top, gen, thorough) in [(5, false, false), (6, false, false), (7, false, true), (6, true, false), (7, true, false), (8, true, false), (9, true, false), (10, true, false), (11, true, false), (12, true, false), (13, true, true), (14, true, true), (15, true, true), (16, true, true)] {
        let c = Case::new("C16", &format!("recurrence_{}{}", top, if gen { "_generic" } else { "" }), &format!("psi_{} against psi_0..psi_{}, {}", top, top - 1, bound(gen)), move || {
            let (a, c) = curve(gen);
            let s: Vec<Ref> = (0..=top).map(|n| to_ref(&psi(&a, &c, n))).collect();
            let m = |i: &Ref, j: &Ref| on_curve(&rmul(i, j), &a, &c);
            generic(false);
            // psi_{m+n} psi_{m-n} = psi_{m+1} psi_{m-1} psi_n^2 - psi_{n+1} psi_{n-1} psi_m^2
            for n in 1..top {
                let k = top - n;
                if k < n {
                    continue;
                }
                let (k, n) = (k as usize, n as usize);
                let left = m(&s[k + n], &s[k - n]);
                let r1 = m(&m(&s[k + 1], &s[k - 1]), &m(&s[n], &s[n]));
                let r2 = m(&m(&s[n + 1], &s[n - 1]), &m(&s[k], &s[k]));
                none(&rsub(&left, &rsub(&r1, &r2)), "the divisibility recurrence");
            }
            // degree and leading coefficient
            let n = top as i64;
            let (deg, y) = if n % 2 == 1 { ((n * n - 1) / 2, 0) } else { ((n * n - 4) / 2, 1) };
            let last = &s[top as usize];
            check(rcoef(last, &xyk(deg as i32, y)) == b(n), "leading coefficient n");
            for k in last.keys() {
                check(k.1 == y && (k.0 as i64) <= deg, "in x, or y times a polynomial in x, of the right degree");
            }
        })
        .cost(60)
        .fuel(20_000_000)
        .fns(&["division_polynomial::psi"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (n, gen, thorough) in [(1, false, false), (2, false, false), (3, false, false), (2, true, false), (3, true, false), (4, true, false), (5, true, false), (6, true, false), (7, true, false), (8, true, true), (9, true, true), (10, true, true)] {
        let c = Case::new("C16", &format!("coordinates_{}{}", n, if gen { "_generic" } else { "" }), &format!("phi_{}, omega_{}, psi_{}; {}", n, n, n, bound(gen)), move || {
            let (a, c) = curve(gen);
            let (f, w, s) = (to_ref(&phi(&a, &c, n)), to_ref(&omega(&a, &c, n)), to_ref(&psi(&a, &c, n)));
            let (up, down) = (to_ref(&psi(&a, &c, n + 1)), to_ref(&psi(&a, &c, n - 1)));
            generic(false);
            let m = |i: &Ref, j: &Ref| on_curve(&rmul(i, j), &a, &c);
            let s2 = m(&s, &s);
            let s4 = m(&s2, &s2);
            let f2 = m(&f, &f);
            let right = radd(&m(&f2, &f), &radd(&rscale(&m(&f, &s4), &a), &rscale(&m(&s4, &s2), &c)));
            none(&rsub(&m(&w, &w), &right), "omega^2 = phi^3 + a phi psi^4 + b psi^6");
            // phi = x psi^2 - psi_{n+1} psi_{n-1}
            let mut x = Ref::new();
            x.insert(xk(1), b(1));
            none(&rsub(&f, &rsub(&m(&x, &s2), &m(&up, &down))), "phi = x psi_n^2 - psi_{n+1} psi_{n-1}");
            for k in f.keys() {
                check(k.1 == 0 && k.0 <= n * n, "phi is a polynomial in x of degree n^2");
            }
            check(rcoef(&f, &xk(n * n)) == b(1), "monic");
        })
        .cost(60)
        .fuel(20_000_000)
        .fns(&["division_polynomial::phi, omega, psi"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, top, thorough) in [(5i64, 4i32, false), (7, 3, false), (11, 3, false), (5, 6, true), (7, 5, true), (11, 4, true)] {
        let c = Case::new("C16", &format!("points_mod{}_{}", p, top), &format!("every nonsingular curve over F_{} and point of it, n = 1..={}", p, top), move || {
            let m = b(p);
            let a = int_in("a", &b(0), &b(p - 1));
            let c = int_in("b", &b(0), &b(p - 1));
            assume(!zero_mod(b(4) * &a * &a * &a + b(27) * &c * &c, &m));
            let (x, y) = (int_in("x", &b(0), &b(p - 1)), int_in("y", &b(0), &b(p - 1)));
            assume(zero_mod(&y * &y - (&x * &x * &x + &a * &x + &c), &m));
            let ec = EllipticCurve::new_raw(&a, &c, &m);
            let q = ECPoint { x: x.clone(), y: y.clone(), z: b(1) };
            let n = choose("n", top as usize) as i32 + 1;
            let r = fold(&ec, &q, n);
            let s = value(&to_ref(&psi(&a, &c, n)), &x, &y);
            check(zero_mod(s.clone(), &m) == r.z.is_zero(), "psi vanishes exactly where n P is the identity");
            if r.z.is_zero() {
                cover("identity");
            } else {
                let s2 = &s * &s;
                let f = value(&to_ref(&phi(&a, &c, n)), &x, &y);
                check(zero_mod(&r.x * &s2 - f, &m), "x of n P = phi / psi^2");
                let w = value(&to_ref(&omega(&a, &c, n)), &x, &y);
                check(zero_mod(&r.y * &s2 * &s - w, &m), "y of n P = omega / psi^3");
                cover("finite");
            }
        })
        .tables()
        .covers(&["identity", "finite"])
        .cost(60)
        .fuel(20_000_000)
        .fns(&["division_polynomial::psi, phi, omega", "EllipticCurve::plus"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (pn, p, top) in [("m61", m61(), 5), ("secp256k1", secp_p(), 4)] {
        v.push(
            Case::new("C16", &format!("points_{}_{}", pn, top), &format!("any curve modulo {} through any point in general position, n = 1..={}", p, top), move || {
                let t = &p - b(1);
                let (x, y, a) = (int_in("x", &b(1), &t), int_in("y", &b(1), &t), int_in("a", &b(1), &t));
                let c = &y * &y - &x * &x * &x - &a * &x;
                assume_nonzero(&c, &b(0));
                let ec = EllipticCurve::new_raw(&a, &c, &p);
                generic(true);
                let q = ECPoint { x: x.clone(), y: y.clone(), z: b(1) };
                let mut r = q.clone();
                for n in 1..=top {
                    if n > 1 {
                        if n > 2 {
                            assume_nonzero(&(&r.x - &x), &p);
                        }
                        r = ec.plus(&r, &q);
                    }
                    let s = value(&to_ref(&psi(&a, &c, n)), &x, &y);
                    let s2 = &s * &s;
                    let f = value(&to_ref(&phi(&a, &c, n)), &x, &y);
                    check(zero_mod(&r.x * &s2 - f, &p), "x of n P = phi / psi^2");
                    let w = value(&to_ref(&omega(&a, &c, n)), &x, &y);
                    check(zero_mod(&r.y * &s2 * &s - w, &p), "y of n P = omega / psi^3");
                }
            })
            .cost(60)
            .fuel(20_000_000)
            .fns(&["division_polynomial::psi, phi, omega", "EllipticCurve::plus"]),
        );
    }
    v
}
