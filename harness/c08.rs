//! C08 powers, C09 coefficient reduction, C10 remainder, C11 gcd
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::bigint::Power;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::Zero;

/// degree in x modulo p of the part with y^j, None if it vanishes
fn deg_mod(a: &Ref, j: i32, p: &BigInt) -> Option<i32> {
    let mut best = None;
    for (k, c) in a {
        if k.1 == j && !c.mod_floor(p).is_zero() {
            if best.is_none() || best.unwrap() < k.0 {
                best = Some(k.0);
            }
        }
    }
    best
}

/// lead(d)^e * a - (multiple of d), of degree below deg d, modulo p; d in x only
fn pseudo_rem(a: &Ref, d: &Ref, p: &BigInt) -> Ref {
    let n = deg_mod(d, 0, p).expect("nonzero divisor");
    let lead = rcoef(d, &xk(n));
    let mut r = rmod(a, p);
    loop {
        // any term of x-degree >= n
        let top = r.keys().rev().find(|k| k.0 >= n).cloned();
        let k = match top {
            None => return r,
            Some(k) => k,
        };
        let c = rcoef(&r, &k);
        let mut shifted = Ref::new();
        for (m, v) in d {
            if m.0 > n {
                continue; // vanishes modulo p
            }
            shifted.insert((m.0 + k.0 - n, k.1, k.2, k.3), v * &c);
        }
        r = rmod(&rsub(&rscale(&r, &lead), &shifted), p);
        r.remove(&k);
    }
}

fn divides(d: &Ref, a: &Ref, p: &BigInt, msg: &str) {
    for (_, c) in pseudo_rem(a, d, p) {
        check(c.mod_floor(p).is_zero(), msg);
    }
}

fn uni(name: &str, deg: i32, lo: i64, hi: i64) -> Ref {
    let mut r = Ref::new();
    for i in 0..=deg {
        let c = int_in(&format!("{}{}", name, i), &b(lo), &b(hi));
        if !c.is_zero() {
            r.insert(xk(i), c);
        }
    }
    r
}

fn reduced(p: &Polynomial, m: &BigInt, msg: &str) {
    for (_, c) in &p.terms {
        check(in_range(c, m), msg);
        check(!c.is_zero(), msg);
    }
}

/// the remainder of dividing a by d modulo p
fn remainder(a: &Ref, d: &Ref, p: &BigInt) {
    let n = deg_mod(d, 0, p);
    assume(n.is_some());
    let n = n.unwrap();
    let r = pol(a).polynomial_modular(&pol(d), p);
    reduced(&r, p, "remainder has coefficients in (0, p)");
    for (k, _) in to_ref(&r) {
        check(k.0 < n || (n == 0 && k.0 == 0 && false), "degree below the divisor's");
    }
    divides(d, &rsub(a, &to_ref(&r)), p, "dividend - remainder is a multiple of the divisor");
    cover(if r.is_zero() { "zero remainder" } else { "nonzero remainder" });
}

fn gcd_props(a: &Ref, c: &Ref, p: &BigInt) {
    let g = pol(a).gcd(&pol(c), p);
    let gr = to_ref(&g);
    reduced(&g, p, "gcd has coefficients in (0, p)");
    let az = deg_mod(a, 0, p).is_none();
    let cz = deg_mod(c, 0, p).is_none();
    if az && cz {
        check(g.is_zero(), "gcd(0, 0) = 0");
        return;
    }
    check(!g.is_zero(), "gcd is not zero");
    let n = deg_mod(&gr, 0, p).unwrap_or(0);
    check(rcoef(&gr, &xk(n)) == b(1), "gcd is monic");
    divides(&gr, a, p, "gcd divides the first operand");
    divides(&gr, c, p, "gcd divides the second operand");
    let one = pol(a).is_gcd_one(&pol(c), p);
    check(one == (n == 0), "is_gcd_one exactly when the gcd is constant");
    cover(if n == 0 { "coprime" } else { "common factor" });
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    // ---- C08
    for (name, keys, top) in [
        ("x", vec![xk(0), xk(1)], 9usize),
        ("xy", vec![xk(1), xyk(0, 1), xk(0)], 6),
        ("sparse", vec![xk(7), (2, 1, 0, None)], 7),
        ("q", vec![qk(0), qk(-1), qk(1)], 5),
    ] {
        let k2 = keys.clone();
        let range = if name == "q" { "coefficients in -6..=6" } else { "any integer coefficients" };
        v.push(
            Case::new("C08", &format!("power_{}", name), &format!("{} of {} monomials; every exponent 0..={}", range, keys.len(), top), move || {
                let a = if name == "q" { small_ref("a", &k2, 6) } else { any_ref("a", &k2) };
                let n = choose("n", top + 1) as i64;
                let p = pol(&a);
                let want = rpow(&a, n as u32);
                let x: Polynomial = p.power(n as i32);
                same(&x, &want, "power(i32)");
                let x: Polynomial = p.power(b(n));
                same(&x, &want, "power(BigInt)");
                let x: Polynomial = p.power(&b(n));
                same(&x, &want, "power(&BigInt)");
                if n == 2 {
                    same(&p.square(), &want, "square");
                }
                if n == 3 {
                    same(&p.cube(), &want, "cube");
                }
            })
            .cost(4)
            .fns(&["Power<i32>, Power<BigInt>, Power<&BigInt> for Polynomial", "Polynomial::square, cube"]),
        );
        let k2 = keys.clone();
        v.push(
            Case::new("C08", &format!("power_modulo_{}", name), if k2.len() == 2 { "coefficients in -9..=9; every exponent 0..=6; moduli 1, 2, 3, 4, 7, 97, 2^61-1" } else { "coefficients in -9..=9; every exponent 0..=5; moduli 1, 2, 3, 4, 7" }, move || {
                let a = small_ref("a", &k2, 9);
                let two = k2.len() == 2;
                let n = choose("n", if two { 7 } else { 6 }) as u32;
                let p = [b(1), b(2), b(3), b(4), b(7), b(97), m61()][choose("p", if two { 7 } else { 5 })].clone();
                let r = pol(&a).power_modulo(&b(n as i64), &p);
                same_mod(&r, &rpow(&a, n), &p, "power modulo p");
                reduced(&r, &p, "coefficients in (0, p)");
            })
            .cost(8)
            .fns(&["Polynomial::power_modulo", "Polynomial % &BigInt, modular_assign"]),
        );
    }
    v.push(
        Case::new("C08", "symbolic_exponent", "any integer coefficients of two monomials; symbolic exponent 0..=8", || {
            let a = nz_ref("a", &[xk(0), xk(1)]);
            let n = int_in("n", &b(0), &b(8));
            let x: Polynomial = pol(&a).power(&n);
            let y: Polynomial = pol(&a).power(n.clone());
            let mut k = 0;
            while b(k) != n {
                k += 1;
            }
            same(&x, &rpow(&a, k as u32), "power(&BigInt)");
            same(&y, &rpow(&a, k as u32), "power(BigInt)");
        })
        .cost(3)
        .fns(&["Power<BigInt>, Power<&BigInt> for Polynomial"]),
    );
    v.push(
        Case::new("C08", "power_high", "1 + c x and c + x y for any integer c; exponents 10..=40", || {
            let c = int("c");
            let n = 10 + choose("n", 31) as u32;
            let mut a = Ref::new();
            let swap = choose("s", 2) == 1;
            a.insert(if swap { xyk(1, 1) } else { xk(0) }, b(1));
            if !c.is_zero() {
                a.insert(if swap { xk(0) } else { xk(1) }, c);
            }
            let want = rpow(&a, n);
            let p = pol(&a);
            let x: Polynomial = p.power(n as i32);
            same(&x, &want, "power(i32)");
            let x: Polynomial = p.power(b(n as i64));
            same(&x, &want, "power(BigInt)");
        })
        .cost(8)
        .fns(&["Power<i32>, Power<BigInt> for Polynomial"]),
    );
    v.push(
        Case::new("C08", "power_modulo_high", "1 + c x for every c in -9..=9; exponents 7..=34; moduli 2, 3, 5, 7", || {
            let c = int_in("c", &b(-9), &b(9));
            let n = 7 + choose("n", 28) as u32;
            let m = b([2, 3, 5, 7][choose("p", 4)]);
            let mut a = Ref::new();
            a.insert(xk(0), b(1));
            if !c.is_zero() {
                a.insert(xk(1), c);
            }
            let r = pol(&a).power_modulo(&b(n as i64), &m);
            same_mod(&r, &rpow(&a, n), &m, "power modulo p");
            reduced(&r, &m, "coefficients in (0, p)");
        })
        .cost(8)
        .fns(&["Polynomial::power_modulo"]),
    );
    v.push(
        Case::new("C08", "monomial_high", "the one-term polynomial and the term c x y^2 for any nonzero integer c; exponents 2^k + d, k in 5..=13, d in -1, 0, 1", || {
            let c = int("c");
            assume(!c.is_zero());
            let n = (1i64 << (5 + choose("k", 9))) + choose("d", 3) as i64 - 1;
            let mut a = Ref::new();
            a.insert(xyk(1, 2), c.clone());
            let mut want = Ref::new();
            want.insert(xyk(n as i32, 2 * n as i32), ipow(&c, n as u32));
            let x: Polynomial = pol(&a).power(n as i32);
            same(&x, &want, "power(i32)");
            let x: Polynomial = pol(&a).power(&b(n));
            same(&x, &want, "power(&BigInt)");
            for m in [b(2), b(7), m61()] {
                let r = pol(&a).power_modulo(&b(n), &m);
                same_mod(&r, &want, &m, "power modulo p");
                reduced(&r, &m, "coefficients in (0, p)");
            }
        })
        .cost(8)
        .fns(&["Power<i32>, Power<&BigInt> for Polynomial", "Polynomial::power_modulo"]),
    );
    v.push(
        Case::new("C08", "negative_exponent", "negative exponents are refused", || {
            let p = pol(&nz_ref("a", &[xk(0), xk(1)]));
            let n = int_in("n", &b(-9), &b(-1));
            check(
                panics(|| {
                    let r: Polynomial = p.power(&n);
                    r
                }),
                "refused",
            );
            check(panics(|| p.power_modulo(&n, &b(5))), "refused by the modular power");
        })
        .fns(&["Power<&BigInt> for Polynomial", "Polynomial::power_modulo"]),
    );
    v.push(
        Case::new("C08", "power_omit", "coefficients in -6..=6 of 1, q, q^2 and of 1, q, q^3; exponents 0..=5; orders 0..=7, 2^31-2, 2^31-1", || {
            let a = small_ref("a", &[[qk(0), qk(1), qk(2)], [qk(0), qk(1), qk(3)]][choose("s", 2)], 6);
            let n = choose("n", 6) as i32;
            let o = [0, 1, 2, 3, 4, 5, 6, 7, i32::MAX - 1, i32::MAX][choose("o", 10)];
            let r = pol(&a).power_omit_high_order_q(n, o);
            let mut want = rpow(&a, n as u32);
            want.retain(|k, _| k.2 <= o);
            same(&r, &want, "truncated power");
            canonical(&r, "no zero terms");
        })
        .cost(6)
        .fns(&["Polynomial::power_omit_high_order_q, omit_high_order_q"]),
    );
    v.push(
        Case::new("C08", "term_power", "any integer coefficient; exponents of the term 0..=3 (q from -2); every exponent 0..=9 (and moduli 1, 2, 7, 97)", || {
            let k: Key = (choose("x", 4) as i32, choose("y", 3) as i32, choose("q", 4) as i32 - 2, None);
            let c = int("c");
            let t = term(&k, &c);
            let n = choose("n", 10) as i32;
            let want: Key = (k.0 * n, k.1 * n, k.2 * n, None);
            for (u, msg) in [(Power::<i32>::power(&t, n), "power(i32)"), (t.power(b(n as i64)), "power(BigInt)"), (t.power(&b(n as i64)), "power(&BigInt)")] {
                let u: Term = u;
                check(key(&u.monomial) == want, msg);
                check(u.coef == ipow(&c, n as u32), msg);
            }
            let p = b([1, 2, 7, 97][choose("p", 4)]);
            let u = t.power_modulo(&b(n as i64), &p);
            check(key(&u.monomial) == want, "power_modulo");
            check(u.coef == ipow(&c, n as u32).mod_floor(&p), "power_modulo");
        })
        .cost(6)
        .fns(&["Power for Term (all forms)", "Term::power_modulo"]),
    );
    // ---- C09
    v.push(
        Case::new("C09", "rem", "any integer coefficients (unbounded) of 4 monomials; every modulus 1..=16", || {
            let a = any_ref("a", &[xk(2), xyk(1, 1), qk(1), (0, 0, 0, Some((0, 1)))]);
            let m = choose("p", 16) as i64 + 1;
            let p = b(m);
            let r = &pol(&a) % &p;
            same(&r, &rmod(&a, &p), "polynomial % p");
            reduced(&r, &p, "residues, zeros dropped");
            let r2 = &pol(&a) % (m as i32);
            check(r2 == r, "polynomial % i32");
            let mut r3 = pol(&a);
            r3.modular_assign(&p);
            check(r3 == r, "modular_assign");
            same(&pol(&a), &a, "operand untouched");
        })
        .cost(5)
        .fns(&["&Polynomial % &BigInt, % i32", "Polynomial::modular_assign"]),
    );
    v.push(
        Case::new("C09", "rem_large", "any integer coefficients; moduli 65537, 2^61-1, 2^64, the secp256k1 prime", || {
            let a = any_ref("a", &[xk(2), xyk(1, 1), xk(0)]);
            let p = [b(65537), m61(), big("18446744073709551616"), secp_p()][choose("p", 4)].clone();
            let r = &pol(&a) % &p;
            same(&r, &rmod(&a, &p), "polynomial % p");
            reduced(&r, &p, "residues, zeros dropped");
            let mut r3 = pol(&a);
            r3.modular_assign(&p);
            check(r3 == r, "modular_assign");
        })
        .cost(2)
        .fns(&["&Polynomial % &BigInt", "Polynomial::modular_assign"]),
    );
    v.push(
        Case::new("C09", "rem_machine", "two coefficients within 2 of +-2^k (symbolic offsets), k in 15, 16, 31, 32, 53, 63, 64; moduli 2, 7, 65536, 2^31-1, 2^32 - 5, 2^63", || {
            let mut a = Ref::new();
            let s = [b(1), b(-1)][choose("s", 2)].clone();
            let k = [15u32, 16, 31, 32, 53, 63, 64][choose("k", 7)];
            let p = [b(2), b(7), b(65536), b((1 << 31) - 1), b((1 << 32) - 5), big("9223372036854775808")][choose("p", 6)].clone();
            a.insert(xk(2), &s * ipow(&b(2), k) + int_in("d", &b(-2), &b(2)));
            a.insert(qk(1), ipow(&b(2), k) * b(-3) + int_in("e", &b(-2), &b(2)));
            let r = &pol(&a) % &p;
            same(&r, &rmod(&a, &p), "polynomial % p");
            reduced(&r, &p, "residues, zeros dropped");
            let mut r3 = pol(&a);
            r3.modular_assign(&p);
            check(r3 == r, "modular_assign");
            let t = term(&xk(2), &rcoef(&a, &xk(2))).modulo(&p);
            check(t.coef == rcoef(&a, &xk(2)).mod_floor(&p), "Term::modulo");
        })
        .cost(6)
        .fns(&["&Polynomial % &BigInt", "Polynomial::modular_assign", "Term::modulo"]),
    );
    v.push(
        Case::new("C09", "rem_symbolic_modulus", "coefficients in -300..=300, symbolic modulus 1..=100", || {
            let a = int_in("a", &b(-300), &b(300));
            let p = int_in("p", &b(1), &b(100));
            let mut r = Ref::new();
            if !a.is_zero() {
                r.insert(xk(1), a.clone());
            }
            let m = &pol(&r) % &p;
            let c = rcoef(&to_ref(&m), &xk(1));
            check(in_range(&c, &p), "residue in [0, p)");
            check((a - c).mod_floor(&p).is_zero(), "congruent");
        })
        .cost(10)
        .fns(&["&Polynomial % &BigInt", "Polynomial::modular_assign"]),
    );
    v.push(
        Case::new("C09", "term", "any integer coefficient; every modulus 1..=30 and 2^61-1; modulus 0 refused", || {
            let k: Key = (2, 1, -1, Some((1, 1)));
            let c = int("c");
            let i = choose("p", 31);
            let p = if i == 30 { m61() } else { b(i as i64 + 1) };
            let t = term(&k, &c).modulo(&p);
            check(key(&t.monomial) == k, "monomial unchanged");
            check(t.coef == c.mod_floor(&p), "residue");
            check(in_range(&t.coef, &p), "residue in [0, p)");
            let mut u = term(&k, &c);
            u.modular_assign(&p);
            check(u == t, "modular_assign");
            check(panics(|| term(&k, &c).modulo(&b(0))), "modulus 0");
        })
        .fns(&["Term::modulo, modular_assign"]),
    );
    // ---- C10
    for (p, da, dd, thorough) in [
        (2i64, 4, 2, false),
        (3, 3, 2, false),
        (5, 3, 2, false),
        (5, 2, 1, false),
        (7, 3, 1, false),
        (7, 3, 2, false),
        (13, 2, 1, false),
        (5, 4, 2, true),
        (5, 4, 3, true),
        (11, 3, 2, true),
        (31, 2, 1, true),
    ] {
        let c = Case::new(
            "C10",
            &format!("mod{}_deg{}_{}", p, da, dd),
            &format!("dividend of degree <= {}, divisor of degree <= {} with coefficients 0..{} (nonzero mod p)", da, dd, p - 1),
            move || remainder(&uni("a", da, 0, p - 1), &uni("d", dd, 0, p - 1), &b(p)),
        )
        .covers(&["zero remainder", "nonzero remainder"])
        .cost(10)
        .fns(&["Polynomial::polynomial_modular", "Inverse", "Term * Polynomial, -=, modular_assign"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for p in [3i64, 5] {
        v.push(
            Case::new("C10", &format!("unreduced_mod{}", p), &format!("dividend of degree <= 2, divisor of degree <= 1 with coefficients in -{}..={}", p, 2 * p), move || {
                remainder(&uni("a", 2, -p, 2 * p), &uni("d", 1, -p, 2 * p), &b(p))
            })
            .covers(&["zero remainder", "nonzero remainder"])
            .cost(10)
            .fns(&["Polynomial::polynomial_modular"]),
        );
        v.push(
            Case::new("C10", &format!("with_y_mod{}", p), "dividend with terms x^2 y, x^2, x y, x, y, 1; divisor of degree <= 1; coefficients reduced", move || {
                let mut a = Ref::new();
                for (i, k) in [xyk(2, 1), xyk(1, 1), xyk(0, 1), xk(2), xk(0)].iter().enumerate() {
                    let c = int_in(&format!("a{}", i), &b(0), &b(p - 1));
                    if !c.is_zero() {
                        a.insert(*k, c);
                    }
                }
                remainder(&a, &uni("d", 1, 0, p - 1), &b(p))
            })
            .cost(10)
            .fns(&["Polynomial::polynomial_modular"]),
        );
    }
    v.push(
        Case::new("C10", "zero_divisor", "a divisor that vanishes modulo p is refused", || {
            let p = b([2, 3, 5, 7][choose("p", 4)]);
            let a = any_ref("a", &[xk(1), xk(0)]);
            let k = int_in("k", &b(-3), &b(3));
            let d = rtrim(&rscale(&any_ref("d", &[xk(1)]), &(&p * k)));
            check(panics(|| pol(&a).polynomial_modular(&pol(&d), &p)), "refused");
        })
        .fns(&["Polynomial::polynomial_modular"]),
    );
    // ---- C11
    for (p, da, dd, thorough) in [
        (2i64, 3, 3, false),
        (3, 2, 2, false),
        (5, 2, 1, false),
        (5, 2, 2, false),
        (7, 2, 2, true),
        (7, 1, 2, false),
        (13, 1, 1, false),
        (3, 3, 3, true),
        (5, 3, 2, true),
    ] {
        let c = Case::new(
            "C11",
            &format!("mod{}_deg{}_{}", p, da, dd),
            &format!("operands of degree <= {}, <= {} with coefficients 0..{}, zero included", da, dd, p - 1),
            move || gcd_props(&uni("a", da, 0, p - 1), &uni("c", dd, 0, p - 1), &b(p)),
        )
        .covers(&["coprime", "common factor"])
        .cost(20)
        .fns(&["Polynomial::gcd, is_gcd_one, to_monic, polynomial_modular"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for p in [3i64, 5] {
        v.push(
            Case::new("C11", &format!("unreduced_mod{}", p), &format!("operands of degree <= 1, coefficients in -{}..={}", p, 2 * p), move || {
                gcd_props(&uni("a", 1, -p, 2 * p), &uni("c", 1, -p, 2 * p), &b(p))
            })
            .covers(&["coprime", "common factor"])
            .cost(10)
            .fns(&["Polynomial::gcd, is_gcd_one, to_monic"]),
        );
        for dd in [1, 2] {
            v.push(
                Case::new("C11", &format!("common_mod{}_deg{}", p, dd), &format!("operands d u, d v with d monic of degree {}, u, v of degree <= 1, coefficients reduced", dd), move || {
                    let mut d = uni("d", dd - 1, 0, p - 1);
                    d.insert(xk(dd), b(1));
                    let u = uni("u", 1, 0, p - 1);
                    let w = uni("v", 1, 0, p - 1);
                    let p = b(p);
                    let a = rtrim(&rmul(&d, &u));
                    let c = rtrim(&rmul(&d, &w));
                    let g = to_ref(&pol(&a).gcd(&pol(&c), &p));
                    divides(&d, &g, &p, "common divisors divide the gcd");
                })
                .cost(10)
                .fns(&["Polynomial::gcd"]),
            );
        }
        v.push(
            Case::new("C11", &format!("resultant_mod{}", p), "quadratics with coefficients reduced, leading ones nonzero", move || {
                let a = mod_ref("a", 2, p);
                let c = mod_ref("c", 2, p);
                let f = |r: &Ref, i| rcoef(r, &xk(i));
                let (a0, a1, a2) = (f(&a, 0), f(&a, 1), f(&a, 2));
                let (c0, c1, c2) = (f(&c, 0), f(&c, 1), f(&c, 2));
                let p = b(p);
                let t = &a2 * &c0 - &a0 * &c2;
                let res = &t * &t - (&a2 * &c1 - &a1 * &c2) * (&a1 * &c0 - &a0 * &c1);
                let one = pol(&a).is_gcd_one(&pol(&c), &p);
                check(one == !res.mod_floor(&p).is_zero(), "coprime exactly when the resultant is nonzero");
                cover(if one { "coprime" } else { "common root" });
            })
            .covers(&["coprime", "common root"])
            .cost(10)
            .fns(&["Polynomial::is_gcd_one, gcd"]),
        );
    }
    for unreduced in [false, true] {
        let name = if unreduced { "to_monic_unreduced" } else { "to_monic" };
        let bound = if unreduced { "degree <= 2, coefficients -p..=2p, p = 2, 3, 5" } else { "degree <= 2, coefficients reduced modulo 2, 3, 5, 7, 11" };
        v.push(
            Case::new("C11", name, bound, move || {
            let m = [2i64, 3, 5, 7, 11][choose("p", if unreduced { 3 } else { 5 })];
            let p = b(m);
            let mut a = Ref::new();
            for i in 0..3 {
                let c = int_in(&format!("a{}_{}", i, m), &b(if unreduced { -m } else { 0 }), &b(if unreduced { 2 * m } else { m - 1 }));
                if !c.is_zero() {
                    a.insert(xk(i), c);
                }
            }
            let g = to_ref(&pol(&a).to_monic(&p));
            match deg_mod(&a, 0, &p) {
                None => check(g.is_empty(), "zero stays zero"),
                Some(n) => {
                    check(rcoef(&g, &xk(n)) == b(1), "leading coefficient one");
                    let lead = rcoef(&a, &xk(n));
                    for i in 0..=n {
                        check((&lead * rcoef(&g, &xk(i)) - rcoef(&a, &xk(i))).mod_floor(&p).is_zero(), "a scalar multiple");
                        check(in_range(&rcoef(&g, &xk(i)), &p), "coefficients in [0, p)");
                    }
                }
            }
        })
        .cost(5)
        .fns(&["Polynomial::to_monic"]),
    );
    }
    // ---- large primes, leading coefficients and resultants in general position
    let nz = |name: &str, deg: i32, p: &BigInt| {
        let mut r = Ref::new();
        for i in 0..=deg {
            r.insert(xk(i), int_in(&format!("{}{}", name, i), &b(1), &(p - b(1))));
        }
        r
    };
    for (pn, p) in [("m61", m61()), ("secp256k1", secp_p()), ("1e9_7", b(1_000_000_007))] {
        for (da, dd, thorough) in [(3, 1, false), (4, 2, false), (5, 3, false), (7, 3, false), (9, 5, false)] {
            let pp = p.clone();
            let c = Case::new("C10", &format!("{}_deg{}_{}", pn, da, dd), &format!("dividend of degree {}, divisor of degree {}, every coefficient in 1..p, p = {}, in general position", da, dd, p), move || {
                let d = nz("d", dd, &pp);
                if choose("form", 2) == 1 {
                    // a multiple of the divisor plus a remainder
                    let u = nz("u", da - dd, &pp);
                    let e = nz("e", dd - 1, &pp);
                    generic(true);
                    let s = radd(&rmul(&u, &d), &e);
                    same(&pol(&s).polynomial_modular(&pol(&d), &pp), &e, "u d + e leaves e");
                    check(pol(&rmul(&u, &d)).polynomial_modular(&pol(&d), &pp).is_zero(), "u d leaves 0");
                    return;
                }
                let a = nz("a", da, &pp);
                generic(true);
                let r = pol(&a).polynomial_modular(&pol(&d), &pp);
                reduced(&r, &pp, "remainder has coefficients in (0, p)");
                let r = to_ref(&r);
                for k in r.keys() {
                    check(k.0 < dd && k.0 >= 0 && k.1 == 0, "degree below the divisor's");
                }
                divides(&d, &rsub(&a, &r), &pp, "dividend - remainder is a multiple of the divisor");
            })
            .cost(10)
            .fuel(10_000_000)
            .fns(&["Polynomial::polynomial_modular", "Inverse"]);
            v.push(if thorough { c.thorough() } else { c });
        }
        for (du, dw, dg, thorough) in [(1, 1, 1, false), (2, 1, 1, false), (1, 2, 2, false), (2, 2, 1, false), (2, 2, 2, false), (3, 2, 2, false), (3, 3, 3, true)] {
            let pp = p.clone();
            let c = Case::new("C11", &format!("{}_deg{}_{}_{}", pn, du, dw, dg), &format!("g u and g w with g, u, w of degree {}, {}, {}, every coefficient in 1..p, p = {}, in general position", dg, du, dw, p), move || {
                let (g, u, w) = (nz("g", dg, &pp), nz("u", du, &pp), nz("w", dw, &pp));
                generic(true);
                let (fu, fw) = (pol(&u), pol(&w));
                same(&fu.gcd(&fw, &pp), &rone(), "polynomials in general position are coprime");
                check(fu.is_gcd_one(&fw, &pp), "is_gcd_one");
                let (a, c) = (pol(&rmul(&g, &u)), pol(&rmul(&g, &w)));
                let d = a.gcd(&c, &pp);
                check(!a.is_gcd_one(&c, &pp), "is_gcd_one");
                reduced(&d, &pp, "gcd has coefficients in (0, p)");
                let d = to_ref(&d);
                let lead = rcoef(&g, &xk(dg));
                for i in 0..=dg {
                    check((&lead * rcoef(&d, &xk(i)) - rcoef(&g, &xk(i))).mod_floor(&pp).is_zero(), "the common factor, monic");
                }
                for k in d.keys() {
                    check(k.0 <= dg && k.1 == 0, "nothing else");
                }
                check(a.to_monic(&pp) == pol(&rmul(&g, &u)).gcd(&Polynomial::new(), &pp), "gcd(a, 0) is a, monic");
            })
            .cost(10)
            .fuel(10_000_000)
            .query_ms(60_000)
            .fns(&["Polynomial::gcd, is_gcd_one, to_monic, polynomial_modular"]);
            v.push(if thorough { c.thorough() } else { c });
        }
    }
    v
}
