//! C12 reduction by the curve, C13 evaluation and extraction, C14 derivatives, C15 exponent maps
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::subscripted_variable::SubscriptedVariable;
use num_bigint::BigInt;

use num_traits::Zero;

fn cubic(a: &BigInt, c: &BigInt) -> Ref {
    let mut r = Ref::new();
    r.insert(xk(3), b(1));
    r.insert(xk(1), a.clone());
    r.insert(xk(0), c.clone());
    r
}

/// y^2 -> f
fn curve_reduce(a: &Ref, f: &Ref) -> Ref {
    let mut r = Ref::new();
    for (k, c) in a {
        let h = k.1 / 2;
        let mut m = Ref::new();
        m.insert((k.0, k.1 - 2 * h, k.2, k.3), c.clone());
        r = radd(&r, &rmul(&m, &rpow(f, h as u32)));
    }
    r
}

fn value(a: &Ref, x: &BigInt, y: &BigInt) -> BigInt {
    let mut s = b(0);
    for (k, c) in a {
        s = s + c * ipow(x, k.0 as u32) * ipow(y, k.1 as u32);
    }
    s
}

/// replaces the chosen variable by s
fn substitute(a: &Ref, var: usize, s: &Ref) -> Ref {
    let mut r = Ref::new();
    for (k, c) in a {
        let (e, rest) = if var == 0 { (k.0, (0, k.1, k.2, k.3)) } else { (k.1, (k.0, 0, k.2, k.3)) };
        let mut m = Ref::new();
        m.insert(rest, c.clone());
        r = radd(&r, &rmul(&m, &rpow(s, e as u32)));
    }
    r
}

fn one_const(c: &BigInt) -> Ref {
    let mut r = Ref::new();
    r.insert(xk(0), c.clone());
    r
}

fn map_keys(a: &Ref, f: impl Fn(&Key) -> Key) -> Ref {
    let mut r = Ref::new();
    for (k, c) in a {
        let k = f(k);
        let s = r.remove(&k).unwrap_or_else(BigInt::zero);
        r.insert(k, s + c);
    }
    r
}

fn vk(i: i32, j: i32) -> Key {
    (0, 0, 0, Some((i, j)))
}

fn derive(a: &Ref, var: usize) -> Ref {
    let mut r = Ref::new();
    for (k, c) in a {
        let e = if var == 0 { k.0 } else { k.1 };
        if e > 0 {
            let n = if var == 0 { (k.0 - 1, k.1, k.2, k.3) } else { (k.0, k.1 - 1, k.2, k.3) };
            r.insert(n, c * b(e as i64));
        }
    }
    r
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    // ---- C12
    let shapes: Vec<(&str, Vec<Key>)> = vec![
        ("y_even", vec![xk(0), xyk(0, 2), xyk(1, 4)]),
        ("y_odd", vec![xyk(0, 1), xyk(2, 3), xyk(0, 5)]),
        ("mixed", vec![xk(3), xyk(0, 2), xyk(2, 1), xyk(0, 3)]),
        ("high", vec![xyk(1, 6), xyk(0, 7), xk(1)]),
        ("others", vec![(0, 3, 1, None), (1, 2, 0, Some((0, 1))), (0, 2, -1, None)]),
        ("coinciding", vec![xk(3), xyk(0, 2), xk(0)]),
        ("y8", vec![xyk(0, 8), xyk(3, 9), xyk(2, 4)]),
    ];
    for (name, keys) in &shapes {
        let (k1, k2) = (keys.clone(), keys.clone());
        let hi = keys.iter().map(|k| k.1).max().unwrap();
        v.push(
            Case::new("C12", &format!("integers_{}", name), &format!("coefficients in -20..=20 of {} monomials with y up to y^{}; any integers a, b", keys.len(), hi), move || {
                let a = int("a");
                let c = int("b");
                let p = small_ref("c", &k1, 20);
                let r = pol(&p).reduction(&a, &c);
                same(&r, &curve_reduce(&p, &cubic(&a, &c)), "y^2 replaced by x^3 + a x + b");
                for (k, _) in to_ref(&r) {
                    check(k.1 == 0 || k.1 == 1, "no power of y above the first");
                }
                cover("ran");
            })
            .covers(&["ran"])
            .cost(10)
            .fns(&["Polynomial::reduction"]),
        );
        for p in [2i64, 3, 5, 7, 11, 65537, 2147483647] {
            let keys = k2.clone();
            let small = p < 12;
            if !small && matches!(*name, "y8" | "y_even" | "y_odd") {
                continue;
            }
            let c = Case::new(
                "C12",
                &format!("mod{}_{}", p, name),
                &format!(
                    "coefficients {} of {} monomials with y up to y^{}; a, b in {}..={}",
                    if small { "reduced" } else { "in -20..=20" },
                    keys.len(),
                    hi,
                    if small { 0 } else { -9 },
                    if small { p - 1 } else { 9 }
                ),
                move || {
                    let (lo, hi) = if small { (0, p - 1) } else { (-9, 9) };
                    let a = int_in("a", &b(lo), &b(hi));
                    let c = int_in("b", &b(lo), &b(hi));
                    let mut q = Ref::new();
                    for (i, k) in keys.iter().enumerate() {
                        let c = if small { int_in(&format!("c{}", i), &b(0), &b(p - 1)) } else { int_in(&format!("c{}", i), &b(-20), &b(20)) };
                        if !c.is_zero() {
                            q.insert(*k, c);
                        }
                    }
                    let r = pol(&q).reduction_modular(&a, &c, p as i32);
                    let m = b(p);
                    same_mod(&r, &curve_reduce(&q, &cubic(&a, &c)), &m, "y^2 replaced by x^3 + a x + b modulo p");
                    for (k, c) in to_ref(&r) {
                        check(k.1 == 0 || k.1 == 1, "no power of y above the first");
                        check(in_range(&c, &m), "coefficients in [0, p)");
                        check(!c.is_zero(), "no zero terms");
                    }
                    cover("ran");
                },
            )
            .covers(&["ran"])
            .cost(10)
            .fns(&["Polynomial::reduction_modular, modular_assign, power_modulo"]);
            v.push(if p == 11 && hi > 5 { c.thorough() } else { c });
        }
    }
    for p in [3i64, 5, 7] {
        v.push(
            Case::new("C12", &format!("unreduced_mod{}", p), &format!("coefficients of y^2, x y^3, x^3, 1 in -{}..={}, a, b in -{}..={}", p, 2 * p, p, 2 * p), move || {
                let m = b(p);
                let (lo, hi) = (b(-p), b(2 * p));
                let a = int_in("a", &lo, &hi);
                let c = int_in("b", &lo, &hi);
                let mut q = Ref::new();
                for (i, k) in [xyk(0, 2), xyk(1, 3), xk(3), xk(0)].iter().enumerate() {
                    let c = int_in(&format!("c{}", i), &lo, &hi);
                    if !c.is_zero() {
                        q.insert(*k, c);
                    }
                }
                let r = pol(&q).reduction_modular(&a, &c, p as i32);
                same_mod(&r, &curve_reduce(&q, &cubic(&a, &c)), &m, "y^2 replaced by x^3 + a x + b modulo p");
                for (k, c) in to_ref(&r) {
                    check(k.1 == 0 || k.1 == 1, "no power of y above the first");
                    check(in_range(&c, &m), "coefficients in [0, p)");
                    check(!c.is_zero(), "no zero terms");
                }
            })
            .cost(10)
            .fns(&["Polynomial::reduction_modular"]),
        );
    }
    v.push(
        Case::new("C12", "on_the_curve", "any integers x, y, a; b = y^2 - x^3 - a x; coefficients in -20..=20 of y^2, x y^3, y^5, x", || {
            let (x, y, a) = (int("x"), int("y"), int("a"));
            let c = &y * &y - &x * &x * &x - &a * &x;
            let q = small_ref("c", &[xyk(0, 2), xyk(1, 3), xyk(0, 5), xk(1)], 20);
            let r = pol(&q).reduction(&a, &c);
            check(value(&to_ref(&r), &x, &y) == value(&q, &x, &y), "same value at a point of the curve");
        })
        .cost(5)
        .fns(&["Polynomial::reduction"]),
    );
    // ---- C13
    let shapes: Vec<(&str, Vec<Key>)> = vec![
        ("x", vec![xk(0), xk(1), xk(2), xk(5)]),
        ("xy", vec![xk(2), xyk(1, 1), xyk(0, 2), xyk(2, 3)]),
        ("all", vec![(1, 2, 1, None), (1, 0, 1, None), (0, 2, 0, Some((1, 2))), (3, 0, 0, Some((1, 2)))]),
        ("coincide", vec![xyk(1, 1), xyk(2, 1), xyk(1, 2), xk(0)]),
    ];
    for (name, keys) in &shapes {
        let k1 = keys.clone();
        v.push(
            Case::new("C13", &format!("number_{}", name), "coefficients in -20..=20; argument any integer for evaluation, -9..=9 for substitution", move || {
                let p = small_ref("c", &k1, 20);
                let (x, y) = (int("x"), int("y"));
                let q = pol(&p);
                check(q.eval_xy(&x, &y) == value(&p, &x, &y), "eval_xy");
                for (k, _) in &p {
                    check(mono(k).eval_xy(&x, &y) == value(&[(*k, b(1))].iter().cloned().collect(), &x, &y), "Monomial::eval_xy");
                }
                let s = int_in("s", &b(-9), &b(9));
                if choose("xory", 2) == 0 {
                    let r = q.eval_x(&s);
                    same(&r, &substitute(&p, 0, &one_const(&s)), "eval_x");
                    canonical(&r, "no zero terms");
                    check(!r.has_x(), "no x left");
                } else {
                    let r = q.eval_y(&s);
                    same(&r, &substitute(&p, 1, &one_const(&s)), "eval_y");
                    canonical(&r, "no zero terms");
                    check(!r.has_y(), "no y left");
                }
            })
            .cost(10)
            .fns(&["Polynomial::eval_xy, eval_x, eval_y, has_x, has_y", "Monomial::eval_xy"]),
        );
        for (sn, skeys) in [("x", vec![xk(1), xk(0)]), ("y", vec![xyk(0, 1), xk(2)]), ("q", vec![qk(1), xk(0)])] {
            let k1 = keys.clone();
            v.push(
                Case::new("C13", &format!("polynomial_{}_{}", name, sn), "coefficients in -20..=20, substituted polynomial of two terms with coefficients in -3..=3", move || {
                    let p = small_ref("c", &k1, 20);
                    let s = small_ref("s", &skeys, 3);
                    let q = pol(&p);
                    let var = choose("xory", 2);
                    let want = substitute(&p, var, &s);
                    let r = if var == 0 { q.eval_x_polynomial(&pol(&s)) } else { q.eval_y_polynomial(&pol(&s)) };
                    same(&r, &want, "polynomial substituted");
                    canonical(&r, "no zero terms");
                })
                .cost(10)
                .fns(&["Polynomial::eval_x_polynomial, eval_y_polynomial", "Monomial::eval_x_polynomial, eval_y_polynomial"]),
            );
        }
    }
    v.push(
        Case::new("C13", "term_polynomial", "any integer coefficient, exponents 0..=3 (q from -1), variable or not; substituted: any integer multiples of x and 1", || {
            let k: Key = (choose("x", 4) as i32, choose("y", 4) as i32, choose("q", 2) as i32 - 1, [None, Some((0, 2))][choose("v", 2)]);
            let t = term(&k, &int("c"));
            let mut p = Ref::new();
            p.insert(k, t.coef.clone());
            let s = any_ref("s", &[xk(1), xk(0)]);
            let unit: Ref = [(k, b(1))].iter().cloned().collect();
            if choose("xory", 2) == 0 {
                same(&t.eval_x_polynomial(&pol(&s)), &substitute(&p, 0, &s), "Term::eval_x_polynomial");
                same(&t.monomial.eval_x_polynomial(&pol(&s)), &substitute(&unit, 0, &s), "Monomial::eval_x_polynomial");
            } else {
                same(&t.eval_y_polynomial(&pol(&s)), &substitute(&p, 1, &s), "Term::eval_y_polynomial");
                same(&t.monomial.eval_y_polynomial(&pol(&s)), &substitute(&unit, 1, &s), "Monomial::eval_y_polynomial");
            }
        })
        .cost(5)
        .fns(&["Term::eval_x_polynomial, eval_y_polynomial", "Monomial::eval_x_polynomial, eval_y_polynomial"]),
    );
    v.push(
        Case::new("C13", "q_coefficient", "any integer coefficients of 5 terms in q, c_i_j q; powers -2..=4", || {
            let p = any_ref("c", &[qk(-1), qk(0), qk(2), (0, 0, 2, Some((1, 0))), (0, 0, 0, Some((1, 0)))]);
            let n = choose("n", 7) as i32 - 2;
            let r = pol(&p).to_q_power_coef(n);
            let mut want = Ref::new();
            for (k, c) in &p {
                if k.2 == n {
                    want.insert((0, 0, 0, k.3), c.clone());
                }
            }
            same(&r, &want, "coefficient of q^n");
            canonical(&r, "no zero terms");
        })
        .cost(3)
        .fns(&["Polynomial::to_q_power_coef"]),
    );
    v.push(
        Case::new("C13", "variable_coefficient", "any integer coefficients of c_0_1, c_1_0, c_1_1, c_2_5, 1; every one of them and a missing one asked for", || {
            let keys = [vk(0, 1), vk(1, 0), vk(1, 1), vk(2, 5), xk(0)];
            let p = any_ref("c", &keys);
            let i = choose("i", 6);
            let var = if i == 5 { SubscriptedVariable { i: 5, j: 2, empty: false } } else { mono(&keys[i]).variable };
            let r = pol(&p).to_variable_coef(var);
            check(r == if i == 5 { b(0) } else { rcoef(&p, &keys[i]) }, "coefficient of the variable");
        })
        .cost(3)
        .fns(&["Polynomial::to_variable_coef"]),
    );
    v.push(
        Case::new("C13", "omit", "any integer coefficients of c_0_1 q^3, q^3, c_0_1 q^2, q^2, q^-1, 1; orders -2..=4 and the extremes of i32", || {
            let p = any_ref("c", &[qk(3), (0, 0, 3, Some((0, 1))), qk(2), (0, 0, 2, Some((0, 1))), qk(-1), qk(0)]);
            let n = [-2, -1, 0, 1, 2, 3, 4, i32::MAX, i32::MAX - 1, i32::MIN][choose("n", 10)];
            let mut q = pol(&p);
            q.omit_high_order_q(n);
            let want: Ref = p.iter().filter(|(k, _)| k.2 <= n).map(|(k, c)| (*k, c.clone())).collect();
            same(&q, &want, "exactly the powers of q above the order dropped");
            canonical(&q, "no zero terms");
        })
        .cost(3)
        .fns(&["Polynomial::omit_high_order_q"]),
    );
    v.push(
        Case::new("C13", "queries", "any integer coefficients of 1, x^3, x y, y^2, q, x q, c_0_0, x c_1_2 (x-only, y-only, q-only, constant and zero included)", || {
            let p = any_ref("c", &[xk(0), xk(3), xyk(1, 1), xyk(0, 2), qk(1), (1, 0, 1, None), vk(0, 0), (1, 0, 0, Some((1, 2)))]);
            let q = pol(&p);
            let any = |f: &dyn Fn(&Key) -> bool| p.keys().any(|k| f(k));
            check(q.has_x() == any(&|k| k.0 != 0), "has_x");
            check(q.has_y() == any(&|k| k.1 != 0), "has_y");
            check(q.has_q() == any(&|k| k.2 != 0), "has_q");
            let dx = p.keys().map(|k| k.0).max().unwrap_or(0);
            if q.has_y() || q.has_q() {
                check(panics(|| q.degree_x()), "degree refused with y or q");
            } else {
                check(q.degree_x() == dx, "degree in x");
            }
            let h = q.highest_term_x();
            if p.is_empty() {
                check(h.coef.is_zero(), "highest term of zero");
            } else {
                check(h.xpow() == dx, "highest power of x");
                check(rcoef(&p, &key(&h.monomial)) == h.coef, "a term of the polynomial");
            }
            let constant = p.is_empty() || (p.len() == 1 && p.keys().all(|k| k.0 == 0 && k.1 == 0 && k.2 == 0));
            if constant {
                check(q.to_scalar() == p.values().next().cloned().unwrap_or_else(|| b(0)), "to_scalar");
                cover("scalar");
            } else {
                check(panics(|| q.to_scalar()), "to_scalar refused");
                cover("not a scalar");
            }
            for (k, c) in &p {
                let t = term(k, c);
                check(t.has_x() == (k.0 != 0) && t.has_y() == (k.1 != 0) && t.has_q() == (k.2 != 0), "Term::has_*");
            }
        })
        .covers(&["scalar", "not a scalar"])
        .cost(5)
        .fns(&["Polynomial::has_x, has_y, has_q, degree_x, highest_term_x, to_scalar", "Term::has_x, has_y, has_q"]),
    );
    v.push(
        Case::new("C13", "refusals", "extraction from polynomials with x or y is refused", || {
            let c = int("c");
            assume(!c.is_zero());
            let k = [xk(1), xyk(0, 1), xyk(2, 1)][choose("k", 3)];
            let p: Ref = [(k, c), (xk(0), b(1))].iter().cloned().collect();
            let q = pol(&p);
            check(panics(|| q.to_q_power_coef(1)), "to_q_power_coef");
            check(panics(|| q.to_variable_coef(SubscriptedVariable { i: 0, j: 0, empty: false })), "to_variable_coef");
            check(
                panics(|| {
                    let mut r = q.clone();
                    r.omit_high_order_q(1);
                    r
                }),
                "omit_high_order_q",
            );
        })
        .fns(&["Polynomial::to_q_power_coef, to_variable_coef, omit_high_order_q"]),
    );
    v.push(
        Case::new("C13", "eval_q", "q in -5..=5 (made concrete), exponents 0..=6", || {
            let q = choose("q", 11) as i32 - 5;
            let n = choose("n", 7);
            let m = mono(&(1, 2, n as i32, None));
            check(b(m.eval_q(q) as i64) == ipow(&b(q as i64), n as u32), "q^n");
        })
        .fns(&["Monomial::eval_q"]),
    );
    v.push(
        Case::new("C13", "equal_order", "any coefficients, exponents 0..=1 each, variable or not", || {
            let k = |s: &str| -> Key { (choose(&format!("x{}", s), 2) as i32, choose(&format!("y{}", s), 2) as i32, choose(&format!("q{}", s), 2) as i32, None) };
            let (i, j) = (k("a"), k("b"));
            check(term(&i, &int("c")).is_equal_order(&term(&j, &int("d"))) == (i == j), "same exponents");
        })
        .fns(&["Term::is_equal_order"]),
    );
    // ---- C14
    for (name, keys) in [
        ("x", vec![xk(0), xk(1), xk(2), xk(7)]),
        ("xy", vec![xyk(1, 1), xyk(2, 1), xyk(1, 2), xyk(0, 3)]),
        ("others", vec![(2, 1, 1, None), (2, 0, -1, None), (1, 1, 0, Some((0, 1))), (0, 0, 0, Some((1, 1)))]),
    ] {
        v.push(
            Case::new("C14", &format!("formula_{}", name), "any integer coefficients of 4 monomials", move || {
                let p = any_ref("c", &keys);
                let q = pol(&p);
                for var in 0..2 {
                    let r = if var == 0 { q.derivative_x() } else { q.derivative_y() };
                    same(&r, &derive(&p, var), "n x^(n-1), term by term");
                    canonical(&r, "no zero terms");
                }
            })
            .cost(3)
            .fns(&["Polynomial::derivative_x, derivative_y", "Term::derivative_x, derivative_y"]),
        );
    }
    v.push(
        Case::new("C14", "term", "any integer coefficient, exponents of x, y 0..=5, q -2..=2, variable or not", || {
            let k: Key = (choose("x", 6) as i32, choose("y", 6) as i32, choose("q", 5) as i32 - 2, [None, Some((2, 3))][choose("v", 2)]);
            let c = int("c");
            let t = term(&k, &c);
            let (dx, dy) = (t.derivative_x(), t.derivative_y());
            if k.0 == 0 {
                check(dx.coef.is_zero(), "no x: vanishes");
            } else {
                check(dx.coef == &c * b(k.0 as i64), "coefficient");
                check(key(&dx.monomial) == (k.0 - 1, k.1, k.2, k.3), "exponents");
            }
            if k.1 == 0 {
                check(dy.coef.is_zero(), "no y: vanishes");
            } else {
                check(dy.coef == &c * b(k.1 as i64), "coefficient");
                check(key(&dy.monomial) == (k.0, k.1 - 1, k.2, k.3), "exponents");
            }
        })
        .cost(3)
        .fns(&["Term::derivative_x, derivative_y"]),
    );
    for (name, ka, kb) in [
        ("x", vec![xk(0), xk(1), xk(3)], vec![xk(0), xk(2)]),
        ("xy", vec![xyk(1, 1), xk(2), xyk(0, 2)], vec![xyk(1, 0), xyk(0, 1)]),
        ("yq", vec![xyk(1, 3), (0, 1, 1, None)], vec![(1, 1, 2, None), xk(0)]),
    ] {
        let (k1, k2) = (ka.clone(), kb.clone());
        v.push(
            Case::new("C14", &format!("product_{}", name), "coefficients in -20..=20 of 2 + 3 monomials", move || {
                let p = pol(&small_ref("a", &k1, 20));
                let q = pol(&small_ref("c", &k2, 20));
                let m = &p * &q;
                check(m.derivative_x() == p.derivative_x() * &q + &p * q.derivative_x(), "product rule in x");
                check(m.derivative_y() == p.derivative_y() * &q + &p * q.derivative_y(), "product rule in y");
            })
            .cost(10)
            .fns(&["Polynomial::derivative_x, derivative_y, *, +"]),
        );
        v.push(
            Case::new("C14", &format!("sum_{}", name), "any integer coefficients, any integer factors", move || {
                let p = pol(&any_ref("a", &ka));
                let q = pol(&any_ref("c", &ka));
                let s = &p + &q;
                check(s.derivative_x() == p.derivative_x() + q.derivative_x(), "sum rule in x");
                check(s.derivative_y() == p.derivative_y() + q.derivative_y(), "sum rule in y");
                let _ = &kb;
            })
            .cost(10)
            .fns(&["Polynomial::derivative_x, derivative_y, +"]),
        );
    }
    // ---- C15
    let shapes: Vec<(&str, Vec<Key>)> = vec![
        ("x", vec![xk(0), xk(1), xk(2), xk(4)]),
        ("xy", vec![xyk(0, 1), xyk(1, 0), xyk(1, 1), xyk(1, 3)]),
        ("q", vec![(1, 1, 1, None), (1, 1, -1, None), (1, 1, 0, None), (0, 1, 2, None)]),
        ("var", vec![(1, 0, 0, Some((0, 1))), (0, 1, 0, Some((0, 1))), (0, 1, 0, None), (0, 0, 1, Some((0, 1)))]),
    ];
    for (name, keys) in &shapes {
        let k1 = keys.clone();
        v.push(
            Case::new("C15", &format!("polynomial_{}", name), "any integer coefficients of 4 monomials; n in 0..=5, 13, 101", move || {
                let p = any_ref("c", &k1);
                let n = [0, 1, 2, 3, 4, 5, 13, 101][choose("n", 8)];
                let q = pol(&p);
                let r = q.to_frob(n);
                same(&r, &map_keys(&p, |k| (k.0 * n, k.1 * n, k.2, k.3)), "x to x^n, y to y^n");
                canonical(&r, "no zero terms");
                let r = q.to_y_power(n);
                same(&r, &map_keys(&p, |k| (k.0, k.1 * n, k.2, k.3)), "y to y^n");
                canonical(&r, "no zero terms");
                let r = q.to_q_power(n);
                same(&r, &map_keys(&p, |k| (k.0, k.1, k.2 * n, k.3)), "q to q^n");
                canonical(&r, "no zero terms");
            })
            .cost(5)
            .fns(&["Polynomial::to_frob, to_y_power, to_q_power"]),
        );
    }
    v.push(
        Case::new("C15", "term", "any integer coefficient; exponents of x, y 0..=3, q -2..=2, variable or not; n 0..=5", || {
            let k: Key = (choose("x", 4) as i32, choose("y", 4) as i32, choose("q", 5) as i32 - 2, [None, Some((2, 3))][choose("v", 2)]);
            let n = choose("n", 6) as i32;
            let c = int("c");
            let t = term(&k, &c);
            for (u, e) in [
                (t.to_frob(n), (k.0 * n, k.1 * n, k.2, k.3)),
                (t.to_y_power(n), (k.0, k.1 * n, k.2, k.3)),
                (t.to_q_power(n), (k.0, k.1, k.2 * n, k.3)),
            ] {
                check(u.coef == c, "coefficient unchanged");
                check(key(&u.monomial) == e, "exponents");
            }
        })
        .cost(5)
        .fns(&["Term::to_frob, to_y_power, to_q_power"]),
    );
    v.push(
        Case::new("C15", "values", "any integers x, y, coefficients in -20..=20; n in 0..=4", || {
            let p = small_ref("c", &[xk(2), xyk(1, 1), xyk(0, 3), xk(0)], 20);
            let n = choose("n", 5) as u32;
            let (x, y) = (int("x"), int("y"));
            let q = pol(&p);
            check(q.to_frob(n as i32).eval_xy(&x, &y) == value(&p, &ipow(&x, n), &ipow(&y, n)), "value at (x^n, y^n)");
            check(q.to_y_power(n as i32).eval_xy(&x, &y) == value(&p, &x, &ipow(&y, n)), "value at (x, y^n)");
        })
        .cost(5)
        .fns(&["Polynomial::to_frob, to_y_power, eval_xy"]),
    );
    for p in [2i64, 3, 5] {
        v.push(
            Case::new("C15", &format!("frobenius_mod{}", p), "coefficients reduced modulo p", move || {
                let m = b(p);
                let mut q = Ref::new();
                for (i, k) in [xk(0), xk(1), xyk(1, 1)].iter().enumerate() {
                    let c = int_in(&format!("c{}", i), &b(0), &b(p - 1));
                    if !c.is_zero() {
                        q.insert(*k, c);
                    }
                }
                let f = pol(&q).to_frob(p as i32);
                check(f == pol(&q).power_modulo(&m, &m), "the p-th power modulo p");
            })
            .cost(5)
            .fns(&["Polynomial::to_frob, power_modulo"]),
        );
    }
    v
}
