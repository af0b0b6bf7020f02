//! C24 modular polynomials and the Elkies classification, C25 Schoof, C26 linear systems
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::elliptic_curve::EllipticCurve;
use ellipticcurve::modular_polynomial::modular_polynomial;
use ellipticcurve::schoof::schoof;
use ellipticcurve::schoof_elkies_atkins::sea;
use ellipticcurve::simultaneous_equation::solve;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{ToPrimitive, Zero};

fn zero_mod(v: BigInt, p: &BigInt) -> bool {
    v.mod_floor(p).is_zero()
}
fn value(r: &Ref, x: &BigInt, y: &BigInt) -> BigInt {
    let mut s = b(0);
    for (k, v) in r {
        s = s + v * ipow(x, k.0 as u32) * ipow(y, k.1 as u32);
    }
    s
}
/// den1^n den2^n times the value at (num1 / den1, num2 / den2)
fn value_over(r: &Ref, n: u32, x: (&BigInt, &BigInt), y: (&BigInt, &BigInt)) -> BigInt {
    let mut s = b(0);
    for (k, v) in r {
        let (i, j) = (k.0 as u32, k.1 as u32);
        s = s + v * ipow(x.0, i) * ipow(x.1, n - i) * ipow(y.0, j) * ipow(y.1, n - j);
    }
    s
}
fn curve_of(p: i64) -> (BigInt, BigInt) {
    let a = int_in("a", &b(0), &b(p - 1));
    let c = int_in("b", &b(0), &b(p - 1));
    assume(!zero_mod(b(4) * &a * &a * &a + b(27) * &c * &c, &b(p)));
    (a, c)
}

fn c24(v: &mut Vec<Case>) {
    for (l, thorough) in [(2i32, false), (3, false), (5, false)] {
        // the j-invariants of two l-isogenous curves, by a parameter of the genus 0 curve X_0(l)
        let c = Case::new("C24", &format!("isogenous_{}", l), &format!("level {}; any integer parameter h of X_0({}), every pair of l-isogenous j-invariants it gives", l, l), move || {
            let m = modular_polynomial(l);
            canonical(&m, "no zero terms");
            let r = to_ref(&m);
            for (k, c) in &r {
                check(k.2 == 0 && k.3.is_none() && k.0 >= 0 && k.1 >= 0 && k.0 <= l + 1 && k.1 <= l + 1, "in x and y, of degree l + 1");
                check(rcoef(&r, &xyk(k.1, k.0)) == *c, "symmetric");
                check(k.0 <= l || k.1 == 0, "x^(l+1) alone");
            }
            check(rcoef(&r, &xk(l + 1)) == b(1), "monic");
            let h = int("h");
            let (n1, d1, n2, d2) = match l {
                2 => (ipow(&(&h + b(16)), 3), h.clone(), ipow(&(&h + b(256)), 3), ipow(&h, 2)),
                3 => (
                    (&h + b(27)) * ipow(&(&h + b(3)), 3),
                    h.clone(),
                    (&h + b(27)) * ipow(&(&h + b(243)), 3),
                    ipow(&h, 3),
                ),
                _ => (
                    ipow(&(&h * &h + b(10) * &h + b(5)), 3),
                    h.clone(),
                    ipow(&(&h * &h + b(250) * &h + b(3125)), 3),
                    ipow(&h, 5),
                ),
            };
            let n = (l + 1) as u32;
            check(value_over(&r, n, (&n1, &d1), (&n2, &d2)).is_zero(), "vanishes at the j-invariants of l-isogenous curves");
            check(value_over(&r, n, (&n2, &d2), (&n1, &d1)).is_zero(), "both ways");
        })
        .cost(30)
        .fuel(1_000_000_000)
        .fns(&["modular_polynomial, subscripted_variable_modular_polynomial*", "simultaneous_equation::solve", "j_invariant", "Polynomial::eval_x_polynomial, eval_y_polynomial, to_q_power, to_q_power_coef, to_variable_coef"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (l, p, thorough) in [(2i32, 5i64, false), (2, 7, false), (3, 5, false), (3, 7, false), (2, 11, false), (3, 11, false), (2, 13, false), (3, 13, false), (5, 7, false), (5, 11, true), (2, 17, true), (3, 17, true)] {
        let c = Case::new("C24", &format!("sea_{}_mod{}", l, p), &format!("l = {}, every nonsingular curve over F_{}", l, p), move || {
            let m = b(p);
            let (a, c) = curve_of(p);
            let ec = EllipticCurve::new_raw(&a, &c, &m);
            // the roots of the modular polynomial at the curve's j, from the harness's own arithmetic
            let j = settle("j", 0, p - 1, &ec.j_invariant());
            let r = to_ref(&modular_polynomial(l));
            let roots: Vec<i64> = (0..p).filter(|x| zero_mod(value(&r, &b(*x), &j), &m)).collect();
            let mut g = rone();
            for x in &roots {
                let mut t = Ref::new();
                t.insert(xk(1), b(1));
                t.insert(xk(0), b(-x));
                g = rmul(&g, &t);
            }
            let s = sea(&ec, l);
            same_mod(&s.gcd, &g, &m, "the monic product over the rational roots");
            for (_, c) in &to_ref(&s.gcd) {
                check(in_range(c, &m) && !c.is_zero(), "reduced coefficients");
            }
            check(s.degree_of_gcd == roots.len() as i32, "its degree");
            check(s.is_elkies_prime == !roots.is_empty(), "Elkies exactly when there is a rational root");
            let want = roots.len().min(2);
            check(s.isogeny_j_invariants.len() == want, "one or two neighbours");
            for (i, x) in s.isogeny_j_invariants.iter().enumerate() {
                check(roots.iter().any(|y| b(*y) == *x), "neighbours are roots");
                for y in s.isogeny_j_invariants.iter().take(i) {
                    check(y != x, "each once");
                }
            }
            cover(if roots.is_empty() { "Atkin" } else { "Elkies" });
        })
        .covers(&["Elkies"])
        .cost(100)
        .tables()
        .fuel(1_000_000_000)
        .fns(&["schoof_elkies_atkins::sea", "modular_polynomial", "Polynomial::gcd, eval_x, eval_y", "EllipticCurve::j_invariant"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

fn c25(v: &mut Vec<Case>) {
    let mut parts = vec![(5i64, 0i64, 4i64, false), (7, 0, 6, false), (11, 0, 10, false)];
    for (q, n, most) in [(13i64, 1i64, 13i64), (17, 1, 17), (23, 1, 1)] {
        for i in 0..((q + n - 1) / n).min(most) {
            parts.push((q, n * i, (n * i + n - 1).min(q - 1), true));
        }
    }
    for (q, from, to, thorough) in parts {
        let whole = to - from == q - 1;
        let name = if whole { format!("trace_mod{}", q) } else { format!("trace_mod{}_{}", q, from) };
        let text = if whole { format!("every nonsingular curve over F_{}", q) } else { format!("every nonsingular curve y^2 = x^3 + a x + b over F_{} with {} <= a <= {}", q, from, to) };
        let c = Case::new("C25", &name, &text, move || {
            let m = b(q);
            propagate(true);
            // one coefficient case by case, the other symbolic
            let a = if whole && q < 11 {
                int_in("a", &b(0), &b(q - 1))
            } else {
                b(from + choose("a", (to - from + 1) as usize) as i64)
            };
            let c = int_in("b", &b(0), &b(q - 1));
            assume(!zero_mod(b(4) * &a * &a * &a + b(27) * &c * &c, &m));
            // the algorithm first, then the points
            let r = schoof(&a, &c, q as i32);
            // the number of points, by the squares
            let mut n = 1i64;
            for x in 0..q {
                let f = (b(x * x * x) + &a * b(x) + &c).mod_floor(&m);
                let f = settle("f", 0, q - 1, &f).to_i64().unwrap();
                n += (0..q).filter(|y| y * y % q == f).count() as i64;
            }
            let t = q + 1 - n;
            let ls: Vec<i64> = [2i64, 3, 5].iter().cloned().filter(|l| *l == 2 || *l < q).collect();
            check(r.len() == ls.len(), "one residue for every l");
            for (i, l) in ls.iter().enumerate() {
                check(r[i].l == b(*l), "l in order, each once");
                check(zero_mod(&r[i].r - b(t), &b(*l)), "the trace of Frobenius modulo l");
            }
            cover(if t == 0 { "supersingular" } else { "ordinary" });
        })
        .covers(if whole { &["ordinary", "supersingular"] } else { &[] })
        .cost(if thorough { 300 } else { q as u32 * 10 })
        .tables()
        .fuel(2_000_000_000)
        .fns(&["schoof::schoof", "division_polynomial::psi, phi, omega", "Polynomial::reduction_modular, polynomial_modular, is_gcd_one, to_frob, power, /"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

fn det(m: &[Vec<BigInt>]) -> BigInt {
    if m.len() == 1 {
        return m[0][0].clone();
    }
    let mut s = b(0);
    for i in 0..m.len() {
        let minor: Vec<Vec<BigInt>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, v)| v.clone()).collect()).collect();
        let t = &m[0][i] * det(&minor);
        s = if i % 2 == 0 { s + t } else { s - t };
    }
    s
}

fn system(name: &str, a: Vec<Vec<BigInt>>, n: usize) {
    let rows = a.len();
    let extra = rows - n;
    let x: Vec<BigInt> = (0..n).map(|j| int(&format!("{}{}", name, j))).collect();
    // full column rank: some n rows are independent
    let mut full = false;
    for skip in 0..(1usize << rows) {
        if full || skip.count_ones() as usize != extra {
            continue;
        }
        let m: Vec<Vec<BigInt>> = (0..rows).filter(|i| skip >> i & 1 == 0).map(|i| a[i].clone()).collect();
        full = !det(&m).is_zero();
    }
    assume(full);
    let m: Vec<Vec<BigInt>> = a
        .iter()
        .map(|r| {
            let mut w = r.clone();
            let mut s = b(0);
            for (c, t) in r.iter().zip(&x) {
                s = s + c * t;
            }
            w.push(s);
            w
        })
        .collect();
    let before = m.clone();
    let r = solve(&m);
    check(m == before, "the argument is left as it was");
    check(r.len() == rows, "a row for every row");
    for j in 0..n {
        check(r[j].len() == n + 1, "a column for every column");
        check(r[j][n] == x[j], "the solution, in order");
        for k in 0..n {
            check(r[j][k] == b((j == k) as i64), "diagonal form");
        }
    }
    cover("solved");
}

fn range(lo: i64, hi: i64) -> Vec<BigInt> {
    (lo..=hi).map(b).collect()
}

fn c26(v: &mut Vec<Case>) {
    // one unknown: every entry symbolic
    for (rows, top) in [(1usize, 99i64), (2, 9), (3, 3)] {
        v.push(
            Case::new("C26", &format!("column_{}", rows), &format!("{} equations in one unknown, symbolic coefficients -{}..={} not all 0, every integer solution", rows, top, top), move || {
                system("x", (0..rows).map(|i| vec![int_in(&format!("a{}", i), &b(-top), &b(top))]).collect(), 1);
            })
            .covers(&["solved"])
            .cost(30)
            .fuel(5_000_000)
            .fns(&["simultaneous_equation::solve"]),
        );
    }
    let wide = || vec![b(0), b(1), b(-1), b(6), b(-10), b(15), b(1 << 40), big("-1000000000000000000000000000057")];
    for (n, rows, set, what, thorough) in [
        (2usize, 2usize, range(-6, 6), "-6..=6", false),
        (2, 3, range(-2, 2), "-2..=2", false),
        (2, 4, range(-1, 1), "-1..=1", false),
        (3, 3, range(-1, 1), "-1..=1", false),
        (3, 3, range(0, 2), "0..=2", false),
        (3, 3, range(-1, 2), "-1..=2", true),
        (3, 4, range(0, 1), "0..=1", false),
        (3, 4, range(-1, 1), "-1..=1", true),
        (4, 4, range(0, 1), "0..=1", false),
        (4, 5, range(0, 1), "0..=1", true),
        (2, 2, wide(), "0, 1, -1, 6, -10, 15, 2^40, -10^30-57", false),
        (2, 3, wide(), "0, 1, -1, 6, -10, 15, 2^40, -10^30-57", true),
    ] {
        let name = format!("matrix_{}x{}_{}{}", rows, n, set.len(), if set[0] == b(0) { "_nonnegative" } else { "" }).replace("8_nonnegative", "wide");
        let c = Case::new("C26", &name, &format!("every matrix of {} rows and {} columns and full column rank with entries {} (a path each), every integer solution (symbolic, unbounded)", rows, n, what), move || {
            let mut a = vec![];
            for i in 0..rows {
                a.push((0..n).map(|j| set[choose(&format!("a{}{}", i, j), set.len())].clone()).collect());
            }
            system("x", a, n);
        })
        .covers(&["solved"])
        .cost(60)
        .fuel(5_000_000)
        .fns(&["simultaneous_equation::solve"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

fn c23(v: &mut Vec<Case>) {
    let ns: Vec<i32> = vec![46339, 46341, 46349, 65535, 65536, 65537, 92682, 131071, 1_000_003, 1 << 20, 2_147_395_600 / 100, 21_621_600];
    for (name, list, top, thorough) in [("large", ns, 4, false), ("largest", vec![i32::MAX], 1, false), ("largest_more", vec![i32::MAX, i32::MAX - 1, 2_147_395_600], 2, true)] {
        let c = Case::new("C23", name, &format!("n in {:?}, every k in 0..={}", list, top), move || {
            let n = list[choose("n", list.len())];
            let k = choose("k", top + 1) as i32;
            let r = ellipticcurve::divisor::sigma_divisor(n, k);
            // divisors in pairs, by trial division in 64 bits
            let (m, mut want, mut d) = (n as i64, b(0), 1i64);
            while d * d <= m {
                if m % d == 0 {
                    want = want + ipow(&b(d), k as u32);
                    if d * d != m {
                        want = want + ipow(&b(m / d), k as u32);
                    }
                }
                d += 1;
            }
            check(r == want, "the sum of the k-th powers of the divisors");
        })
        .cost(3)
        .fns(&["sigma_divisor, Power<i32> for BigInt"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    c23(&mut v);
    c24(&mut v);
    c25(&mut v);
    c26(&mut v);
    v
}
