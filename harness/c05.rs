//! C05 ring arithmetic, C06 canonical form and equality
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::bigint::Power;
use ellipticcurve::polynomial::Polynomial;
use ellipticcurve::term::Term;
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};

const C: Option<(i32, i32)> = Some((1, 2));

/// operand shapes: overlapping monomials, powers of y and q, negative powers of q, the variable
fn shapes() -> Vec<(&'static str, Vec<Key>, Vec<Key>)> {
    vec![
        ("x", vec![xk(0), xk(1), xk(2)], vec![xk(0), xk(1), xk(2)]),
        ("xy", vec![xk(0), xyk(1, 1), xyk(2, 0)], vec![xyk(0, 1), xyk(1, 1), xyk(1, 0)]),
        ("q", vec![qk(-1), qk(0), qk(2)], vec![qk(1), qk(0), qk(-2)]),
        ("var", vec![(1, 0, 0, C), (0, 0, 1, C), xk(1)], vec![xk(0), xk(1), (0, 1, -1, None)]),
        ("wide", vec![(9, 2, 0, None), (4, 2, 5, None), (4, 0, 5, None)], vec![(4, 2, 5, None), (9, 2, 0, None), (0, 2, 5, None)]),
    ]
}

/// a few monomials the enumerated shapes are taken from
fn pool() -> Vec<Key> {
    vec![xk(0), xk(1), xyk(0, 1), xyk(1, 1), qk(1), (1, 1, 1, None), xk(2), (0, 0, 0, C), (0, 0, 1, C)]
}

fn two(name: &str) -> Vec<Key> {
    let ks = pool();
    let i = choose(&format!("{}i", name), ks.len());
    let j = choose(&format!("{}j", name), ks.len());
    assume(i < j);
    vec![ks[i], ks[j]]
}

fn sums(a: &Ref, c: &Ref) {
    let (p, q) = (pol(a), pol(c));
    let sum = radd(a, c);
    let dif = rsub(a, c);
    same(&(&p + &q), &sum, "sum of polynomials");
    same(&(p.clone() + q.clone()), &sum, "sum by value");
    same(&(&p + q.clone()), &sum, "sum by reference and value");
    same(&(p.clone() + &q), &sum, "sum by value and reference");
    let mut s = p.clone();
    s += &q;
    same(&s, &sum, "assigning sum");
    let mut s = p.clone();
    s += q.clone();
    same(&s, &sum, "assigning sum by value");
    same(&(&p - &q), &dif, "difference of polynomials");
    same(&(p.clone() - q.clone()), &dif, "difference by value");
    let mut s = p.clone();
    s -= &q;
    same(&s, &dif, "assigning difference");
    same(&-&p, &rneg(a), "negation");
    same(&-p.clone(), &rneg(a), "negation by value");
    // the operands are untouched
    same(&p, a, "left operand");
    same(&q, c, "right operand");
}

fn products(a: &Ref, c: &Ref) {
    let (p, q) = (pol(a), pol(c));
    let pro = rmul(a, c);
    same(&(&p * &q), &pro, "product of polynomials");
    same(&(p.clone() * q.clone()), &pro, "product by value");
    same(&(&p * q.clone()), &pro, "product by reference and value");
    let mut s = p.clone();
    s *= &q;
    same(&s, &pro, "assigning product");
    let mut s = p.clone();
    s *= q.clone();
    same(&s, &pro, "assigning product by value");
}

fn with_term(a: &Ref, k: &Key, c: &BigInt) {
    let p = pol(a);
    let t = term(k, c);
    let mut r = Ref::new();
    r.insert(*k, c.clone());
    same(&t.to_pol(), &r, "term as a polynomial");
    same(&(&p + &t), &radd(a, &r), "polynomial + term");
    same(&(p.clone() + t.clone()), &radd(a, &r), "polynomial + term by value");
    same(&(&t + &p), &radd(a, &r), "term + polynomial");
    let mut s = p.clone();
    s += &t;
    same(&s, &radd(a, &r), "polynomial += term");
    let mut s = p.clone();
    s += t.clone();
    same(&s, &radd(a, &r), "polynomial += term by value");
    same(&(&p - &t), &rsub(a, &r), "polynomial - term");
    same(&(&t - &p), &rsub(&r, a), "term - polynomial");
    same(&(&p * &t), &rmul(a, &r), "polynomial * term");
    same(&(&t * &p), &rmul(a, &r), "term * polynomial");
    same(&(p.clone() * t.clone()), &rmul(a, &r), "polynomial * term by value");
}

fn division(a: &Ref, k: &Key, c: &BigInt) {
    let p = pol(a);
    let t = term(k, c);
    let m = &p * &t;
    same(&(&m / &t), a, "(p t) / t");
    same(&(m.clone() / t.clone()), a, "(p t) / t by value");
    same(&(&m / &t.to_pol()), a, "(p t) / t, t a polynomial");
    let mut s = m.clone();
    s /= &t;
    same(&s, a, "p t /= t");
    let mut s = m.clone();
    s /= t.to_pol();
    same(&s, a, "p t /= t, t a polynomial");
}

fn same_term(t: &Term, k: &Key, c: &BigInt, msg: &str) {
    check(key(&t.monomial) == *k, msg);
    check(&t.coef == c, msg);
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    for (name, ka, kb) in shapes() {
        let bound = format!("any integer coefficients (zero included) of {} + {} monomials, shape {}", ka.len(), kb.len(), name);
        let (x, y) = (ka.clone(), kb.clone());
        v.push(
            Case::new("C05", &format!("sum_{}", name), &bound, move || sums(&any_ref("a", &x), &any_ref("b", &y)))
                .cost(3)
                .fns(&["Polynomial + - += -= neg (all forms)"]),
        );
        let (x, y) = (ka.clone(), kb.clone());
        v.push(
            Case::new("C05", &format!("product_{}", name), &bound, move || products(&any_ref("a", &x), &any_ref("b", &y)))
                .cost(3)
                .fns(&["Polynomial * *= (all forms)", "Term * Term"]),
        );
        let x = ka.clone();
        let t = kb[1];
        v.push(
            Case::new("C05", &format!("term_{}", name), &bound, move || with_term(&any_ref("a", &x), &t, &int("c")))
                .cost(2)
                .fns(&["Polynomial op Term, Term op Polynomial", "Term::to_pol"]),
        );
        let x = ka.clone();
        let t = kb[0];
        v.push(
            Case::new("C05", &format!("division_{}", name), "any integer coefficients; any nonzero integer divisor coefficient in -20..=20", move || {
                let c = int_in("c", &b(-20), &b(20));
                assume(!c.is_zero());
                let c = settle("c", -20, 20, &c);
                division(&any_ref("a", &x), &t, &c)
            })
            .cost(3)
            .fns(&["Polynomial / Term, Polynomial / Polynomial, /= (all forms)", "Term / Term"]),
        );
        // adding the same monomials
        let x = ka.clone();
        v.push(
            Case::new("C06", &format!("cancel_{}", name), &bound, move || {
                let a = any_ref("a", &x);
                let p = pol(&a);
                let zero = Polynomial::new();
                for (z, msg) in [
                    (&p - &p, "p - p = 0"),
                    (p.clone() - p.clone(), "p - p = 0 by value"),
                    (&p + &(-&p), "p + (-p) = 0"),
                    (-&p + &p, "-p + p = 0"),
                ] {
                    check(z.is_zero(), msg);
                    check(z == zero, msg);
                    check(z.terms.len() == 0, msg);
                }
                let mut s = p.clone();
                s -= &p;
                check(s.is_zero(), "p -= p");
                let mut s = p.clone();
                s += -&p;
                check(s.is_zero(), "p += -p");
            })
            .fns(&["Polynomial + - += -= neg", "Polynomial::is_zero", "PartialEq for Polynomial"]),
        );
        let (x, y) = (ka.clone(), kb.clone());
        v.push(
            Case::new("C06", &format!("equality_{}", name), &bound, move || {
                let mut keys = x.clone();
                keys.extend(y.clone());
                keys.sort();
                keys.dedup();
                keys.truncate(4);
                let a = any_ref("a", &keys);
                let c = any_ref("b", &keys);
                let same = keys.iter().all(|k| rcoef(&a, k) == rcoef(&c, k));
                check((pol(&a) == pol(&c)) == same, "equal exactly when all coefficients are equal");
                check(pol(&a).is_zero() == a.is_empty(), "is_zero exactly without terms");
                // computed the long way round
                let d = (pol(&a) + pol(&c)) - pol(&c);
                check(d == pol(&a), "a + b - b == a");
                cover(if same { "equal" } else { "different" });
            })
            .covers(&["equal", "different"])
            .cost(3)
            .fns(&["PartialEq for Polynomial", "Polynomial::is_zero", "Polynomial + -"]),
        );
        let (x, y) = (ka.clone(), kb.clone());
        v.push(
            Case::new("C06", &format!("canonical_{}", name), &bound, move || {
                let a = any_ref("a", &x);
                let c = any_ref("b", &y);
                let (p, q) = (pol(&a), pol(&c));
                canonical(&(&p + &q), "sum keeps no zero term");
                canonical(&(&p - &q), "difference keeps no zero term");
                canonical(&(&p * &q), "product keeps no zero term");
                canonical(&-&p, "negation keeps no zero term");
                let mut s = p.clone();
                s += &q;
                canonical(&s, "+= keeps no zero term");
                let mut s = p.clone();
                s -= &q;
                canonical(&s, "-= keeps no zero term");
                let mut s = p.clone();
                s *= &q;
                canonical(&s, "*= keeps no zero term");
            })
            .cost(4)
            .fns(&["Polynomial + - * += -= *= neg"]),
        );
        let x = ka.clone();
        let t = kb[1];
        v.push(
            Case::new("C06", &format!("canonical_term_{}", name), &bound, move || {
                let a = any_ref("a", &x);
                let p = pol(&a);
                let t = term(&t, &int("c"));
                canonical(&t.to_pol(), "to_pol keeps no zero term");
                canonical(&(&p + &t), "polynomial + term keeps no zero term");
                canonical(&(&t + &p), "term + polynomial keeps no zero term");
                canonical(&(&p - &t), "polynomial - term keeps no zero term");
                canonical(&(&t - &p), "term - polynomial keeps no zero term");
                canonical(&(&p * &t), "polynomial * term keeps no zero term");
                canonical(&(&t * &p), "term * polynomial keeps no zero term");
                let mut s = p.clone();
                s += &t;
                canonical(&s, "polynomial += term keeps no zero term");
                canonical(&(&t + &t), "term + term keeps no zero term");
                canonical(&(&t - &t), "term - term keeps no zero term");
                check((&t - &t).is_zero(), "t - t = 0");
                check((&t + &(-&t)).is_zero(), "t + (-t) = 0");
            })
            .cost(2)
            .fns(&["Polynomial op Term, Term op Term", "Term::to_pol"]),
        );
    }
    v.push(
        Case::new("C05", "shapes", "two-term operands on every pair of 9 monomials, two of them with the variable; any integer coefficients", || {
            let ka = two("a");
            let kb = two("b");
            let a = any_ref("a", &ka);
            let c = any_ref("b", &kb);
            sums(&a, &c);
            let var = |ks: &[Key]| ks.iter().any(|k| k.3.is_some());
            if !(var(&ka) && var(&kb)) {
                products(&a, &c);
            }
        })
        .cost(8)
        .fns(&["Polynomial + - * += -= *= neg (all forms)"]),
    );
    v.push(
        Case::new("C05", "ring_laws", "any integer coefficients, 2 + 2 + 2 monomials", || {
            let p = pol(&any_ref("a", &[xk(0), xyk(1, 1)]));
            let q = pol(&any_ref("b", &[xk(1), xyk(0, 1)]));
            let r = pol(&any_ref("c", &[xk(0), xk(1)]));
            check((&p + &q) + &r == &p + (&q + &r), "addition is associative");
            check(&p + &q == &q + &p, "addition is commutative");
            check((&p * &q) * &r == &p * (&q * &r), "multiplication is associative");
            check(&p * &q == &q * &p, "multiplication is commutative");
            check(&p * (&q + &r) == &p * &q + &p * &r, "distributive law");
            let one: Polynomial = One::one();
            let zero: Polynomial = Zero::zero();
            check(&p * &one == p, "1 is neutral");
            check(&p + &zero == p, "0 is neutral");
            check((&p * &zero).is_zero(), "0 annihilates");
            check(p.square() == &p * &p, "square");
            let c: Polynomial = p.cube();
            check(c == &p * &p * &p, "cube");
            let w: Polynomial = p.power(2);
            check(w == &p * &p, "power 2");
        })
        .cost(6)
        .fns(&["Polynomial + *", "One, Zero for Polynomial", "Polynomial::square, cube"]),
    );
    v.push(
        Case::new("C05", "terms", "terms with any integer coefficients and exponents from -2..=2, 0..=3", || {
            let k: Key = (choose("x", 4) as i32, choose("y", 3) as i32, choose("q", 5) as i32 - 2, if choose("v", 2) == 1 { C } else { None });
            let m: Key = (choose("x'", 3) as i32, 1, choose("q'", 2) as i32, None);
            let (c, d) = (int("c"), int("d"));
            let (t, u) = (term(&k, &c), term(&m, &d));
            let p = kmul(&k, &m);
            same_term(&(&t * &u), &p, &(&c * &d), "term * term");
            same_term(&(&u * &t), &p, &(&c * &d), "term * term, exchanged");
            same_term(&-&t, &k, &-&c, "negated term");
            let mut r = Ref::new();
            r.insert(k, c.clone());
            let mut s = Ref::new();
            s.insert(m, d.clone());
            same(&(&t + &u), &radd(&r, &s), "term + term");
            same(&(&t - &u), &rsub(&r, &s), "term - term");
            same(&(&u - &t), &rsub(&s, &r), "term - term, exchanged");
            let e = b([1, -1, 3, -7][choose("e", 4)]);
            let w = term(&m, &e);
            same_term(&(&(&t * &w) / &w), &k, &c, "(t w) / w");
        })
        .cost(8)
        .fns(&["Term + - * / neg"]),
    );
    v.push(
        Case::new("C30", "power_modulo", "any integer coefficient, powers -2..=3 each, no variable; exponents 0..=5, moduli 1, 2, 3, 12, 2^61-1", || {
            let k: Key = (choose("x", 6) as i32 - 2, choose("y", 6) as i32 - 2, choose("q", 6) as i32 - 2, None);
            let n = choose("n", 6) as i32;
            let p = [b(1), b(2), b(3), b(12), b((1 << 61) - 1)][choose("p", 5)].clone();
            let c = int("c");
            let t = term(&k, &c).power_modulo(&b(n as i64), &p);
            check(key(&t.monomial) == (k.0 * n, k.1 * n, k.2 * n, None), "every exponent multiplied");
            check(t.coef >= b(0) && t.coef < p, "coefficient reduced");
            let mut w = b(1);
            for _ in 0..n {
                w = w * &c;
            }
            check((&t.coef - &w).mod_floor(&p).is_zero(), "coefficient congruent to the power");
        })
        .cost(5)
        .fns(&["Term::power_modulo"]),
    );
    v.push(
        Case::new("C05", "two_variables", "products of two terms that both carry a subscripted variable are refused", || {
            let (t, u) = (term(&(1, 0, 0, Some((0, 1))), &int("c")), term(&(0, 1, 0, Some((1, 1))), &int("d")));
            check(panics(|| &t * &u), "refused");
        })
        .fns(&["Term * Term"]),
    );
    v.push(
        Case::new("C06", "zero_one", "no input but one coefficient", || {
            let z: Polynomial = Zero::zero();
            let o: Polynomial = One::one();
            check(z.is_zero(), "0 is zero");
            check(!o.is_zero(), "1 is not zero");
            check(z == Polynomial::new(), "0 is the empty polynomial");
            check(&o + &z == o, "1 + 0 = 1");
            check((&o - &o).is_zero(), "1 - 1 = 0");
            let c = int("c");
            let p = term(&xk(0), &c).to_pol();
            check((p == o) == c.is_one(), "c = 1");
            check(p.is_zero() == c.is_zero(), "c = 0");
        })
        .fns(&["Zero, One for Polynomial"]),
    );
    v.push(
        Case::new("C06", "division_canonical", "any integer coefficients; quotients by a term (exact or not) with coefficient -6..=6", || {
            let a = any_ref("a", &[xk(3), xyk(2, 1), xk(1)]);
            let c = int_in("c", &b(-6), &b(6));
            assume(!c.is_zero());
            let c = settle("c", -6, 6, &c);
            let t = term(&xk(1), &c);
            canonical(&(pol(&a) / &t), "quotient keeps no zero term");
            let mut s = pol(&a);
            s /= &t;
            canonical(&s, "/= keeps no zero term");
        })
        .cost(3)
        .fns(&["Polynomial / Term, /= Term"]),
    );
    v
}
