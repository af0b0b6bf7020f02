//! Harnesses over machine integers: run by Kani with arbitrary inputs, natively with the inputs of a
//! counterexample.
use ellipticcurve::divisor::sigma_divisor;
use ellipticcurve::subscripted_variable::{SubscriptedVariable, SubscriptedVariableConverter};
use ellipticcurve::term::{Monomial, Term};
use ellipticcurve::bigint::Power;
use ellipticcurve::term_builder::{TermBuildable, TermBuilder};
use num_bigint::BigInt;
use std::cmp::Ordering;

pub trait In {
    fn i32(&mut self) -> i32;
    fn u64(&mut self) -> u64;
    fn bool(&mut self) -> bool;
    fn assume(&mut self, b: bool);
    fn check(&mut self, b: bool, msg: &'static str);
    /// reached when a call that must be refused (by a panic) returns; harnesses named refuse_*
    fn returned(&mut self, msg: &'static str);

    fn within(&mut self, lo: i32, hi: i32) -> i32 {
        let x = self.i32();
        self.assume(lo <= x && x <= hi);
        x
    }
}

pub struct Machine {
    pub name: &'static str,
    pub property: &'static str,
    pub thorough: bool,
    pub bound: &'static str,
    pub functions: &'static str,
    pub unwind: u32,
}

macro_rules! machines {
    ($($name:ident $prop:ident $tier:ident $unwind:literal $bound:literal $fns:literal $s:ident $body:block)*) => {
        mod bodies {
            use super::*;
            $(pub fn $name<I: In>($s: &mut I) $body)*
        }
        pub const ALL: &[Machine] = &[$(Machine {
            name: stringify!($name), property: stringify!($prop), thorough: $tier, bound: $bound, functions: $fns, unwind: $unwind,
        }),*];
        #[allow(dead_code)]
        pub fn run<I: In>(name: &str, s: &mut I) -> bool {
            match name {
                $(stringify!($name) => { bodies::$name(s); true })*
                _ => false,
            }
        }
        #[cfg(kani)]
        mod proofs {
            use super::*;
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn $name() {
                    bodies::$name(&mut crate::Any);
                    if !stringify!($name).starts_with("refuse_") {
                        kani::cover!(true, "the end is reached");
                    }
                }
            )*
        }
    };
}
#[allow(non_upper_case_globals)]
const quick: bool = false;
#[allow(non_upper_case_globals)]
const thorough: bool = true;

fn variable<I: In>(s: &mut I) -> SubscriptedVariable {
    let (i, j, empty) = (s.i32(), s.i32(), s.bool());
    SubscriptedVariable { i, j, empty }
}
fn monomial<I: In>(s: &mut I) -> Monomial {
    let (xpow, ypow, qpow) = (s.i32(), s.i32(), s.i32());
    Monomial { xpow, ypow, qpow, variable: variable(s) }
}
fn term<I: In>(s: &mut I) -> Term {
    let c = s.i32();
    Term { coef: BigInt::from(c), monomial: monomial(s) }
}
fn same_variable(a: &SubscriptedVariable, b: &SubscriptedVariable) -> bool {
    a.empty == b.empty && (a.empty || (a.i == b.i && a.j == b.j))
}
fn same_monomial(a: &Monomial, b: &Monomial) -> bool {
    a.xpow == b.xpow && a.ypow == b.ypow && a.qpow == b.qpow && same_variable(&a.variable, &b.variable)
}

/// the laws of a total order, for one triple
fn order<T: Ord, I: In>(s: &mut I, a: &T, b: &T, c: &T, same: bool) {
    let ab = a.cmp(b);
    s.check((ab == Ordering::Equal) == same, "equal exactly for equal values");
    s.check((a == b) == same, "== exactly for equal values");
    s.check((a != b) != same, "!= exactly for different values");
    s.check(b.cmp(a) == ab.reverse(), "antisymmetric");
    s.check(a.cmp(a) == Ordering::Equal && a == a, "reflexive");
    s.check(a.partial_cmp(b) == Some(ab), "partial order is the order");
    s.check((a < b) == (ab == Ordering::Less) && (a > b) == (ab == Ordering::Greater), "< and >");
    s.check((a <= b) == (ab != Ordering::Greater) && (a >= b) == (ab != Ordering::Less), "<= and >=");
    if ab != Ordering::Greater && b.cmp(c) != Ordering::Greater {
        s.check(a.cmp(c) != Ordering::Greater, "transitive");
        if ab == Ordering::Less || b.cmp(c) == Ordering::Less {
            s.check(a.cmp(c) == Ordering::Less, "strictly transitive");
        }
    }
}

fn converter<I: In>(s: &mut I, p: i32) {
    let c = SubscriptedVariableConverter::new(p);
    let n = c.count();
    s.check(n == ((p + 1) * (p + 2) / 2) as u64, "(p + 1)(p + 2) / 2 variables");
    // index to variable and back
    let k = s.u64();
    s.assume(k < n);
    let v = c.variable_from_index(k);
    s.check(!v.empty && 0 <= v.i && v.i <= v.j && v.j <= p, "an ordered pair up to p");
    s.check(c.index_from_variable(v) == Some(k), "the index of the variable of an index");
    // variable to index and back
    let (i, j) = (s.i32(), s.i32());
    s.assume(0 <= i && i <= j && j <= p);
    let w = SubscriptedVariable { i, j, empty: false };
    let l = c.index_from_variable(w);
    s.check(l.is_some() && l.unwrap() < n, "an index below the count");
    let u = c.variable_from_index(l.unwrap());
    s.check(!u.empty && u.i == i && u.j == j, "the variable of the index of a variable");
    s.check((k == l.unwrap()) == (v.i == i && v.j == j), "different indices, different variables");
    let e = SubscriptedVariable { i, j, empty: true };
    s.check(c.index_from_variable(e).is_none(), "no index without a variable");
}

fn refuse_pair<I: In>(s: &mut I, p: i32) {
    let c = SubscriptedVariableConverter::new(p);
    let (i, j) = (s.i32(), s.i32());
    s.assume(!(0 <= i && i <= j && j <= p));
    let _ = c.index_from_variable(SubscriptedVariable { i, j, empty: false });
    s.returned("an index for a pair that is not an ordered pair up to p");
}
fn refuse_index<I: In>(s: &mut I, p: i32) {
    let c = SubscriptedVariableConverter::new(p);
    let k = s.u64();
    s.assume(k >= ((p + 1) * (p + 2) / 2) as u64);
    let _ = c.variable_from_index(k);
    s.returned("a variable for an index that is not below the count");
}

fn sigma<I: In>(s: &mut I, top: i32, k: i32) {
    let n = s.i32();
    s.assume(n <= top);
    let r = sigma_divisor(n, k);
    let mut want = 0i128;
    if k >= 0 {
        for d in 1..=top {
            if d <= n && n % d == 0 {
                let mut t = 1i128;
                for _ in 0..k {
                    t *= d as i128;
                }
                want += t;
            }
        }
    }
    s.check(r == BigInt::from(want), "the sum of the k-th powers of the divisors");
}

fn sigma_4<I: In>(s: &mut I, top: i32) {
    let k = s.within(0, top);
    let want = 1 + (1i128 << k) + (1i128 << (2 * k));
    s.check(sigma_divisor(4, k) == BigInt::from(want), "the sum of the k-th powers of the divisors");
}

const BIG: i32 = i32::MAX / 2;
const COEF: i32 = 1 << 20;

fn part<I: In>(s: &mut I) -> Term {
    let (c, x, y, q) = (s.within(-COEF, COEF), s.within(-BIG, BIG), s.within(-BIG, BIG), s.within(-BIG, BIG));
    let variable = variable(s);
    Term { coef: BigInt::from(c), monomial: Monomial { xpow: x, ypow: y, qpow: q, variable } }
}
fn is<I: In>(s: &mut I, t: &Term, c: &BigInt, x: i32, y: i32, q: i32, v: &SubscriptedVariable) {
    s.check(t.coef == *c, "coefficient");
    s.check(t.monomial.xpow == x && t.xpow() == x, "power of x");
    s.check(t.monomial.ypow == y && t.ypow() == y, "power of y");
    s.check(t.monomial.qpow == q && t.qpow() == q, "power of q");
    s.check(same_variable(&t.variable(), v), "subscripted variable");
}

machines! {
    variable_order C07 quick 6 "every three subscripted variables, subscripts over all of i32" "Ord, PartialOrd, PartialEq for SubscriptedVariable" s {
        let (a, b, c) = (variable(s), variable(s), variable(s));
        let same = same_variable(&a, &b);
        order(s, &a, &b, &c, same);
        let want = if a.empty || b.empty { b.empty.cmp(&a.empty) } else { (a.i, a.j).cmp(&(b.i, b.j)) };
        s.check(a.cmp(&b) == want, "none first, then by the subscripts in order");
    }
    monomial_order C07 quick 6 "every three monomials, powers and subscripts over all of i32" "Ord, PartialOrd, PartialEq for Monomial" s {
        let (a, b, c) = (monomial(s), monomial(s), monomial(s));
        let same = same_monomial(&a, &b);
        order(s, &a, &b, &c, same);
        let want = (a.xpow, a.ypow, a.qpow).cmp(&(b.xpow, b.ypow, b.qpow)).then(a.variable.cmp(&b.variable));
        s.check(a.cmp(&b) == want, "x before y before q before the variable");
    }
    term_order C07 quick 6 "every three terms, coefficients, powers and subscripts over all of i32" "Ord, PartialOrd, PartialEq for Term" s {
        let (a, b, c) = (term(s), term(s), term(s));
        let same = same_monomial(&a.monomial, &b.monomial) && a.coef == b.coef;
        order(s, &a, &b, &c, same);
        if !same_monomial(&a.monomial, &b.monomial) {
            s.check(a.cmp(&b) == a.monomial.cmp(&b.monomial), "by the monomial first");
        }
    }
    sigma_0 C23 quick 50 "k = 0, every n <= 40, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 40, 0); }
    sigma_1 C23 quick 50 "k = 1, every n <= 40, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 40, 1); }
    sigma_2 C23 quick 30 "k = 2, every n <= 20, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 20, 2); }
    sigma_3 C23 quick 20 "k = 3, every n <= 12, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 12, 3); }
    sigma_7 C23 quick 16 "k = 7, every n <= 10, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 10, 7); }
    sigma_k C23 quick 12 "n = 6, every k <= 6, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s {
        let k = s.i32();
        s.assume(k <= 6);
        let mut want = 0;
        for d in [1, 2, 3, 6] {
            let mut t = if k < 0 { 0 } else { 1 };
            for i in 0..6 {
                if i < k {
                    t *= d;
                }
            }
            want += t;
        }
        s.check(sigma_divisor(6, k) == BigInt::from(want), "the sum of the k-th powers of the divisors");
    }
    sigma_high C23 quick 34 "n = 4, every 0 <= k <= 30: values up to 2^60" "sigma_divisor, Power<i32> for BigInt" s { sigma_4(s, 30); }
    sigma_high_big C23 quick 64 "n = 4, every 0 <= k <= 60: values up to 2^120" "sigma_divisor, Power<i32> for BigInt" s { sigma_4(s, 60); }
    sigma_wide C23 thorough 150 "k = 1, every n <= 100, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 100, 1); }
    sigma_2_wide C23 thorough 50 "k = 2, every n <= 40, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 40, 2); }
    sigma_3_wide C23 thorough 50 "k = 3, every n <= 30, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 30, 3); }
    sigma_7_wide C23 thorough 50 "k = 7, every n <= 20, all negative ones included" "sigma_divisor, Power<i32> for BigInt" s { sigma(s, 20, 7); }
    converter_2 C27 quick 16 "p = 2, every index, every pair of subscripts" "SubscriptedVariableConverter" s { converter(s, 2); }
    converter_3 C27 quick 24 "p = 3, every index, every pair of subscripts" "SubscriptedVariableConverter" s { converter(s, 3); }
    converter_5 C27 quick 48 "p = 5, every index, every pair of subscripts" "SubscriptedVariableConverter" s { converter(s, 5); }
    converter_7 C27 quick 80 "p = 7, every index, every pair of subscripts" "SubscriptedVariableConverter" s { converter(s, 7); }
    refuse_pair_2 C27 quick 16 "p = 2, every pair of integers that is not an ordered pair up to p" "SubscriptedVariableConverter::index_from_variable" s { refuse_pair(s, 2); }
    refuse_pair_5 C27 quick 48 "p = 5, every pair of integers that is not an ordered pair up to p" "SubscriptedVariableConverter::index_from_variable" s { refuse_pair(s, 5); }
    refuse_index_2 C27 quick 16 "p = 2, every index from the count on" "SubscriptedVariableConverter::variable_from_index" s { refuse_index(s, 2); }
    refuse_index_5 C27 quick 48 "p = 5, every index from the count on" "SubscriptedVariableConverter::variable_from_index" s { refuse_index(s, 5); }
    converter_11 C27 thorough 160 "p = 11, every index, every pair of subscripts" "SubscriptedVariableConverter" s { converter(s, 11); }
    term_product C30 quick 6 "every two terms, at most one with a variable; powers up to 2^30 in absolute value, coefficients up to 2^20" "Mul for Term" s {
        let (a, b) = (part(s), part(s));
        s.assume(a.monomial.variable.empty || b.monomial.variable.empty);
        let v = if a.monomial.variable.empty { b.monomial.variable } else { a.monomial.variable };
        let c = &a.coef * &b.coef;
        let (x, y, q) = (a.monomial.xpow + b.monomial.xpow, a.monomial.ypow + b.monomial.ypow, a.monomial.qpow + b.monomial.qpow);
        is(s, &(&a * &b), &c, x, y, q, &v);
        is(s, &(a * b), &c, x, y, q, &v);
    }
    term_quotient C30 quick 6 "every two terms, the divisor without a variable and its coefficient a factor; powers up to 2^30 in absolute value, coefficients up to 2^15" "Div for Term" s {
        let (mut a, b) = (part(s), part(s));
        let (k, d) = (s.within(-128, 128), s.within(-128, 128));
        s.assume(b.monomial.variable.empty && d != 0);
        let b = Term { coef: BigInt::from(d), monomial: b.monomial };
        a.coef = BigInt::from(k * d);
        let (x, y, q) = (a.monomial.xpow - b.monomial.xpow, a.monomial.ypow - b.monomial.ypow, a.monomial.qpow - b.monomial.qpow);
        is(s, &(&a / &b), &BigInt::from(k), x, y, q, &a.monomial.variable);
    }
    term_negation C30 quick 6 "every term; powers up to 2^30 in absolute value, coefficients up to 2^20" "Neg for Term, Term::from, accessors, is_equal_order, has_x, has_y, has_q" s {
        let (a, b) = (part(s), part(s));
        let m = a.monomial;
        let c = BigInt::from(-1) * &a.coef;
        is(s, &(-&a), &c, m.xpow, m.ypow, m.qpow, &m.variable);
        is(s, &Term::from(&m, &c), &c, m.xpow, m.ypow, m.qpow, &m.variable);
        s.check(a.has_x() == (m.xpow != 0) && a.has_y() == (m.ypow != 0) && a.has_q() == (m.qpow != 0), "which powers occur");
        let n = b.monomial;
        s.check(a.is_equal_order(&b) == (m.xpow == n.xpow && m.ypow == n.ypow && m.qpow == n.qpow), "equal powers");
    }
    term_builder C30 quick 6 "every setting of the builder" "TermBuilder" s {
        let (c, x, y, q) = (s.i32(), s.i32(), s.i32(), s.i32());
        let (i, j) = (s.within(0, i32::MAX), s.within(0, i32::MAX));
        let v = SubscriptedVariable { i, j, empty: false };
        let none = SubscriptedVariable { i: 0, j: 0, empty: true };
        is(s, &TermBuilder::new().build(), &BigInt::from(1), 0, 0, 0, &none);
        is(s, &TermBuilder::new().xpow(x).qpow(q).build(), &BigInt::from(1), x, 0, q, &none);
        is(s, &TermBuilder::new().coef(c).ypow(y).build(), &BigInt::from(c), 0, y, 0, &none);
        is(s, &TermBuilder::new().coef(&BigInt::from(c)).xpow(x).ypow(y).qpow(q).variable_ij(i, j).build(), &BigInt::from(c), x, y, q, &v);
        is(s, &TermBuilder::new().variable(v).coef(BigInt::from(c)).build(), &BigInt::from(c), 0, 0, 0, &v);
    }
    term_maps C30 quick 6 "every term, multipliers up to 2^12 in absolute value, powers up to 2^18" "Term::to_frob, to_y_power, to_q_power" s {
        let (c, n) = (s.i32(), s.within(-4096, 4096));
        let (x, y, q) = (s.within(-262144, 262144), s.within(-262144, 262144), s.within(-262144, 262144));
        let v = variable(s);
        let a = Term { coef: BigInt::from(c), monomial: Monomial { xpow: x, ypow: y, qpow: q, variable: v } };
        is(s, &a.to_frob(n), &a.coef, x * n, y * n, q, &v);
        is(s, &a.to_y_power(n), &a.coef, x, y * n, q, &v);
        is(s, &a.to_q_power(n), &a.coef, x, y, q * n, &v);
    }
    term_power C30 quick 8 "every term without a variable, exponents 0..=3, powers up to 2^28 in absolute value, coefficients up to 2^5" "Power for Term, Power for BigInt" s {
        let (c, n) = (s.within(-32, 32), s.within(0, 3));
        let (x, y, q) = (s.within(-(1 << 28), 1 << 28), s.within(-(1 << 28), 1 << 28), s.within(-(1 << 28), 1 << 28));
        let none = SubscriptedVariable { i: 0, j: 0, empty: true };
        let a = Term { coef: BigInt::from(c), monomial: Monomial { xpow: x, ypow: y, qpow: q, variable: none } };
        let (mut x1, mut y1, mut q1) = (0, 0, 0);
        let mut c1 = 1i64;
        for i in 0..3 {
            if i < n {
                c1 *= c as i64;
                x1 += x;
                y1 += y;
                q1 += q;
            }
        }
        let r = a.power(n);
        s.check(r.monomial.xpow == x1 && r.monomial.ypow == y1 && r.monomial.qpow == q1 && r.monomial.variable.empty && r.coef == BigInt::from(c1), "coefficient and powers");
        let r = a.power(&BigInt::from(n));
        s.check(r.monomial.xpow == x1 && r.monomial.ypow == y1 && r.monomial.qpow == q1 && r.monomial.variable.empty && r.coef == BigInt::from(c1), "coefficient and powers");
    }
    term_derivative C30 quick 6 "every term with powers 0..=i32::MAX, any variable, coefficients up to 2^20" "Term::derivative_x, derivative_y" s {
        let c = s.within(-COEF, COEF);
        let (x, y, q) = (s.within(0, i32::MAX), s.within(0, i32::MAX), s.i32());
        let v = variable(s);
        let a = Term { coef: BigInt::from(c), monomial: Monomial { xpow: x, ypow: y, qpow: q, variable: v } };
        let r = a.derivative_x();
        s.check(r.coef == BigInt::from(c as i64 * x as i64), "x derivative");
        if x > 0 {
            s.check(r.monomial.xpow == x - 1 && r.monomial.ypow == y && r.monomial.qpow == q && same_variable(&r.monomial.variable, &v), "one power of x less");
        }
        let r = a.derivative_y();
        s.check(r.coef == BigInt::from(c as i64 * y as i64), "y derivative");
        if y > 0 {
            s.check(r.monomial.ypow == y - 1 && r.monomial.xpow == x && r.monomial.qpow == q && same_variable(&r.monomial.variable, &v), "one power of y less");
        }
    }
    monomial_q C30 quick 10 "powers of q 0..=4, q up to 200 in absolute value" "Monomial::eval_q" s {
        let (q, n) = (s.within(-200, 200), s.within(0, 4));
        let m = Monomial { xpow: s.i32(), ypow: s.i32(), qpow: n, variable: variable(s) };
        let mut t = 1;
        for i in 0..4 {
            if i < n {
                t *= q;
            }
        }
        s.check(m.eval_q(q) == t, "q to the power");
    }
}
