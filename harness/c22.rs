//! C22 printed forms
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Zero};

struct Reader {
    s: Vec<char>,
    i: usize,
}

impl Reader {
    fn blank(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == ' ' {
            self.i += 1;
        }
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).cloned()
    }
    fn number(&mut self) -> Option<BigInt> {
        let st = self.i;
        while self.i < self.s.len() && is_number_char(self.s[self.i]) {
            self.i += 1;
        }
        parse_int(&self.s[st..self.i].iter().collect::<String>())
    }
    fn small(&mut self) -> Option<i32> {
        let neg = self.peek() == Some('-');
        if neg {
            self.i += 1;
        }
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let n: i32 = self.s[st..self.i].iter().collect::<String>().parse().ok()?;
        Some(if neg { -n } else { n })
    }
    /// terms in the order printed; None: not a polynomial in the usual notation
    fn terms(&mut self) -> Option<Vec<(Key, BigInt)>> {
        let mut v = vec![];
        loop {
            self.blank();
            if self.i == self.s.len() {
                return if v.is_empty() { None } else { Some(v) };
            }
            let mut neg = false;
            match self.peek() {
                Some('-') => {
                    neg = true;
                    self.i += 1;
                }
                Some('+') if !v.is_empty() => self.i += 1,
                _ if v.is_empty() => {}
                _ => return None,
            }
            self.blank();
            let mut c = None;
            if is_number_char(self.peek()?) {
                let n = self.number()?;
                check(n >= BigInt::zero(), "magnitudes are printed without a second sign");
                c = Some(n);
            }
            let mut k: Key = (0, 0, 0, None);
            let mut any = false;
            loop {
                self.blank();
                match self.peek() {
                    Some(f @ ('x' | 'y' | 'q')) => {
                        self.i += 1;
                        let mut e = 1;
                        if self.peek() == Some('^') {
                            self.i += 1;
                            e = self.small()?;
                            if e == 0 || e == 1 {
                                return None;
                            }
                        }
                        let slot = match f {
                            'x' => &mut k.0,
                            'y' => &mut k.1,
                            _ => &mut k.2,
                        };
                        if *slot != 0 {
                            return None;
                        }
                        *slot = e;
                        any = true;
                    }
                    Some('c') => {
                        self.i += 1;
                        if self.peek() != Some('_') {
                            return None;
                        }
                        self.i += 1;
                        let i = self.small()?;
                        if self.peek() != Some('_') {
                            return None;
                        }
                        self.i += 1;
                        let j = self.small()?;
                        if k.3.is_some() {
                            return None;
                        }
                        k.3 = Some((i, j));
                        any = true;
                    }
                    _ => break,
                }
            }
            match &c {
                None if !any => return None,
                Some(n) if any => {
                    check(!n.is_one(), "a unit coefficient is omitted");
                }
                _ => {}
            }
            let c = c.unwrap_or_else(BigInt::one);
            v.push((k, if neg { -c } else { c }));
        }
    }
}

fn read(s: &str) -> Option<Vec<(Key, BigInt)>> {
    Reader { s: s.chars().collect(), i: 0 }.terms()
}

fn reads_back(p: &Ref) {
    let s = pol(p).to_string();
    let v = match read(&s) {
        None => {
            check(false, "readable");
            return;
        }
        Some(v) => v,
    };
    if p.is_empty() {
        check(v.len() == 1 && v[0].0 == xk(0) && v[0].1.is_zero(), "0 for zero");
        return;
    }
    check(v.len() == p.len(), "as many terms");
    for w in v.windows(2) {
        let (a, c) = (&w[0].0, &w[1].0);
        // variables absent come last
        check((a.0, a.1, a.2, a.3) > (c.0, c.1, c.2, c.3), "highest term first");
    }
    for (k, c) in &v {
        check(!c.is_zero() && rcoef(p, k) == *c, "the same terms");
    }
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    for (name, keys) in [
        ("x", vec![xk(5), xk(2), xk(1), xk(0)]),
        ("xy", vec![xyk(2, 1), xyk(1, 2), xyk(1, 1), xyk(0, 1)]),
        ("q", vec![qk(3), qk(1), qk(0), qk(-1), qk(-12)]),
        ("mixed", vec![(1, 1, 1, None), (2, 3, 4, None), (1, 0, -2, None), (0, 10, 1, None)]),
        ("variables", vec![(0, 0, 1, Some((0, 1))), (0, 0, 0, Some((2, 13))), (1, 0, 0, Some((1, 1))), (0, 0, 0, Some((0, 0))), xk(0)]),
        ("single", vec![xyk(1, 0)]),
        ("constant", vec![xk(0)]),
    ] {
        v.push(
            Case::new("C22", &format!("polynomial_{}", name), &format!("any integer coefficients (zero: no such term) of {} monomials", keys.len()), move || {
                reads_back(&any_ref("c", &keys));
            })
            .cost(3)
            .fns(&["Display for Polynomial, Term, SubscriptedVariable"]),
        );
    }
    v.push(
        Case::new("C22", "term", "any integer coefficient, zero included for x; exponents of x, y 0, 1, 2, 11, of q also -1, -3; no variable, c_0_0, c_1_0, c_12_3", || {
            let k: Key = (
                [0, 1, 2, 11][choose("x", 4)],
                [0, 1, 2, 11][choose("y", 4)],
                [0, 1, 2, -1, -3][choose("q", 5)],
                [None, Some((0, 0)), Some((1, 0)), Some((12, 3))][choose("v", 4)],
            );
            let c = int("c");
            let s = term(&k, &c).to_string();
            match read(&s) {
                Some(t) => {
                    check(t.len() == 1, "one term");
                    check(t[0].1 == c, "coefficient");
                    check(t[0].0 == k, "monomial");
                }
                None => check(false, "readable"),
            }
        })
        .cost(8)
        .fns(&["Display for Term, SubscriptedVariable"]),
    );
    v.push(
        Case::new("C22", "point", "any integer coordinates, z = 0 and z = 1", || {
            let (x, y) = (int("x"), int("y"));
            let z = b(choose("z", 2) as i64);
            let s = ECPoint::new(&x, &y, &z).to_string();
            if z.is_zero() {
                check(s == "O", "O for the identity");
                return;
            }
            check(s == format!("({}, {})", x, y), "the coordinates");
        })
        .fns(&["Display for ECPoint"]),
    );
    v.push(
        Case::new("C22", "point_list", "nonsingular curves over F_5, a, b any residues: the points of the curve, 2-division points included", || {
            let (a, c) = (int_in("a", &b(0), &b(4)), int_in("b", &b(0), &b(4)));
            assume(!(b(4) * ipow(&a, 3) + b(27) * ipow(&c, 2)).mod_floor(&b(5)).is_zero());
            let ec = EllipticCurve::new(&a, &c, &b(5));
            let d = ec.division_points(&b(1));
            check(d.to_string() == "O", "O for the trivial group");
            let v: Vec<String> = ec.points.iter().map(|p| p.to_string()).collect();
            let all = ec.division_points(&b(ec.cardinality() as i64));
            check(all.to_string() == v.join(", "), "every point annihilated by the cardinality, in order");
        })
        .cost(20)
        .fns(&["Display for ECPointVec, ECPoint"]),
    );
    v
}
