//! C17 group law, C18 scalar multiplication, C19 enumeration and orders, C20 torsion and
//! isogenies, C21 j-invariant
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::elliptic_curve::{ECPoint, EllipticCurve};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{ToPrimitive, Zero};

fn pt(x: &BigInt, y: &BigInt) -> ECPoint {
    ECPoint { x: x.clone(), y: y.clone(), z: b(1) }
}
fn inf() -> ECPoint {
    ECPoint { x: b(0), y: b(1), z: b(0) }
}
fn is_inf(p: &ECPoint) -> bool {
    p.z.is_zero()
}
fn zero_mod(v: BigInt, p: &BigInt) -> bool {
    v.mod_floor(p).is_zero()
}
fn same_pt(a: &ECPoint, c: &ECPoint, msg: &str) {
    let (i, j) = (is_inf(a), is_inf(c));
    check(i == j, msg);
    if !i {
        check(a.x == c.x, msg);
        check(a.y == c.y, msg);
        check(a.z == b(1), "an affine point has z = 1");
    }
}
/// the same point, coordinates compared modulo p
fn same_pt_mod(a: &ECPoint, c: &ECPoint, p: &BigInt, msg: &str) {
    let (i, j) = (is_inf(a), is_inf(c));
    check(i == j, msg);
    if !i {
        check(zero_mod(&a.x - &c.x, p), msg);
        check(zero_mod(&a.y - &c.y, p), msg);
    }
}
fn rhs(a: &BigInt, c: &BigInt, x: &BigInt) -> BigInt {
    x * x * x + a * x + c
}
fn nonsingular(a: &BigInt, c: &BigInt, p: &BigInt) -> bool {
    !zero_mod(b(4) * a * a * a + b(27) * c * c, p)
}
fn curve(a: &BigInt, c: &BigInt, p: &BigInt) -> EllipticCurve {
    EllipticCurve::new_raw(a, c, p)
}
/// nonsingular curve with residues a, b
fn any_curve(p: i64) -> (BigInt, BigInt, EllipticCurve) {
    let m = b(p);
    let a = int_in("a", &b(0), &b(p - 1));
    let c = int_in("b", &b(0), &b(p - 1));
    assume(nonsingular(&a, &c, &m));
    let ec = curve(&a, &c, &m);
    (a, c, ec)
}
/// any point of the curve, the identity included
fn any_point(name: &str, a: &BigInt, c: &BigInt, p: i64, identity: bool) -> ECPoint {
    if identity && choose(&format!("{}inf", name), 2) == 1 {
        return inf();
    }
    let x = int_in(&format!("{}x", name), &b(0), &b(p - 1));
    let y = int_in(&format!("{}y", name), &b(0), &b(p - 1));
    assume(zero_mod(&y * &y - rhs(a, c, &x), &b(p)));
    pt(&x, &y)
}
fn on_curve(r: &ECPoint, a: &BigInt, c: &BigInt, p: &BigInt, msg: &str) {
    if !is_inf(r) {
        check(zero_mod(&r.y * &r.y - rhs(a, c, &r.x), p), msg);
        check(in_range(&r.x, p) && in_range(&r.y, p), "reduced coordinates");
        check(r.z == b(1), "an affine point has z = 1");
    }
}

/// chord and tangent, independent of /repo: relations instead of inverses
fn sum_is(p1: &ECPoint, p2: &ECPoint, r: &ECPoint, a: &BigInt, p: &BigInt) {
    if is_inf(p1) {
        same_pt_mod(r, p2, p, "O + Q = Q");
        return;
    }
    if is_inf(p2) {
        same_pt_mod(r, p1, p, "P + O = P");
        return;
    }
    let dx = &p2.x - &p1.x;
    if !zero_mod(dx.clone(), p) {
        let dy = &p2.y - &p1.y;
        check(!is_inf(r), "chord: a finite point");
        check(zero_mod(&dx * &dx * (&r.x + &p1.x + &p2.x) - &dy * &dy, p), "chord: x");
        check(zero_mod(&dx * (&r.y + &p1.y) + &dy * (&r.x - &p1.x), p), "chord: y");
        cover("chord");
    } else if zero_mod(&p1.y + &p2.y, p) {
        check(is_inf(r), "opposite points");
        cover("opposite");
    } else {
        let n = b(3) * &p1.x * &p1.x + a;
        let d = b(2) * &p1.y;
        check(!is_inf(r), "tangent: a finite point");
        check(zero_mod(&d * &d * (&r.x + b(2) * &p1.x) - &n * &n, p), "tangent: x");
        check(zero_mod(&d * (&r.y + &p1.y) + &n * (&r.x - &p1.x), p), "tangent: y");
        cover("tangent");
    }
}

fn c17(v: &mut Vec<Case>) {
    for (p, thorough) in [(5i64, false), (7, false), (11, false), (13, true), (17, true)] {
        let c = Case::new("C17", &format!("sum_mod{}", p), &format!("every nonsingular curve over F_{}, every pair of points, the identity included", p), move || {
            let m = b(p);
            let (a, c, ec) = any_curve(p);
            let q1 = any_point("P", &a, &c, p, true);
            let q2 = any_point("Q", &a, &c, p, true);
            let r = ec.plus(&q1, &q2);
            on_curve(&r, &a, &c, &m, "the sum is on the curve");
            sum_is(&q1, &q2, &r, &a, &m);
            same_pt(&r, &ec.plus(&q2, &q1), "commutative");
            check(ec.is_on_curve(&r), "is_on_curve accepts the sum");
        })
        .covers(&["chord", "opposite", "tangent"])
        .query_ms(200_000)
        .cost(20)
        .fns(&["EllipticCurve::plus, is_on_curve, canonicalize, new_raw", "BigInt::inverse, power_modulo, power", "Polynomial::eval_xy"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, true)] {
        let c = Case::new("C17", &format!("associative_mod{}", p), &format!("every nonsingular curve over F_{}, every triple of points, the identity included", p), move || {
            let (a, c, ec) = any_curve(p);
            let q1 = any_point("P", &a, &c, p, true);
            let q2 = any_point("Q", &a, &c, p, true);
            let q3 = any_point("R", &a, &c, p, true);
            let l = ec.plus(&ec.plus(&q1, &q2), &q3);
            let r = ec.plus(&q1, &ec.plus(&q2, &q3));
            same_pt(&l, &r, "associative");
        })
        .cost(60)
        .fns(&["EllipticCurve::plus"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, false), (13, false), (17, true), (23, true), (31, true)] {
        let c = Case::new("C17", &format!("negation_mod{}", p), &format!("every nonsingular curve over F_{}, every pair of points, the identity included", p), move || {
            let m = b(p);
            let (a, c, ec) = any_curve(p);
            let q = any_point("P", &a, &c, p, true);
            let n = ec.negate(&q);
            on_curve(&n, &a, &c, &m, "the negation is on the curve");
            check(is_inf(&ec.plus(&q, &n)), "P + (-P) = O");
            check(is_inf(&ec.plus(&n, &q)), "(-P) + P = O");
            same_pt(&ec.negate(&n), &q, "-(-P) = P");
            same_pt(&ec.plus(&q, &inf()), &q, "P + O = P");
            same_pt(&ec.plus(&inf(), &q), &q, "O + P = P");
            check(is_inf(&ECPoint::infinity()) && ECPoint::infinity().is_infinity(), "the identity");
            let s = any_point("Q", &a, &c, p, true);
            if is_inf(&ec.plus(&q, &s)) {
                same_pt(&s, &n, "the inverse is unique");
            }
        })
        .cost(15)
        .fns(&["EllipticCurve::negate, plus", "ECPoint::infinity, is_infinity"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, false), (13, true), (23, true), (31, true)] {
        let c = Case::new("C17", &format!("on_curve_mod{}", p), &format!("every curve over F_{}, every pair x, y in -{}..={}", p, p, 2 * p), move || {
            let m = b(p);
            let (a, c, ec) = any_curve(p);
            let x = int_in("x", &b(-p), &b(2 * p));
            let y = int_in("y", &b(-p), &b(2 * p));
            let yes = zero_mod(&y * &y - rhs(&a, &c, &x), &m);
            let q = pt(&x, &y);
            check(ec.is_on_curve(&q) == yes, "is_on_curve");
            check(ec.is_on_curve(&inf()), "the identity is on the curve");
            if !yes {
                check(panics(|| ec.plus(&q, &inf())), "refused as the left operand");
                check(panics(|| ec.plus(&inf(), &q)), "refused as the right operand");
                cover("refused");
            } else {
                cover("accepted");
            }
            let k = ec.canonicalize(&q);
            check(in_range(&k.x, &m) && in_range(&k.y, &m), "canonical coordinates");
            check(zero_mod(&k.x - &x, &m) && zero_mod(&k.y - &y, &m), "canonicalize keeps the point");
        })
        .covers(&["refused", "accepted"])
        .cost(15)
        .fns(&["EllipticCurve::is_on_curve, plus, canonicalize"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, true)] {
        let c = Case::new("C17", &format!("unreduced_mod{}", p), &format!("every nonsingular curve over F_{}, coefficients and every pair of points moved by -1, 0 or 1 times p in each coordinate", p), move || {
            let m = b(p);
            let (a, c, ec) = any_curve(p);
            let q1 = any_point("P", &a, &c, p, false);
            let q2 = any_point("Q", &a, &c, p, false);
            let shift = |n: &str| b((choose(n, 3) as i64 - 1) * p);
            let u1 = pt(&(&q1.x + shift("sx")), &(&q1.y + shift("sy")));
            let u2 = pt(&(&q2.x + shift("tx")), &(&q2.y + shift("ty")));
            let r = ec.plus(&q1, &q2);
            same_pt(&ec.plus(&u1, &u2), &r, "the points they reduce to");
            let ea = curve(&(&a + shift("sa")), &(&c - &m), &m);
            same_pt(&ea.plus(&q1, &q2), &r, "the curve its coefficients reduce to");
            same_pt_mod(&ec.negate(&u1), &ec.negate(&q1), &m, "negation");
            check(is_inf(&ec.plus(&u1, &ec.negate(&q1))), "P' + (-P) = O");
        })
        .cost(40)
        .fns(&["EllipticCurve::plus, negate, canonicalize, is_on_curve"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    // large primes: the points are the inputs
    for (pn, p) in [("m61", m61()), ("secp256k1", secp_p()), ("1e9_7", b(1_000_000_007))] {
        let top = |p: &BigInt| p - b(1);
        let pp = p.clone();
        v.push(
            Case::new("C17", &format!("chord_{}", pn), &format!("any curve modulo {} through any two points with different x, b not 0", p), move || {
                let (x1, x2, a) = (int_in("x1", &b(0), &top(&pp)), int_in("x2", &b(0), &top(&pp)), int_in("a", &b(0), &top(&pp)));
                let (y1, y2) = (int_in("y1", &b(0), &top(&pp)), int_in("y2", &b(0), &top(&pp)));
                let c = &y1 * &y1 - &x1 * &x1 * &x1 - &a * &x1;
                assume_nonzero(&c, &b(0));
                assume_square(&y2, &rhs(&a, &c, &x2), &pp);
                assume(x1 != x2);
                let ec = curve(&a, &c, &pp);
                let (q1, q2) = (pt(&x1, &y1), pt(&x2, &y2));
                let r = ec.plus(&q1, &q2);
                sum_is(&q1, &q2, &r, &a, &pp);
                on_curve(&r, &a, &c, &pp, "the sum is on the curve");
                same_pt(&ec.plus(&q2, &q1), &r, "commutative");
            })
            .cost(10)
            .fns(&["EllipticCurve::plus, is_on_curve"]),
        );
        let pp = p.clone();
        v.push(
            Case::new("C17", &format!("tangent_{}", pn), &format!("any curve modulo {} through any point, the order 2 points included", p), move || {
                let (x1, a) = (int_in("x1", &b(0), &top(&pp)), int_in("a", &b(0), &top(&pp)));
                let y1 = int_in("y1", &b(0), &top(&pp));
                let c = &y1 * &y1 - &x1 * &x1 * &x1 - &a * &x1;
                let ec = curve(&a, &c, &pp);
                let q = pt(&x1, &y1);
                let r = ec.plus(&q, &q);
                check(is_inf(&r) == y1.is_zero(), "identity exactly for the points of order 2");
                if !y1.is_zero() {
                    sum_is(&q, &q, &r, &a, &pp);
                    on_curve(&r, &a, &c, &pp, "the double is on the curve");
                    cover("tangent");
                } else {
                    cover("order 2");
                }
                let n = ec.negate(&q);
                check(is_inf(&ec.plus(&q, &n)), "P + (-P) = O");
                same_pt(&ec.plus(&q, &inf()), &q, "P + O = P");
                same_pt(&ec.plus(&inf(), &q), &q, "O + P = P");
            })
            .covers(&["tangent", "order 2"])
            .cost(10)
            .fns(&["EllipticCurve::plus, negate, is_on_curve"]),
        );
        let pp = p.clone();
        let c = Case::new("C17", &format!("associative_{}", pn), &format!("any curve modulo {} through any three points in general position (a, b not 0)", p), move || {
            let (x1, x2, x3) = (int_in("x1", &b(0), &top(&pp)), int_in("x2", &b(0), &top(&pp)), int_in("x3", &b(0), &top(&pp)));
            let (y1, y2, y3) = (int_in("y1", &b(0), &top(&pp)), int_in("y2", &b(0), &top(&pp)), int_in("y3", &b(0), &top(&pp)));
            let a = int_in("a", &b(0), &top(&pp));
            let c = &y1 * &y1 - &x1 * &x1 * &x1 - &a * &x1;
            assume_square(&y2, &rhs(&a, &c, &x2), &pp);
            assume_square(&y3, &rhs(&a, &c, &x3), &pp);
            assume_nonzero(&(&x1 - &x2), &pp);
            assume_nonzero(&(&x2 - &x3), &pp);
            assume_nonzero(&a, &pp);
            assume_nonzero(&c, &b(0));
            let ec = curve(&a, &c, &pp);
            let (q1, q2, q3) = (pt(&x1, &y1), pt(&x2, &y2), pt(&x3, &y3));
            let q12 = ec.plus(&q1, &q2);
            let q23 = ec.plus(&q2, &q3);
            assume_nonzero(&(&q12.x - &x3), &pp);
            assume_nonzero(&(&q23.x - &x1), &pp);
            same_pt(&ec.plus(&q12, &q3), &ec.plus(&q1, &q23), "associative");
        })
        .cost(60)
        .query_ms(60_000)
        .fns(&["EllipticCurve::plus, is_on_curve"]);
        v.push(c);
        let pp = p.clone();
        let c = Case::new("C17", &format!("associative_equal_{}", pn), &format!("any curve modulo {} through any two points in general position (a, b not 0): (P+P)+Q = P+(P+Q), (P+Q)+(-Q) = P", p), move || {
            let (x1, x2, a) = (int_in("x1", &b(0), &top(&pp)), int_in("x2", &b(0), &top(&pp)), int_in("a", &b(0), &top(&pp)));
            let (y1, y2) = (int_in("y1", &b(0), &top(&pp)), int_in("y2", &b(0), &top(&pp)));
            let c = &y1 * &y1 - &x1 * &x1 * &x1 - &a * &x1;
            assume_square(&y2, &rhs(&a, &c, &x2), &pp);
            assume_nonzero(&(&x1 - &x2), &pp);
            assume_nonzero(&y1, &pp);
            assume_nonzero(&a, &pp);
            assume_nonzero(&c, &b(0));
            let ec = curve(&a, &c, &pp);
            let (q1, q2) = (pt(&x1, &y1), pt(&x2, &y2));
            let d = ec.plus(&q1, &q1);
            let s = ec.plus(&q1, &q2);
            assume_nonzero(&(&d.x - &x2), &pp);
            assume_nonzero(&(&s.x - &x1), &pp);
            assume_nonzero(&(&s.x - &x2), &pp);
            same_pt(&ec.plus(&d, &q2), &ec.plus(&q1, &s), "(P+P)+Q = P+(P+Q)");
            same_pt(&ec.plus(&s, &ec.negate(&q2)), &q1, "(P+Q)-Q = P");
        })
        .cost(30)
        .query_ms(60_000)
        .fns(&["EllipticCurve::plus, negate, is_on_curve"]);
        v.push(c);
    }
}

/// n-fold sum by repeated addition
fn fold(ec: &EllipticCurve, q: &ECPoint, n: i64) -> ECPoint {
    let mut r = inf();
    for _ in 0..n.abs() {
        r = ec.plus(&r, q);
    }
    if n < 0 {
        r = ec.negate(&r);
    }
    r
}

fn c18(v: &mut Vec<Case>) {
    for (p, top, thorough) in [(5i64, 12i64, false), (7, 9, false), (11, 5, false), (5, 40, false), (7, 20, false), (11, 12, true), (13, 9, true)] {
        let c = Case::new("C18", &format!("mod{}_{}", p, top), &format!("every nonsingular curve over F_{}, every point, the identity included, every scalar -{}..={}", p, top, top), move || {
            let m = b(p);
            let (a, c, ec) = any_curve(p);
            let q = any_point("P", &a, &c, p, true);
            let n = choose("n", 2 * top as usize + 1) as i64 - top;
            let r = ec.multiply_scalar(&q, &b(n));
            same_pt(&r, &fold(&ec, &q, n), "the n-fold sum");
            on_curve(&r, &a, &c, &m, "on the curve");
            cover(if n < 0 { "negative" } else if n == 0 { "zero" } else { "positive" });
        })
        .tables()
        .covers(&["negative", "zero", "positive"])
        .cost(40)
        .fns(&["EllipticCurve::multiply_scalar, plus, negate"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, top, thorough) in [(5i64, 4i64, false), (7, 3, false), (7, 6, false), (11, 4, true)] {
        let c = Case::new("C18", &format!("laws_mod{}_{}", p, top), &format!("every nonsingular curve over F_{}, every point, every pair of scalars -{}..={}", p, top, top), move || {
            let (a, c, ec) = any_curve(p);
            let q = any_point("P", &a, &c, p, true);
            let i = choose("i", 2 * top as usize + 1) as i64 - top;
            let j = choose("j", 2 * top as usize + 1) as i64 - top;
            let mul = |n: i64, q: &ECPoint| ec.multiply_scalar(q, &b(n));
            same_pt(&mul(i + j, &q), &ec.plus(&mul(i, &q), &mul(j, &q)), "(m+n) P = m P + n P");
            same_pt(&mul(i * j, &q), &mul(i, &mul(j, &q)), "(m n) P = m (n P)");
        })
        .tables()
        .cost(40)
        .fns(&["EllipticCurve::multiply_scalar"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    v.push(
        Case::new("C18", "symbolic_scalar", "every nonsingular curve over F_5, every point, symbolic scalar -12..=12", || {
            let (a, c, ec) = any_curve(5);
            let q = any_point("P", &a, &c, 5, true);
            let n = int_in("n", &b(-12), &b(12));
            let r = ec.multiply_scalar(&q, &n);
            let n = settle("n", -12, 12, &n).to_i64().unwrap();
            same_pt(&r, &fold(&ec, &q, n), "the n-fold sum");
        })
        .tables()
        .cost(40)
        .fns(&["EllipticCurve::multiply_scalar"]),
    );
    for (p, top, thorough) in [(5i64, 24i64, false), (7, 28, false), (11, 20, false), (13, 22, true), (11, 40, true), (17, 40, true)] {
        let c = Case::new("C18", &format!("listed_mod{}_{}", p, top), &format!("every nonsingular curve over F_{} made with its points listed, every point of it, every scalar -{}..={}", p, top, top), move || {
            let (_, _, ec) = enumerated(p);
            for q in &ec.points {
                let mut r = inf();
                for n in 0..=top {
                    same_pt(&ec.multiply_scalar(q, &b(n)), &r, "the n-fold sum");
                    same_pt(&ec.multiply_scalar(q, &b(-n)), &ec.negate(&r), "the n-fold sum of the negative");
                    r = ec.plus(&r, q);
                }
            }
        })
        .tables()
        .cost(60)
        .fuel(40_000_000)
        .fns(&["EllipticCurve::new, multiply_scalar, plus, negate"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    // scalars around the limits of the machine integers, on points whose order is found by
    // repeated addition
    let all = vec![8u32, 16, 31, 32, 53, 63, 64, 127, 128, 256];
    for (p, ks, name, thorough) in [(5i64, all.clone(), "", false), (7, vec![32u32, 64], "_few", false), (7, all.clone(), "", true), (11, vec![32, 64, 256], "_few", true)] {
        let c = Case::new("C18", &format!("large_scalars_mod{}{}", p, name), &format!("every nonsingular curve over F_{} made with its points listed, every point of it, scalars +-(2^k + d) for k in {:?} and d in -1, 0, 1, 2", p, ks), move || {
            let (_, _, ec) = enumerated(p);
            let k = ks[choose("k", ks.len())];
            let d = choose("d", 4) as i64 - 1;
            let mut n = b(1);
            for _ in 0..k {
                n = &n + &n;
            }
            let n = n + b(d);
            let minus = b(0) - &n;
            for q in &ec.points {
                let mut m = vec![inf()];
                loop {
                    let next = ec.plus(&m[m.len() - 1], q);
                    if is_inf(&next) {
                        break;
                    }
                    m.push(next);
                }
                let r = n.mod_floor(&b(m.len() as i64)).to_i64().unwrap() as usize;
                same_pt(&ec.multiply_scalar(q, &n), &m[r], "the n-fold sum, n modulo the order of the point");
                same_pt(&ec.multiply_scalar(q, &minus), &ec.negate(&m[r]), "the n-fold sum of the negative");
            }
        })
        .tables()
        .cost(60)
        .fuel(40_000_000)
        .fns(&["EllipticCurve::new, multiply_scalar, plus, negate"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (pn, p, top, thorough) in [("m61", m61(), 5i64, false), ("secp256k1", secp_p(), 4, false), ("m61", m61(), 6, true)] {
        let t = &p - b(1);
        let c = Case::new("C18", &format!("{}_{}", pn, top), &format!("any curve modulo {} through any point in general position, scalars -{}..={}", p, top, top), move || {
            let (x, y, a) = (int_in("x", &b(0), &t), int_in("y", &b(0), &t), int_in("a", &b(0), &t));
            let c = &y * &y - &x * &x * &x - &a * &x;
            assume_nonzero(&a, &p);
            assume_nonzero(&c, &b(0));
            let ec = curve(&a, &c, &p);
            let q = pt(&x, &y);
            // multiples 1..=top different from each other and from the identity
            let mut m = vec![q.clone()];
            assume_nonzero(&y, &p);
            for i in 1..top {
                let next = if i == 1 { ec.plus(&q, &q) } else { ec.plus(&m[i as usize - 1], &q) };
                assume(!is_inf(&next));
                for o in &m {
                    assume_nonzero(&(&o.x - &next.x), &p);
                }
                m.push(next);
            }
            for n in 1..=top {
                let r = ec.multiply_scalar(&q, &b(n));
                same_pt(&r, &m[n as usize - 1], "the n-fold sum");
                let s = ec.multiply_scalar(&q, &b(-n));
                check(!is_inf(&s), "finite");
                check(s.x == r.x, "-n P has the same x");
                check(zero_mod(&s.y + &r.y, &p), "-n P has the opposite y");
            }
            check(is_inf(&ec.multiply_scalar(&q, &b(0))), "0 P = O");
            check(is_inf(&ec.multiply_scalar(&inf(), &b(top))), "n O = O");
        })
        .cost(40)
        .query_ms(60_000)
        .fns(&["EllipticCurve::multiply_scalar, plus, negate"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

fn enumerated(p: i64) -> (BigInt, BigInt, EllipticCurve) {
    let m = b(p);
    let a = int_in("a", &b(0), &b(p - 1));
    let c = int_in("b", &b(0), &b(p - 1));
    if p > 3 {
        assume(nonsingular(&a, &c, &m));
    }
    let ec = EllipticCurve::new(&a, &c, &m);
    (a, c, ec)
}

fn c19(v: &mut Vec<Case>) {
    for (p, thorough) in [(2i64, false), (3, false), (5, false), (7, false), (11, false), (13, false), (17, true), (19, true), (23, true)] {
        let c = Case::new("C19", &format!("points_mod{}", p), &format!("every curve over F_{}{}, every pair of residues x, y", p, if p > 3 { " (nonsingular)" } else { "" }), move || {
            let m = b(p);
            let (a, c, ec) = enumerated(p);
            let pts = ec.points();
            check(ec.cardinality() == pts.len(), "cardinality is their number");
            check(ec.a == a && ec.b == c && ec.p == m, "the parameters given");
            let mut infinite = 0;
            for (i, q) in pts.iter().enumerate() {
                if is_inf(q) {
                    infinite += 1;
                    continue;
                }
                check(in_range(&q.x, &m) && in_range(&q.y, &m), "reduced coordinates");
                check(q.z == b(1), "an affine point has z = 1");
                check(zero_mod(&q.y * &q.y - rhs(&a, &c, &q.x), &m), "every listed point is a solution");
                for r in pts.iter().take(i) {
                    check(is_inf(r) || r.x != q.x || r.y != q.y, "listed once");
                }
            }
            check(infinite == 1, "the identity once");
            let x = int_in("x", &b(0), &b(p - 1));
            let y = int_in("y", &b(0), &b(p - 1));
            if zero_mod(&y * &y - rhs(&a, &c, &x), &m) {
                check(pts.iter().any(|q| !is_inf(q) && q.x == x && q.y == y), "every solution is listed");
                cover("a point");
            }
        })
        .tables()
        .covers(&["a point"])
        .cost(30)
        .fuel(4_000_000)
        .fns(&["EllipticCurve::new, create_points, points, cardinality, negate"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, false), (13, true)] {
        let c = Case::new("C19", &format!("order_mod{}", p), &format!("every nonsingular curve over F_{}, every listed point", p), move || {
            let (_, _, ec) = enumerated(p);
            let n = ec.cardinality() as i64;
            let k = choose("k", 2 * p as usize + 2);
            assume(k < ec.points.len());
            let q = ec.points[k].clone();
            let o = ec.point_order(&q);
            check(o > b(0), "positive");
            let o = o.to_i64().unwrap();
            let mut r = inf();
            for i in 1..=o {
                r = ec.plus(&r, &q);
                check(is_inf(&r) == (i == o), "the least multiple that is the identity");
            }
            check(n % o == 0, "divides the cardinality");
            cover(if o == 1 { "identity" } else { "finite" });
        })
        .tables()
        .covers(&["identity", "finite"])
        .cost(60)
        .fuel(4_000_000)
        .fns(&["EllipticCurve::point_order, cardinality, plus"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, thorough) in [(5i64, false), (7, false), (11, true)] {
        let c = Case::new("C19", &format!("order_any_mod{}", p), &format!("every nonsingular curve over F_{} and symbolic point of it", p), move || {
            let (a, c, ec) = any_curve(p);
            let q = any_point("P", &a, &c, p, false);
            let o = ec.point_order(&q).to_i64().unwrap();
            let mut r = inf();
            for i in 1..=o {
                r = ec.plus(&r, &q);
                check(is_inf(&r) == (i == o), "the least multiple that is the identity");
            }
        })
        .tables()
        .cost(30)
        .fns(&["EllipticCurve::point_order, plus"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    v.push(
        Case::new("C19", "not_prime", "any integers a, b; moduli 0, 1, 4, 6, 9, 15 refused", || {
            let p = b([0, 1, 4, 6, 9, 15][choose("p", 6)]);
            let (a, c) = (int("a"), int("b"));
            check(panics(|| EllipticCurve::new(&a, &c, &p)), "refused");
        })
        .fns(&["EllipticCurve::new"]),
    );
}

fn c20(v: &mut Vec<Case>) {
    for (p, top, thorough) in [(5i64, 10i64, false), (7, 6, false), (11, 4, false), (7, 14, false), (11, 12, false), (13, 8, false), (17, 10, true)] {
        let c = Case::new("C20", &format!("torsion_mod{}_{}", p, top), &format!("every nonsingular curve over F_{}, orders -2..={}", p, top), move || {
            let (_, _, ec) = enumerated(p);
            let n = choose("n", top as usize + 3) as i64 - 2;
            let d = ec.division_points(&b(n));
            let d: &Vec<ECPoint> = &d;
            let same = |x: &ECPoint, y: &ECPoint| is_inf(x) == is_inf(y) && (is_inf(x) || (x.x == y.x && x.y == y.y));
            for q in &ec.points {
                let count = d.iter().filter(|x| same(x, q)).count();
                let yes = is_inf(&fold(&ec, q, n));
                check(count == if yes { 1 } else { 0 }, "exactly the points annihilated, each once");
            }
            for q in d.iter() {
                check(ec.points.iter().any(|x| same(x, q)), "points of the curve");
            }
            cover(if d.len() > 1 { "torsion" } else { "trivial" });
        })
        .tables()
        .covers(&["torsion", "trivial"])
        .cost(60)
        .fuel(4_000_000)
        .fns(&["EllipticCurve::division_points, multiply_scalar"]);
        v.push(if thorough { c.thorough() } else { c });
    }
    for (p, top, thorough) in [(5i64, 10i64, false), (7, 7, false), (11, 4, false), (11, 12, false), (13, 8, false), (17, 6, true)] {
        let c = Case::new("C20", &format!("isogeny_mod{}_{}", p, top), &format!("every nonsingular curve over F_{}, kernels of the points of order dividing 1..={}", p, top), move || {
            let m = b(p);
            let (_, _, ec) = enumerated(p);
            let n = choose("n", top as usize) as i64 + 1;
            let size = ec.division_points(&b(n)).len();
            let e2 = ec.isogeny(&b(n));
            check(e2.p == m, "over the same field");
            check(in_range(&e2.a, &m) && in_range(&e2.b, &m), "reduced coefficients");
            check(nonsingular(&e2.a, &e2.b, &m), "nonsingular");
            check(e2.cardinality() == ec.cardinality(), "the same number of points");
            if size == 1 {
                check(e2.j_invariant() == ec.j_invariant(), "trivial kernel: the same curve up to isomorphism");
            }
            cover(if size > 1 { "isogeny" } else { "trivial kernel" });
        })
        .tables()
        .covers(&["isogeny", "trivial kernel"])
        .cost(60)
        .fuel(4_000_000)
        .fns(&["EllipticCurve::isogeny, division_points, create_points"]);
        v.push(if thorough { c.thorough() } else { c });
    }
}

fn c21(v: &mut Vec<Case>) {
    for p in [3i64, 5, 7, 11, 13, 17, 23, 31, 43] {
        v.push(
            Case::new("C21", &format!("formula_mod{}", p), &format!("every nonsingular curve over F_{}, coefficients in -{}..={}", p, p, 2 * p), move || {
                let m = b(p);
                let a = int_in("a", &b(-p), &b(2 * p));
                let c = int_in("b", &b(-p), &b(2 * p));
                assume(nonsingular(&a, &c, &m));
                let j = curve(&a, &c, &m).j_invariant();
                check(in_range(&j, &m), "in [0, p)");
                let n = b(4) * ipow(&a, 3);
                check(zero_mod(&j * (&n + b(27) * ipow(&c, 2)) - b(1728) * &n, &m), "1728 * 4a^3 / (4a^3 + 27b^2)");
                check(j.is_zero() == (a.mod_floor(&m).is_zero() || p == 3), "0 exactly for a = 0");
                check(zero_mod(&j - b(1728), &m) == (c.mod_floor(&m).is_zero() || p == 3), "1728 exactly for b = 0");
            })
            .tables()
        .cost(8)
            .fns(&["EllipticCurve::j_invariant", "BigInt::inverse"]),
        );
        if p > 3 && p < 20 {
            let c = Case::new("C21", &format!("isomorphic_mod{}", p), &format!("every nonsingular curve over F_{}, every nonzero u: the curve (a u^2, b u^3)", p), move || {
                let m = b(p);
                let (a, c, ec) = any_curve(p);
                let u = int_in("u", &b(1), &b(p - 1));
                let a2 = (&a * ipow(&u, 2)).mod_floor(&m);
                let c2 = (&c * ipow(&u, 3)).mod_floor(&m);
                check(curve(&a2, &c2, &m).j_invariant() == ec.j_invariant(), "the same j-invariant");
            })
            .cost(8)
            .fns(&["EllipticCurve::j_invariant"]);
            v.push(c);
            let c = Case::new("C21", &format!("twists_mod{}", p), &format!("every two nonsingular curves over F_{} with the same j-invariant", p), move || {
                let m = b(p);
                let (a, c, ec) = any_curve(p);
                let a2 = int_in("a2", &b(0), &b(p - 1));
                let c2 = int_in("b2", &b(0), &b(p - 1));
                assume(nonsingular(&a2, &c2, &m));
                if curve(&a2, &c2, &m).j_invariant() == ec.j_invariant() {
                    check(a.is_zero() == a2.is_zero(), "twists: a");
                    check(c.is_zero() == c2.is_zero(), "twists: b");
                    check(zero_mod(ipow(&a, 3) * ipow(&c2, 2) - ipow(&a2, 3) * ipow(&c, 2), &m), "twists: some u with a' = a u^4, b' = b u^6");
                    cover("same");
                } else {
                    cover("different");
                }
            })
            .covers(&["same", "different"])
            .cost(20)
            .fns(&["EllipticCurve::j_invariant"]);
            v.push(c);
        }
    }
    for (pn, p) in [("m61", m61()), ("secp256k1", secp_p()), ("1e9_7", b(1_000_000_007))] {
        let pp = p.clone();
        v.push(
            Case::new("C21", &format!("formula_{}", pn), &format!("every nonsingular curve modulo {}", p), move || {
                let t = &pp - b(1);
                let (a, c) = (int_in("a", &b(0), &t), int_in("b", &b(0), &t));
                let d = b(4) * ipow(&a, 3) + b(27) * ipow(&c, 2);
                assume_nonzero(&d, &pp);
                let j = curve(&a, &c, &pp).j_invariant();
                check(in_range(&j, &pp), "in [0, p)");
                check(zero_mod(&j * &d - b(1728) * b(4) * ipow(&a, 3), &pp), "1728 * 4a^3 / (4a^3 + 27b^2)");
            })
            .cost(5)
            .fns(&["EllipticCurve::j_invariant"]),
        );
        let pp = p.clone();
        v.push(
            Case::new("C21", &format!("isomorphic_{}", pn), &format!("every nonsingular curve modulo {}, every nonzero u", p), move || {
                let t = &pp - b(1);
                let (a, c, u) = (int_in("a", &b(0), &t), int_in("b", &b(0), &t), int_in("u", &b(1), &t));
                let d = b(4) * ipow(&a, 3) + b(27) * ipow(&c, 2);
                assume_nonzero(&d, &pp);
                let (e, f) = if choose("twist", 2) == 1 { (2, 3) } else { (4, 6) };
                let a2 = &a * ipow(&u, e);
                let c2 = &c * ipow(&u, f);
                check(curve(&a2, &c2, &pp).j_invariant() == curve(&a, &c, &pp).j_invariant(), "the same j-invariant");
            })
            .cost(5)
            .fns(&["EllipticCurve::j_invariant"]),
        );
    }
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    c17(&mut v);
    c18(&mut v);
    c19(&mut v);
    c20(&mut v);
    c21(&mut v);
    v
}
