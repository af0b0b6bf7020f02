//! C01 integer powers, C02 modular powers and inverses, C03 Bezout, C04 CRT
use super::rt::*;
use super::util::*;
use super::Case;
use ellipticcurve::bigint::{chinese_remainder, extended_gcd, Inverse, ModResult, Power, PowerModulo};
use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::Zero;

/// the exponent as a machine integer (its value is known on the path)
fn count(n: &BigInt) -> u32 {
    let mut k = 0;
    while b(k) != *n {
        k += 1;
    }
    k as u32
}

/// x^n mod p for a concrete n, by repeated multiplication
fn pmod(x: &BigInt, n: u32, p: &BigInt) -> BigInt {
    ipow(x, n).mod_floor(p)
}

const SMALL: [i64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    v.push(
        Case::new("C01", "power_bigint", "any integer base; symbolic exponent 0..=64", || {
            let x = int("x");
            let n = int_in("n", &b(0), &b(64));
            let r: BigInt = x.power(&n);
            let r2: BigInt = x.power(n.clone());
            let k = count(&n);
            check(r == ipow(&x, k), "power(&n) is the n-fold product");
            check(r2 == r, "both BigInt forms agree");
            if k > 0 {
                cover("positive exponent");
            } else {
                cover("zero exponent");
            }
        })
        .covers(&["positive exponent", "zero exponent"])
        .cost(4)
        .fns(&["bigint::Power<&BigInt>::power", "bigint::Power<BigInt>::power"]),
    );
    v.push(
        Case::new("C01", "power_i32", "any integer base; every exponent 0..=64", || {
            let x = int("x");
            let k = choose("n", 65) as i32;
            let r: BigInt = x.power(k);
            check(r == ipow(&x, k as u32), "power(i32) is the n-fold product");
        })
        .cost(4)
        .fns(&["bigint::Power<i32>::power"]),
    );
    v.push(
        Case::new("C01", "exponent_laws", "any integer bases; symbolic exponents m, n in 0..=9", || {
            let x = int("x");
            let y = int("y");
            let m = int_in("m", &b(0), &b(9));
            let n = int_in("n", &b(0), &b(9));
            let xm: BigInt = x.power(&m);
            let xn: BigInt = x.power(&n);
            let s: BigInt = x.power(&(&m + &n));
            check(xm.clone() * &xn == s, "x^m x^n = x^(m+n)");
            let t: BigInt = xm.power(&n);
            let u: BigInt = x.power(&(&m * &n));
            check(t == u, "(x^m)^n = x^(mn)");
            let w: BigInt = (&x * &y).power(&m);
            let yn: BigInt = y.power(&m);
            check(w == xm * yn, "(xy)^m = x^m y^m");
        })
        .cost(6)
        .fns(&["bigint::Power<&BigInt>::power"]),
    );
    v.push(
        Case::new("C01", "power_huge", "any integer base; exponents 2^k, 2^k-1, 2^k+1 for k <= 70 (as exact symbolic powers)", || {
            let x = int("x");
            let k = choose("k", 71) as u32;
            let d = choose("d", 3) as i64 - 1;
            let n = ipow(&b(2), k) + b(d);
            assume(n > b(0));
            not_native_if(k > 12);
            let r: BigInt = x.power(&n);
            let v: BigInt = x.power(n.clone());
            check(v == r, "both BigInt forms agree");
            // x^n * x^2 = x^(n+2), x^(2n) = (x^n)^2
            let r1: BigInt = x.power(&(&n + b(2)));
            check(r1 == &r * &x * &x, "x^(n+2) = x^n x^2");
            let r2: BigInt = x.power(&(&n * b(2)));
            check(r2 == &r * &r, "x^(2n) = (x^n)^2");
        })
        .cost(4)
        .fns(&["bigint::Power<&BigInt>::power"]),
    );
    v.push(
        Case::new("C01", "power_unit", "base -1, 0, 1; exponents 2^k + d, k <= 130, d in -1, 0, 1", || {
            let x = b(choose("x", 3) as i64 - 1);
            let k = choose("k", 131) as u32;
            let d = choose("d", 3) as i64 - 1;
            let n = ipow(&b(2), k) + b(d);
            assume(n > b(0));
            let want = if n.is_odd() { x.clone() } else { &x * &x };
            let r: BigInt = x.power(&n);
            check(r == want, "power(&n) of a unit or 0");
            let r: BigInt = x.power(n.clone());
            check(r == want, "power(n) of a unit or 0");
            if k < 31 {
                let r: BigInt = x.power(((1i64 << k) + d) as i32);
                check(r == want, "power(i32) of a unit or 0");
            }
        })
        .cost(4)
        .fns(&["bigint::Power for BigInt, every form"]),
    );
    v.push(
        Case::new("C01", "power_i32_huge", "any integer base; i32 exponents 2^k, 2^k-1, 2^k+1 for k <= 30 (as exact symbolic powers)", || {
            let x = int("x");
            let k = choose("k", 31) as u32;
            let d = choose("d", 3) as i64 - 1;
            let n = (1i64 << k) + d;
            assume(n > 0);
            not_native_if(k > 12);
            let r: BigInt = x.power(n as i32);
            let r1: BigInt = x.power((n + 2) as i32);
            check(r1 == &r * &x * &x, "x^(n+2) = x^n x^2");
            if n < 1 << 30 {
                let r2: BigInt = x.power((2 * n) as i32);
                check(r2 == &r * &r, "x^(2n) = (x^n)^2");
            }
            let w: BigInt = x.power(&b(n));
            check(w == r, "the i32 and the BigInt form agree");
        })
        .cost(4)
        .fns(&["bigint::Power<i32>::power"]),
    );

    // ---- C02
    v.push(
        Case::new("C02", "power_modulo_huge", "any integer base; exponents 2^k + d for k in 31, 32, 63, 64, 128, 256, 512 and d in -1, 0, 1; moduli 2, 7, 12, 2^31-1, 2^32, 2^64-59 and the secp256k1 prime", || {
            let x = int("x");
            let k = [31u32, 32, 63, 64, 128, 256, 512][choose("k", 7)];
            let n = ipow(&b(2), k) + b(choose("d", 3) as i64 - 1);
            let p = [b(2), b(7), b(12), b((1 << 31) - 1), b(1 << 32), ipow(&b(2), 64) - b(59), secp_p()][choose("p", 7)].clone();
            let r = x.power_modulo(&n, &p);
            check(in_range(&r, &p), "result in [0, p)");
            let mut e = x.mod_floor(&p);
            let mut f = b(1).mod_floor(&p);
            let mut m = n.clone();
            while m > b(0) {
                if m.is_odd() {
                    f = (&f * &e).mod_floor(&p);
                }
                e = (&e * &e).mod_floor(&p);
                m = m / b(2);
            }
            check(r == f, "x^n mod p");
        })
        .cost(10)
        .fns(&["bigint::PowerModulo::power_modulo"]),
    );
    v.push(
        Case::new("C02", "power_modulo_machine", "any integer base; exponents 0..=9; moduli 2^k + d for k in 31, 32, 63, 64 and d in -1, 0, 1", || {
            let x = int("x");
            let p = ipow(&b(2), [31u32, 32, 63, 64][choose("k", 4)]) + b(choose("d", 3) as i64 - 1);
            let n = choose("n", 10) as u32;
            let r = x.power_modulo(&b(n as i64), &p);
            check(in_range(&r, &p), "result in [0, p)");
            check(r == pmod(&x, n, &p), "x^n mod p");
        })
        .cost(10)
        .fns(&["bigint::PowerModulo::power_modulo"]),
    );
    for p in [1i64, 2, 3, 4, 5, 6, 7, 9, 12, 13, 97, 1009] {
        v.push(
            Case::new("C02", &format!("power_modulo_{}", p), &format!("any integer base; symbolic exponent 0..=40; modulus {}", p), move || {
                let x = int("x");
                let p = b(p);
                let n = int_in("n", &b(0), &b(40));
                let r = x.power_modulo(&n, &p);
                let k = count(&n);
                check(in_range(&r, &p), "result in [0, p)");
                check(r == pmod(&x, k, &p), "x^n mod p");
            })
            .cost(4)
            .fns(&["bigint::PowerModulo::power_modulo"]),
        );
    }
    for (n, p) in [("m61", m61 as fn() -> BigInt), ("secp256k1", secp_p)] {
        v.push(
            Case::new("C02", &format!("power_modulo_{}", n), "any integer base; symbolic exponent 0..=33; modulus 2^61-1 resp. the secp256k1 prime", move || {
                let x = int("x");
                let p = p();
                let n = int_in("n", &b(0), &b(33));
                let r = x.power_modulo(&n, &p);
                let k = count(&n);
                check(in_range(&r, &p), "result in [0, p)");
                check(r == pmod(&x, k, &p), "x^n mod p");
            })
            .cost(4)
            .fns(&["bigint::PowerModulo::power_modulo"]),
        );
        v.push(
            Case::new("C02", &format!("inverse_{}", n), "any integer; modulus 2^61-1 resp. the secp256k1 prime", move || {
                let x = int("x");
                let p = p();
                let r = x.inverse(&p);
                check(in_range(&r, &p), "inverse in [0, p)");
                // x * (1/x) is x^(p-1): with Fermat's theorem, which the engine does not use for this p,
                // this is 1; the exponent is what is decided here
                let e = x.power_modulo(&(&p - b(1)), &p);
                check((&x * &r).mod_floor(&p) == e, "x * inverse = x^(p-1)");
                let again = x.power_modulo(&(&p - b(2)), &p);
                check(r == again, "inverse = x^(p-2)");
            })
            .cost(4)
            .fns(&["bigint::Inverse::inverse", "bigint::PowerModulo::power_modulo"]),
        );
    }
    v.push(
        Case::new("C02", "power_modulo_any_p", "any integer base; every modulus 1..=40; every exponent 0..=12", || {
            let x = int("x");
            let p = b(choose("p", 40) as i64 + 1);
            let n = choose("n", 13) as u32;
            let r = x.power_modulo(&b(n as i64), &p);
            check(in_range(&r, &p), "result in [0, p)");
            check(r == pmod(&x, n, &p), "x^n mod p");
        })
        .cost(5)
        .fns(&["bigint::PowerModulo::power_modulo"]),
    );
    v.push(
        Case::new("C02", "inverse_small", "any integer; every prime below 40", || {
            let x = int("x");
            let p = b(SMALL[choose("p", SMALL.len())]);
            let r = x.inverse(&p);
            if !x.mod_floor(&p).is_zero() {
                // F_2: x^0 = 1
                check(in_range(&r, &p), "inverse in [0, p)");
                check((x * r).mod_floor(&p) == b(1), "x * inverse = 1");
                cover("invertible");
            }
        })
        .covers(&["invertible"])
        .fns(&["bigint::Inverse::inverse", "bigint::PowerModulo::power_modulo"]),
    );
    v.push(
        Case::new("C02", "inverse_mid", "any integer; primes 251, 1009", || {
            let x = int("x");
            let p = b([251, 1009][choose("p", 2)]);
            let r = x.inverse(&p);
            if !x.mod_floor(&p).is_zero() {
                check(in_range(&r, &p), "inverse in [0, p)");
                check((x * r).mod_floor(&p) == b(1), "x * inverse = 1");
                cover("invertible");
            }
        })
        .covers(&["invertible"])
        .fns(&["bigint::Inverse::inverse"]),
    );
    v.push(
        Case::new("C02", "inverse_range", "any integer; any modulus below 2 is refused", || {
            let x = int("x");
            let p = int_in("p", &b(-50), &b(1));
            check(panics(|| x.inverse(&p)), "no inverse modulo p < 2");
        })
        .fns(&["bigint::Inverse::inverse"]),
    );

    // ---- C03
    for (name, n) in [("bezout", 16i64), ("bezout_40", 40)] {
        let c = Case::new("C03", name, &format!("all a, b in -{}..={}", n, n), move || {
            let x = int_in("a", &b(-n), &b(n));
            let y = int_in("b", &b(-n), &b(n));
            let (g, s, t) = extended_gcd(x.clone(), y.clone());
            check(&x * &s + &y * &t == g, "a x + b y = g");
            if g.is_zero() {
                check(x.is_zero() && y.is_zero(), "gcd 0 only of (0, 0)");
            } else {
                check(x.mod_floor(&g).is_zero() && y.mod_floor(&g).is_zero(), "g divides a and b");
                cover("nonzero gcd");
            }
        })
        .covers(&["nonzero gcd"])
        .cost(30)
        .fuel(100_000)
        .fns(&["bigint::extended_gcd"]);
        v.push(if n > 16 { c.thorough() } else { c });
    }
    v.push(
        Case::new("C03", "bezout_wide", "0 <= a <= 6, any integer b (unbounded)", || {
            let x = int_in("a", &b(0), &b(6));
            let y = int("b");
            let (g, s, t) = extended_gcd(x.clone(), y.clone());
            check(&x * &s + &y * &t == g, "a x + b y = g");
            if !x.is_zero() {
                check(!g.is_zero(), "gcd of a nonzero number");
                check(x.mod_floor(&g).is_zero() && y.mod_floor(&g).is_zero(), "g divides a and b");
            }
        })
        .cost(10)
        .fns(&["bigint::extended_gcd"]),
    );
    v.push(
        Case::new("C03", "bezout_machine", "a, b within 1 of 0, +-2^31, +-2^32, +-2^63, +-2^64 (symbolic offsets)", || {
            let near = |n: &str| {
                let e = [0u32, 31, 32, 63, 64][choose(&format!("{}e", n), 5)];
                let d = int_in(&format!("{}d", n), &b(-1), &b(1));
                let top = if e == 0 { b(0) } else { b(1) << e as usize };
                if choose(&format!("{}s", n), 2) == 1 { d - top } else { d + top }
            };
            let (x, y) = (near("a"), near("b"));
            let (g, s, t) = extended_gcd(x.clone(), y.clone());
            check(&x * &s + &y * &t == g, "a x + b y = g");
            if g.is_zero() {
                check(x.is_zero() && y.is_zero(), "gcd 0 only of (0, 0)");
            } else {
                check(x.mod_floor(&g).is_zero() && y.mod_floor(&g).is_zero(), "g divides a and b");
                cover("nonzero gcd");
            }
        })
        .covers(&["nonzero gcd"])
        .cost(10)
        .fuel(100_000)
        .fns(&["bigint::extended_gcd"]),
    );

    // ---- C04
    for (name, ls) in [
        ("3_5_7", vec![3i64, 5, 7]),
        ("2_3_5", vec![2, 3, 5]),
        ("4_9_25_7", vec![4, 9, 25, 7]),
        ("1_8_1_11", vec![1, 8, 1, 11]),
        ("single", vec![17]),
        ("none", vec![]),
        ("large", vec![65537, 65536, 1000003]),
        ("machine", vec![(1 << 31) - 1, 1 << 32, (1 << 61) - 1]),
        ("machine_low", vec![3, (1 << 31) - 1, 1 << 31]),
        ("machine_top", vec![i64::MAX, 1 << 62, (1 << 61) - 1]),
        ("many", vec![2, 3, 5, 7, 11, 13, 17]),
    ] {
        let lt = format!("{:?}", ls);
        v.push(
            Case::new("C04", name, &format!("moduli {}; any integer residues", lt), move || {
                let mut list = vec![];
                for (i, l) in ls.iter().enumerate() {
                    list.push(ModResult { l: b(*l), r: int(&format!("r{}", i)) });
                }
                let res = chinese_remainder(&list);
                check(res.l == ls.iter().fold(b(1), |x, y| x * b(*y)), "modulus is the product");
                for m in &list {
                    check((&res.r - &m.r).mod_floor(&m.l).is_zero(), "result congruent to every residue");
                }
            })
            .fns(&["bigint::chinese_remainder", "bigint::extended_gcd"]),
        );
    }
    v.push(
        Case::new("C04", "wide", "moduli 2^64-59, 2^64, 2^127-1, 3 in every order of two of them; any integer residues", || {
            let ls = [ipow(&b(2), 64) - b(59), ipow(&b(2), 64), ipow(&b(2), 127) - b(1), b(3)];
            let (i, j) = (choose("i", 4), choose("j", 4));
            assume(i != j);
            let list = vec![ModResult { l: ls[i].clone(), r: int("r1") }, ModResult { l: ls[j].clone(), r: int("r2") }];
            let res = chinese_remainder(&list);
            check(res.l == &ls[i] * &ls[j], "modulus is the product");
            for m in &list {
                check((&res.r - &m.r).mod_floor(&m.l).is_zero(), "result congruent to every residue");
            }
        })
        .cost(3)
        .fns(&["bigint::chinese_remainder", "bigint::extended_gcd"]),
    );
    v.push(
        Case::new("C04", "two_moduli", "every coprime pair of moduli in 1..=12; any integer residues", || {
            let l1 = choose("l1", 12) as i64 + 1;
            let l2 = choose("l2", 12) as i64 + 1;
            assume(l1.gcd(&l2) == 1);
            let list = vec![ModResult { l: b(l1), r: int("r1") }, ModResult { l: b(l2), r: int("r2") }];
            let res = chinese_remainder(&list);
            check(res.l == b(l1 * l2), "modulus is the product");
            for m in &list {
                check((&res.r - &m.r).mod_floor(&m.l).is_zero(), "result congruent to every residue");
            }
        })
        .fns(&["bigint::chinese_remainder", "bigint::extended_gcd"]),
    );
    v.push(
        Case::new("C04", "three_moduli", "every pairwise coprime triple of moduli in 2..=9; any integer residues", || {
            let l: Vec<i64> = (0..3).map(|i| choose(&format!("l{}", i), 8) as i64 + 2).collect();
            assume(l[0].gcd(&l[1]) == 1 && l[0].gcd(&l[2]) == 1 && l[1].gcd(&l[2]) == 1);
            let list: Vec<ModResult> = (0..3).map(|i| ModResult { l: b(l[i]), r: int(&format!("r{}", i)) }).collect();
            let res = chinese_remainder(&list);
            check(res.l == b(l[0] * l[1] * l[2]), "modulus is the product");
            for m in &list {
                check((&res.r - &m.r).mod_floor(&m.l).is_zero(), "result congruent to every residue");
            }
        })
        .cost(3)
        .fns(&["bigint::chinese_remainder", "bigint::extended_gcd"]),
    );
    v
}
