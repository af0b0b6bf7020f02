//! Rational-function normal form modulo a prime.
//!
//! `rat` writes an expression as num / den over F_p, where den is a product of polynomials that the
//! path has already found to be nonzero, so that e = 0 mod p iff num = 0 mod p.  Inputs with a
//! defining relation y^2 = f (see `Rule`) are reduced by it.  Everything here is exact: a step that
//! is not justified by a fact of the path gives None.
use crate::engine::{Cond, Engine};
use crate::expr::{modpow, Dag, Id, Node, Poly, V};
use crate::{U, Z};
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasherDefault, Hasher};

pub const SLOTS: usize = 16;
pub type Exps = [u16; SLOTS];

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u16(&mut self, b: u16) {
        self.0 = (self.0.rotate_left(5) ^ b as u64).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FPoly = HashMap<Exps, Z, BuildHasherDefault<Fx>>;

pub const TERMS: usize = 200_000;

#[derive(Clone)]
pub struct Rat {
    pub num: FPoly,
    pub den: BTreeMap<usize, u32>,
}

/// var^2 = f (mod p)
#[derive(Clone)]
pub struct Rule {
    pub var: Id,
    pub f: Id,
    pub p: Z,
}

pub struct Field {
    pub p: Z,
    terms: usize,
    atoms: Vec<Id>,
    rules: HashMap<usize, FPoly>,
    rule_pow: HashMap<(usize, u16), FPoly>,
    dens: Vec<FPoly>,
    den_index: HashMap<Vec<(Exps, Z)>, usize>,
    memo: HashMap<Id, Option<Rat>>,
}

fn one() -> FPoly {
    let mut f = FPoly::default();
    f.insert([0; SLOTS], Z::one());
    f
}

impl Field {
    pub fn new(p: &Z) -> Field {
        Field {
            p: p.clone(),
            terms: if *p < Z::from(64) { 400 } else { TERMS },
            atoms: vec![],
            rules: HashMap::new(),
            rule_pow: HashMap::new(),
            dens: vec![],
            den_index: HashMap::new(),
            memo: HashMap::new(),
        }
    }

    fn slot(&mut self, id: Id) -> Option<usize> {
        if let Some(i) = self.atoms.iter().position(|a| *a == id) {
            return Some(i);
        }
        if self.atoms.len() >= SLOTS {
            return None;
        }
        self.atoms.push(id);
        Some(self.atoms.len() - 1)
    }

    /// f may not contain the variable itself
    pub fn add_rule(&mut self, eng: &mut Engine, r: &Rule) -> Option<()> {
        let s = self.slot(r.var)?;
        let f = self.rat(eng, r.f).ok()?;
        if !f.den.is_empty() || f.num.keys().any(|m| m[s] != 0) {
            return None;
        }
        self.rules.insert(s, f.num);
        self.memo.clear();
        Some(())
    }

    fn acc(&self, p: &mut FPoly, m: Exps, k: Z) {
        use std::collections::hash_map::Entry;
        match p.entry(m) {
            Entry::Vacant(e) => {
                if !k.is_zero() {
                    e.insert(k);
                }
            }
            Entry::Occupied(mut e) => {
                let mut s = e.get() + k;
                if s >= self.p {
                    s = s.mod_floor(&self.p);
                }
                if s.is_zero() {
                    e.remove();
                } else {
                    e.insert(s);
                }
            }
        }
    }

    fn rule_power(&mut self, s: usize, n: u16) -> Option<FPoly> {
        if n == 0 {
            return Some(one());
        }
        if let Some(f) = self.rule_pow.get(&(s, n)) {
            return Some(f.clone());
        }
        let a = self.rule_power(s, n - 1)?;
        let f = self.rules[&s].clone();
        let r = self.mul(&a, &f)?;
        self.rule_pow.insert((s, n), r.clone());
        Some(r)
    }

    /// applies the relations y^2 = f
    fn reduce(&mut self, f: FPoly) -> Option<FPoly> {
        let mut f = f;
        for s in 0..self.atoms.len() {
            if !self.rules.contains_key(&s) || !f.keys().any(|m| m[s] >= 2) {
                continue;
            }
            let mut out = FPoly::default();
            for (m, k) in f {
                if m[s] < 2 {
                    self.acc(&mut out, m, k);
                    continue;
                }
                let mut r = m;
                r[s] = m[s] % 2;
                let g = self.rule_power(s, m[s] / 2)?;
                for (n, l) in &g {
                    let mut e = r;
                    for i in 0..SLOTS {
                        e[i] += n[i];
                    }
                    self.acc(&mut out, e, (&k * l).mod_floor(&self.p));
                }
                if out.len() > self.terms {
                    return None;
                }
            }
            f = out;
        }
        Some(f)
    }

    pub fn mul(&mut self, a: &FPoly, b: &FPoly) -> Option<FPoly> {
        if a.len().saturating_mul(b.len()) > 300 * self.terms {
            return None;
        }
        let mut out = FPoly::default();
        for (m, k) in a {
            for (n, l) in b {
                let mut e = *m;
                for i in 0..SLOTS {
                    e[i] = e[i].checked_add(n[i])?;
                }
                self.acc(&mut out, e, (k * l).mod_floor(&self.p));
            }
            if out.len() > self.terms {
                return None;
            }
        }
        self.reduce(out)
    }

    fn pow(&mut self, a: &FPoly, n: u32) -> Option<FPoly> {
        let mut r = one();
        for _ in 0..n {
            r = self.mul(&r, a)?;
        }
        Some(r)
    }

    fn scale(&self, a: &FPoly, k: &Z) -> FPoly {
        let mut out = FPoly::default();
        for (m, c) in a {
            let z = (c * k).mod_floor(&self.p);
            if !z.is_zero() {
                out.insert(*m, z);
            }
        }
        out
    }

    fn sorted(a: &FPoly) -> Vec<(Exps, Z)> {
        let mut v: Vec<(Exps, Z)> = a.iter().map(|(m, k)| (*m, k.clone())).collect();
        v.sort();
        v
    }

    /// leading coefficient one, and that coefficient
    fn monic(&self, a: &FPoly) -> (FPoly, Z) {
        let lead = a.iter().max_by(|x, y| x.0.cmp(y.0)).unwrap().1.clone();
        let inv = self.inv(&lead);
        (self.scale(a, &inv), lead)
    }

    fn inv(&self, c: &Z) -> Z {
        modpow(c, &(&self.p - Z::from(2)).to_biguint().unwrap(), &self.p)
    }

    fn den_poly(&mut self, a: &FPoly) -> usize {
        let k = Self::sorted(a);
        if let Some(i) = self.den_index.get(&k) {
            return *i;
        }
        self.dens.push(a.clone());
        self.den_index.insert(k, self.dens.len() - 1);
        self.dens.len() - 1
    }

    /// num * dens^(want - have)
    fn lift(&mut self, r: &Rat, want: &BTreeMap<usize, u32>) -> Option<FPoly> {
        let mut n = r.num.clone();
        for (d, e) in want {
            let have = r.den.get(d).cloned().unwrap_or(0);
            for _ in have..*e {
                let f = self.dens[*d].clone();
                n = self.mul(&n, &f)?;
            }
        }
        Some(n)
    }

    /// Err(Some(c)): the path has to decide c first (c holds iff a needed denominator vanishes)
    pub fn rat(&mut self, eng: &mut Engine, id: Id) -> Result<Rat, Option<Cond>> {
        if let Some(r) = self.memo.get(&id) {
            return r.clone().ok_or(None);
        }
        let r = self.rat_raw(eng, id);
        match &r {
            Ok(x) => {
                self.memo.insert(id, Some(x.clone()));
            }
            Err(None) => {
                self.memo.insert(id, None);
            }
            Err(Some(_)) => {}
        }
        r
    }

    fn rat_raw(&mut self, eng: &mut Engine, id: Id) -> Result<Rat, Option<Cond>> {
        match eng.dag.nodes[id as usize].clone() {
            Node::Mod(e, m) if m == self.p => self.rat(eng, e),
            Node::Lin { c, t } => {
                let mut parts = vec![];
                let mut want: BTreeMap<usize, u32> = BTreeMap::new();
                let mut cst = FPoly::default();
                self.acc(&mut cst, [0; SLOTS], c.mod_floor(&self.p));
                parts.push((Rat { num: cst, den: BTreeMap::new() }, Z::one()));
                for (i, k) in t {
                    let k = k.mod_floor(&self.p);
                    if k.is_zero() {
                        continue;
                    }
                    let r = self.rat(eng, i)?;
                    for (d, e) in &r.den {
                        let w = want.entry(*d).or_insert(0);
                        if *w < *e {
                            *w = *e;
                        }
                    }
                    parts.push((r, k));
                }
                let mut num = FPoly::default();
                for (r, k) in parts {
                    let n = self.lift(&r, &want).ok_or(None)?;
                    for (m, c) in n {
                        self.acc(&mut num, m, (c * &k).mod_floor(&self.p));
                    }
                }
                Ok(self.cancel(num, want))
            }
            Node::Prod(f) => {
                let order = &self.p - Z::one();
                let half = &order / Z::from(2);
                let cap = if half < Z::from(64) { half } else { Z::from(64) };
                let mut num = one();
                let mut den: BTreeMap<usize, u32> = BTreeMap::new();
                for (i, e) in f {
                    let r = self.rat(eng, i)?;
                    let e = Z::from(e);
                    let mut plain = e <= cap;
                    if !plain && r.num.is_empty() {
                        return Ok(Rat { num: FPoly::default(), den: BTreeMap::new() });
                    }
                    if !plain {
                        // base^e with base != 0: exponents modulo p - 1
                        if let Err(c) = eng.known_nonzero(self, &r.num) {
                            if e <= Z::from(64) {
                                plain = true;
                            } else {
                                return Err(c);
                            }
                        }
                    }
                    let em = if plain { e.clone() } else { e.mod_floor(&order) };
                    let neg = &order - &em;
                    if plain || em <= cap {
                        let n = em.to_u32().unwrap();
                        let q = self.pow(&r.num, n).ok_or(None)?;
                        num = self.mul(&num, &q).ok_or(None)?;
                        for (d, k) in &r.den {
                            *den.entry(*d).or_insert(0) += k * n;
                        }
                    } else if neg <= Z::from(64) {
                        let n = neg.to_u32().unwrap();
                        for (d, k) in &r.den {
                            let g = self.dens[*d].clone();
                            let q = self.pow(&g, k * n).ok_or(None)?;
                            num = self.mul(&num, &q).ok_or(None)?;
                        }
                        let (m, lead) = self.monic(&r.num);
                        let li = modpow(&self.inv(&lead), &U::from(n), &self.p);
                        num = self.scale(&num, &li);
                        if m.len() == 1 && m.contains_key(&[0; SLOTS]) {
                            continue;
                        }
                        let d = self.den_poly(&m);
                        *den.entry(d).or_insert(0) += n;
                    } else {
                        return Err(None);
                    }
                }
                Ok(self.cancel(num, den))
            }
            Node::Var(_) if self.p > Z::from(crate::fd::MAXP) && eng.substs.iter().any(|s| s.0 == id && s.2.as_ref().map_or(true, |p| *p == self.p)) => {
                let v = eng.substs.iter().find(|s| s.0 == id).unwrap().1.clone();
                match v {
                    V::N(e) => self.rat(eng, e),
                    V::C(z) => {
                        let mut num = FPoly::default();
                        self.acc(&mut num, [0; SLOTS], z.mod_floor(&self.p));
                        Ok(Rat { num, den: BTreeMap::new() })
                    }
                }
            }
            _ => {
                let s = self.slot(id).ok_or(None)?;
                let mut m = [0u16; SLOTS];
                m[s] = 1;
                let mut num = FPoly::default();
                num.insert(m, Z::one());
                let num = self.reduce(num).ok_or(None)?;
                Ok(Rat { num, den: BTreeMap::new() })
            }
        }
    }

    /// divides out denominators that divide the numerator
    fn cancel(&mut self, mut num: FPoly, mut den: BTreeMap<usize, u32>) -> Rat {
        if num.is_empty() {
            return Rat { num, den: BTreeMap::new() };
        }
        let keys: Vec<usize> = den.keys().cloned().collect();
        for d in keys {
            while den.get(&d).cloned().unwrap_or(0) > 0 {
                let dp = self.dens[d].clone();
                match self.divide(&num, &dp) {
                    Some(q) => {
                        num = q;
                        *den.get_mut(&d).unwrap() -= 1;
                    }
                    None => break,
                }
            }
            if den.get(&d) == Some(&0) {
                den.remove(&d);
            }
        }
        Rat { num, den }
    }

    /// num with every known denominator divided out as often as possible
    pub fn strip_units(&mut self, num: &FPoly) -> FPoly {
        let mut n = num.clone();
        for d in 0..self.dens.len() {
            let dp = self.dens[d].clone();
            while let Some(q) = self.divide(&n, &dp) {
                n = q;
            }
        }
        n
    }

    /// exact quotient of polynomials, if the divisor (monic, not constant) divides
    fn divide(&self, num: &FPoly, d: &FPoly) -> Option<FPoly> {
        if num.is_empty() || num.len() > 20_000 {
            return None;
        }
        let (dm, dl) = d.iter().max_by(|x, y| x.0.cmp(y.0))?;
        if dm.iter().all(|e| *e == 0) {
            return None;
        }
        let inv = self.inv(dl);
        let mut rest: BTreeMap<Exps, Z> = num.iter().map(|(m, k)| (*m, k.clone())).collect();
        // cheap refusal: the smallest term of a product is the product of the smallest terms
        let low_n = rest.iter().next().unwrap().0.clone();
        let low_d = d.keys().min().unwrap();
        for i in 0..SLOTS {
            if low_n[i] < low_d[i] {
                return None;
            }
        }
        let mut q = FPoly::default();
        let mut steps = 0;
        while let Some((m, k)) = rest.iter().next_back().map(|(m, k)| (*m, k.clone())) {
            let mut e = [0u16; SLOTS];
            for i in 0..SLOTS {
                e[i] = m[i].checked_sub(dm[i])?;
            }
            let c = (&k * &inv).mod_floor(&self.p);
            for (n, l) in d {
                let mut t = e;
                for i in 0..SLOTS {
                    t[i] += n[i];
                }
                let z = rest.remove(&t).unwrap_or_else(Z::zero);
                let z = (z - &c * l).mod_floor(&self.p);
                if !z.is_zero() {
                    rest.insert(t, z);
                }
            }
            q.insert(e, c);
            steps += d.len();
            if steps > 2_000_000 || rest.len() > 2 * TERMS {
                return None;
            }
        }
        Some(q)
    }

    pub fn monic_of(&self, a: &FPoly) -> FPoly {
        self.monic(a).0
    }

    /// as an engine polynomial
    pub fn to_poly(&self, f: &FPoly) -> Poly {
        let mut out = Poly::new();
        for (m, k) in f {
            let mut mono: Vec<(Id, Z)> = vec![];
            for (s, e) in m.iter().enumerate() {
                if *e > 0 {
                    mono.push((self.atoms[s], Z::from(*e as u32)));
                }
            }
            mono.sort();
            out.insert(mono, k.clone());
        }
        out
    }

    pub fn to_v(&self, dag: &mut Dag, f: &FPoly) -> V {
        let p = self.to_poly(f);
        dag.from_poly(&p)
    }
}
