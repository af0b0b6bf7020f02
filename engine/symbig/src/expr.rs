//! Expression DAG over the mathematical integers, with smart constructors.
//!
//! Atoms: variables, `floor-mod` and `floor-div` nodes.  `Lin` is an integer linear combination
//! of non-`Lin` nodes, `Prod` a product of powers (arbitrary-precision exponents, so that a
//! square-and-multiply loop over a symbolic base stays one node).
use crate::{U, Z};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var(u32),
    Lin { c: Z, t: Vec<(Id, Z)> },
    Prod(Vec<(Id, U)>),
    /// e mod m, floor convention, m > 0 constant
    Mod(Id, Z),
    /// floor(e / m), m > 0 constant
    Div(Id, Z),
    /// floor(e / m), m symbolic and nonzero
    DivS(Id, Id),
}

/// a value: constant or node
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    C(Z),
    N(Id),
}

impl V {
    pub fn int(i: i64) -> V {
        V::C(Z::from(i))
    }
}

pub struct VarInfo {
    pub name: String,
    pub lo: Option<Z>,
    pub hi: Option<Z>,
}

pub type Mono = Vec<(Id, Z)>;
pub type Poly = BTreeMap<Mono, Z>;
pub type Range = (Option<Z>, Option<Z>);

pub struct Dag {
    pub tables: crate::table::Tables,
    pub nodes: Vec<Node>,
    index: HashMap<Node, Id>,
    pub vars: Vec<VarInfo>,
    var_index: HashMap<String, u32>,
    range_memo: HashMap<Id, Range>,
    strip_memo: HashMap<(Id, Z), V>,
    vs_memo: HashMap<Id, Rc<Vec<u32>>>,
    poly_memo: HashMap<Id, Option<Rc<Poly>>>,
    prime_memo: HashMap<Z, bool>,
    /// node -> cheaper node that vanishes on exactly the same inputs
    pub alias: HashMap<Id, Id>,
}

pub const POLY_BUDGET: usize = 6000;

pub fn zpow(b: &Z, e: &U) -> Option<Z> {
    let n = e.to_u64()?;
    if n > 4096 {
        if b.is_zero() || b.is_one() {
            return Some(b.clone());
        }
        return None;
    }
    let mut r = Z::one();
    for _ in 0..n {
        r = r * b;
        if r.bits() > 200_000 {
            return None;
        }
    }
    Some(r)
}

fn zmin(a: Option<Z>, b: Option<Z>) -> Option<Z> {
    match (a, b) {
        (Some(a), Some(b)) => Some(if a < b { a } else { b }),
        _ => None,
    }
}
fn zmax(a: Option<Z>, b: Option<Z>) -> Option<Z> {
    match (a, b) {
        (Some(a), Some(b)) => Some(if a > b { a } else { b }),
        _ => None,
    }
}

impl Dag {
    pub fn new() -> Dag {
        Dag {
            tables: Default::default(),
            nodes: Vec::new(),
            index: HashMap::new(),
            vars: Vec::new(),
            var_index: HashMap::new(),
            range_memo: HashMap::new(),
            strip_memo: HashMap::new(),
            vs_memo: HashMap::new(),
            poly_memo: HashMap::new(),
            prime_memo: HashMap::new(),
            alias: HashMap::new(),
        }
    }

    pub fn intern(&mut self, n: Node) -> Id {
        if let Some(i) = self.index.get(&n) {
            return *i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.index.insert(n, id);
        id
    }

    pub fn var(&mut self, name: &str, lo: Option<Z>, hi: Option<Z>) -> V {
        if let (Some(a), Some(b)) = (&lo, &hi) {
            if a == b {
                // keep it a variable all the same, so that it shows up in models
            }
        }
        let v = if let Some(v) = self.var_index.get(name) {
            *v
        } else {
            let v = self.vars.len() as u32;
            self.vars.push(VarInfo { name: name.to_string(), lo, hi });
            self.var_index.insert(name.to_string(), v);
            v
        };
        V::N(self.intern(Node::Var(v)))
    }

    fn lin_parts(&self, v: &V) -> (Z, Vec<(Id, Z)>) {
        match v {
            V::C(c) => (c.clone(), vec![]),
            V::N(id) => match &self.nodes[*id as usize] {
                Node::Lin { c, t } => (c.clone(), t.clone()),
                _ => (Z::zero(), vec![(*id, Z::one())]),
            },
        }
    }

    pub fn mk_lin(&mut self, c: Z, t: Vec<(Id, Z)>) -> V {
        if t.is_empty() {
            return V::C(c);
        }
        if c.is_zero() && t.len() == 1 && t[0].1.is_one() {
            return V::N(t[0].0);
        }
        V::N(self.intern(Node::Lin { c, t }))
    }

    /// a + k*b
    pub fn add_scaled(&mut self, a: &V, b: &V, k: &Z) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            return V::C(x + y * k);
        }
        let (ca, ta) = self.lin_parts(a);
        let (cb, tb) = self.lin_parts(b);
        let c = ca + cb * k;
        let mut out: Vec<(Id, Z)> = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
                out.push(ta[i].clone());
                i += 1;
            } else if i >= ta.len() || tb[j].0 < ta[i].0 {
                let z = &tb[j].1 * k;
                if !z.is_zero() {
                    out.push((tb[j].0, z));
                }
                j += 1;
            } else {
                let z = &ta[i].1 + &tb[j].1 * k;
                if !z.is_zero() {
                    out.push((ta[i].0, z));
                }
                i += 1;
                j += 1;
            }
        }
        self.mk_lin(c, out)
    }

    pub fn add(&mut self, a: &V, b: &V) -> V {
        self.add_scaled(a, b, &Z::one())
    }
    pub fn sub(&mut self, a: &V, b: &V) -> V {
        self.add_scaled(a, b, &-Z::one())
    }
    pub fn scale(&mut self, a: &V, k: &Z) -> V {
        match a {
            V::C(x) => V::C(x * k),
            _ => {
                if k.is_zero() {
                    return V::int(0);
                }
                let (c, t) = self.lin_parts(a);
                let t = t.into_iter().map(|(i, z)| (i, z * k)).collect();
                self.mk_lin(c * k, t)
            }
        }
    }
    pub fn neg(&mut self, a: &V) -> V {
        self.scale(a, &-Z::one())
    }

    /// content (signed) and primitive part of a Lin node
    pub fn primitive(&mut self, id: Id) -> (Z, V) {
        if let Node::Lin { c, t } = &self.nodes[id as usize] {
            let mut g = c.clone();
            for (_, k) in t {
                g = g.gcd(k);
                if g.is_one() {
                    break;
                }
            }
            if g.is_zero() {
                g = Z::one();
            }
            g = g.abs();
            if t[0].1.is_negative() {
                g = -g;
            }
            if g.is_one() {
                return (g, V::N(id));
            }
            let c2 = c / &g;
            let t2: Vec<(Id, Z)> = t.iter().map(|(i, k)| (*i, k / &g)).collect();
            let v = self.mk_lin(c2, t2);
            (g, v)
        } else {
            (Z::one(), V::N(id))
        }
    }

    fn factors(&mut self, v: &V) -> (Z, Vec<(Id, U)>) {
        match v {
            V::C(c) => (c.clone(), vec![]),
            V::N(id) => {
                let (k, p) = self.primitive(*id);
                let pid = match p {
                    V::N(i) => i,
                    V::C(c) => return (k * c, vec![]),
                };
                match &self.nodes[pid as usize] {
                    Node::Prod(f) => (k, f.clone()),
                    _ => (k, vec![(pid, U::one())]),
                }
            }
        }
    }

    pub fn mk_prod(&mut self, f: Vec<(Id, U)>) -> V {
        if f.is_empty() {
            return V::int(1);
        }
        if f.len() == 1 && f[0].1.is_one() {
            return V::N(f[0].0);
        }
        V::N(self.intern(Node::Prod(f)))
    }

    pub fn mul(&mut self, a: &V, b: &V) -> V {
        match (a, b) {
            (V::C(x), V::C(y)) => return V::C(x * y),
            (V::C(x), _) => return self.scale(b, x),
            (_, V::C(y)) => return self.scale(a, y),
            _ => {}
        }
        let (ka, fa) = self.factors(a);
        let (kb, fb) = self.factors(b);
        let mut out: Vec<(Id, U)> = Vec::with_capacity(fa.len() + fb.len());
        let (mut i, mut j) = (0, 0);
        while i < fa.len() || j < fb.len() {
            if j >= fb.len() || (i < fa.len() && fa[i].0 < fb[j].0) {
                out.push(fa[i].clone());
                i += 1;
            } else if i >= fa.len() || fb[j].0 < fa[i].0 {
                out.push(fb[j].clone());
                j += 1;
            } else {
                out.push((fa[i].0, &fa[i].1 + &fb[j].1));
                i += 1;
                j += 1;
            }
        }
        let p = self.mk_prod(out);
        self.scale(&p, &(ka * kb))
    }

    pub fn pow(&mut self, a: &V, e: &U) -> V {
        if e.is_zero() {
            return V::int(1);
        }
        match a {
            V::C(c) => V::C(zpow(c, e).unwrap_or_else(|| crate::engine::abort("concrete power too large"))),
            V::N(_) => {
                let (k, f) = self.factors(a);
                let kk = if k.is_one() {
                    k
                } else {
                    zpow(&k, e).unwrap_or_else(|| crate::engine::abort("concrete power too large"))
                };
                let f = f.into_iter().map(|(i, n)| (i, n * e)).collect();
                let p = self.mk_prod(f);
                self.scale(&p, &kk)
            }
        }
    }

    // ---- ranges -------------------------------------------------------------------------
    pub fn range(&mut self, v: &V) -> Range {
        match v {
            V::C(c) => (Some(c.clone()), Some(c.clone())),
            V::N(id) => self.range_id(*id),
        }
    }

    fn range_id(&mut self, id: Id) -> Range {
        if let Some(r) = self.range_memo.get(&id) {
            return r.clone();
        }
        let r = match self.nodes[id as usize].clone() {
            Node::Var(v) => (self.vars[v as usize].lo.clone(), self.vars[v as usize].hi.clone()),
            Node::Lin { c, t } => {
                let (mut lo, mut hi) = (Some(c.clone()), Some(c));
                for (i, k) in t {
                    let (a, b) = self.range_id(i);
                    let (a, b) = if k.is_negative() { (b, a) } else { (a, b) };
                    lo = match (lo, a) {
                        (Some(l), Some(a)) => Some(l + a * &k),
                        _ => None,
                    };
                    hi = match (hi, b) {
                        (Some(h), Some(b)) => Some(h + b * &k),
                        _ => None,
                    };
                    if lo.is_none() && hi.is_none() {
                        break;
                    }
                }
                (lo, hi)
            }
            Node::Prod(f) => {
                let mut acc: Range = (Some(Z::one()), Some(Z::one()));
                for (i, e) in f {
                    let (a, b) = self.range_id(i);
                    let r = self.range_pow(a, b, &e);
                    acc = Self::range_mul(acc, r);
                    if acc.0.is_none() && acc.1.is_none() {
                        break;
                    }
                }
                acc
            }
            Node::Mod(_, m) => (Some(Z::zero()), Some(m - Z::one())),
            Node::Div(e, m) => {
                let (a, b) = self.range_id(e);
                (a.map(|a| a.div_floor(&m)), b.map(|b| b.div_floor(&m)))
            }
            Node::DivS(e, m) => {
                // only the easy, common case: nonnegative dividend, positive divisor
                let (a, b) = self.range_id(e);
                let (ml, _) = self.range_id(m);
                match (a, ml) {
                    (Some(a), Some(ml)) if !a.is_negative() && ml.is_positive() => {
                        (Some(Z::zero()), b.map(|b| b.div_floor(&ml)))
                    }
                    _ => (None, None),
                }
            }
        };
        self.range_memo.insert(id, r.clone());
        r
    }

    fn range_pow(&self, a: Option<Z>, b: Option<Z>, e: &U) -> Range {
        if e.is_one() {
            return (a, b);
        }
        let even = (e % U::from(2u32)).is_zero();
        if e.bits() > 10 {
            return if even { (Some(Z::zero()), None) } else { (None, None) };
        }
        let p = |z: Option<Z>| z.and_then(|z| zpow(&z, e));
        if even {
            match (a, b) {
                (Some(a), Some(b)) => {
                    let hi = if a.abs() > b.abs() { a.abs() } else { b.abs() };
                    let lo = if a.is_positive() {
                        a
                    } else if b.is_negative() {
                        b.abs()
                    } else {
                        Z::zero()
                    };
                    (p(Some(lo)), p(Some(hi)))
                }
                (Some(a), None) if !a.is_negative() => (p(Some(a)), None),
                _ => (Some(Z::zero()), None),
            }
        } else {
            (p(a), p(b))
        }
    }

    fn range_mul(x: Range, y: Range) -> Range {
        match (x, y) {
            ((Some(a), Some(b)), (Some(c), Some(d))) => {
                let v = [&a * &c, &a * &d, &b * &c, &b * &d];
                (v.iter().min().cloned(), v.iter().max().cloned())
            }
            ((Some(a), b), (Some(c), d)) if !a.is_negative() && !c.is_negative() => (
                Some(a * c),
                match (b, d) {
                    (Some(b), Some(d)) => Some(b * d),
                    _ => None,
                },
            ),
            _ => (None, None),
        }
    }

    pub fn tighten(a: Range, b: Range) -> Range {
        let lo = match (a.0.clone(), b.0.clone()) {
            (Some(_), Some(_)) => zmax(a.0, b.0),
            (x, None) => x,
            (None, y) => y,
        };
        let hi = match (a.1.clone(), b.1.clone()) {
            (Some(_), Some(_)) => zmin(a.1, b.1),
            (x, None) => x,
            (None, y) => y,
        };
        (lo, hi)
    }

    // ---- floor mod / div ----------------------------------------------------------------
    /// an expression congruent to v modulo m, without inner reductions that m makes redundant
    pub fn strip(&mut self, v: &V, m: &Z) -> V {
        let id = match v {
            V::C(c) => return V::C(c.mod_floor(m)),
            V::N(id) => *id,
        };
        if let Some(r) = self.strip_memo.get(&(id, m.clone())) {
            return r.clone();
        }
        let r = match self.nodes[id as usize].clone() {
            Node::Lin { c, t } => {
                let mut acc = V::C(c.mod_floor(m));
                for (i, k) in t {
                    let k = k.mod_floor(m);
                    if k.is_zero() {
                        continue;
                    }
                    let s = self.strip(&V::N(i), m);
                    acc = self.add_scaled(&acc, &s, &k);
                }
                // coefficients back into [0, m)
                let (c, t) = self.lin_parts(&acc);
                let t: Vec<(Id, Z)> = t
                    .into_iter()
                    .map(|(i, k)| (i, k.mod_floor(m)))
                    .filter(|(_, k)| !k.is_zero())
                    .collect();
                self.mk_lin(c.mod_floor(m), t)
            }
            Node::Prod(f) => {
                let mut acc = V::int(1);
                for (i, e) in f {
                    let s = self.strip(&V::N(i), m);
                    let s = match &s {
                        V::C(c) => V::C(modpow(c, &e, m)),
                        V::N(_) => self.pow_mod(&s, &e, m),
                    };
                    acc = self.mul(&acc, &s);
                }
                let (c, t) = self.lin_parts(&acc);
                let t: Vec<(Id, Z)> = t
                    .into_iter()
                    .map(|(i, k)| (i, k.mod_floor(m)))
                    .filter(|(_, k)| !k.is_zero())
                    .collect();
                self.mk_lin(c.mod_floor(m), t)
            }
            Node::Mod(e, m2) if m2.mod_floor(m).is_zero() => self.strip(&V::N(e), m),
            _ => V::N(id),
        };
        self.strip_memo.insert((id, m.clone()), r.clone());
        r
    }

    /// power of a symbolic value where only the residue mod m matters
    fn pow_mod(&mut self, a: &V, e: &U, m: &Z) -> V {
        let (k, f) = self.factors(a);
        let kk = modpow(&k, e, m);
        let f = f.into_iter().map(|(i, n)| (i, n * e)).collect();
        let p = self.mk_prod(f);
        self.scale(&p, &kk)
    }

    pub fn mod_c(&mut self, v: &V, m: &Z) -> V {
        debug_assert!(m.is_positive());
        if let V::C(c) = v {
            return V::C(c.mod_floor(m));
        }
        if m.is_one() {
            return V::int(0);
        }
        let inside = |r: &Range| match r {
            (Some(a), Some(b)) => !a.is_negative() && b < m,
            _ => false,
        };
        let r = self.range(v);
        if inside(&r) {
            return v.clone();
        }
        let s = self.strip(v, m);
        let r = self.range(&s);
        if inside(&r) {
            return s;
        }
        match s {
            V::C(c) => V::C(c),
            V::N(id) => V::N(self.intern(Node::Mod(id, m.clone()))),
        }
    }

    pub fn div_c(&mut self, v: &V, m: &Z) -> V {
        debug_assert!(m.is_positive());
        if m.is_one() {
            return v.clone();
        }
        if let V::C(c) = v {
            return V::C(c.div_floor(m));
        }
        if let Some(r) = self.div_c_split(v, m) {
            return r;
        }
        // try again on the expanded polynomial
        if let Some(n) = self.normalize(v) {
            if &n != v {
                if let Some(r) = self.div_c_split(&n, m) {
                    return r;
                }
            }
        }
        let (c, t) = self.lin_parts(v);
        let mut q = V::C(c.div_floor(m));
        let mut rest = V::C(c.mod_floor(m));
        for (i, k) in t {
            let (kq, kr) = k.div_mod_floor(m);
            if !kq.is_zero() {
                q = self.add_scaled(&q, &V::N(i), &kq);
            }
            if !kr.is_zero() {
                rest = self.add_scaled(&rest, &V::N(i), &kr);
            }
        }
        let r = self.range(&rest);
        let d = match &rest {
            V::C(c) => V::C(c.div_floor(m)),
            V::N(id) => {
                let z = match &r {
                    (Some(a), Some(b)) => {
                        let (a, b) = (a.div_floor(m), b.div_floor(m));
                        if a == b {
                            Some(a)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                match z {
                    Some(z) => V::C(z),
                    None => V::N(self.intern(Node::Div(*id, m.clone()))),
                }
            }
        };
        self.add(&q, &d)
    }

    /// Some(quotient) when all non-constant coefficients are multiples of m
    fn div_c_split(&mut self, v: &V, m: &Z) -> Option<V> {
        let (c, t) = self.lin_parts(v);
        if t.iter().all(|(_, k)| k.mod_floor(m).is_zero()) {
            let t = t.into_iter().map(|(i, k)| (i, k.div_floor(m))).collect();
            return Some(self.mk_lin(c.div_floor(m), t));
        }
        None
    }

    /// floor division by a symbolic, nonzero divisor
    pub fn div_s(&mut self, v: &V, m: Id) -> V {
        // pull out the part of v that is a polynomial multiple of the divisor (variable divisors only)
        if let Node::Var(_) = self.nodes[m as usize] {
            if let V::N(id) = v {
                if let Some(p) = self.expand(*id) {
                    let mut q: Poly = Poly::new();
                    let mut rest: Poly = Poly::new();
                    for (mo, k) in p.iter() {
                        if let Some(pos) = mo.iter().position(|(i, _)| *i == m) {
                            let mut mo = mo.clone();
                            mo[pos].1 = &mo[pos].1 - Z::one();
                            if mo[pos].1.is_zero() {
                                mo.remove(pos);
                            }
                            q.insert(mo, k.clone());
                        } else {
                            rest.insert(mo.clone(), k.clone());
                        }
                    }
                    if !q.is_empty() {
                        let qv = self.from_poly(&q);
                        let rv = self.from_poly(&rest);
                        let d = match rv {
                            V::C(ref c) if c.is_zero() => V::int(0),
                            _ => self.div_s_raw(&rv, m),
                        };
                        return self.add(&qv, &d);
                    }
                }
            }
        }
        self.div_s_raw(v, m)
    }

    fn div_s_raw(&mut self, v: &V, m: Id) -> V {
        let e = match v {
            V::N(id) => *id,
            V::C(c) => {
                if c.is_zero() {
                    return V::int(0);
                }
                self.intern(Node::Lin { c: c.clone(), t: vec![] })
            }
        };
        if e == m {
            return V::int(1);
        }
        V::N(self.intern(Node::DivS(e, m)))
    }

    /// number of arithmetic operations below id, shared nodes once
    pub fn cost(&self, id: Id) -> usize {
        let mut seen = std::collections::HashSet::new();
        let mut stack = vec![id];
        let mut n = 0;
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            match &self.nodes[i as usize] {
                Node::Var(_) => {}
                Node::Lin { t, .. } => {
                    n += t.len();
                    stack.extend(t.iter().map(|x| x.0));
                }
                Node::Prod(f) => {
                    n += f.len();
                    stack.extend(f.iter().map(|x| x.0));
                }
                Node::Mod(e, _) | Node::Div(e, _) => stack.push(*e),
                Node::DivS(a, b) => {
                    stack.push(*a);
                    stack.push(*b);
                }
            }
        }
        n
    }

    // ---- variable sets ------------------------------------------------------------------
    pub fn varset(&mut self, id: Id) -> Rc<Vec<u32>> {
        if let Some(r) = self.vs_memo.get(&id) {
            return r.clone();
        }
        let mut out: Vec<u32> = match self.nodes[id as usize].clone() {
            Node::Var(v) => vec![v],
            Node::Lin { t, .. } => t.iter().flat_map(|(i, _)| self.varset(*i).to_vec()).collect(),
            Node::Prod(f) => f.iter().flat_map(|(i, _)| self.varset(*i).to_vec()).collect(),
            Node::Mod(e, _) | Node::Div(e, _) => self.varset(e).to_vec(),
            Node::DivS(e, m) => {
                let mut a = self.varset(e).to_vec();
                a.extend(self.varset(m).iter());
                a
            }
        };
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.vs_memo.insert(id, r.clone());
        r
    }

    // ---- evaluation ---------------------------------------------------------------------
    pub fn eval(&self, id: Id, model: &HashMap<u32, Z>, memo: &mut HashMap<Id, Z>) -> Option<Z> {
        if let Some(z) = memo.get(&id) {
            return Some(z.clone());
        }
        let r = match &self.nodes[id as usize] {
            Node::Var(v) => self.var_value(*v, model),
            Node::Lin { c, t } => {
                let mut s = c.clone();
                for (i, k) in t {
                    s = s + self.eval(*i, model, memo)? * k;
                }
                s
            }
            Node::Prod(f) => {
                let mut s = Z::one();
                for (i, e) in f {
                    let b = self.eval(*i, model, memo)?;
                    s = s * zpow(&b, e)?;
                }
                s
            }
            Node::Mod(e, m) => {
                let mut mm = HashMap::new();
                self.eval_mod(*e, m, model, memo, &mut mm)?
            }
            Node::Div(e, m) => self.eval(*e, model, memo)?.div_floor(m),
            Node::DivS(e, m) => {
                let d = self.eval(*m, model, memo)?;
                if d.is_zero() {
                    return None;
                }
                self.eval(*e, model, memo)?.div_floor(&d)
            }
        };
        memo.insert(id, r.clone());
        Some(r)
    }

    /// value of an input under a model; inputs the model leaves free get a fixed arbitrary value
    pub fn var_value(&self, v: u32, model: &HashMap<u32, Z>) -> Z {
        if let Some(z) = model.get(&v) {
            return z.clone();
        }
        let info = &self.vars[v as usize];
        let mut h = (v as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 31;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 29;
        match (&info.lo, &info.hi) {
            (Some(lo), Some(hi)) => {
                let span = hi - lo + Z::one();
                let big = if span.bits() < 60 {
                    Z::from(h)
                } else {
                    let mut acc = Z::zero();
                    let mut g = h;
                    while acc.bits() < span.bits() + 8 {
                        g = g.wrapping_mul(0x94D049BB133111EB).rotate_left(23) ^ h;
                        acc = (acc << 63usize) + Z::from(g >> 1);
                    }
                    acc
                };
                lo + big.mod_floor(&span)
            }
            (Some(lo), None) => lo + Z::from(h % 97),
            (None, Some(hi)) => hi - Z::from(h % 97),
            (None, None) => Z::from((h % 2001) as i64 - 1000),
        }
    }

    /// value modulo m
    pub fn mod_eval(&self, id: Id, m: &Z, model: &HashMap<u32, Z>, memo: &mut HashMap<Id, Z>) -> Option<Z> {
        let mut mm = HashMap::new();
        self.eval_mod(id, m, model, memo, &mut mm)
    }

    fn eval_mod(
        &self,
        id: Id,
        m: &Z,
        model: &HashMap<u32, Z>,
        memo: &mut HashMap<Id, Z>,
        mm: &mut HashMap<Id, Z>,
    ) -> Option<Z> {
        if let Some(z) = memo.get(&id) {
            return Some(z.mod_floor(m));
        }
        if let Some(z) = mm.get(&id) {
            return Some(z.clone());
        }
        let r = match &self.nodes[id as usize] {
            Node::Lin { c, t } => {
                let mut s = c.mod_floor(m);
                for (i, k) in t {
                    s = (s + self.eval_mod(*i, m, model, memo, mm)? * k).mod_floor(m);
                }
                s
            }
            Node::Prod(f) => {
                let mut s = Z::one();
                for (i, e) in f {
                    let b = self.eval_mod(*i, m, model, memo, mm)?;
                    s = (s * modpow(&b, e, m)).mod_floor(m);
                }
                s.mod_floor(m)
            }
            _ => self.eval(id, model, memo)?.mod_floor(m),
        };
        mm.insert(id, r.clone());
        Some(r)
    }

    // ---- polynomial normal form over Z --------------------------------------------------
    pub fn expand(&mut self, id: Id) -> Option<Rc<Poly>> {
        if let Some(r) = self.poly_memo.get(&id) {
            return r.clone();
        }
        let r = self.expand_raw(id).map(Rc::new);
        self.poly_memo.insert(id, r.clone());
        r
    }

    fn expand_raw(&mut self, id: Id) -> Option<Poly> {
        match self.nodes[id as usize].clone() {
            Node::Lin { c, t } => {
                let mut p = Poly::new();
                if !c.is_zero() {
                    p.insert(vec![], c);
                }
                for (i, k) in t {
                    let q = self.expand(i)?;
                    for (m, z) in q.iter() {
                        poly_acc(&mut p, m.clone(), z * &k);
                    }
                    if p.len() > POLY_BUDGET {
                        return None;
                    }
                }
                Some(p)
            }
            Node::Prod(f) => {
                let mut acc = Poly::new();
                acc.insert(vec![], Z::one());
                for (i, e) in f {
                    let q = self.expand(i)?;
                    if q.len() == 1 {
                        let (m, z) = q.iter().next().unwrap();
                        let kk = zpow(z, &e)?;
                        let mut single = Poly::new();
                        let ez = Z::from(e.clone());
                        single.insert(m.iter().map(|(i, n)| (*i, n * &ez)).collect(), kk);
                        acc = poly_mul(&acc, &single)?;
                    } else {
                        let n = e.to_u32()?;
                        if n > 64 {
                            return None;
                        }
                        let mut pw = (*q).clone();
                        for _ in 1..n {
                            pw = poly_mul(&pw, &q)?;
                        }
                        acc = poly_mul(&acc, &pw)?;
                    }
                }
                Some(acc)
            }
            _ => {
                let mut p = Poly::new();
                p.insert(vec![(id, Z::one())], Z::one());
                Some(p)
            }
        }
    }

    pub fn from_poly(&mut self, p: &Poly) -> V {
        let mut c = Z::zero();
        let mut t: Vec<(Id, Z)> = Vec::new();
        for (m, k) in p {
            if m.is_empty() {
                c = k.clone();
                continue;
            }
            let f: Vec<(Id, U)> = m.iter().map(|(i, e)| (*i, e.to_biguint().expect("negative exponent"))).collect();
            match self.mk_prod(f) {
                V::N(id) => t.push((id, k.clone())),
                V::C(_) => unreachable!(),
            }
        }
        t.sort_by_key(|x| x.0);
        self.mk_lin(c, t)
    }

    /// canonical expanded form, if within budget
    pub fn normalize(&mut self, v: &V) -> Option<V> {
        match v {
            V::C(_) => Some(v.clone()),
            V::N(id) => {
                let p = self.expand(*id)?;
                Some(self.from_poly(&p))
            }
        }
    }

    pub fn is_prime(&mut self, p: &Z) -> bool {
        if let Some(b) = self.prime_memo.get(p) {
            return *b;
        }
        let b = miller_rabin(p);
        self.prime_memo.insert(p.clone(), b);
        b
    }
}

pub fn poly_acc(p: &mut Poly, m: Mono, k: Z) {
    if k.is_zero() {
        return;
    }
    use std::collections::btree_map::Entry;
    match p.entry(m) {
        Entry::Vacant(e) => {
            e.insert(k);
        }
        Entry::Occupied(mut e) => {
            let s = e.get() + k;
            if s.is_zero() {
                e.remove();
            } else {
                e.insert(s);
            }
        }
    }
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut out: Mono = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            out.push(a[i].clone());
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            out.push(b[j].clone());
            j += 1;
        } else {
            let e = &a[i].1 + &b[j].1;
            if !e.is_zero() {
                out.push((a[i].0, e));
            }
            i += 1;
            j += 1;
        }
    }
    out
}

pub fn poly_mul(a: &Poly, b: &Poly) -> Option<Poly> {
    if a.len() * b.len() > 40 * POLY_BUDGET {
        return None;
    }
    let mut p = Poly::new();
    for (ma, ka) in a {
        for (mb, kb) in b {
            poly_acc(&mut p, mono_mul(ma, mb), ka * kb);
        }
    }
    if p.len() > POLY_BUDGET {
        return None;
    }
    Some(p)
}

pub fn modpow(b: &Z, e: &U, m: &Z) -> Z {
    if m.is_one() {
        return Z::zero();
    }
    b.mod_floor(m).modpow(&Z::from(e.clone()), m).mod_floor(m)
}

fn miller_rabin(n: &Z) -> bool {
    if n < &Z::from(2) {
        return false;
    }
    for p in [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47] {
        let p = Z::from(p);
        if n == &p {
            return true;
        }
        if (n % &p).is_zero() {
            return false;
        }
    }
    let one = Z::one();
    let nm1 = n - &one;
    let mut d = nm1.clone();
    let mut s = 0;
    while (&d % Z::from(2)).is_zero() {
        d = d / Z::from(2);
        s += 1;
    }
    'outer: for a in [2i64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47] {
        let mut x = Z::from(a).modpow(&d, n);
        if x == one || x == nm1 {
            continue;
        }
        for _ in 1..s {
            x = (&x * &x) % n;
            if x == nm1 {
                continue 'outer;
            }
        }
        return false;
    }
    true
}
