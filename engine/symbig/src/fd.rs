//! Finite-domain encoding: residues modulo a small constant (and small bounded integers) as
//! one-hot Boolean vectors, arithmetic as clauses over them, decided by an incremental SAT core.
//!
//! Definitions are total functions of the inputs, so they are asserted once and stay; a query is a
//! set of assumption literals.  Conditions that have no finite-domain form are left out, which
//! weakens the query: `unsat` stays valid, a model is only used after it has been evaluated
//! against the complete set.
use crate::engine::Cond;
use crate::expr::{Dag, Id, Node, V};
use crate::solver::Model;
use crate::Z;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::rc::Rc;

pub const MAXP: u64 = 43;
const MAXSPAN: usize = 160;
const T: i32 = i32::MAX;
const F: i32 = -i32::MAX;

enum FdVar {
    Val(Z, Rc<Vec<i32>>),
    Res(Vec<(u64, Rc<Vec<i32>>)>),
}

pub struct Fd {
    pub out: String,
    nvars: i32,
    pub clauses: usize,
    res: HashMap<(Id, u64), Option<Rc<Vec<i32>>>>,
    val: HashMap<Id, Option<(Z, Rc<Vec<i32>>)>>,
    inputs: HashMap<u32, FdVar>,
    /// one-hot vectors over small products of input ranges
    joints: HashMap<Vec<u32>, Rc<Joint>>,
    eq_lit: HashMap<Cond, i32>,
    /// definitions that go with the query and are withdrawn after it
    pub scoped: String,
    scoped_conds: Vec<Cond>,
}

struct Joint {
    lits: Vec<i32>,
}

pub struct Prepared {
    pub assumptions: Vec<i32>,
    pub dropped: usize,
    pub names: Vec<String>,
    /// input, position of its first name
    pub lits: Vec<i32>,
}

impl Fd {
    pub fn new() -> Fd {
        Fd { out: String::new(), nvars: 0, clauses: 0, res: HashMap::new(), val: HashMap::new(), inputs: HashMap::new(), joints: HashMap::new(), eq_lit: HashMap::new(), scoped: String::new(), scoped_conds: vec![] }
    }

    fn fresh(&mut self) -> i32 {
        self.nvars += 1;
        let _ = writeln!(self.out, "(declare-const b{} Bool)", self.nvars);
        self.nvars
    }

    fn clause(&mut self, c: &[i32]) {
        if c.contains(&T) {
            return;
        }
        let c: Vec<i32> = c.iter().cloned().filter(|l| *l != F).collect();
        self.clauses += 1;
        match c.len() {
            0 => {
                let _ = writeln!(self.out, "(assert false)");
            }
            1 => {
                let _ = writeln!(self.out, "(assert {})", lit(c[0]));
            }
            _ => {
                self.out.push_str("(assert (or");
                for l in c {
                    self.out.push(' ');
                    push_lit(&mut self.out, l);
                }
                self.out.push_str("))\n");
            }
        }
    }

    fn exactly_one(&mut self, v: &[i32]) {
        self.clause(v);
        for i in 0..v.len() {
            for j in 0..i {
                if v[i] != F && v[j] != F {
                    self.clause(&[-v[i], -v[j]]);
                }
            }
        }
    }

    fn fresh_vec(&mut self, mask: &[bool]) -> Vec<i32> {
        let n = mask.iter().filter(|b| **b).count();
        let v: Vec<i32> = mask
            .iter()
            .map(|b| if !*b { F } else if n == 1 { T } else { self.fresh() })
            .collect();
        if n > 1 {
            self.exactly_one(&v);
        }
        v
    }

    /// relabel: out[f(i)] = OR of v[i]
    fn map(&mut self, v: &[i32], n: usize, f: impl Fn(usize) -> usize) -> Vec<i32> {
        let mut groups: Vec<Vec<i32>> = vec![vec![]; n];
        for (i, l) in v.iter().enumerate() {
            if *l != F {
                groups[f(i)].push(*l);
            }
        }
        let mut out = vec![F; n];
        for (k, g) in groups.iter().enumerate() {
            out[k] = match g.len() {
                0 => F,
                1 => g[0],
                _ if g.contains(&T) => T,
                _ => {
                    let b = self.fresh();
                    for l in g {
                        self.clause(&[-*l, b]);
                    }
                    let mut c = g.clone();
                    c.push(-b);
                    self.clause(&c);
                    b
                }
            };
        }
        out
    }

    /// out = f(a, b)
    fn binop(&mut self, a: &[i32], b: &[i32], n: usize, inv: bool, f: impl Fn(usize, usize) -> usize) -> Vec<i32> {
        if let Some(i) = a.iter().position(|l| *l == T) {
            return self.map(b, n, |j| f(i, j));
        }
        if let Some(j) = b.iter().position(|l| *l == T) {
            return self.map(a, n, |i| f(i, j));
        }
        let mut mask = vec![false; n];
        for i in 0..a.len() {
            for j in 0..b.len() {
                if a[i] != F && b[j] != F {
                    mask[f(i, j)] = true;
                }
            }
        }
        let c = self.fresh_vec(&mask);
        for i in 0..a.len() {
            if a[i] == F {
                continue;
            }
            for j in 0..b.len() {
                if b[j] == F {
                    continue;
                }
                self.clause(&[-a[i], -b[j], c[f(i, j)]]);
            }
            if inv {
                // b is determined by a and c
                for j in 0..b.len() {
                    if b[j] != F {
                        let k = f(i, j);
                        if (0..b.len()).filter(|x| b[*x] != F && f(i, *x) == k).count() == 1 {
                            self.clause(&[-a[i], -c[k], b[j]]);
                        }
                    }
                }
            }
        }
        c
    }

    fn input(&mut self, dag: &Dag, v: u32, p: Option<u64>) -> Option<()> {
        let info = &dag.vars[v as usize];
        if !self.inputs.contains_key(&v) {
            let mut bounded = None;
            if let (Some(lo), Some(hi)) = (&info.lo, &info.hi) {
                if let Some(n) = (hi - lo + Z::one()).to_usize() {
                    if n <= 64 {
                        bounded = Some((lo.clone(), n));
                    }
                }
            }
            let e = match bounded {
                Some((lo, n)) => {
                    let l = self.fresh_vec(&vec![true; n]);
                    FdVar::Val(lo, Rc::new(l))
                }
                None => FdVar::Res(vec![]),
            };
            self.inputs.insert(v, e);
        }
        if let Some(p) = p {
            let need = match &self.inputs[&v] {
                FdVar::Val(..) => false,
                FdVar::Res(l) => {
                    if l.iter().any(|(q, _)| *q == p) {
                        false
                    } else if l.iter().any(|(q, _)| q.gcd(&p) != 1) {
                        return None;
                    } else {
                        true
                    }
                }
            };
            if need {
                let l = Rc::new(self.fresh_vec(&vec![true; p as usize]));
                if let Some(FdVar::Res(x)) = self.inputs.get_mut(&v) {
                    x.push((p, l));
                }
            }
        }
        Some(())
    }

    fn residue(&mut self, dag: &mut Dag, id: Id, p: u64) -> Option<Rc<Vec<i32>>> {
        if let Some(r) = self.res.get(&(id, p)) {
            return r.clone();
        }
        let r = self.residue_raw(dag, id, p).map(Rc::new);
        self.res.insert((id, p), r.clone());
        r
    }

    fn residue_raw(&mut self, dag: &mut Dag, id: Id, p: u64) -> Option<Vec<i32>> {
        let n = p as usize;
        let zp = Z::from(p);
        match dag.nodes[id as usize].clone() {
            Node::Var(v) => {
                self.input(dag, v, Some(p))?;
                match &self.inputs[&v] {
                    FdVar::Val(lo, l) => {
                        let l = l.clone();
                        let base = lo.mod_floor(&zp).to_usize().unwrap();
                        Some(self.map(&l, n, |i| (base + i) % n))
                    }
                    FdVar::Res(x) => Some(x.iter().find(|(q, _)| *q == p).unwrap().1.to_vec()),
                }
            }
            Node::Lin { c, t } => {
                let c = c.mod_floor(&zp).to_usize().unwrap();
                let mut acc = vec![F; n];
                acc[c] = T;
                for (i, k) in t {
                    let k = k.mod_floor(&zp).to_usize().unwrap();
                    if k == 0 {
                        continue;
                    }
                    let x = self.residue(dag, i, p)?;
                    let x = self.map(&x, n, |i| (i * k) % n);
                    acc = self.binop(&acc, &x, n, true, |i, j| (i + j) % n);
                }
                Some(acc)
            }
            Node::Prod(f) => {
                let (last, e) = f.last().unwrap().clone();
                let x = self.residue(dag, last, p)?;
                let e = Z::from(e);
                let tab: Vec<usize> = (0..n)
                    .map(|i| Z::from(i as u64).modpow(&e, &zp).mod_floor(&zp).to_usize().unwrap())
                    .collect();
                let x = self.map(&x, n, |i| tab[i]);
                if f.len() == 1 {
                    return Some(x);
                }
                let rest = match dag.mk_prod(f[..f.len() - 1].to_vec()) {
                    V::N(i) => i,
                    V::C(_) => return None,
                };
                let y = self.residue(dag, rest, p)?;
                Some(self.binop(&y, &x, n, true, |i, j| (i * j) % n))
            }
            Node::Mod(e, m) if m.mod_floor(&zp).is_zero() => self.residue(dag, e, p).map(|r| r.to_vec()),
            _ => {
                let (lo, l) = self.value(dag, id)?;
                let base = lo.mod_floor(&zp).to_usize().unwrap();
                Some(self.map(&l, n, |i| (base + i) % n))
            }
        }
    }

    fn value(&mut self, dag: &mut Dag, id: Id) -> Option<(Z, Rc<Vec<i32>>)> {
        if let Some(r) = self.val.get(&id) {
            return r.clone();
        }
        let r = self.value_raw(dag, id).map(|(a, b)| (a, Rc::new(b)));
        self.val.insert(id, r.clone());
        r
    }

    fn value_raw(&mut self, dag: &mut Dag, id: Id) -> Option<(Z, Vec<i32>)> {
        match dag.nodes[id as usize].clone() {
            Node::Var(v) => {
                self.input(dag, v, None)?;
                match &self.inputs[&v] {
                    FdVar::Val(lo, l) => Some((lo.clone(), l.to_vec())),
                    _ => None,
                }
            }
            Node::Mod(e, m) => {
                let p = m.to_u64()?;
                if p > MAXP {
                    return None;
                }
                let r = self.residue(dag, e, p)?;
                Some((Z::zero(), r.to_vec()))
            }
            Node::Lin { c, t } => {
                if let (Some(a), Some(b)) = dag.range(&V::N(id)) {
                    if (b - a).to_usize()? >= MAXSPAN {
                        return None;
                    }
                } else {
                    return None;
                }
                let mut lo = c;
                let mut acc = vec![T];
                for (i, k) in t {
                    let (xlo, x) = self.value(dag, i)?;
                    let xs = x.len() as i64;
                    let k = k.to_i64()?;
                    let n = ((xs - 1) * k.abs() + 1) as usize;
                    if n > MAXSPAN {
                        return None;
                    }
                    let y = self.map(&x, n, |i| if k > 0 { i * k as usize } else { (xs as usize - 1 - i) * (-k) as usize });
                    let ylo = if k > 0 { &xlo * Z::from(k) } else { (&xlo + Z::from(xs - 1)) * Z::from(k) };
                    let m = acc.len() + n - 1;
                    if m > MAXSPAN {
                        return None;
                    }
                    acc = self.binop(&acc, &y, m, true, |i, j| i + j);
                    lo = lo + ylo;
                }
                Some((lo, acc))
            }
            Node::Prod(f) => {
                let (a, b) = match dag.range(&V::N(id)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return None,
                };
                if (&b - &a).to_usize()? >= MAXSPAN {
                    return None;
                }
                let (last, e) = f.last().unwrap().clone();
                let (xlo, x) = self.value(dag, last)?;
                let pw: Vec<Z> = (0..x.len()).map(|i| crate::expr::zpow(&(&xlo + Z::from(i as u64)), &e)).collect::<Option<Vec<_>>>()?;
                if f.len() == 1 {
                    let n = (&b - &a).to_usize()? + 1;
                    let idx: Vec<usize> = pw.iter().map(|z| (z - &a).to_usize()).collect::<Option<Vec<_>>>()?;
                    return Some((a, self.map(&x, n, |i| idx[i])));
                }
                let rest = match dag.mk_prod(f[..f.len() - 1].to_vec()) {
                    V::N(i) => i,
                    V::C(_) => return None,
                };
                let (ylo, y) = self.value(dag, rest)?;
                let n = (&b - &a).to_usize()? + 1;
                let mut tab = vec![vec![0usize; x.len()]; y.len()];
                for j in 0..y.len() {
                    for i in 0..x.len() {
                        let z = (&ylo + Z::from(j as u64)) * &pw[i];
                        tab[j][i] = match (&z - &a).to_usize() {
                            Some(k) if k < n => k,
                            _ => return None,
                        };
                    }
                }
                Some((a, self.binop(&y, &x, n, false, |j, i| tab[j][i])))
            }
            Node::Div(e, m) => {
                let (lo, l) = self.value(dag, e)?;
                let b = lo.div_floor(&m);
                let top = (&lo + Z::from(l.len() as u64 - 1)).div_floor(&m);
                let n = (&top - &b).to_usize()? + 1;
                let idx: Vec<usize> = (0..l.len())
                    .map(|i| ((&lo + Z::from(i as u64)).div_floor(&m) - &b).to_usize().unwrap())
                    .collect();
                Some((b, self.map(&l, n, |i| idx[i])))
            }
            Node::DivS(..) => None,
        }
    }

    /// the product of the ranges of the inputs, if it is small
    fn joint(&mut self, dag: &mut Dag, vars: &[u32]) -> Option<Rc<Joint>> {
        if let Some(j) = self.joints.get(vars) {
            return Some(j.clone());
        }
        let mut lits = vec![T];
        for v in vars {
            self.input(dag, *v, None)?;
            let l = match &self.inputs[v] {
                FdVar::Val(_, l) => l.clone(),
                _ => return None,
            };
            // one literal per point: the conjunction of its coordinates
            let mut next = vec![];
            for x in &lits {
                for y in l.iter() {
                    next.push(match (*x, *y) {
                        (F, _) | (_, F) => F,
                        (T, y) => y,
                        (x, T) => x,
                        (x, y) => {
                            let z = self.fresh();
                            self.clause(&[-z, x]);
                            self.clause(&[-z, y]);
                            self.clause(&[-x, -y, z]);
                            z
                        }
                    });
                }
            }
            lits = next;
        }
        let j = Rc::new(Joint { lits });
        self.joints.insert(vars.to_vec(), j.clone());
        Some(j)
    }

    /// the condition as a truth table over the inputs it depends on
    fn table(&mut self, dag: &mut Dag, c: &Cond) -> Option<i32> {
        if let Some(l) = self.eq_lit.get(c) {
            return Some(*l);
        }
        let id = c.id();
        let vars = dag.varset(id);
        if vars.is_empty() {
            return None;
        }
        let t = crate::table::truth(dag, c)?;
        let j = self.joint(dag, &vars)?;
        // b <-> some point of the table; the solver gets to see constant tables, too
        let global = (std::mem::take(&mut self.out), self.clauses);
        let b = self.fresh();
        let mut some = vec![-b];
        for (i, l) in j.lits.iter().enumerate() {
            if t.truth[i] {
                some.push(*l);
                self.clause(&[-*l, b]);
            }
        }
        self.clause(&some);
        self.eq_lit.insert(*c, b);
        self.scoped_conds.push(*c);
        let text = std::mem::replace(&mut self.out, global.0);
        self.scoped.push_str(&text);
        self.clauses = global.1;
        Some(b)
    }

    /// the definitions of this query only
    pub fn take_scoped(&mut self) -> String {
        for c in self.scoped_conds.drain(..) {
            self.eq_lit.remove(&c);
        }
        std::mem::take(&mut self.scoped)
    }

    /// literal equivalent to the condition
    fn cond(&mut self, dag: &mut Dag, c: &Cond, use_alias: bool) -> Option<i32> {
        if let Some(l) = self.table(dag, c) {
            return Some(l);
        }
        match c {
            Cond::Eq0(id) => {
                let alias = if use_alias { dag.alias.get(id).cloned().unwrap_or(*id) } else { *id };
                let id = &alias;
                if let Node::Lin { .. } = dag.nodes[*id as usize] {
                    // a combination of residues smaller than the modulus in absolute value
                    if let Some((e, p)) = under(dag, *id) {
                        let r = self.residue(dag, e, p)?;
                        return Some(r[0]);
                    }
                }
                if let Node::Mod(e, m) = dag.nodes[*id as usize].clone() {
                    if let Some(p) = m.to_u64() {
                        if p <= MAXP {
                            let r = self.residue(dag, e, p)?;
                            return Some(r[0]);
                        }
                    }
                    return None;
                }
                let (lo, l) = self.value(dag, *id)?;
                Some(match (-lo).to_usize() {
                    Some(i) if i < l.len() => l[i],
                    _ => F,
                })
            }
            Cond::Lt0(id) => {
                let (lo, l) = self.value(dag, *id)?;
                let r = self.map(&l, 2, |i| if (&lo + Z::from(i as u64)).is_negative() { 1 } else { 0 });
                Some(r[1])
            }
        }
    }

    pub fn mentions_small_mod(dag: &Dag, conds: &[(Cond, bool)]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut stack: Vec<Id> = conds.iter().map(|(c, _)| c.id()).collect();
        while let Some(i) = stack.pop() {
            if !seen.insert(i) {
                continue;
            }
            match &dag.nodes[i as usize] {
                Node::Var(_) => {}
                Node::Lin { t, .. } => stack.extend(t.iter().map(|x| x.0)),
                Node::Prod(f) => stack.extend(f.iter().map(|x| x.0)),
                Node::Mod(e, m) => {
                    if m <= &Z::from(MAXP) {
                        return true;
                    }
                    stack.push(*e)
                }
                Node::Div(e, _) => stack.push(*e),
                Node::DivS(a, b) => {
                    stack.push(*a);
                    stack.push(*b)
                }
            }
        }
        false
    }

    /// None: nothing useful can be said; Some(Err(())): trivially unsatisfiable
    pub fn prepare(&mut self, dag: &mut Dag, conds: &[(Cond, bool)], target: Option<Cond>) -> Option<Result<Prepared, ()>> {
        let mut a = vec![];
        let mut dropped = 0;
        for (c, b) in conds {
            match self.cond(dag, c, true).or_else(|| self.cond(dag, c, false)) {
                Some(l) => {
                    let l = if *b { l } else { -l };
                    if l == F {
                        return Some(Err(()));
                    }
                    if l != T {
                        a.push(l);
                    }
                }
                None => {
                    if Some(*c) == target {
                        return None;
                    }
                    dropped += 1;
                }
            }
        }
        let mut vars: Vec<u32> = conds.iter().flat_map(|(c, _)| dag.varset(c.id()).to_vec()).collect();
        vars.sort();
        vars.dedup();
        let mut lits = vec![];
        for v in &vars {
            match self.inputs.get(v) {
                Some(FdVar::Val(_, l)) => lits.extend(l.iter().cloned()),
                Some(FdVar::Res(x)) => {
                    for (_, l) in x {
                        lits.extend(l.iter().cloned());
                    }
                }
                None => {}
            }
        }
        lits.retain(|l| l.abs() != T);
        let names = lits.iter().map(|l| format!("b{}", l)).collect();
        Some(Ok(Prepared { assumptions: a, dropped, names, lits }))
    }

    /// candidate models that agree with the Boolean assignment
    pub fn decode(&self, dag: &Dag, conds: &[(Cond, bool)], truth: &HashMap<i32, bool>, mut rand: impl FnMut() -> u64, round: u32) -> Model {
        let mut m = Model::new();
        let mut vars: Vec<u32> = vec![];
        let _ = conds;
        for v in self.inputs.keys() {
            vars.push(*v);
        }
        vars.sort();
        for v in vars {
            let on = |l: &Vec<i32>| l.iter().position(|x| *x == T || truth.get(x).cloned().unwrap_or(false));
            match &self.inputs[&v] {
                FdVar::Val(lo, l) => {
                    if let Some(i) = on(l) {
                        m.insert(v, lo + Z::from(i as u64));
                    }
                }
                FdVar::Res(x) => {
                    // CRT over pairwise coprime moduli
                    let mut z = Z::zero();
                    let mut md = Z::one();
                    let mut any = false;
                    for (p, l) in x {
                        if let Some(i) = on(l) {
                            any = true;
                            let p = Z::from(*p);
                            while (&z).mod_floor(&p) != Z::from(i as u64) {
                                z = z + &md;
                            }
                            md = md * p;
                        }
                    }
                    if !any {
                        continue;
                    }
                    let info = &dag.vars[v as usize];
                    let k = Z::from((rand() % (1 + 2 * round as u64)) as i64 - if info.lo.is_none() && info.hi.is_none() { round as i64 } else { 0 });
                    let z = match (&info.lo, &info.hi) {
                        (Some(lo), _) => lo + (&z - lo).mod_floor(&md) + k * &md,
                        (None, Some(hi)) => hi - (hi - &z).mod_floor(&md) - k * &md,
                        _ => z + k * &md,
                    };
                    if let Some(hi) = &info.hi {
                        if &z > hi {
                            continue;
                        }
                    }
                    m.insert(v, z);
                }
            }
        }
        m
    }
}

/// v = 0 iff v = 0 modulo a small modulus inside it
fn under(dag: &mut Dag, id: Id) -> Option<(Id, u64)> {
    let t = match &dag.nodes[id as usize] {
        Node::Lin { t, .. } => t.clone(),
        _ => return None,
    };
    let (lo, hi) = match dag.range(&V::N(id)) {
        (Some(a), Some(b)) => (a, b),
        _ => return None,
    };
    for (i, _) in &t {
        if let Node::Mod(_, m) = &dag.nodes[*i as usize] {
            if lo > -m.clone() && &hi < m {
                if let Some(p) = m.to_u64() {
                    if p <= MAXP {
                        return Some((id, p));
                    }
                }
            }
        }
    }
    None
}

fn push_lit(s: &mut String, l: i32) {
    if l < 0 {
        let _ = write!(s, "(not b{})", -l);
    } else {
        let _ = write!(s, "b{}", l);
    }
}

pub fn lit(l: i32) -> String {
    let mut s = String::new();
    push_lit(&mut s, l);
    s
}
