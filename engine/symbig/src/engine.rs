//! Symbolic execution by re-execution: every comparison on a symbolic value is a decision, both
//! sides are put to the SMT solver, and all feasible paths are explored depth first.
use crate::expr::{modpow, Dag, Id, Node, Poly, V};
use crate::field::{FPoly, Field, Rule};
use crate::solver::{Answer, Model, Solver};
use crate::{U, Z};
use num_integer::Integer;
use num_traits::ToPrimitive;
use num_traits::{One, Signed, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Cond {
    Eq0(Id),
    Lt0(Id),
}

impl Cond {
    pub fn id(&self) -> Id {
        match self {
            Cond::Eq0(i) | Cond::Lt0(i) => *i,
        }
    }
}

/// what the engine throws through the code under test
pub enum Control {
    /// path outside the harness's assumptions
    Assume,
    /// a check failed on this path
    Violation(String, &'static str),
    /// the engine cannot go on (unsupported operation, no model...)
    Abort(String),
    /// the run as a whole is out of budget
    Budget(String),
}

pub fn abort(msg: &str) -> ! {
    panic_any(Control::Abort(msg.to_string()))
}

#[derive(Clone, Debug)]
enum Step {
    Branch { cond: Cond, taken: bool, flip: bool, implied: bool, other: Option<Model> },
    Pick(Z),
    /// an input that the path leaves a single value
    Pin(u32, Z),
}

#[derive(Clone, Debug)]
enum Simp {
    Const(bool),
    Atom(Cond, bool),
    /// true iff one of them is true
    Any(Vec<(Cond, bool)>),
    /// product is negative: factors with odd exponent, all factors
    SignProd(Vec<V>, Vec<V>),
}

#[derive(Clone, Debug, Default)]
pub struct Config {
    pub max_paths: u64,
    pub max_ms: u64,
    pub fuel: u64,
    pub query_ms: u64,
    pub path_ms: u64,
    pub stop_after: usize,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub kind: &'static str,
    pub model: BTreeMap<String, Z>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub paths: u64,
    pub completed: u64,
    pub assumed_away: u64,
    pub decisions: u64,
    pub branches: u64,
    pub implied: u64,
    pub folded: u64,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub ops: u64,
    pub unknown: u64,
    /// values taken to be nonzero without a look at the other side (generic mode)
    pub excluded: u64,
    /// inputs the solver found to have a single value on the rest of a path
    pub pinned: u64,
    pub exclusions: Vec<String>,
    pub guessed: u64,
    pub cached: u64,
    pub norm_decided: u64,
    pub fd_queries: u64,
    pub bv_queries: u64,
    pub int_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_unknown: u64,
    pub solver_ms: u64,
    pub max_query_ms: u64,
    pub wall_ms: u64,
    pub vars: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub problems: Vec<String>,
    pub samples: Vec<String>,
    /// concrete inputs of some completed paths
    pub witnesses: Vec<BTreeMap<String, Z>>,
    pub exhausted: bool,
}

pub struct Engine {
    pub dag: Dag,
    solver: Solver,
    cfg: Config,
    trail: Vec<Step>,
    pos: usize,
    facts: HashMap<Cond, bool>,
    constraints: Vec<(Cond, bool)>,
    model: Option<Model>,
    eval_memo: HashMap<Id, Z>,
    start: Instant,
    fuel: u64,
    simp_memo: HashMap<Cond, Simp>,
    cache: HashMap<Vec<(Cond, bool)>, Option<Option<Model>>>,
    pub rep: Report,
    checks_here: u64,
    rng: u64,
    path_vars: BTreeSet<u32>,
    fields: HashMap<Z, Field>,
    better: HashMap<(Id, Id), bool>,
    /// inputs that the path determines: var = expression (None: over the integers, p: modulo p)
    pub substs: Vec<(Id, V, Option<Z>)>,
    /// equations that are not forced are taken to fail
    pub generic: bool,
    /// look for inputs with a single value left
    pub pinning: bool,
    all_tables: bool,
    pins: Model,
    pin_memo: HashMap<Id, Z>,
    rules: Vec<Rule>,
    /// input -> (f, p): its square is f modulo p
    derived: HashMap<u32, (Id, Z)>,
}

thread_local! {
    static ENG: RefCell<Option<Engine>> = RefCell::new(None);
}

/// model of the path being executed, for the watchdog
pub static CURRENT: Mutex<(u64, Vec<(String, String)>)> = Mutex::new((0, Vec::new()));
pub static HEARTBEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| {
        let mut b = e.borrow_mut();
        let eng = b.as_mut().unwrap_or_else(|| panic!("symbolic value used outside of an exploration"));
        f(eng)
    })
}

pub fn active() -> bool {
    ENG.with(|e| e.borrow().is_some())
}

/// one BigInt operation
pub fn tick() {
    let over = ENG.with(|e| {
        if let Ok(mut b) = e.try_borrow_mut() {
            if let Some(eng) = b.as_mut() {
                eng.rep.ops += 1;
                if eng.fuel == 0 {
                    return true;
                }
                eng.fuel -= 1;
            }
        }
        false
    });
    if over {
        panic_any(Control::Violation("operation budget of the path exhausted (possible non-termination)".into(), "hang"));
    }
}

impl Engine {
    fn new(cfg: Config) -> Engine {
        Engine {
            dag: Dag::new(),
            solver: Solver::new(cfg.query_ms),
            fuel: cfg.fuel,
            cfg,
            trail: vec![],
            pos: 0,
            facts: HashMap::new(),
            constraints: vec![],
            model: Some(Model::new()),
            eval_memo: HashMap::new(),
            start: Instant::now(),
            simp_memo: HashMap::new(),
            cache: HashMap::new(),
            rep: Report::default(),
            checks_here: 0,
            rng: 0x9E3779B97F4A7C15,
            path_vars: BTreeSet::new(),
            fields: HashMap::new(),
            better: HashMap::new(),
            substs: vec![],
            generic: false,
            pinning: false,
            all_tables: std::env::var("SYM_TABLES").is_ok(),
            pins: Model::new(),
            pin_memo: HashMap::new(),
            rules: vec![],
            derived: HashMap::new(),
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---- simplification of a condition -----------------------------------------------------
    fn simplify(&mut self, c: Cond) -> Simp {
        if let Some(s) = self.simp_memo.get(&c) {
            return s.clone();
        }
        let s = match c {
            Cond::Eq0(id) => self.simp_eq(id, 0),
            Cond::Lt0(id) => self.simp_lt(id),
        };
        if let (Cond::Eq0(id), Simp::Atom(Cond::Eq0(i), true)) = (&c, &s) {
            if id != i {
                let small = |n: &Node| if let Node::Mod(_, m) = n { *m <= Z::from(crate::fd::MAXP) } else { false };
                if small(&self.dag.nodes[*i as usize]) {
                    let have = self.dag.alias.get(i).cloned().unwrap_or(*i);
                    if self.dag.cost(*id) < self.dag.cost(have) {
                        self.dag.alias.insert(*i, *id);
                    }
                }
            }
        }
        self.simp_memo.insert(c, s.clone());
        s
    }

    fn eq_of(&mut self, v: &V, depth: u32) -> Simp {
        match v {
            V::C(z) => Simp::Const(z.is_zero()),
            V::N(id) => self.simp_eq(*id, depth + 1),
        }
    }

    fn any_of(&mut self, parts: Vec<V>, depth: u32) -> Simp {
        let mut out = vec![];
        for p in parts {
            match self.eq_of(&p, depth) {
                Simp::Const(true) => return Simp::Const(true),
                Simp::Const(false) => {}
                Simp::Atom(c, b) => out.push((c, b)),
                Simp::Any(v) => out.extend(v),
                Simp::SignProd(..) => unreachable!(),
            }
        }
        out.sort();
        out.dedup();
        match out.len() {
            0 => Simp::Const(false),
            1 => Simp::Atom(out[0].0, out[0].1),
            _ => Simp::Any(out),
        }
    }

    fn simp_eq(&mut self, id: Id, depth: u32) -> Simp {
        if depth > 6 {
            return Simp::Atom(Cond::Eq0(id), true);
        }
        let (lo, hi) = self.dag.range(&V::N(id));
        if lo.as_ref().map(|z| z.is_positive()).unwrap_or(false) || hi.as_ref().map(|z| z.is_negative()).unwrap_or(false) {
            return Simp::Const(false);
        }
        match self.dag.nodes[id as usize].clone() {
            Node::Prod(f) => {
                let parts = f.iter().map(|(i, _)| V::N(*i)).collect();
                self.any_of(parts, depth)
            }
            Node::Mod(e, p) => {
                let prime = self.dag.is_prime(&p);
                match self.poly_mod(e, &p) {
                    Some(poly) => {
                        if poly.is_empty() {
                            self.rep.norm_decided += 1;
                            return Simp::Const(true);
                        }
                        let (mono, mut rest) = split_monomial(&poly);
                        if prime {
                            // leading coefficient one
                            let lead = rest.iter().next_back().unwrap().1.clone();
                            let inv = crate::expr::modpow(&lead, &(&p - Z::from(2)).to_biguint().unwrap_or(U::one()), &p);
                            let inv = if p == Z::from(2) { Z::one() } else { inv };
                            for (_, k) in rest.iter_mut() {
                                *k = (&*k * &inv).mod_floor(&p);
                            }
                            let mut parts: Vec<V> = vec![];
                            if !(rest.len() == 1 && rest.contains_key(&vec![])) {
                                let v = self.dag.from_poly(&rest);
                                parts.push(self.dag.mod_c(&v, &p));
                            }
                            for (i, _) in mono {
                                parts.push(self.dag.mod_c(&V::N(i), &p));
                            }
                            if parts.is_empty() {
                                return Simp::Const(false);
                            }
                            if parts.len() == 1 {
                                return match &parts[0] {
                                    V::C(z) => Simp::Const(z.is_zero()),
                                    V::N(i) if *i == id => Simp::Atom(Cond::Eq0(id), true),
                                    V::N(i) => match self.dag.nodes[*i as usize] {
                                        Node::Mod(..) => self.settle_mod(*i),
                                        _ => self.simp_eq(*i, depth + 1),
                                    },
                                };
                            }
                            return self.any_of(parts, depth);
                        }
                        let v = self.dag.from_poly(&poly);
                        let m = self.dag.mod_c(&v, &p);
                        match m {
                            V::C(z) => Simp::Const(z.is_zero()),
                            V::N(i) => match self.dag.nodes[i as usize] {
                                Node::Mod(..) => self.settle_mod(i),
                                _ => self.simp_eq(i, depth + 1),
                            },
                        }
                    }
                    None => Simp::Atom(Cond::Eq0(id), true),
                }
            }
            Node::Lin { .. } => {
                // a difference of residues: move it under the modulus
                if let Some(v) = self.under_mod(id) {
                    return self.eq_of(&v, depth);
                }
                match self.dag.expand(id) {
                    Some(p) => {
                        if p.is_empty() {
                            self.rep.norm_decided += 1;
                            return Simp::Const(true);
                        }
                        let (mono, mut rest) = split_monomial(&p);
                        let mut g = Z::zero();
                        for (m, k) in rest.iter() {
                            if !m.is_empty() {
                                g = g.gcd(k);
                            }
                        }
                        if !g.is_zero() {
                            if let Some(c) = rest.get(&vec![]) {
                                if !c.mod_floor(&g).is_zero() {
                                    // no integer solution of the second factor
                                    let parts = mono.iter().map(|(i, _)| V::N(*i)).collect();
                                    return self.any_of(parts, depth);
                                }
                            }
                            if rest.iter().next_back().unwrap().1.is_negative() {
                                g = -g;
                            }
                            for (_, k) in rest.iter_mut() {
                                *k = &*k / &g;
                            }
                        }
                        let mut parts: Vec<V> = mono.iter().map(|(i, _)| V::N(*i)).collect();
                        if !(rest.len() == 1 && rest.contains_key(&vec![])) {
                            parts.push(self.dag.from_poly(&rest));
                        }
                        if parts.len() == 1 {
                            return match &parts[0] {
                                V::C(z) => Simp::Const(z.is_zero()),
                                V::N(i) => {
                                    if let Some(v) = self.under_mod(*i) {
                                        return self.eq_of(&v, depth);
                                    }
                                    match self.dag.nodes[*i as usize] {
                                        Node::Lin { .. } => {
                                            let (lo, hi) = self.dag.range(&V::N(*i));
                                            if lo.map(|z| z.is_positive()).unwrap_or(false) || hi.map(|z| z.is_negative()).unwrap_or(false) {
                                                return Simp::Const(false);
                                            }
                                            Simp::Atom(Cond::Eq0(*i), true)
                                        }
                                        _ => self.simp_eq(*i, depth + 1),
                                    }
                                }
                            };
                        }
                        self.any_of(parts, depth)
                    }
                    None => Simp::Atom(Cond::Eq0(id), true),
                }
            }
            _ => Simp::Atom(Cond::Eq0(id), true),
        }
    }

    fn settle_mod(&mut self, id: Id) -> Simp {
        Simp::Atom(Cond::Eq0(id), true)
    }

    /// if id = 0 iff id = 0 mod p for a modulus inside it: the expression under that modulus
    fn under_mod(&mut self, id: Id) -> Option<V> {
        let t = match &self.dag.nodes[id as usize] {
            Node::Lin { t, .. } => t.clone(),
            _ => return None,
        };
        let mut ms: Vec<Z> = vec![];
        for (i, _) in &t {
            if let Node::Mod(_, m) = &self.dag.nodes[*i as usize] {
                if !ms.contains(m) {
                    ms.push(m.clone());
                }
            }
        }
        if ms.is_empty() {
            return None;
        }
        let (lo, hi) = self.dag.range(&V::N(id));
        let (lo, hi) = (lo?, hi?);
        for m in ms {
            if lo > -m.clone() && hi < m {
                let s = self.dag.strip(&V::N(id), &m);
                return Some(self.mod_raw(&s, &m));
            }
        }
        None
    }

    fn mod_raw(&mut self, v: &V, m: &Z) -> V {
        match v {
            V::C(z) => V::C(z.mod_floor(m)),
            V::N(i) => V::N(self.dag.intern(Node::Mod(*i, m.clone()))),
        }
    }

    /// normal form of e modulo p (exponents reduced by Fermat when p is a small prime)
    fn poly_mod(&mut self, e: Id, p: &Z) -> Option<Poly> {
        let s = self.dag.strip(&V::N(e), p);
        let poly = match s {
            V::C(z) => {
                let mut q = Poly::new();
                let z = z.mod_floor(p);
                if !z.is_zero() {
                    q.insert(vec![], z);
                }
                return Some(q);
            }
            V::N(i) => self.dag.expand(i)?,
        };
        let prime = self.dag.is_prime(p);
        let mut out = Poly::new();
        for (m, k) in poly.iter() {
            let k = k.mod_floor(p);
            if k.is_zero() {
                continue;
            }
            let m = if prime {
                m.iter()
                    .map(|(i, e)| (*i, (e - Z::one()).mod_floor(&(p - Z::one())) + Z::one()))
                    .collect()
            } else {
                m.clone()
            };
            crate::expr::poly_acc(&mut out, m, k);
        }
        let out: Poly = out
            .into_iter()
            .map(|(m, k)| (m, k.mod_floor(p)))
            .filter(|(_, k)| !k.is_zero())
            .collect();
        Some(out)
    }

    fn simp_lt(&mut self, id: Id) -> Simp {
        let (lo, hi) = self.dag.range(&V::N(id));
        if lo.as_ref().map(|z| !z.is_negative()).unwrap_or(false) {
            return Simp::Const(false);
        }
        if hi.as_ref().map(|z| z.is_negative()).unwrap_or(false) {
            return Simp::Const(true);
        }
        match self.dag.nodes[id as usize].clone() {
            Node::Prod(f) => {
                let odd = f.iter().filter(|(_, e)| e.is_odd()).map(|(i, _)| V::N(*i)).collect();
                let all = f.iter().map(|(i, _)| V::N(*i)).collect();
                Simp::SignProd(odd, all)
            }
            Node::Lin { .. } => {
                let v = self.dag.normalize(&V::N(id)).unwrap_or(V::N(id));
                let (c, t) = match &v {
                    V::C(z) => return Simp::Const(z.is_negative()),
                    V::N(i) => match self.dag.nodes[*i as usize].clone() {
                        Node::Lin { c, t } => (c, t),
                        _ if *i != id => return self.simp_lt(*i),
                        _ => (Z::zero(), vec![(*i, Z::one())]),
                    },
                };
                let mut g = Z::zero();
                for (_, k) in &t {
                    g = g.gcd(k);
                }
                let neg = t[0].1.is_negative();
                let c = c.div_floor(&g);
                let t: Vec<(Id, Z)> = t.into_iter().map(|(i, k)| (i, k / &g)).collect();
                if !neg {
                    match self.dag.mk_lin(c, t) {
                        V::C(z) => Simp::Const(z.is_negative()),
                        V::N(i) if i == id => Simp::Atom(Cond::Lt0(i), true),
                        V::N(i) => match self.dag.nodes[i as usize] {
                            Node::Lin { .. } => Simp::Atom(Cond::Lt0(i), true),
                            _ => self.simp_lt(i),
                        },
                    }
                } else {
                    // e < 0  iff  not (-e - 1 < 0)
                    let c = -c - Z::one();
                    let t = t.into_iter().map(|(i, k)| (i, -k)).collect();
                    match self.dag.mk_lin(c, t) {
                        V::C(z) => Simp::Const(!z.is_negative()),
                        V::N(i) => Simp::Atom(Cond::Lt0(i), false),
                    }
                }
            }
            _ => Simp::Atom(Cond::Lt0(id), true),
        }
    }

    // ---- rational normal form modulo a prime -----------------------------------------------
    /// Err(Some(c)): not known; c holds iff the polynomial vanishes
    pub fn known_nonzero(&mut self, fld: &mut Field, f: &FPoly) -> Result<(), Option<Cond>> {
        let g = fld.strip_units(f);
        let g = fld.monic_of(&g);
        let p = fld.p.clone();
        let v = fld.to_v(&mut self.dag, &g);
        let m = self.dag.mod_c(&v, &p);
        let c = match m {
            V::C(z) => return if z.is_zero() { Err(None) } else { Ok(()) },
            V::N(i) => Cond::Eq0(i),
        };
        if self.facts.get(&c) == Some(&false) {
            return Ok(());
        }
        match self.simplify(c) {
            Simp::Const(false) => return Ok(()),
            Simp::Atom(d, pol) => {
                if self.facts.get(&d) == Some(&!pol) {
                    return Ok(());
                }
            }
            Simp::Any(v) => {
                if v.iter().all(|(d, pol)| self.facts.get(d) == Some(&!*pol)) {
                    return Ok(());
                }
            }
            _ => {}
        }
        Err(Some(c))
    }

    /// looks for an input that the fact c determines
    fn learn(&mut self, c: Cond) {
        let id = match c {
            Cond::Eq0(i) => i,
            _ => return,
        };
        let (lin, p) = match self.dag.nodes[id as usize].clone() {
            Node::Mod(e, p) => {
                if !self.dag.is_prime(&p) || p <= Z::from(crate::fd::MAXP) {
                    return;
                }
                (e, Some(p))
            }
            _ => (id, None),
        };
        let (cst, t) = match self.dag.nodes[lin as usize].clone() {
            Node::Var(_) => (Z::zero(), vec![(lin, Z::one())]),
            Node::Lin { c, t } => (c.clone(), t.to_vec()),
            _ => return,
        };
        for (k, (i, a)) in t.iter().enumerate() {
            let n = match &self.dag.nodes[*i as usize] {
                Node::Var(n) => *n,
                _ => continue,
            };
            let inv = match &p {
                None if a.is_one() || (-a).is_one() => a.clone(),
                None => continue,
                Some(p) => {
                    let a = a.mod_floor(p);
                    if a.is_zero() {
                        continue;
                    }
                    modpow(&a, &(p - Z::from(2)).to_biguint().unwrap(), p)
                }
            };
            if self.substs.iter().any(|s| s.0 == *i) {
                continue;
            }
            // the others may not lead back to it
            let mut seen: BTreeSet<u32> = BTreeSet::new();
            for (j, (x, _)) in t.iter().enumerate() {
                if j != k {
                    seen.extend(self.dag.varset(*x).iter().cloned());
                }
            }
            loop {
                let mut more: BTreeSet<u32> = BTreeSet::new();
                for (v, e, _) in self.substs.clone() {
                    if let (Node::Var(m), V::N(e)) = (self.dag.nodes[v as usize].clone(), e) {
                        if seen.contains(&m) {
                            more.extend(self.dag.varset(e).iter().cloned());
                        }
                    }
                }
                let n0 = seen.len();
                seen.extend(more);
                if seen.len() == n0 {
                    break;
                }
            }
            if seen.contains(&n) {
                continue;
            }
            let mut rest = V::C(-&cst * &inv);
            for (j, (x, b)) in t.iter().enumerate() {
                if j != k {
                    let term = self.dag.mul(&V::N(*x), &V::C(-b * &inv));
                    rest = self.dag.add(&rest, &term);
                }
            }
            self.substs.push((*i, rest, p));
            self.fields.clear();
            return;
        }
    }

    /// numerator of e over denominators known to be nonzero
    fn field_view(&mut self, e: Id, p: &Z) -> Result<V, Option<Cond>> {
        let mut fld = match self.fields.remove(p) {
            Some(f) => f,
            None => {
                let mut f = Field::new(p);
                for r in self.rules.clone() {
                    if &r.p == p {
                        f.add_rule(self, &r);
                    }
                }
                f
            }
        };
        let r = fld.rat(self, e);
        let out = match r {
            Ok(r) => {
                if r.num.is_empty() {
                    Ok(V::int(0))
                } else {
                    let g = fld.strip_units(&r.num);
                    let g = fld.monic_of(&g);
                    let v = fld.to_v(&mut self.dag, &g);
                    Ok(v)
                }
            }
            Err(c) => Err(c),
        };
        self.fields.insert(p.clone(), fld);
        out
    }

    // ---- solving -----------------------------------------------------------------------------
    fn eval_cond(&mut self, c: &Cond) -> Option<bool> {
        let model = self.model.as_ref()?;
        if let Some(t) = crate::table::truth(&mut self.dag, c) {
            if let Some(b) = t.at(&self.dag, model) {
                return Some(b);
            }
        }
        let z = self.dag.eval(c.id(), model, &mut self.eval_memo)?;
        Some(match c {
            Cond::Eq0(_) => z.is_zero(),
            Cond::Lt0(_) => z.is_negative(),
        })
    }

    fn slice(&mut self, c: Cond, b: bool) -> Vec<(Cond, bool)> {
        let mut vars: BTreeSet<u32> = self.dag.varset(c.id()).iter().cloned().collect();
        let mut out = vec![(c, b)];
        let mut left: Vec<(Cond, bool)> = self.constraints.clone();
        loop {
            let mut rest = vec![];
            let mut grew = false;
            for (k, v) in left {
                let vs = self.dag.varset(k.id());
                if vs.iter().any(|x| vars.contains(x)) {
                    vars.extend(vs.iter().cloned());
                    out.push((k, v));
                    grew = true;
                } else {
                    rest.push((k, v));
                }
            }
            left = rest;
            if !grew {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    fn satisfied(&self, set: &[(Cond, bool)], model: &Model) -> Option<bool> {
        // inputs have ranges
        for (v, z) in model {
            let info = &self.dag.vars[*v as usize];
            if info.lo.as_ref().map_or(false, |l| z < l) || info.hi.as_ref().map_or(false, |h| z > h) {
                return Some(false);
            }
        }
        crate::solver::satisfied(&self.dag, set, model)
    }

    /// cheap search for a model of the slice (never used to rule anything out)
    fn guess(&mut self, set: &[(Cond, bool)]) -> Option<Model> {
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for (c, _) in set {
            vars.extend(self.dag.varset(c.id()).iter().cloned());
        }
        let vars: Vec<u32> = vars.into_iter().collect();
        let base = self.model.clone();
        // inputs that an equation over the integers determines
        let mut exact: Vec<(Id, u32, Z)> = vec![];
        for (c, b) in set {
            if let (Cond::Eq0(id), true) = (c, b) {
                let mut cands: Vec<(u32, Z)> = vec![];
                match &self.dag.nodes[*id as usize] {
                    Node::Var(v) => cands.push((*v, Z::one())),
                    Node::Lin { t, .. } => {
                        for (i, k) in t {
                            if let (Node::Var(v), true) = (&self.dag.nodes[*i as usize], k.is_one() || (-k).is_one()) {
                                cands.push((*v, k.clone()));
                            }
                        }
                    }
                    _ => {}
                }
                cands.retain(|(v, _)| !exact.iter().any(|x| x.1 == *v));
                if let Some((v, k)) = cands.pop() {
                    exact.push((*id, v, k));
                }
            }
        }
        // inputs that a residue equation (large modulus) determines linearly
        let mut linear: Vec<(Id, Z, Vec<u32>)> = vec![];
        for (c, b) in set {
            if let (Cond::Eq0(id), true) = (c, b) {
                if let Node::Mod(e, p) = self.dag.nodes[*id as usize].clone() {
                    if p > Z::from(crate::fd::MAXP) && self.dag.is_prime(&p) {
                        if let Some(poly) = self.poly_mod(e, &p) {
                            let mut deg: BTreeMap<Id, Z> = BTreeMap::new();
                            for mo in poly.keys() {
                                for (i, k) in mo {
                                    let d = deg.entry(*i).or_insert_with(Z::zero);
                                    if &*d < k {
                                        *d = k.clone();
                                    }
                                }
                            }
                            let mut vs = vec![];
                            for (i, d) in deg {
                                if let (Node::Var(v), true) = (&self.dag.nodes[i as usize], d.is_one()) {
                                    if !exact.iter().any(|x| x.1 == *v) {
                                        vs.push(*v);
                                    }
                                }
                            }
                            if !vs.is_empty() {
                                linear.push((e, p, vs));
                            }
                        }
                    }
                }
            }
        }
        let derived: Vec<(u32, Id, Z)> = vars
            .iter()
            .filter_map(|v| self.derived.get(v).map(|(f, p)| (*v, *f, p.clone())))
            .collect();
        let rounds = if derived.is_empty() && linear.is_empty() && exact.is_empty() { 24 } else { 160 };
        for round in 0..rounds {
            let mut m = Model::new();
            for v in &vars {
                let keep = base.is_some() && round < 12 && self.rand() % 3 != 0;
                let z = if keep {
                    self.dag.var_value(*v, base.as_ref().unwrap())
                } else {
                    let info = &self.dag.vars[*v as usize];
                    let (lo, hi) = (info.lo.clone(), info.hi.clone());
                    let r = self.rand();
                    match (lo, hi) {
                        (Some(a), Some(b)) => {
                            let span = &b - &a + Z::one();
                            let r2 = self.rand();
                            let big = Z::from(r) * Z::from(u64::max_value()) * Z::from(u64::max_value()) * Z::from(u64::max_value()) + Z::from(r2);
                            a + if span.bits() < 60 { Z::from(r) } else { big }.mod_floor(&span)
                        }
                        (Some(a), None) => a + Z::from(r % 7),
                        (None, Some(b)) => b - Z::from(r % 7),
                        (None, None) => Z::from((r % 9) as i64 - 4),
                    }
                };
                m.insert(*v, z);
            }
            for (id, v, k) in &exact {
                m.insert(*v, Z::zero());
                let mut memo = HashMap::new();
                if let Some(z) = self.dag.eval(*id, &m, &mut memo) {
                    m.insert(*v, -z * k);
                }
            }
            if !derived.is_empty() {
                for (_, f, _) in &derived {
                    // inputs only the right-hand side mentions
                    for v in self.dag.varset(*f).iter() {
                        if !m.contains_key(v) {
                            let z = self.dag.var_value(*v, base.as_ref().unwrap_or(&Model::new()));
                            m.insert(*v, z);
                        }
                    }
                }
                if !self.take_roots(&derived, &mut m) {
                    continue;
                }
            }
            for (e, p, vs) in &linear {
                let v = vs[(self.rand() % vs.len() as u64) as usize];
                let at = |dag: &Dag, m: &mut Model, z: Z| {
                    m.insert(v, z);
                    let mut memo = HashMap::new();
                    let w = dag.mod_eval(*e, p, m, &mut memo);
                    w
                };
                let old = m.get(&v).cloned();
                let c0 = at(&self.dag, &mut m, Z::zero());
                let c1 = at(&self.dag, &mut m, Z::one());
                match (c0, c1) {
                    (Some(c0), Some(c1)) if c0 != c1 => {
                        let k = (c1 - &c0).mod_floor(p);
                        let inv = modpow(&k, &(p - Z::from(2)).to_biguint().unwrap(), p);
                        let z = (-c0 * inv).mod_floor(p);
                        m.insert(v, z);
                    }
                    _ => {
                        if let Some(o) = old {
                            m.insert(v, o);
                        }
                    }
                }
            }
            if !derived.is_empty() && !linear.is_empty() && !self.take_roots(&derived, &mut m) {
                continue;
            }
            if self.satisfied(set, &m) == Some(true) {
                return Some(m);
            }
        }
        None
    }

    /// sets the derived inputs to a square root of their square
    fn take_roots(&mut self, derived: &[(u32, Id, Z)], m: &mut Model) -> bool {
        for (v, f, p) in derived {
            let mut memo = HashMap::new();
            let z = match self.dag.mod_eval(*f, p, m, &mut memo) {
                Some(z) => z,
                None => return false,
            };
            let r = modpow(&z, &((p + Z::one()) / Z::from(4)).to_biguint().unwrap(), p);
            if (&r * &r - &z).mod_floor(p) != Z::zero() {
                return false;
            }
            // keep a root that is already there
            if let Some(y) = m.get(v) {
                if (y * y - &z).mod_floor(p).is_zero() {
                    continue;
                }
            }
            let r = if self.rand() % 2 == 0 { r } else { (p - r).mod_floor(p) };
            m.insert(*v, r);
        }
        true
    }

    /// Some(Some(m)) feasible with model, Some(None) infeasible, None unknown
    fn query(&mut self, c: Cond, b: bool) -> Option<Option<Model>> {
        let set = self.slice(c, b);
        if let Some(r) = self.cache.get(&set) {
            self.rep.cached += 1;
            return r.clone();
        }
        let tabled = set.iter().all(|(c, _)| crate::table::truth(&mut self.dag, c).is_some());
        let guess = if tabled { None } else { self.guess(&set) };
        let r = if let Some(m) = guess {
            self.rep.guessed += 1;
            Some(Some(m))
        } else {
            match self.solver.solve(&mut self.dag, &set, Some(c)) {
                Answer::Unsat => Some(None),
                Answer::Sat(m) => match self.satisfied(&set, &m) {
                    Some(true) => Some(Some(m)),
                    Some(false) => abort("solver model does not satisfy the constraints (encoding error)"),
                    None => {
                        self.problem("model too large to evaluate".into());
                        None
                    }
                },
                Answer::Unknown(why) => {
                    self.rep.unknown += 1;
                    self.problem(format!("undecided query: {} [{}]", why, self.show_set(&set)));
                    None
                }
            }
        };
        if !tabled {
            self.cache.insert(set, r.clone());
        }
        r
    }

    fn problem(&mut self, s: String) {
        if self.rep.problems.len() < 10 && !self.rep.problems.contains(&s) {
            self.rep.problems.push(s);
        }
    }

    fn show_set(&self, set: &[(Cond, bool)]) -> String {
        let mut s = String::new();
        for (c, b) in set.iter().take(6) {
            let op = match (c, b) {
                (Cond::Eq0(_), true) => "= 0",
                (Cond::Eq0(_), false) => "!= 0",
                (Cond::Lt0(_), true) => "< 0",
                (Cond::Lt0(_), false) => ">= 0",
            };
            s.push_str(&format!("{} {}; ", self.show(&V::N(c.id()), 6), op));
        }
        if s.len() > 600 {
            s = s.chars().take(600).collect();
        }
        s
    }

    pub fn show(&self, v: &V, depth: u32) -> String {
        match v {
            V::C(z) => z.to_string(),
            V::N(id) => {
                if depth == 0 {
                    return format!("#{}", id);
                }
                match &self.dag.nodes[*id as usize] {
                    Node::Var(v) => self.dag.vars[*v as usize].name.clone(),
                    Node::Lin { c, t } => {
                        let mut s: Vec<String> = t
                            .iter()
                            .map(|(i, k)| if k.is_one() { self.show(&V::N(*i), depth - 1) } else { format!("{}*{}", k, self.show(&V::N(*i), depth - 1)) })
                            .collect();
                        if !c.is_zero() {
                            s.push(c.to_string());
                        }
                        format!("({})", s.join(" + "))
                    }
                    Node::Prod(f) => f
                        .iter()
                        .map(|(i, e)| if e.is_one() { self.show(&V::N(*i), depth - 1) } else { format!("{}^{}", self.show(&V::N(*i), depth - 1), e) })
                        .collect::<Vec<_>>()
                        .join("*"),
                    Node::Mod(e, m) => format!("[{} mod {}]", self.show(&V::N(*e), depth - 1), m),
                    Node::Div(e, m) => format!("[{} div {}]", self.show(&V::N(*e), depth - 1), m),
                    Node::DivS(e, m) => format!("[{} div {}]", self.show(&V::N(*e), depth - 1), self.show(&V::N(*m), depth - 1)),
                }
            }
        }
    }

    fn set_model(&mut self, m: Option<Model>) {
        self.model = m;
        self.eval_memo.clear();
    }

    fn merged(&self, m: &Model) -> Option<Model> {
        let mut out = self.model.clone()?;
        for (k, v) in m {
            out.insert(*k, v.clone());
        }
        Some(out)
    }

    fn view(&mut self, c: Cond) -> View {
        if self.facts.contains_key(&c) {
            return View::Plain;
        }
        let id = match c {
            Cond::Eq0(i) => i,
            _ => return View::Plain,
        };
        let (e, p) = match self.dag.nodes[id as usize].clone() {
            Node::Mod(e, p) => (e, p),
            _ => return View::Plain,
        };
        if !self.dag.is_prime(&p) || p <= Z::from(3) {
            return View::Plain;
        }
        let small = p <= Z::from(crate::fd::MAXP);
        let v = match self.field_view(e, &p) {
            Ok(v) => v,
            Err(Some(d)) if !small && d != c => return View::Need(d),
            Err(_) => return View::Plain,
        };
        let m = self.dag.mod_c(&v, &p);
        let i = match m {
            V::C(z) => {
                self.rep.norm_decided += 1;
                return View::Known(z.is_zero());
            }
            V::N(i) => i,
        };
        if i == id {
            return View::Plain;
        }
        let s = self.simplify(Cond::Eq0(i));
        if small {
            let have = self.dag.alias.get(&id).cloned().unwrap_or(id);
            let better = match &s {
                Simp::Const(_) => true,
                Simp::Atom(Cond::Eq0(j), _) => {
                    let j = self.dag.alias.get(j).cloned().unwrap_or(*j);
                    self.dag.cost(j) < self.dag.cost(have)
                }
                Simp::Any(_) => true,
                _ => false,
            };
            // the same answer when the path is replayed
            let key = (id, match &s {
                Simp::Atom(Cond::Eq0(j), _) => *j,
                _ => id,
            });
            if !*self.better.entry(key).or_insert(better) {
                return View::Plain;
            }
        }
        match s {
            Simp::Const(b) => View::Known(b),
            Simp::Atom(d, pol) => {
                if d == c {
                    View::Plain
                } else {
                    View::Other(vec![(d, pol)])
                }
            }
            Simp::Any(v) => View::Other(v),
            Simp::SignProd(..) => View::Plain,
        }
    }

    fn decide_atom(&mut self, c: Cond) -> bool {
        if let Some(b) = self.facts.get(&c) {
            return *b;
        }
        self.rep.decisions += 1;
        if self.pos < self.trail.len() {
            let step = self.trail[self.pos].clone();
            self.pos += 1;
            match step {
                Step::Branch { cond, taken, implied, .. } => {
                    if cond != c {
                        abort("replayed path diverged (nondeterministic execution)");
                    }
                    self.facts.insert(c, taken);
                    if taken {
                        self.learn(c);
                    }
                    if !implied {
                        self.constraints.push((c, taken));
                        self.pin(c);
                    }
                    return taken;
                }
                Step::Pick(_) | Step::Pin(..) => abort("replayed path diverged (nondeterministic execution)"),
            }
        }
        if self.start.elapsed().as_millis() as u64 > self.cfg.max_ms {
            panic_any(Control::Budget("time budget of the exploration exhausted".into()));
        }
        HEARTBEAT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if self.generic {
            if let Cond::Eq0(_) = c {
                return self.decide_generic(c);
            }
        }
        let (taken, flip, implied, other) = match self.eval_cond(&c) {
            Some(b0) => match self.query(c, !b0) {
                Some(Some(m)) => {
                    let o = self.merged(&m);
                    (b0, true, false, o)
                }
                Some(None) => (b0, false, true, None),
                None => (b0, true, false, None),
            },
            None => {
                // the path's own feasibility is open
                let t = self.query(c, true);
                let f = self.query(c, false);
                match (t, f) {
                    (Some(None), Some(None)) => panic_any(Control::Assume),
                    (Some(None), _) => (false, false, true, None),
                    (_, Some(None)) => (true, false, true, None),
                    _ => (true, true, false, None),
                }
            }
        };
        if implied {
            self.rep.implied += 1;
        } else {
            self.rep.branches += 1;
            self.constraints.push((c, taken));
        }
        self.facts.insert(c, taken);
        if taken {
            self.learn(c);
        }
        self.trail.push(Step::Branch { cond: c, taken, flip, implied, other });
        self.pos += 1;
        if !implied {
            self.pin(c);
        }
        taken
    }

    /// v, or its value if every input in it has been pinned
    pub fn pinned(&mut self, v: &V) -> V {
        let id = match v {
            V::N(id) if !self.pins.is_empty() => *id,
            _ => return v.clone(),
        };
        let vs = self.dag.varset(id);
        if !vs.iter().all(|x| self.pins.contains_key(x)) {
            return v.clone();
        }
        match self.dag.eval(id, &self.pins, &mut self.pin_memo) {
            Some(z) => V::C(z),
            None => v.clone(),
        }
    }

    /// at most some thousand values, by interval reasoning or by the number of inputs' values
    pub fn few_values(&mut self, v: &V) -> bool {
        let limit = Z::from(5000);
        if let (Some(a), Some(b)) = self.dag.range(v) {
            if b - a < limit {
                return true;
            }
        }
        let id = match v {
            V::C(_) => return true,
            V::N(id) => *id,
        };
        let mut n = Z::from(1);
        for x in self.dag.varset(id).iter() {
            if self.pins.contains_key(x) {
                continue;
            }
            match (&self.dag.vars[*x as usize].lo, &self.dag.vars[*x as usize].hi) {
                (Some(a), Some(b)) => n = n * (b - a + Z::from(1)),
                _ => return false,
            }
            if n > limit {
                return false;
            }
        }
        true
    }

    pub fn residue(&mut self, a: &V, m: &Z) -> V {
        if let (V::N(id), false) = (a, self.generic) {
            if let Some(n) = crate::table::residue_node(&mut self.dag, *id, m) {
                return V::N(n);
            }
        }
        self.dag.mod_c(a, m)
    }

    /// the representative of the condition's truth table, if its inputs have small ranges
    fn tabled(&mut self, c: Cond) -> Option<(Cond, bool)> {
        if self.generic {
            return None;
        }
        crate::table::truth(&mut self.dag, &c).map(|t| t.rep)
    }

    /// after a branch on c: inputs of it that can only have one value from here on; a search over
    /// the values finds candidates, the solver's verdict makes them facts
    fn pin(&mut self, c: Cond) {
        if !self.pinning {
            return;
        }
        if self.pos < self.trail.len() {
            while self.pos < self.trail.len() {
                match self.trail[self.pos].clone() {
                    Step::Pin(v, z) => {
                        self.pos += 1;
                        self.pins.insert(v, z);
                        self.pin_memo.clear();
                    }
                    _ => break,
                }
            }
            return;
        }
        let base = match c {
            Cond::Eq0(i) | Cond::Lt0(i) => i,
        };
        if self.dag.varset(base).iter().all(|x| self.pins.contains_key(x)) {
            return;
        }
        let set = self.slice(c, *self.facts.get(&c).unwrap_or(&true));
        let set: Vec<(Cond, bool)> = set.into_iter().filter(|x| self.constraints.contains(x)).collect();
        let mut vars: BTreeSet<u32> = BTreeSet::new();
        for (c, _) in &set {
            vars.extend(self.dag.varset(c.id()).iter().cloned());
        }
        let vars: Vec<u32> = vars.into_iter().collect();
        let mut dom: Vec<(Z, u64)> = vec![];
        let mut size = 1u64;
        for v in &vars {
            if let Some(z) = self.pins.get(v) {
                dom.push((z.clone(), 1));
                continue;
            }
            let info = &self.dag.vars[*v as usize];
            let (lo, n) = match (&info.lo, &info.hi) {
                (Some(a), Some(b)) => match (b - a).to_u64() {
                    Some(d) if d < 1024 => (a.clone(), d + 1),
                    _ => return,
                },
                _ => return,
            };
            size *= n;
            if size > 1024 {
                return;
            }
            dom.push((lo, n));
        }
        let mut seen: Vec<Option<Z>> = vec![None; vars.len()];
        let mut many = vec![false; vars.len()];
        for (i, v) in vars.iter().enumerate() {
            if self.pins.contains_key(v) {
                many[i] = true;
            }
        }
        for t in 0..size {
            let mut m = Model::new();
            let mut k = t;
            for (v, (lo, n)) in vars.iter().zip(&dom) {
                m.insert(*v, lo + Z::from(k % n));
                k /= n;
            }
            if self.satisfied(&set, &m) != Some(true) {
                continue;
            }
            for (i, v) in vars.iter().enumerate() {
                let z = m[v].clone();
                match &seen[i] {
                    None => seen[i] = Some(z),
                    Some(w) if *w != z => many[i] = true,
                    _ => {}
                }
            }
            if many.iter().all(|x| *x) {
                return;
            }
        }
        for (i, v) in vars.iter().enumerate() {
            if many[i] {
                continue;
            }
            let z = match &seen[i] {
                Some(z) => z.clone(),
                None => return,
            };
            let x = self.dag.intern(Node::Var(*v));
            let d = match self.dag.add(&V::N(x), &V::C(-z.clone())) {
                V::N(d) => d,
                V::C(_) => return,
            };
            let d = Cond::Eq0(d);
            if self.facts.get(&d) != Some(&true) {
                match self.query(d, false) {
                    Some(None) => {
                        self.rep.implied += 1;
                        self.rep.pinned += 1;
                    }
                    _ => continue,
                }
            }
            self.facts.insert(d, true);
            self.pins.insert(*v, z.clone());
            self.pin_memo.clear();
            self.trail.push(Step::Pin(*v, z));
            self.pos += 1;
        }
    }

    /// c true only if it cannot be false
    fn decide_generic(&mut self, c: Cond) -> bool {
        if self.eval_cond(&c) != Some(false) {
            match self.query(c, false) {
                Some(Some(m)) => {
                    let o = self.merged(&m);
                    self.set_model(o);
                }
                Some(None) => {
                    self.rep.implied += 1;
                    self.facts.insert(c, true);
                    self.learn(c);
                    self.trail.push(Step::Branch { cond: c, taken: true, flip: false, implied: true, other: None });
                    self.pos += 1;
                    return true;
                }
                None => self.set_model(None),
            }
        }
        self.rep.branches += 1;
        self.rep.excluded += 1;
        if self.rep.exclusions.len() < 30 {
            let mut s = format!("{} = 0", self.show(&V::N(c.id()), 6));
            if s.len() > 200 {
                s = s.chars().take(200).collect::<String>() + "...";
            }
            self.rep.exclusions.push(s);
        }
        self.facts.insert(c, false);
        self.constraints.push((c, false));
        self.trail.push(Step::Branch { cond: c, taken: false, flip: false, implied: false, other: None });
        self.pos += 1;
        false
    }

    /// continues with c false, without a look at the other side
    fn rule_out(&mut self, c: Cond) {
        match self.facts.get(&c) {
            Some(true) => panic_any(Control::Assume),
            Some(false) => return,
            None => {}
        }
        self.rep.decisions += 1;
        if self.pos < self.trail.len() {
            let step = self.trail[self.pos].clone();
            self.pos += 1;
            match step {
                Step::Branch { cond, taken: false, .. } if cond == c => {}
                _ => abort("replayed path diverged (nondeterministic execution)"),
            }
            self.facts.insert(c, false);
            self.constraints.push((c, false));
            return;
        }
        HEARTBEAT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if self.eval_cond(&c) != Some(false) {
            match self.query(c, false) {
                Some(Some(m)) => {
                    let o = self.merged(&m);
                    self.set_model(o);
                }
                Some(None) => panic_any(Control::Assume),
                None => self.set_model(None),
            }
        }
        self.facts.insert(c, false);
        self.constraints.push((c, false));
        self.trail.push(Step::Branch { cond: c, taken: false, flip: false, implied: false, other: None });
        self.pos += 1;
    }

    fn next_path(&mut self) -> bool {
        while let Some(s) = self.trail.pop() {
            if let Step::Branch { cond, taken, flip: true, implied, other } = s {
                self.set_model(other);
                self.trail.push(Step::Branch { cond, taken: !taken, flip: false, implied, other: None });
                return true;
            }
        }
        false
    }

    fn reset_path(&mut self) {
        self.pos = 0;
        self.facts.clear();
        self.constraints.clear();
        self.fuel = self.cfg.fuel;
        self.checks_here = 0;
        self.path_vars.clear();
        self.fields.clear();
        self.substs.clear();
        self.generic = false;
        self.pinning = false;
        self.dag.tables.on = self.all_tables;
        self.pins.clear();
        self.pin_memo.clear();
        self.rules.clear();
    }

    /// concrete values of the inputs on the current path
    fn witness(&mut self) -> Option<BTreeMap<String, Z>> {
        if self.model.is_none() {
            let set: Vec<(Cond, bool)> = self.constraints.clone();
            if let Some(m) = self.guess(&set) {
                self.set_model(Some(m));
            } else if let Answer::Sat(m) = self.solver.solve(&mut self.dag, &set, None) {
                if self.satisfied(&set, &m) == Some(true) {
                    self.set_model(Some(m));
                }
            }
        }
        let m = self.model.as_ref()?;
        let mut out = BTreeMap::new();
        for v in &self.path_vars {
            out.insert(self.dag.vars[*v as usize].name.clone(), self.dag.var_value(*v, m));
        }
        Some(out)
    }
}

fn split_monomial(p: &Poly) -> (Vec<(Id, Z)>, Poly) {
    // greatest common monomial (every exponent is positive)
    let mut it = p.keys();
    let mut common: BTreeMap<Id, Z> = it.next().unwrap().iter().cloned().collect();
    for m in it {
        if common.is_empty() {
            break;
        }
        let here: BTreeMap<Id, Z> = m.iter().cloned().collect();
        let mut next = BTreeMap::new();
        for (i, e) in common {
            if let Some(f) = here.get(&i) {
                next.insert(i, if &e < f { e } else { f.clone() });
            }
        }
        common = next;
    }
    if common.is_empty() {
        return (vec![], p.clone());
    }
    let rest = p
        .iter()
        .map(|(m, k)| {
            let m: Vec<(Id, Z)> = m
                .iter()
                .map(|(i, e)| match common.get(i) {
                    Some(c) => (*i, e - c),
                    None => (*i, e.clone()),
                })
                .filter(|(_, e)| !e.is_zero())
                .collect();
            (m, k.clone())
        })
        .collect();
    (common.into_iter().collect(), rest)
}

// ---- what the BigInt surface calls ------------------------------------------------------------

fn decide(c: Cond) -> bool {
    if let V::C(z) = with(|e| e.pinned(&V::N(c.id()))) {
        return match c {
            Cond::Eq0(_) => z.is_zero(),
            Cond::Lt0(_) => z.is_negative(),
        };
    }
    if let Some((d, pol)) = with(|e| e.tabled(c)) {
        return with(|e| e.decide_atom(d)) == pol;
    }
    match with(|e| e.simplify(c)) {
        Simp::Const(b) => {
            with(|e| e.rep.folded += 1);
            b
        }
        Simp::Atom(c, pol) => decide_eq(c, 0) == pol,
        Simp::Any(v) => {
            for (c, pol) in v {
                if decide_eq(c, 0) == pol {
                    return true;
                }
            }
            false
        }
        Simp::SignProd(odd, all) => {
            for v in &all {
                if is_zero(v) {
                    return false;
                }
            }
            let mut neg = false;
            for v in &odd {
                if is_neg(v) {
                    neg = !neg;
                }
            }
            neg
        }
    }
}

enum View {
    Plain,
    Known(bool),
    Need(Cond),
    /// true iff one of them is true; the last two: canonical form found by cancelling denominators
    Other(Vec<(Cond, bool)>),
}

/// like decide_atom; residues modulo a prime are first put over a common denominator
fn decide_eq(c: Cond, depth: u32) -> bool {
    for _ in 0..24 {
        let view = with(|e| e.view(c));
        match view {
            View::Plain => return with(|e| e.decide_atom(c)),
            View::Known(b) => {
                with(|e| {
                    e.facts.insert(c, b);
                });
                return b;
            }
            View::Need(d) => {
                if depth > 8 {
                    break;
                }
                // d is decided first, then c is looked at again
                let b = decide_need(d, depth + 1);
                let _ = b;
            }
            View::Other(v) => {
                let mut r = false;
                for (d, pol) in v {
                    if with(|e| e.decide_atom(d)) == pol {
                        r = true;
                        break;
                    }
                }
                with(|e| {
                    e.facts.insert(c, r);
                });
                return r;
            }
        }
    }
    with(|e| e.decide_atom(c))
}

fn decide_need(c: Cond, depth: u32) -> bool {
    let r = match with(|e| e.simplify(c)) {
        Simp::Const(b) => b,
        Simp::Atom(d, pol) => decide_eq(d, depth) == pol,
        Simp::Any(v) => {
            let mut r = false;
            for (d, pol) in v {
                if decide_eq(d, depth) == pol {
                    r = true;
                    break;
                }
            }
            r
        }
        Simp::SignProd(..) => unreachable!(),
    };
    with(|e| {
        e.facts.insert(c, r);
    });
    r
}

pub fn is_zero(v: &V) -> bool {
    match v {
        V::C(z) => z.is_zero(),
        V::N(id) => decide(Cond::Eq0(*id)),
    }
}

pub fn is_neg(v: &V) -> bool {
    match v {
        V::C(z) => z.is_negative(),
        V::N(id) => decide(Cond::Lt0(*id)),
    }
}

/// the single value v has on this path, forking over all of them
pub fn concretize(v: &V) -> Z {
    let v = &with(|e| e.pinned(v));
    let id = match v {
        V::C(z) => return z.clone(),
        V::N(id) => *id,
    };
    let mut tried = 0;
    loop {
        tried += 1;
        if tried > 5000 {
            abort("concretization of a value with too many possibilities");
        }
        let z = with(|e| {
            if e.pos < e.trail.len() {
                let s = e.trail[e.pos].clone();
                e.pos += 1;
                match s {
                    Step::Pick(z) => z,
                    _ => abort("replayed path diverged (nondeterministic execution)"),
                }
            } else {
                let z = match e.model.clone() {
                    Some(m) => match e.dag.eval(id, &m, &mut e.eval_memo) {
                        Some(z) => z,
                        None => abort("cannot evaluate a value to concretize"),
                    },
                    None => abort("no model to concretize from"),
                };
                e.trail.push(Step::Pick(z.clone()));
                e.pos += 1;
                z
            }
        });
        let d = with(|e| e.dag.add(&V::N(id), &V::C(-z.clone())));
        if is_zero(&d) {
            return z;
        }
    }
}

// ---- harness API --------------------------------------------------------------------------------

pub fn new_var(name: &str, lo: Option<Z>, hi: Option<Z>) -> V {
    with(|e| {
        let v = e.dag.var(name, lo, hi);
        if let V::N(id) = &v {
            if let Node::Var(n) = e.dag.nodes[*id as usize] {
                e.path_vars.insert(n);
            }
        }
        v
    })
}

pub fn assume_square(y: &V, f: &V, p: &Z) {
    let yi = match y {
        V::N(i) => *i,
        V::C(_) => abort("assume_square on a constant"),
    };
    let d = with(|e| {
        if let (Node::Var(n), V::N(fi)) = (e.dag.nodes[yi as usize].clone(), f) {
            e.derived.insert(n, (*fi, p.clone()));
        }
        let yy = e.dag.mul(y, y);
        let d = e.dag.sub(&yy, f);
        e.dag.mod_c(&d, p)
    });
    assume(is_zero(&d));
    with(|e| {
        if let V::N(fi) = f {
            e.rules.push(Rule { var: yi, f: *fi, p: p.clone() });
            e.fields.remove(p);
        }
    });
}

/// v is not zero modulo p (p = 0: not zero) from here on
pub fn assume_nonzero(v: &V, p: &Z) {
    let v = if p.is_zero() { v.clone() } else { with(|e| e.dag.mod_c(v, p)) };
    let id = match v {
        V::C(z) => return assume(!z.is_zero()),
        V::N(id) => id,
    };
    let parts = match with(|e| e.simplify(Cond::Eq0(id))) {
        Simp::Const(b) => return assume(!b),
        Simp::Atom(c, pol) => vec![(c, pol)],
        Simp::Any(v) => v,
        Simp::SignProd(..) => unreachable!(),
    };
    for (c, pol) in parts {
        if !pol {
            assume(decide_eq(c, 0) != pol);
            continue;
        }
        let mut open = true;
        for _ in 0..24 {
            match with(|e| e.view(c)) {
                View::Plain => break,
                View::Known(b) => {
                    assume(!b);
                    with(|e| e.facts.insert(c, false));
                    open = false;
                    break;
                }
                View::Need(d) => {
                    decide_need(d, 1);
                }
                View::Other(v) => {
                    for (d, pol) in v {
                        if pol {
                            with(|e| e.rule_out(d));
                        } else {
                            assume(with(|e| e.decide_atom(d)));
                        }
                    }
                    with(|e| e.facts.insert(c, false));
                    open = false;
                    break;
                }
            }
        }
        if open {
            with(|e| e.rule_out(c));
        }
    }
}

pub fn assume(b: bool) {
    if !b {
        panic_any(Control::Assume);
    }
}

pub fn check(b: bool, msg: &str) {
    with(|e| {
        e.rep.checks += 1;
        e.checks_here += 1;
    });
    if !b {
        panic_any(Control::Violation(msg.to_string(), "check"));
    }
}

pub fn cover(label: &str) {
    with(|e| *e.rep.covers.entry(label.to_string()).or_insert(0) += 1);
}

pub fn note_problem(msg: &str) {
    with(|e| e.problem(msg.to_string()));
}

/// runs f; true if it panicked (a panic of the code under test, not of the engine)
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            if p.is::<Control>() {
                resume_unwind(p)
            }
            Err(panic_text(&*p))
        }
    }
}

fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn explore(cfg: Config, f: impl Fn()) -> Report {
    std::panic::set_hook(Box::new(|_| {}));
    ENG.with(|e| *e.borrow_mut() = Some(Engine::new(cfg.clone())));
    let start = Instant::now();
    loop {
        with(|e| {
            e.reset_path();
            e.rep.paths += 1;
            let m = e.model.clone();
            if let (Some(m), Ok(mut c)) = (m, CURRENT.lock()) {
                c.0 = e.rep.paths;
                c.1 = e.dag.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), e.dag.var_value(i as u32, &m).to_string())).collect();
            }
        });
        HEARTBEAT.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(&f));
        let mut stop = false;
        match r {
            Ok(()) => with(|e| {
                e.rep.completed += 1;
                if e.checks_here > 0 {
                    const KEEP: usize = 8;
                    let n = e.rep.completed;
                    let slot = if e.rep.witnesses.len() < KEEP {
                        Some(e.rep.witnesses.len())
                    } else {
                        let r = (e.rand() % n) as usize;
                        if r < KEEP && r > 0 { Some(r) } else { None }
                    };
                    if let Some(slot) = slot {
                        if let Some(w) = e.witness() {
                            let text = w.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" ");
                            let s = format!("path with {} branch conditions, e.g. {}", e.constraints.len(), text);
                            if slot < e.rep.witnesses.len() {
                                e.rep.witnesses[slot] = w;
                                e.rep.samples[slot] = s;
                            } else {
                                e.rep.witnesses.push(w);
                                e.rep.samples.push(s);
                            }
                        }
                    }
                }
            }),
            Err(p) => {
                let c = match p.downcast::<Control>() {
                    Ok(c) => *c,
                    Err(p) => Control::Violation(format!("panic: {}", panic_text(&*p)), "panic"),
                };
                match c {
                    Control::Assume => with(|e| e.rep.assumed_away += 1),
                    Control::Abort(m) => with(|e| {
                        e.rep.unknown += 1;
                        e.problem(format!("engine: {}", m))
                    }),
                    Control::Budget(m) => {
                        with(|e| e.problem(format!("budget: {}", m)));
                        stop = true;
                    }
                    Control::Violation(msg, kind) => with(|e| match e.witness() {
                        Some(model) => {
                            if e.rep.violations.iter().filter(|v| v.msg == msg).count() < 2 {
                                e.rep.violations.push(Violation { msg, kind, model });
                            }
                            if e.rep.violations.len() >= e.cfg.stop_after {
                                stop = true;
                            }
                        }
                        None => {
                            e.rep.unknown += 1;
                            e.problem(format!("possible violation without a model: {}", msg))
                        }
                    }),
                }
            }
        }
        let more = !stop && with(|e| e.next_path());
        if !more {
            with(|e| e.rep.exhausted = !stop);
            break;
        }
        if with(|e| e.rep.paths >= e.cfg.max_paths) {
            with(|e| e.problem("budget: path budget exhausted".into()));
            break;
        }
        if start.elapsed().as_millis() as u64 > cfg.max_ms {
            with(|e| e.problem("budget: time budget of the exploration exhausted".into()));
            break;
        }
    }
    let mut eng = ENG.with(|e| e.borrow_mut().take()).unwrap();
    let s = eng.solver.stats.clone();
    eng.rep.fd_queries = s.fd_queries;
    eng.rep.bv_queries = s.bv_queries;
    eng.rep.int_queries = s.int_queries;
    eng.rep.sat = s.sat;
    eng.rep.unsat = s.unsat;
    eng.rep.solver_unknown = s.unknown;
    eng.rep.solver_ms = s.solver_ms;
    eng.rep.max_query_ms = s.max_query_ms;
    eng.rep.wall_ms = start.elapsed().as_millis() as u64;
    eng.rep.vars = eng
        .dag
        .vars
        .iter()
        .map(|v| match (&v.lo, &v.hi) {
            (Some(a), Some(b)) => format!("{} in [{}, {}]", v.name, a, b),
            (Some(a), None) => format!("{} >= {}", v.name, a),
            (None, Some(b)) => format!("{} <= {}", v.name, b),
            (None, None) => format!("{} any integer", v.name),
        })
        .collect();
    std::mem::take(&mut eng.rep)
}
