//! Truth tables of conditions over small products of input ranges.
use crate::engine::Cond;
use crate::expr::{zpow, Dag, Id, Node};
use crate::solver::Model;
use crate::Z;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::rc::Rc;

/// largest product of input ranges that is tabulated
const JOINT: usize = 640;
fn joint() -> usize {
    static J: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *J.get_or_init(|| std::env::var("SYM_JOINT").ok().and_then(|x| x.parse().ok()).unwrap_or(JOINT))
}
/// entries kept (4 to 8 bytes each)
const MEMO: usize = 150_000_000;

/// a condition at every point of the product of the ranges of its inputs
pub struct Truth {
    /// input, lower end of its range, size of its range
    pub dims: Vec<(u32, Z, usize)>,
    pub truth: Vec<bool>,
    /// the condition that stands for all with this table or its complement, and which it is
    pub rep: (Cond, bool),
}

impl Truth {
    /// the condition under a model; None if an input has no value in its range
    pub fn at(&self, dag: &Dag, m: &Model) -> Option<bool> {
        let mut k = 0;
        for (v, lo, n) in &self.dims {
            let i = (dag.var_value(*v, m) - lo).to_usize()?;
            if i >= *n {
                return None;
            }
            k = k * n + i;
        }
        Some(self.truth[k])
    }
}

struct Space {
    vars: Vec<u32>,
    points: Vec<Vec<Z>>,
    res: HashMap<(Id, u32), Option<Rc<Vec<u32>>>>,
    val: HashMap<Id, Option<Vals>>,
}

#[derive(Default)]
pub struct Tables {
    pub on: bool,
    spaces: HashMap<Vec<u32>, Space>,
    truths: HashMap<Cond, Option<Rc<Truth>>>,
    reps: HashMap<(Vec<u32>, Vec<bool>), (Cond, bool)>,
    nodes: HashMap<(Vec<u32>, u32, Vec<u32>), Id>,
}

impl Tables {
    fn space(&mut self, vars: &[u32], dims: &[(u32, Z, usize)]) -> &mut Space {
        let size: usize = self.spaces.values().map(|s| (s.res.len() + 2 * s.val.len()) * s.points.len()).sum();
        if size > MEMO {
            self.spaces.clear();
        }
        self.spaces.entry(vars.to_vec()).or_insert_with(|| {
            let mut points = vec![vec![]];
            for (_, lo, n) in dims {
                points = points
                    .iter()
                    .flat_map(|m: &Vec<Z>| {
                        (0..*n)
                            .map(|i| {
                                let mut m = m.clone();
                                m.push(lo + Z::from(i as u64));
                                m
                            })
                            .collect::<Vec<_>>()
                    })
                    .collect();
            }
            Space { vars: vars.to_vec(), points, res: HashMap::new(), val: HashMap::new() }
        })
    }
}

/// dimensions of the product of the ranges of the inputs, if it is small
pub fn dims(dag: &Dag, vars: &[u32]) -> Option<Vec<(u32, Z, usize)>> {
    let mut size = 1usize;
    let mut out = vec![];
    for v in vars {
        let info = &dag.vars[*v as usize];
        let (lo, n) = match (&info.lo, &info.hi) {
            (Some(lo), Some(hi)) => (lo.clone(), (hi - lo + Z::one()).to_usize()?),
            _ => return None,
        };
        size = size.checked_mul(n)?;
        if n > 64 || size > joint() {
            return None;
        }
        out.push((*v, lo, n));
    }
    Some(out)
}

/// the table of the condition if it has been made already
pub fn known(dag: &Dag, c: &Cond) -> Option<Rc<Truth>> {
    if dag.tables.on {
        dag.tables.truths.get(c).cloned().flatten()
    } else {
        None
    }
}

pub fn truth(dag: &mut Dag, c: &Cond) -> Option<Rc<Truth>> {
    if !dag.tables.on {
        return None;
    }
    if let Some(r) = dag.tables.truths.get(c) {
        return r.clone();
    }
    let r = make(dag, c).map(Rc::new);
    dag.tables.truths.insert(*c, r.clone());
    r
}

fn make(dag: &mut Dag, c: &Cond) -> Option<Truth> {
    let vars = dag.varset(c.id());
    if vars.is_empty() {
        return None;
    }
    let dims = dims(dag, &vars)?;
    let mut t = std::mem::take(&mut dag.tables);
    dag.tables.on = t.on;
    let sp = t.space(&vars, &dims);
    let r = sp.value(dag, c.id());
    dag.tables = t;
    let truth: Vec<bool> = match (r?, c) {
        (Vals::Small(v), Cond::Eq0(_)) => v.iter().map(|z| *z == 0).collect(),
        (Vals::Small(v), Cond::Lt0(_)) => v.iter().map(|z| *z < 0).collect(),
        (Vals::Big(v), Cond::Eq0(_)) => v.iter().map(|z| z.is_zero()).collect(),
        (Vals::Big(v), Cond::Lt0(_)) => v.iter().map(|z| z.is_negative()).collect(),
    };
    let same = !truth[0];
    let key = (vars.to_vec(), if same { truth.clone() } else { truth.iter().map(|b| !b).collect() });
    let rep = match dag.tables.reps.get(&key) {
        Some(r) => *r,
        None => {
            dag.tables.reps.insert(key, (*c, same));
            (*c, same)
        }
    };
    // both relative to the table that starts with false
    let rep = (rep.0, rep.1 == same);
    Some(Truth { dims, truth, rep })
}

/// v modulo p: the first node seen with the same residues everywhere
pub fn residue_node(dag: &mut Dag, id: Id, m: &Z) -> Option<Id> {
    if !dag.tables.on {
        return None;
    }
    let p = small(m).filter(|p| *p as u64 <= crate::fd::MAXP)?;
    let vars = dag.varset(id);
    if vars.is_empty() {
        return None;
    }
    let dims = dims(dag, &vars)?;
    let mut t = std::mem::take(&mut dag.tables);
    dag.tables.on = t.on;
    let r = t.space(&vars, &dims).residue(dag, id, p);
    let key = r.map(|r| (vars.to_vec(), p, r.to_vec()));
    let known = key.as_ref().and_then(|k| t.nodes.get(k).cloned());
    dag.tables = t;
    let key = key?;
    if known.is_some() {
        return known;
    }
    // no rewriting: the table says all there is to say
    let n = match dag.range(&crate::expr::V::N(id)) {
        (Some(a), Some(b)) if !a.is_negative() && b < *m => id,
        _ => dag.intern(Node::Mod(id, m.clone())),
    };
    dag.tables.nodes.insert(key, n);
    Some(n)
}

fn powmod(b: u64, e: &crate::U, p: u64) -> u64 {
    let mut r = 1 % p;
    for d in e.to_radix_be(2) {
        r = r * r % p;
        if d == 1 {
            r = r * b % p;
        }
    }
    r
}

impl Space {
    fn residue(&mut self, dag: &Dag, id: Id, p: u32) -> Option<Rc<Vec<u32>>> {
        if let Some(r) = self.res.get(&(id, p)) {
            return r.clone();
        }
        let r = self.residue_raw(dag, id, p).map(Rc::new);
        self.res.insert((id, p), r.clone());
        r
    }

    fn residue_raw(&mut self, dag: &Dag, id: Id, p: u32) -> Option<Vec<u32>> {
        let zp = Z::from(p);
        let q = p as u64;
        match &dag.nodes[id as usize] {
            Node::Lin { c, t } => {
                let c = c.mod_floor(&zp).to_u64().unwrap();
                let mut s = vec![c; self.points.len()];
                for (i, k) in t {
                    let k = k.mod_floor(&zp).to_u64().unwrap();
                    if k == 0 {
                        continue;
                    }
                    let x = self.residue(dag, *i, p)?;
                    for (s, x) in s.iter_mut().zip(x.iter()) {
                        *s = (*s + k * *x as u64) % q;
                    }
                }
                Some(s.into_iter().map(|x| x as u32).collect())
            }
            Node::Prod(f) => {
                let mut s = vec![1 % q; self.points.len()];
                for (i, e) in f {
                    let x = self.residue(dag, *i, p)?;
                    let mut pows: HashMap<u32, u64> = HashMap::new();
                    for (s, x) in s.iter_mut().zip(x.iter()) {
                        let w = if e.is_one() { *x as u64 } else { *pows.entry(*x).or_insert_with(|| powmod(*x as u64, e, q)) };
                        *s = *s * w % q;
                    }
                }
                Some(s.into_iter().map(|x| x as u32).collect())
            }
            Node::Mod(e, m) => {
                if m.mod_floor(&zp).is_zero() {
                    return self.residue(dag, *e, p).map(|r| r.to_vec());
                }
                if let Some(m) = small(m) {
                    return Some(self.residue(dag, *e, m)?.iter().map(|x| x % p).collect());
                }
                Some(self.value(dag, id)?.residues(p))
            }
            _ => Some(self.value(dag, id)?.residues(p)),
        }
    }

    fn value(&mut self, dag: &Dag, id: Id) -> Option<Vals> {
        if let Some(r) = self.val.get(&id) {
            return r.clone();
        }
        let r = match self.small_value(dag, id) {
            Some(v) => Some(Vals::Small(Rc::new(v))),
            None => self.big_value(dag, id).map(|v| Vals::Big(Rc::new(v))),
        };
        self.val.insert(id, r.clone());
        r
    }

    fn small_of(&mut self, dag: &Dag, id: Id) -> Option<Rc<Vec<i64>>> {
        match self.value(dag, id)? {
            Vals::Small(v) => Some(v),
            Vals::Big(_) => None,
        }
    }

    fn big_of(&mut self, dag: &Dag, id: Id) -> Option<Rc<Vec<Z>>> {
        Some(match self.value(dag, id)? {
            Vals::Small(v) => Rc::new(v.iter().map(|x| Z::from(*x)).collect()),
            Vals::Big(v) => v,
        })
    }

    fn small_value(&mut self, dag: &Dag, id: Id) -> Option<Vec<i64>> {
        let n = self.points.len();
        match &dag.nodes[id as usize] {
            Node::Var(v) => {
                let i = self.vars.iter().position(|x| x == v)?;
                self.points.iter().map(|p| p[i].to_i64()).collect()
            }
            Node::Lin { c, t } => {
                let mut s = vec![c.to_i64()?; n];
                for (i, k) in t {
                    let x = self.small_of(dag, *i)?;
                    let k = k.to_i64()?;
                    for j in 0..n {
                        s[j] = s[j].checked_add(k.checked_mul(x[j])?)?;
                    }
                }
                Some(s)
            }
            Node::Prod(f) => {
                let mut s = vec![1i64; n];
                for (i, e) in f {
                    let x = self.small_of(dag, *i)?;
                    let e = e.to_u32()?;
                    for j in 0..n {
                        s[j] = s[j].checked_mul(x[j].checked_pow(e)?)?;
                    }
                }
                Some(s)
            }
            Node::Mod(e, m) => {
                let m = small(m)?;
                Some(self.residue(dag, *e, m)?.iter().map(|x| *x as i64).collect())
            }
            Node::Div(e, m) => {
                let m = m.to_i64()?;
                Some(self.small_of(dag, *e)?.iter().map(|z| z.div_floor(&m)).collect())
            }
            Node::DivS(..) => None,
        }
    }

    fn big_value(&mut self, dag: &Dag, id: Id) -> Option<Vec<Z>> {
        let n = self.points.len();
        match &dag.nodes[id as usize] {
            Node::Var(v) => {
                let i = self.vars.iter().position(|x| x == v)?;
                Some(self.points.iter().map(|p| p[i].clone()).collect())
            }
            Node::Lin { c, t } => {
                let mut s = vec![c.clone(); n];
                for (i, k) in t {
                    let x = self.big_of(dag, *i)?;
                    for j in 0..n {
                        s[j] = &s[j] + k * &x[j];
                    }
                }
                Some(s)
            }
            Node::Prod(f) => {
                let mut s = vec![Z::one(); n];
                for (i, e) in f {
                    let x = self.big_of(dag, *i)?;
                    for j in 0..n {
                        s[j] = &s[j] * zpow(&x[j], e)?;
                    }
                }
                Some(s)
            }
            Node::Mod(e, m) => Some(self.big_of(dag, *e)?.iter().map(|z| z.mod_floor(m)).collect()),
            Node::Div(e, m) => Some(self.big_of(dag, *e)?.iter().map(|z| z.div_floor(m)).collect()),
            Node::DivS(e, m) => {
                let x = self.big_of(dag, *e)?;
                let d = self.big_of(dag, *m)?;
                if d.iter().any(|z| z.is_zero()) {
                    return None;
                }
                Some(x.iter().zip(d.iter()).map(|(a, b)| a.div_floor(b)).collect())
            }
        }
    }
}

#[derive(Clone)]
enum Vals {
    Small(Rc<Vec<i64>>),
    Big(Rc<Vec<Z>>),
}

impl Vals {
    fn residues(&self, p: u32) -> Vec<u32> {
        match self {
            Vals::Small(v) => v.iter().map(|x| x.mod_floor(&(p as i64)) as u32).collect(),
            Vals::Big(v) => v.iter().map(|x| x.mod_floor(&Z::from(p)).to_u32().unwrap()).collect(),
        }
    }
}

fn small(m: &Z) -> Option<u32> {
    m.to_u32().filter(|m| *m < 1 << 31)
}
