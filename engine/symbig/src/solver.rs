//! Lowering of path constraints to SMT-LIB and a persistent z3 process.
//!
//! Two encodings: bit-vectors (bounded values, and unbounded inputs that only matter through
//! their residue modulo a constant) and mathematical integers.  Neither changes the meaning:
//! a query that an encoding cannot express exactly is refused by it (None).
use crate::engine::Cond;
use crate::expr::{Dag, Id, Node, V};
use crate::fd::Fd;
use crate::Z;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub type Model = HashMap<u32, Z>;

pub enum Answer {
    Sat(Model),
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub fd_queries: u64,
    pub folded: u64,
    pub bv_queries: u64,
    pub int_queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ms: u64,
    pub max_query_ms: u64,
}

pub struct Solver {
    child: Child,
    stdin: ChildStdin,
    stdout: BufReader<ChildStdout>,
    pub stats: SolverStats,
    pub timeout_ms: u64,
    /// second process, incremental, for the finite-domain encoding
    fd: Option<(Child, ChildStdin, BufReader<ChildStdout>, Fd)>,
    seed: u64,
}

const FD_RESET: usize = 3000;

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        self.drop_fd();
    }
}

fn spawn() -> (Child, ChildStdin, BufReader<ChildStdout>) {
    let bin = std::env::var("SYM_Z3").unwrap_or_else(|_| "z3-new".to_string());
    let mut child = Command::new(bin)
        .arg("-in")
        .arg("-smt2")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start z3");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    (child, stdin, stdout)
}

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        let (child, stdin, stdout) = spawn();
        Solver { child, stdin, stdout, stats: SolverStats::default(), timeout_ms, fd: None, seed: 88172645463325252 }
    }

    fn drop_fd(&mut self) {
        if let Some((mut c, _, _, _)) = self.fd.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }

    fn fd_exchange(&mut self, text: &str) -> Result<Vec<String>, String> {
        let (_, stdin, stdout, _) = self.fd.as_mut().unwrap();
        let mut out = Vec::new();
        if stdin.write_all(text.as_bytes()).is_err() || stdin.flush().is_err() {
            self.drop_fd();
            return Err("solver pipe broken".into());
        }
        loop {
            let mut line = String::new();
            match stdout.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    self.drop_fd();
                    return Err("solver died".into());
                }
                Ok(_) => {
                    let l = line.trim().to_string();
                    if l == "@done" {
                        return Ok(out);
                    }
                    if !l.is_empty() {
                        out.push(l);
                    }
                }
            }
        }
    }

    /// with the next text, the definitions of the last query go
    fn fd_pop(&mut self, scoped: bool) {
        if scoped {
            if let Some(f) = self.fd.as_mut() {
                f.3.out.insert_str(0, "(pop 1)\n");
            }
        }
    }

    /// finite-domain attempt; None when it has no answer
    fn solve_fd(&mut self, dag: &mut Dag, conds: &[(Cond, bool)], target: Option<Cond>) -> Option<Answer> {
        if !Fd::mentions_small_mod(dag, conds) {
            return None;
        }
        let limit = std::env::var("FD_RESET").ok().and_then(|x| x.parse().ok()).unwrap_or(FD_RESET);
        if let Some(f) = self.fd.as_mut() {
            if f.3.clauses > limit {
                f.3 = Fd::new();
                f.3.out = format!("(reset)\n(set-option :timeout {})\n(set-logic QF_FD)\n", self.timeout_ms);
            }
        }
        if self.fd.is_none() {
            let (c, i, o) = spawn();
            let mut f = Fd::new();
            f.out = format!("(set-option :timeout {})\n(set-logic QF_FD)\n", self.timeout_ms);
            self.fd = Some((c, i, o, f));
        }
        let fd = &mut self.fd.as_mut().unwrap().3;
        let prep = fd.prepare(dag, conds, target);
        let scoped = fd.take_scoped();
        let prep = match prep? {
            Ok(p) => p,
            Err(()) => {
                self.stats.folded += 1;
                return Some(Answer::Unsat);
            }
        };
        let t0 = Instant::now();
        let mut text = std::mem::take(&mut fd.out);
        if !scoped.is_empty() {
            text.push_str("(push 1)\n");
            text.push_str(&scoped);
        }
        text.push_str("(check-sat-assuming (");
        for l in &prep.assumptions {
            text.push_str(&crate::fd::lit(*l));
            text.push(' ');
        }
        text.push_str("))\n(echo \"@done\")\n");
        self.stats.fd_queries += 1;
        let res = self.fd_exchange(&text);
        let ms = t0.elapsed().as_millis() as u64;
        self.stats.solver_ms += ms;
        if ms > self.stats.max_query_ms {
            self.stats.max_query_ms = ms;
        }
        match res {
            Ok(v) if v.len() == 1 && v[0] == "unsat" => {
                self.stats.unsat += 1;
                self.fd_pop(!scoped.is_empty());
                Some(Answer::Unsat)
            }
            Ok(v) if v.len() == 1 && v[0] == "sat" => {
                self.stats.sat += 1;
                let mut truth = HashMap::new();
                if !prep.names.is_empty() {
                    let q = format!("(get-value ({}))\n(echo \"@done\")\n", prep.names.join(" "));
                    let lines = self.fd_exchange(&q).ok()?;
                    let toks = tokenize(&lines.join(" "));
                    // ( ( name value ) ... )
                    let mut i = 1;
                    for l in &prep.lits {
                        if toks.get(i).map(|s| s.as_str()) != Some("(") {
                            return None;
                        }
                        let v = toks.get(i + 2)?;
                        truth.insert(*l, v == "true");
                        i += 4;
                    }
                }
                self.fd_pop(!scoped.is_empty());
                for round in 0..60u32 {
                    let mut seed = self.seed;
                    let m = {
                        let fd = &self.fd.as_ref().unwrap().3;
                        fd.decode(
                            dag,
                            conds,
                            &truth,
                            || {
                                seed ^= seed << 13;
                                seed ^= seed >> 7;
                                seed ^= seed << 17;
                                seed
                            },
                            round / 3,
                        )
                    };
                    self.seed = seed;
                    if satisfied(dag, conds, &m) == Some(true) {
                        return Some(Answer::Sat(m));
                    }
                }
                None
            }
            Ok(_) => {
                self.stats.unknown += 1;
                self.drop_fd();
                None
            }
            Err(_) => None,
        }
    }

    fn respawn(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (child, stdin, stdout) = spawn();
        self.child = child;
        self.stdin = stdin;
        self.stdout = stdout;
    }

    fn run(&mut self, script: &str, names: &[String]) -> Result<Option<Vec<Z>>, String> {
        // Ok(Some(values)) = sat, Ok(None) = unsat
        let t0 = Instant::now();
        if let Ok(dir) = std::env::var("SYM_DUMP") {
            static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
            let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let _ = std::fs::write(format!("{}/q{}.smt2", dir, n), format!("{}(check-sat)\n", script));
        }
        let full = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n(echo \"@done\")\n", self.timeout_ms, script);
        let mut res = self.exchange(&full)?;
        let verdict = res.pop().unwrap_or_default();
        let ms = t0.elapsed().as_millis() as u64;
        self.stats.solver_ms += ms;
        if ms > self.stats.max_query_ms {
            self.stats.max_query_ms = ms;
        }
        if !res.is_empty() {
            return Err(format!("solver said: {}", res.join(" | ")));
        }
        match verdict.as_str() {
            "unsat" => {
                self.stats.unsat += 1;
                Ok(None)
            }
            "sat" => {
                self.stats.sat += 1;
                if names.is_empty() {
                    return Ok(Some(vec![]));
                }
                let q = format!("(get-value ({}))\n(echo \"@done\")\n", names.join(" "));
                let lines = self.exchange(&q)?;
                let text = lines.join(" ");
                if text.contains("(error") {
                    return Err(text);
                }
                let vals = parse_values(&text, names.len())?;
                Ok(Some(vals))
            }
            other => {
                self.stats.unknown += 1;
                Err(format!("solver verdict: {}", other))
            }
        }
    }

    fn exchange(&mut self, text: &str) -> Result<Vec<String>, String> {
        if self.stdin.write_all(text.as_bytes()).is_err() || self.stdin.flush().is_err() {
            self.respawn();
            return Err("solver pipe broken".into());
        }
        let mut out = Vec::new();
        loop {
            let mut line = String::new();
            match self.stdout.read_line(&mut line) {
                Ok(0) | Err(_) => {
                    self.respawn();
                    return Err("solver died".into());
                }
                Ok(_) => {
                    let l = line.trim().to_string();
                    if l == "@done" {
                        return Ok(out);
                    }
                    if !l.is_empty() {
                        out.push(l);
                    }
                }
            }
        }
    }

    pub fn solve(&mut self, dag: &mut Dag, conds: &[(Cond, bool)], target: Option<Cond>) -> Answer {
        let mut why = String::new();
        if let Some(a) = self.solve_fd(dag, conds, target) {
            return a;
        }
        let bv = BvLower::lower(dag, conds);
        if let Some((script, vars)) = bv {
            self.stats.bv_queries += 1;
            let names: Vec<String> = vars.iter().map(|v| v.name.clone()).collect();
            match self.run(&script, &names) {
                Ok(None) => return Answer::Unsat,
                Ok(Some(vals)) => {
                    let mut m = Model::new();
                    for (v, z) in vars.iter().zip(vals) {
                        m.insert(v.var, v.decode(dag, z));
                    }
                    return Answer::Sat(m);
                }
                Err(e) => why = format!("bv: {}", e),
            }
        }
        let int = IntLower::lower(dag, conds);
        if let Some((script, vars)) = int {
            self.stats.int_queries += 1;
            let names: Vec<String> = vars.iter().map(|v| format!("v{}", v)).collect();
            match self.run(&script, &names) {
                Ok(None) => return Answer::Unsat,
                Ok(Some(vals)) => {
                    let mut m = Model::new();
                    for (v, z) in vars.iter().zip(vals) {
                        m.insert(*v, z);
                    }
                    return Answer::Sat(m);
                }
                Err(e) => why = format!("{} int: {}", why, e),
            }
        }
        if why.is_empty() {
            why = "no encoding applies".into();
        }
        Answer::Unknown(why)
    }
}

pub fn satisfied(dag: &Dag, set: &[(Cond, bool)], model: &Model) -> Option<bool> {
    let mut memo = HashMap::new();
    for (c, b) in set {
        if let Some(v) = crate::table::known(dag, c).and_then(|t| t.at(dag, model)) {
            if v != *b {
                return Some(false);
            }
            continue;
        }
        let z = dag.eval(c.id(), model, &mut memo)?;
        let v = match c {
            Cond::Eq0(_) => z.is_zero(),
            Cond::Lt0(_) => z.is_negative(),
        };
        if v != *b {
            return Some(false);
        }
    }
    Some(true)
}

fn parse_values(text: &str, n: usize) -> Result<Vec<Z>, String> {
    // ((name value) (name value) ...)
    let toks = tokenize(text);
    let mut i = 0;
    let mut out = Vec::new();
    let bad = || format!("cannot parse model: {}", text);
    if toks.get(i).map(|s| s.as_str()) != Some("(") {
        return Err(bad());
    }
    i += 1;
    for _ in 0..n {
        if toks.get(i).map(|s| s.as_str()) != Some("(") {
            return Err(bad());
        }
        i += 2; // "(" name
        let (z, j) = parse_value(&toks, i).ok_or_else(bad)?;
        out.push(z);
        i = j;
        if toks.get(i).map(|s| s.as_str()) != Some(")") {
            return Err(bad());
        }
        i += 1;
    }
    Ok(out)
}

fn parse_value(toks: &[String], i: usize) -> Option<(Z, usize)> {
    let t = toks.get(i)?;
    if t == "(" {
        let op = toks.get(i + 1)?;
        if op == "-" {
            let (z, j) = parse_value(toks, i + 2)?;
            if toks.get(j)? != ")" {
                return None;
            }
            return Some((-z, j + 1));
        }
        return None;
    }
    if let Some(h) = t.strip_prefix("#x") {
        return Some((Z::parse_bytes(h.as_bytes(), 16)?, i + 1));
    }
    if let Some(b) = t.strip_prefix("#b") {
        return Some((Z::parse_bytes(b.as_bytes(), 2)?, i + 1));
    }
    Some((Z::parse_bytes(t.as_bytes(), 10)?, i + 1))
}

fn tokenize(s: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
                out.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

// ------------------------------------------------------------------------------------------
pub struct BvVar {
    pub var: u32,
    pub name: String,
    width: usize,
    residue: Option<Z>,
}

impl BvVar {
    fn decode(&self, dag: &Dag, z: Z) -> Z {
        match &self.residue {
            None => {
                // two's complement
                let half = Z::one() << (self.width - 1);
                if z >= half {
                    z - (Z::one() << self.width)
                } else {
                    z
                }
            }
            Some(p) => {
                let info = &dag.vars[self.var as usize];
                match (&info.lo, &info.hi) {
                    (Some(lo), _) => {
                        // smallest value >= lo with this residue
                        lo + (&z - lo).mod_floor(p)
                    }
                    (None, Some(hi)) => hi - (hi - &z).mod_floor(p),
                    _ => z,
                }
            }
        }
    }
}

pub struct BvLower<'a> {
    dag: &'a mut Dag,
    out: String,
    vars: Vec<BvVar>,
    mode: HashMap<u32, Option<Z>>, // None = value mode, Some(p) = residue mode
    vmemo: HashMap<Id, (String, usize)>,
    rmemo: HashMap<(Id, Z), (String, usize)>,
    next: usize,
}

const MAXW: usize = 80;

fn sbits(lo: &Z, hi: &Z) -> usize {
    // signed width that fits [lo, hi]
    let a = if lo.is_negative() { (-(lo.clone()) - Z::one()).bits() } else { lo.bits() };
    let b = if hi.is_negative() { (-(hi.clone()) - Z::one()).bits() } else { hi.bits() };
    a.max(b) + 1
}

fn bvconst(z: &Z, w: usize) -> String {
    let m = Z::one() << w;
    format!("(_ bv{} {})", z.mod_floor(&m), w)
}

fn sext(n: &str, w: usize, to: usize) -> String {
    if w == to {
        n.to_string()
    } else {
        format!("((_ sign_extend {}) {})", to - w, n)
    }
}
fn zext(n: &str, w: usize, to: usize) -> String {
    if w == to {
        n.to_string()
    } else if w > to {
        format!("((_ extract {} 0) {})", to - 1, n)
    } else {
        format!("((_ zero_extend {}) {})", to - w, n)
    }
}

impl<'a> BvLower<'a> {
    pub fn lower(dag: &'a mut Dag, conds: &[(Cond, bool)]) -> Option<(String, Vec<BvVar>)> {
        let mut l = BvLower {
            dag,
            out: String::from("(set-logic QF_BV)\n"),
            vars: vec![],
            mode: HashMap::new(),
            vmemo: HashMap::new(),
            rmemo: HashMap::new(),
            next: 0,
        };
        for (c, b) in conds {
            let f = match c {
                Cond::Eq0(id) => {
                    if let Node::Mod(e, p) = l.dag.nodes[*id as usize].clone() {
                        let (n, w) = l.residue(e, &p)?;
                        format!("(= {} {})", n, bvconst(&Z::zero(), w))
                    } else {
                        let (n, w) = l.value(*id)?;
                        format!("(= {} {})", n, bvconst(&Z::zero(), w))
                    }
                }
                Cond::Lt0(id) => {
                    let (n, w) = l.value(*id)?;
                    format!("(bvslt {} {})", n, bvconst(&Z::zero(), w))
                }
            };
            if *b {
                let _ = writeln!(l.out, "(assert {})", f);
            } else {
                let _ = writeln!(l.out, "(assert (not {}))", f);
            }
        }
        Some((l.out, l.vars))
    }

    fn fresh(&mut self) -> String {
        self.next += 1;
        format!("t{}", self.next)
    }

    fn define(&mut self, w: usize, body: &str) -> String {
        let n = self.fresh();
        let _ = writeln!(self.out, "(define-fun {} () (_ BitVec {}) {})", n, w, body);
        n
    }

    fn value(&mut self, id: Id) -> Option<(String, usize)> {
        if let Some(r) = self.vmemo.get(&id) {
            return Some(r.clone());
        }
        let r = self.value_raw(id)?;
        self.vmemo.insert(id, r.clone());
        Some(r)
    }

    fn width_of(&mut self, id: Id) -> Option<usize> {
        match self.dag.range(&V::N(id)) {
            (Some(a), Some(b)) => {
                let w = sbits(&a, &b);
                if w > MAXW {
                    None
                } else {
                    Some(w)
                }
            }
            _ => None,
        }
    }

    fn value_raw(&mut self, id: Id) -> Option<(String, usize)> {
        match self.dag.nodes[id as usize].clone() {
            Node::Var(v) => {
                let w = self.width_of(id)?;
                match self.mode.get(&v) {
                    Some(None) => {}
                    Some(Some(_)) => return None,
                    None => {
                        self.mode.insert(v, None);
                    }
                }
                let name = format!("v{}", v);
                let (lo, hi) = (self.dag.vars[v as usize].lo.clone()?, self.dag.vars[v as usize].hi.clone()?);
                let _ = writeln!(self.out, "(declare-const {} (_ BitVec {}))", name, w);
                let _ = writeln!(self.out, "(assert (bvsle {} {}))", bvconst(&lo, w), name);
                let _ = writeln!(self.out, "(assert (bvsle {} {}))", name, bvconst(&hi, w));
                self.vars.push(BvVar { var: v, name: name.clone(), width: w, residue: None });
                Some((name, w))
            }
            Node::Lin { c, t } => {
                let mut parts = vec![];
                let mut w = self.width_of(id)?;
                w = w.max(sbits(&c, &c));
                let mut kids = vec![];
                for (i, k) in t {
                    let (n, wi) = self.value(i)?;
                    // coefficients modulo 2^w are fine: the total fits in w
                    w = w.max(wi);
                    kids.push((n, wi, k));
                }
                for (n, wi, k) in kids {
                    let e = sext(&n, wi, w);
                    if k.is_one() {
                        parts.push(e);
                    } else if k == -Z::one() {
                        parts.push(format!("(bvneg {})", e));
                    } else {
                        parts.push(format!("(bvmul {} {})", bvconst(&k, w), e));
                    }
                }
                if !c.is_zero() || parts.is_empty() {
                    parts.push(bvconst(&c, w));
                }
                let mut b = parts[0].clone();
                for q in &parts[1..] {
                    b = format!("(bvadd {} {})", b, q);
                }
                Some((self.define(w, &b), w))
            }
            Node::Prod(f) => {
                let mut w = self.width_of(id)?;
                let mut kids = vec![];
                for (i, e) in f {
                    let e = e.to_u32()?;
                    if e > 16 {
                        return None;
                    }
                    let (n, wi) = self.value(i)?;
                    w = w.max(wi);
                    for _ in 0..e {
                        kids.push((n.clone(), wi));
                    }
                }
                let mut b = sext(&kids[0].0, kids[0].1, w);
                for (n, wi) in &kids[1..] {
                    b = format!("(bvmul {} {})", b, sext(n, *wi, w));
                }
                Some((self.define(w, &b), w))
            }
            Node::Mod(e, m) => {
                let (n, w) = self.residue(e, &m)?;
                // unsigned residue as a signed value: one more bit
                let w2 = w + 1;
                Some((self.define(w2, &zext(&n, w, w2)), w2))
            }
            Node::Div(e, m) => {
                let (n, wi) = self.value(e)?;
                let w = wi.max(sbits(&m, &m)) + 1;
                let en = self.define(w, &sext(&n, wi, w));
                let mc = bvconst(&m, w);
                // floor division for a positive divisor
                let q = format!(
                    "(ite (bvslt {0} {2}) (bvneg (bvudiv (bvadd (bvneg {0}) (bvsub {1} {3})) {1})) (bvudiv {0} {1}))",
                    en,
                    mc,
                    bvconst(&Z::zero(), w),
                    bvconst(&Z::one(), w)
                );
                Some((self.define(w, &q), w))
            }
            Node::DivS(e, m) => {
                let (n, wi) = self.value(e)?;
                let (d, wd) = self.value(m)?;
                let w = wi.max(wd) + 1;
                let (el, _) = self.dag.range(&V::N(e));
                let (ml, _) = self.dag.range(&V::N(m));
                if el.map(|z| z.is_negative()).unwrap_or(true) || ml.map(|z| !z.is_positive()).unwrap_or(true) {
                    return None;
                }
                let b = format!("(bvudiv {} {})", sext(&n, wi, w), sext(&d, wd, w));
                Some((self.define(w, &b), w))
            }
        }
    }

    fn residue(&mut self, id: Id, p: &Z) -> Option<(String, usize)> {
        if let Some(r) = self.rmemo.get(&(id, p.clone())) {
            return Some(r.clone());
        }
        let r = self.residue_raw(id, p)?;
        self.rmemo.insert((id, p.clone()), r.clone());
        Some(r)
    }

    fn from_value(&mut self, id: Id, p: &Z) -> Option<(String, usize)> {
        let (n, wi) = self.value(id)?;
        let w = wi.max(p.bits() + 1) + 1;
        let (lo, _) = self.dag.range(&V::N(id));
        let pw = p.bits();
        let e = sext(&n, wi, w);
        let body = if lo.map(|z| !z.is_negative()).unwrap_or(false) {
            format!("(bvurem {} {})", e, bvconst(p, w))
        } else {
            format!("(bvsmod {} {})", e, bvconst(p, w))
        };
        let t = self.define(w, &body);
        Some((self.define(pw, &zext(&t, w, pw)), pw))
    }

    fn residue_raw(&mut self, id: Id, p: &Z) -> Option<(String, usize)> {
        let pw = p.bits(); // unsigned width that holds p itself
        if pw > 24 {
            return None;
        }
        match self.dag.nodes[id as usize].clone() {
            Node::Var(v) => {
                let wide = match self.dag.range(&V::N(id)) {
                    (Some(a), Some(b)) => {
                        let span = &b - &a + Z::one();
                        if sbits(&a, &b) <= 24 || &span < p {
                            return match self.mode.get(&v) {
                                Some(Some(_)) => None,
                                _ => self.from_value(id, p),
                            };
                        }
                        true
                    }
                    _ => true,
                };
                let _ = wide;
                match self.mode.get(&v) {
                    None => {
                        self.mode.insert(v, Some(p.clone()));
                    }
                    Some(Some(q)) if q == p => {}
                    _ => return None,
                }
                let name = format!("v{}", v);
                if !self.vars.iter().any(|b| b.var == v) {
                    let _ = writeln!(self.out, "(declare-const {} (_ BitVec {}))", name, pw);
                    let _ = writeln!(self.out, "(assert (bvult {} {}))", name, bvconst(p, pw));
                    self.vars.push(BvVar { var: v, name: name.clone(), width: pw, residue: Some(p.clone()) });
                }
                Some((name, pw))
            }
            Node::Lin { c, t } => {
                let mut max = c.mod_floor(p);
                let mut kids = vec![];
                for (i, k) in &t {
                    let k = k.mod_floor(p);
                    if k.is_zero() {
                        continue;
                    }
                    let (n, wi) = self.residue(*i, p)?;
                    max = max + &k * (p - Z::one());
                    kids.push((n, wi, k));
                }
                let w = max.bits().max(pw) + 1;
                let mut b = bvconst(&c.mod_floor(p), w);
                for (n, wi, k) in kids {
                    let e = zext(&n, wi, w);
                    let term = if k.is_one() { e } else { format!("(bvmul {} {})", bvconst(&k, w), e) };
                    b = format!("(bvadd {} {})", b, term);
                }
                let s = self.define(w, &b);
                let r = self.define(w, &format!("(bvurem {} {})", s, bvconst(p, w)));
                Some((self.define(pw, &zext(&r, w, pw)), pw))
            }
            Node::Prod(f) => {
                let prime = self.dag.is_prime(p);
                let mut acc: Option<String> = None;
                for (i, e) in f {
                    let (n, wi) = self.residue(i, p)?;
                    let n = self.define(pw, &zext(&n, wi, pw));
                    let e = Z::from(e);
                    let small = p <= &Z::from(64);
                    let body = if e.is_one() {
                        n
                    } else if small && prime && e > Z::from(3) {
                        // lookup table of the power map
                        let pi = p.to_u64().unwrap();
                        let mut s = bvconst(&Z::zero(), pw);
                        for x in (1..pi).rev() {
                            let y = crate::expr::modpow(&Z::from(x), &e.to_biguint().unwrap(), p);
                            s = format!("(ite (= {} {}) {} {})", n, bvconst(&Z::from(x), pw), bvconst(&y, pw), s);
                        }
                        self.define(pw, &s)
                    } else {
                        let e = if prime { ((&e - Z::one()).mod_floor(&(p - Z::one()))) + Z::one() } else { e };
                        if e > Z::from(4096) && !prime {
                            return None;
                        }
                        self.powmod(&n, pw, &e, p)?
                    };
                    acc = Some(match acc {
                        None => body,
                        Some(a) => self.mulmod(&a, &body, pw, p),
                    });
                }
                Some((acc?, pw))
            }
            Node::Mod(e, m) if m.mod_floor(p).is_zero() => self.residue(e, p),
            _ => self.from_value(id, p),
        }
    }

    fn mulmod(&mut self, a: &str, b: &str, pw: usize, p: &Z) -> String {
        let w = 2 * pw;
        let m = self.define(w, &format!("(bvmul {} {})", zext(a, pw, w), zext(b, pw, w)));
        let r = self.define(w, &format!("(bvurem {} {})", m, bvconst(p, w)));
        self.define(pw, &zext(&r, w, pw))
    }

    fn powmod(&mut self, n: &str, pw: usize, e: &Z, p: &Z) -> Option<String> {
        if e.bits() > 64 {
            return None;
        }
        let mut e = e.to_u64()?;
        let mut b = n.to_string();
        let mut r: Option<String> = None;
        while e > 0 {
            if e & 1 == 1 {
                r = Some(match r {
                    None => b.clone(),
                    Some(x) => self.mulmod(&x, &b, pw, p),
                });
            }
            e >>= 1;
            if e > 0 {
                b = self.mulmod(&b.clone(), &b, pw, p);
            }
        }
        r
    }
}

// ------------------------------------------------------------------------------------------
pub struct IntLower<'a> {
    dag: &'a mut Dag,
    out: String,
    vars: Vec<u32>,
    memo: HashMap<Id, String>,
    next: usize,
}

fn iconst(z: &Z) -> String {
    if z.is_negative() {
        format!("(- {})", -z.clone())
    } else {
        z.to_string()
    }
}

impl<'a> IntLower<'a> {
    pub fn lower(dag: &'a mut Dag, conds: &[(Cond, bool)]) -> Option<(String, Vec<u32>)> {
        let mut l = IntLower { dag, out: String::new(), vars: vec![], memo: HashMap::new(), next: 0 };
        for (c, b) in conds {
            let f = match c {
                Cond::Eq0(id) => format!("(= {} 0)", l.value(*id)?),
                Cond::Lt0(id) => format!("(< {} 0)", l.value(*id)?),
            };
            if *b {
                let _ = writeln!(l.out, "(assert {})", f);
            } else {
                let _ = writeln!(l.out, "(assert (not {}))", f);
            }
        }
        Some((l.out, l.vars))
    }

    fn define(&mut self, body: &str) -> String {
        self.next += 1;
        let n = format!("t{}", self.next);
        let _ = writeln!(self.out, "(define-fun {} () Int {})", n, body);
        n
    }

    fn value(&mut self, id: Id) -> Option<String> {
        if let Some(r) = self.memo.get(&id) {
            return Some(r.clone());
        }
        let r = match self.dag.nodes[id as usize].clone() {
            Node::Var(v) => {
                let n = format!("v{}", v);
                let _ = writeln!(self.out, "(declare-const {} Int)", n);
                if let Some(lo) = &self.dag.vars[v as usize].lo {
                    let _ = writeln!(self.out, "(assert (>= {} {}))", n, iconst(lo));
                }
                if let Some(hi) = &self.dag.vars[v as usize].hi {
                    let _ = writeln!(self.out, "(assert (<= {} {}))", n, iconst(hi));
                }
                self.vars.push(v);
                n
            }
            Node::Lin { c, t } => {
                let mut parts = vec![];
                for (i, k) in t {
                    let n = self.value(i)?;
                    parts.push(if k.is_one() { n } else { format!("(* {} {})", iconst(&k), n) });
                }
                if !c.is_zero() || parts.is_empty() {
                    parts.push(iconst(&c));
                }
                let b = if parts.len() == 1 { parts[0].clone() } else { format!("(+ {})", parts.join(" ")) };
                self.define(&b)
            }
            Node::Prod(f) => {
                let mut parts = vec![];
                for (i, e) in f {
                    let e = e.to_u32()?;
                    if e > 40 {
                        return None;
                    }
                    let n = self.value(i)?;
                    for _ in 0..e {
                        parts.push(n.clone());
                    }
                }
                let b = if parts.len() == 1 { parts[0].clone() } else { format!("(* {})", parts.join(" ")) };
                self.define(&b)
            }
            Node::Mod(e, m) => {
                let n = self.value(e)?;
                self.define(&format!("(mod {} {})", n, iconst(&m)))
            }
            Node::Div(e, m) => {
                let n = self.value(e)?;
                self.define(&format!("(div {} {})", n, iconst(&m)))
            }
            Node::DivS(e, m) => {
                let n = self.value(e)?;
                let d = self.value(m)?;
                self.next += 1;
                let q = format!("q{}", self.next);
                let _ = writeln!(self.out, "(declare-const {} Int)", q);
                let r = self.define(&format!("(- {} (* {} {}))", n, q, d));
                let _ = writeln!(
                    self.out,
                    "(assert (ite (> {1} 0) (and (<= 0 {0}) (< {0} {1})) (and (<= {0} 0) (< {1} {0}))))",
                    r, d
                );
                q
            }
        };
        self.memo.insert(id, r.clone());
        Some(r)
    }
}
