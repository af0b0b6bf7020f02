//! Harnesses: plain Rust over the public API of /repo's crate.  Compiled twice: against the
//! symbolic BigInt (inputs are symbolic) and against the real one (inputs from a model file).
pub(crate) use crate::rt;
pub mod util;
mod c01;
mod c05;
mod c08;
mod c12;
mod c16;
mod c17;
mod c22;
mod c24;

pub struct Case {
    pub name: String,
    pub property: &'static str,
    pub thorough: bool,
    pub bound: String,
    pub covers: Vec<&'static str>,
    pub functions: Vec<&'static str>,
    pub fuel: u64,
    pub query_ms: u64,
    /// rough seconds, for scheduling
    pub cost: u32,
    pub run: Box<dyn Fn()>,
}

impl Case {
    pub fn new(property: &'static str, name: &str, bound: &str, f: impl Fn() + 'static) -> Case {
        Case {
            name: format!("{}.{}", property, name),
            property,
            thorough: false,
            bound: bound.to_string(),
            covers: vec![],
            functions: vec![],
            fuel: 400_000,
            query_ms: 20_000,
            cost: 1,
            run: Box::new(f),
        }
    }
    pub fn covers(mut self, c: &[&'static str]) -> Case {
        self.covers = c.to_vec();
        self
    }
    pub fn fns(mut self, c: &[&'static str]) -> Case {
        self.functions = c.to_vec();
        self
    }
    pub fn thorough(mut self) -> Case {
        self.thorough = true;
        self
    }
    pub fn fuel(mut self, n: u64) -> Case {
        self.fuel = n;
        self
    }
    pub fn query_ms(mut self, n: u64) -> Case {
        self.query_ms = n;
        self
    }
    /// small input ranges: conditions as truth tables over them
    pub fn tables(mut self) -> Case {
        let f = self.run;
        self.run = Box::new(move || {
            rt::tables(true);
            f()
        });
        self
    }
    pub fn cost(mut self, n: u32) -> Case {
        self.cost = n;
        self
    }
}

pub fn cases() -> Vec<Case> {
    let mut v = vec![];
    v.extend(c01::cases());
    v.extend(c05::cases());
    v.extend(c08::cases());
    v.extend(c12::cases());
    v.extend(c16::cases());
    v.extend(c17::cases());
    v.extend(c22::cases());
    v.extend(c24::cases());
    v
}
