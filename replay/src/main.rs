mod rt;
#[path = "../../harness/mod.rs"]
mod harness;
#[path = "../../harness/machine.rs"]
mod machine;

use num_bigint::BigInt;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (case, file) = (args[1].clone(), args[2].clone());
    let t = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || run(&case, &file))
        .unwrap();
    match t.join() {
        Ok(code) => std::process::exit(code),
        Err(_) => std::process::exit(2),
    }
}

/// the inputs of a machine harness, in the order they are asked for
struct Inputs(std::vec::IntoIter<i128>);
impl machine::In for Inputs {
    fn i32(&mut self) -> i32 {
        self.0.next().unwrap_or(0) as i32
    }
    fn u64(&mut self) -> u64 {
        self.0.next().unwrap_or(0) as u64
    }
    fn bool(&mut self) -> bool {
        self.0.next().unwrap_or(0) & 1 == 1
    }
    fn assume(&mut self, b: bool) {
        if !b {
            std::panic::panic_any(rt::Outcome::Assume)
        }
    }
    fn check(&mut self, b: bool, msg: &'static str) {
        rt::check(b, msg)
    }
    fn returned(&mut self, msg: &'static str) {
        rt::check(false, msg)
    }
}

fn run(case: &str, file: &str) -> i32 {
    if case == "machines" {
        for m in machine::ALL {
            println!(
                "{{\"name\": \"{}\", \"property\": \"{}\", \"thorough\": {}, \"bound\": \"{}\", \"functions\": \"{}\", \"unwind\": {}}}",
                m.name, m.property, m.thorough, m.bound, m.functions, m.unwind
            );
        }
        return 0;
    }
    let text = std::fs::read_to_string(file).expect("model file");
    rt::MODEL.with(|m| {
        for l in text.lines() {
            if let Some((k, v)) = l.split_once('=') {
                if let Some(v) = BigInt::parse_bytes(v.trim().as_bytes(), 10) {
                    m.borrow_mut().insert(k.trim().to_string(), v);
                }
            }
        }
    });
    if let Some(name) = case.strip_prefix("machine:") {
        let mut vals = vec![];
        for l in text.lines() {
            if let Some((k, v)) = l.split_once('=') {
                if k.trim().starts_with("in") {
                    vals.push(v.trim().parse().expect("value"));
                }
            }
        }
        let name = name.to_string();
        let refuse = name.starts_with("refuse_");
        let code = finish(&move || {
            if !machine::run(&name, &mut Inputs(vals.clone().into_iter())) {
                panic!("no such harness");
            }
        });
        // a panic is what these ask for
        return if refuse && code == 11 { 0 } else { code };
    }
    let all = harness::cases();
    let c = match all.iter().find(|c| c.name == case) {
        Some(c) => c,
        None => {
            eprintln!("REPLAY no such case {}", case);
            return 2;
        }
    };
    finish(&*c.run)
}

fn finish(f: &dyn Fn()) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())) {
        Ok(()) => {
            eprintln!("REPLAY all checks hold ({} checks)", rt::CHECKS.with(|c| *c.borrow()));
            0
        }
        Err(p) => match p.downcast::<rt::Outcome>() {
            Ok(o) => match *o {
                rt::Outcome::Assume => {
                    eprintln!("REPLAY input outside the assumptions");
                    3
                }
                rt::Outcome::Skip => {
                    eprintln!("REPLAY too large for a native run");
                    4
                }
                rt::Outcome::Violation(m) => {
                    eprintln!("REPLAY check failed: {}", m);
                    10
                }
            },
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                eprintln!("REPLAY panicked: {}", m);
                11
            }
        },
    }
}
