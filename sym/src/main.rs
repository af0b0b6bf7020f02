mod rt;
#[path = "../../harness/mod.rs"]
mod harness;

use num_bigint::sym;
use std::collections::BTreeMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(", "))
}
fn jmap(m: &BTreeMap<String, String>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), js(v))).collect::<Vec<_>>().join(", "))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in harness::cases() {
                println!(
                    "{{\"name\": {}, \"property\": {}, \"tier\": {}, \"bound\": {}, \"covers\": {}, \"functions\": {}, \"cost\": {}}}",
                    js(&c.name),
                    js(c.property),
                    js(if c.thorough { "thorough" } else { "quick" }),
                    js(&c.bound),
                    jlist(c.covers.iter().map(|s| js(s))),
                    jlist(c.functions.iter().map(|s| js(s))),
                    c.cost,
                );
            }
        }
        Some("run") => {
            let name = args[2].clone();
            let out = args[3].clone();
            let max_ms: u64 = args.get(4).and_then(|s| s.parse().ok()).unwrap_or(600_000);
            let t = std::thread::Builder::new().stack_size(2 << 30).spawn(move || run(&name, &out, max_ms)).unwrap();
            match t.join() {
                Ok(()) => {}
                Err(_) => {
                    eprintln!("engine thread panicked");
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: sym list | sym run CASE OUT [max_ms]");
            std::process::exit(2);
        }
    }
}

fn run(name: &str, out: &str, max_ms: u64) {
    let all = harness::cases();
    let c = match all.into_iter().find(|c| c.name == name) {
        Some(c) => c,
        None => {
            eprintln!("no such case {}", name);
            std::process::exit(2);
        }
    };
    let cfg = sym::Config {
        max_paths: 2_000_000,
        max_ms,
        fuel: c.fuel,
        query_ms: c.query_ms,
        path_ms: 60_000,
        stop_after: 3,
    };
    // watchdog: a path that makes no progress at all (a loop without BigInt operations)
    let (o2, n2) = (out.to_string(), name.to_string());
    let limit = std::time::Duration::from_millis(60_000 + 3 * c.query_ms);
    std::thread::spawn(move || {
        let mut last = (0u64, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let h = sym::HEARTBEAT.load(std::sync::atomic::Ordering::SeqCst);
            if h != last.0 {
                last = (h, std::time::Instant::now());
            } else if last.1.elapsed() > limit {
                let cur = sym::CURRENT.lock().unwrap();
                let m: BTreeMap<String, String> = cur.1.iter().cloned().collect();
                let s = format!(
                    "{{\"case\": {}, \"exhausted\": false, \"problems\": [\"watchdog\"], \"violations\": [{{\"msg\": \"no progress on a path (possible non-termination)\", \"kind\": \"hang\", \"model\": {}}}]}}\n",
                    js(&n2),
                    jmap(&m)
                );
                let _ = std::fs::write(&o2, s);
                std::process::exit(0);
            }
        }
    });
    let r = sym::explore(cfg, || (c.run)());
    let mut s = String::from("{");
    let _ = write!(s, "\"case\": {}", js(name));
    for (k, v) in [
        ("paths", r.paths),
        ("completed", r.completed),
        ("assumed_away", r.assumed_away),
        ("decisions", r.decisions),
        ("branches", r.branches),
        ("implied", r.implied),
        ("folded", r.folded),
        ("norm_decided", r.norm_decided),
        ("checks", r.checks),
        ("ops", r.ops),
        ("unknown", r.unknown),
        ("excluded", r.excluded),
        ("pinned", r.pinned),
        ("guessed", r.guessed),
        ("cached", r.cached),
        ("fd_queries", r.fd_queries),
        ("bv_queries", r.bv_queries),
        ("int_queries", r.int_queries),
        ("sat", r.sat),
        ("unsat", r.unsat),
        ("solver_unknown", r.solver_unknown),
        ("solver_ms", r.solver_ms),
        ("max_query_ms", r.max_query_ms),
        ("wall_ms", r.wall_ms),
    ] {
        let _ = write!(s, ", \"{}\": {}", k, v);
    }
    let _ = write!(s, ", \"exhausted\": {}", r.exhausted);
    let _ = write!(s, ", \"vars\": {}", jlist(r.vars.iter().map(|v| js(v))));
    let _ = write!(s, ", \"problems\": {}", jlist(r.problems.iter().map(|v| js(v))));
    let _ = write!(s, ", \"exclusions\": {}", jlist(r.exclusions.iter().map(|v| js(v))));
    let _ = write!(s, ", \"samples\": {}", jlist(r.samples.iter().map(|v| js(v))));
    let _ = write!(
        s,
        ", \"witnesses\": {}",
        jlist(r.witnesses.iter().map(|w| jmap(&w.iter().map(|(k, z)| (k.clone(), z.to_string())).collect())))
    );
    let _ = write!(
        s,
        ", \"covers\": {{{}}}",
        r.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")
    );
    let _ = write!(
        s,
        ", \"violations\": {}",
        jlist(r.violations.iter().map(|v| {
            let m: BTreeMap<String, String> = v.model.iter().map(|(k, z)| (k.clone(), z.to_string())).collect();
            format!("{{\"msg\": {}, \"kind\": {}, \"model\": {}}}", js(&v.msg), js(v.kind), jmap(&m))
        }))
    );
    s.push_str("}\n");
    std::fs::write(out, s).expect("cannot write result");
}
