//! vh: binds the specification in /verif/spec to the code in /repo.
//!   vh gen <what> <seed> <n> <cases.ndjson>       seeded random cases
//!   vh run <what> <cases.ndjson> <trace.ndjson>   executes cases on the real code
mod action;
mod assemble;
mod builder;
mod cli;
mod describe;
mod fold;
mod forms;
mod gen;
mod ident;
mod idl;
mod json;
mod machine;
mod query;
mod rdf;
mod selector;
mod values;
mod wire;

use gen::Rng;
use serde_json::{json, Value};
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn generate(what: &str, r: &mut Rng, i: usize) -> Value {
    let _ = i;
    match what {
        "merge" => machine::gen_merge(r),
        "apply" => machine::gen_apply(r),
        "query" => machine::gen_query(r),
        "registry" => assemble::gen_registry(r),
        "values" => values::gen(r),
        "folded" => machine::gen_folded(r),
        "ident" => ident::gen(r),
        "builder" => builder::gen(r),
        "decls" => builder::gen_decls(r),
        "assemble" => assemble::gen(r),
        "cli" => cli::gen(r),
        "describe" => describe::gen(r),
        "rdf" => rdf::gen(r),
        "idlread" => idl::gen_read(r),
        "idlwrite" => idl::gen_write(r),
        "refs" => action::gen_refs(r),
        "names" => action::gen_names(r),
        "jsonwrite" => json::gen_write(r),
        "jsonread" => json::gen_read(r),
        "lines" => forms::gen_lines(r),
        "walk" => forms::gen_walk(r),
        "selector" => selector::gen(r),
        "shapequery" => query::gen(r),
        "runs" => action::gen_run(r),
        _ => panic!("gen {}", what),
    }
}

fn run_case(what: &str, case: &Value, out: &mut Vec<Value>) {
    match what {
        "machine" => machine::run(case, out),
        "builder" => builder::run(case, out),
        "assemble" => assemble::run(case, out),
        "registry" => assemble::run_registry(case, out),
        "values" => values::run(case, out),
        "cli" => cli::run(case, out),
        "describe" => describe::run(case, out),
        "rdf" => rdf::run(case, out),
        "idl" => idl::run(case, out),
        "ident" => ident::run(case, out),
        "action" => action::run(case, out),
        "json" => json::run(case, out),
        "selector" => selector::run(case, out),
        "query" => query::run(case, out),
        "forms" => forms::run(case, out),
        _ => panic!("run {}", what),
    }
}

/// A record in ASCII: whoever reads it sees every character, whatever encoding it expects.
fn plain(rec: &str) -> String {
    let mut out = String::with_capacity(rec.len());
    for c in rec.chars() {
        if c.is_ascii() {
            out.push(c);
        } else {
            for u in c.encode_utf16(&mut [0; 2]) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let what = args[2].clone();
    match args[1].as_str() {
        "gen" => {
            let seed: u64 = args[3].parse().unwrap();
            let n: usize = args[4].parse().unwrap();
            let mut w = BufWriter::new(File::create(&args[5]).unwrap());
            for i in 0..n {
                let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                let mut c = generate(&what, &mut r, i);
                c["id"] = json!(format!("{}-{}-{}", what, seed, i));
                writeln!(w, "{}", c).unwrap();
            }
        }
        "run" => {
            // A case that never ends is reported to the driver, which records it as such.
            let quiet = std::env::var("VH_LOUD").is_err();
            if quiet {
                std::panic::set_hook(Box::new(|_| {}));
            }
            let start: usize = args.get(5).map(|s| s.parse().unwrap()).unwrap_or(0);
            let at = format!("{}.at", args[4]);
            let now = Arc::new(AtomicUsize::new(usize::MAX));
            let since = Arc::new(AtomicUsize::new(0));
            let (n2, s2, at2) = (now.clone(), since.clone(), at.clone());
            std::thread::spawn(move || {
                let mut last = usize::MAX;
                loop {
                    std::thread::sleep(std::time::Duration::from_millis(500));
                    let n = n2.load(Ordering::SeqCst);
                    if n != last {
                        last = n;
                        s2.store(0, Ordering::SeqCst);
                    } else if n != usize::MAX && s2.fetch_add(1, Ordering::SeqCst) > 60 {
                        std::fs::write(&at2, format!("{}", n)).unwrap();
                        std::process::exit(3);
                    }
                }
            });
            let a = args.clone();
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || run_all(&what, &a[3], &a[4], &at, start, &now))
                .unwrap()
                .join()
                .unwrap();
        }
        a => panic!("unknown command {}", a),
    }
}

fn run_all(what: &str, cases: &str, trace: &str, at: &str, start: usize, now: &AtomicUsize) {
    let rd = BufReader::new(File::open(cases).unwrap());
    let mut w = BufWriter::new(
        OpenOptions::new()
            .create(true)
            .append(true)
            .open(trace)
            .unwrap(),
    );
    std::fs::write(at, "").unwrap();
    let mut atf = OpenOptions::new().write(true).open(at).unwrap();
    for (n, line) in rd
        .lines()
        .filter(|l| !l.as_ref().unwrap().trim().is_empty())
        .enumerate()
    {
        let line = line.unwrap();
        if n < start {
            continue;
        }
        // where we are, in case this case takes the process down
        atf.seek(SeekFrom::Start(0)).unwrap();
        write!(atf, "{}", n).unwrap();
        now.store(n, Ordering::SeqCst);
        let mut case: Value = serde_json::from_str(&line).unwrap();
        functions(&mut case);
        let mut out = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| run_case(what, &case, &mut out)));
        if r.is_err() {
            out.push(json!({"op": "broken", "why": "panic"}));
        }
        let id = case["id"]
            .as_str()
            .map(|s| s.to_string())
            .unwrap_or(format!("{}", n + 1));
        for (i, rec) in out.iter_mut().enumerate() {
            rec["case"] = json!(id);
            rec["step"] = json!(i);
            if panicked(rec) {
                rec["was"] = rec["op"].clone();
                rec["op"] = json!("broken");
            }
            writeln!(w, "{}", plain(&rec.to_string())).unwrap();
        }
        w.flush().unwrap();
    }
    now.store(usize::MAX, Ordering::SeqCst);
    std::fs::write(at, "").unwrap();
}

/// An empty function is written as an empty sequence by TLA+; it has to be an object in a trace.
fn functions(v: &mut Value) {
    match v {
        Value::Object(m) => {
            for (k, x) in m.iter_mut() {
                let f = [
                    "meta", "shapes", "traits", "mem", "idents", "ren", "kv", "reg",
                ]
                .contains(&k.as_str());
                if f && x.as_array().map(|a| a.is_empty()).unwrap_or(false) {
                    *x = json!({});
                } else {
                    functions(x);
                }
            }
        }
        Value::Array(xs) => xs.iter_mut().for_each(functions),
        _ => {}
    }
}

fn panicked(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.get("panic") == Some(&json!(true)) || m.values().any(panicked),
        Value::Array(xs) => xs.iter().any(panicked),
        _ => false,
    }
}
