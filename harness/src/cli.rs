//! C19: the command line, as a process of its own in a scratch directory.
use crate::action::issue;
use crate::assemble::{gen_fs, make, Scratch};
use crate::gen::Rng;
use crate::wire::{items, snap_model};
use crate::wire::{read_model_from_string, write_model_to_string};
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::model::{Model, NamespaceID};
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use serde_json::{json, Value};
use somedoc::write::{write_document_to_string, OutputFormat};
use std::convert::TryFrom;
use std::fs;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::str::FromStr;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}

fn plain(text: &str) -> String {
    let mut out = String::new();
    let mut it = text.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            while let Some(d) = it.next() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// The issues printed; None if the text has another form.
fn parse(text: &str) -> Option<(Vec<Value>, bool)> {
    let mut lines = text.lines().filter(|l| !l.is_empty());
    let mut out = vec![];
    let mut none = false;
    while let Some(l) = lines.next() {
        if l == "No issues reported." {
            none = true;
            continue;
        }
        let (level, msg) = l.strip_prefix('[')?.split_once("] ")?;
        let by = lines
            .next()?
            .trim()
            .strip_prefix("Reported by ")?
            .strip_suffix('.')?;
        let (by, locus) = match by.split_once(" on/for element ") {
            Some((b, e)) => (b, e.trim_matches('`')),
            None => by.split_once(" for element ").unwrap_or((by, "")),
        };
        out.push(json!({"level": level, "msg": msg, "by": by, "locus": locus}));
    }
    Some((out, none))
}

fn bag(xs: &[Value], lint: bool) -> Value {
    let mut v: Vec<String> = xs
        .iter()
        .map(|x| {
            let mut x = x.clone();
            if lint && x["level"] == "warning" {
                // an unwelcome term is reported once, at one of the places it occurs in
                x["locus"] = json!("");
            }
            x.to_string()
        })
        .collect();
    v.sort();
    json!(v)
}

fn lines(t: &str) -> Value {
    // in any order, and in any order what is on them: objects have no order
    let sorted = |l: &str| {
        // the first item of a list opens it, whichever it is
        let l = l.trim();
        let mut c: Vec<char> = l.strip_prefix("> ").unwrap_or(l).chars().collect();
        c.sort_unstable();
        c.into_iter().collect::<String>()
    };
    let mut v: Vec<String> = t.lines().map(sorted).filter(|l| !l.is_empty()).collect();
    v.sort_unstable();
    json!(v)
}

/// What the library makes of the same files.
fn library(case: &Value, paths: &[PathBuf]) -> Option<(Value, Value)> {
    let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
    for p in paths {
        let _ = a.push(p);
    }
    let m = Model::try_from(a).ok()?;
    let text = match (s(case, "cmd"), s(case, "fmt")) {
        ("convert", "json") => {
            write_model_to_string(&mut atelier_json::JsonWriter::new(true), &m).ok()?
        }
        ("convert", "uml") => write_model_to_string(&mut PlantUmlWriter::default(), &m).ok()?,
        ("convert", "smithy") => {
            let ns = match s(case, "ns") {
                "" => m.namespaces().into_iter().next()?.clone(),
                n => NamespaceID::from_str(n).ok()?,
            };
            write_model_to_string(&mut atelier_smithy::SmithyWriter::new(ns), &m).ok()?
        }
        ("document", f) => {
            write_document_to_string(&describe_model(&m).ok()?, OutputFormat::from_str(f).ok()?)
                .ok()?
        }
        _ => String::new(),
    };
    let issues = match s(case, "cmd") {
        "lint" => atelier_lib::actions::standard_model_lint(&m, false).ok()?,
        "validate" => atelier_lib::actions::standard_model_validation(&m, false).ok()?,
        _ => vec![],
    };
    Some((
        lines(&text),
        bag(
            &issues.iter().map(issue).collect::<Vec<_>>(),
            s(case, "cmd") == "lint",
        ),
    ))
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let scratch = Scratch::new();
    let dir = scratch.0.join("in");
    fs::create_dir(&dir).unwrap();
    let mut fs_ = case["fs"].clone();
    make(&dir, &mut fs_);
    let at = |p: &Value| dir.join(p.as_str().unwrap());
    let named: Vec<PathBuf> = items(&case["named"]).map(at).collect();
    let searched: Vec<PathBuf> = items(&case["searched"]).map(at).collect();
    let (cmd, fmt) = (s(case, "cmd"), s(case, "fmt"));
    let writes = cmd == "convert" || cmd == "document";

    let exe = std::env::current_exe()
        .unwrap()
        .with_file_name("cargo-atelier");
    let mut c = Command::new(exe);
    c.env_clear().stdin(Stdio::null()).current_dir(&scratch.0);
    let style = case["style"].as_u64().unwrap_or(0);
    if style % 3 == 0 {
        c.arg("--no-color");
    } else if style % 3 == 1 {
        c.env("CLICOLOR_FORCE", "1");
    }
    if style % 2 == 0 {
        // as cargo calls it; options before the command are then behind its name
        c = {
            let mut d = Command::new(c.get_program());
            d.env_clear()
                .stdin(Stdio::null())
                .current_dir(&scratch.0)
                .arg("atelier");
            d.args(c.get_args());
            for (k, v) in c.get_envs() {
                if let Some(v) = v {
                    d.env(k, v);
                }
            }
            d
        };
    }
    c.arg(cmd);
    for p in &named {
        c.arg(if style % 5 == 0 { "--in-file" } else { "-i" })
            .arg(p);
    }
    let joined = searched
        .iter()
        .map(|p| p.to_str().unwrap())
        .collect::<Vec<_>>()
        .join(":");
    if !searched.is_empty() {
        if s(case, "via") == "d" {
            c.arg("-d")
                .env("SMITHY_PATH", joined)
                .env("OTHER", "/nowhere.json");
        } else {
            c.args(["-s", "OTHER"])
                .env("OTHER", joined)
                .env("SMITHY_PATH", "/nowhere.json");
        }
    }
    let file = match s(case, "out") {
        "stdout" => None,
        "nodir" if style % 2 == 1 => Some(PathBuf::new()),
        "nodir" => Some(scratch.0.join("no/where/out")),
        o => {
            let f = scratch.0.join("out");
            if o == "old" {
                fs::write(&f, "x".repeat(60_000)).unwrap();
            }
            Some(f)
        }
    };
    if writes {
        c.args(["-w", fmt]);
        if let Some(f) = &file {
            c.arg("-o").arg(f);
        }
        if cmd == "convert" && s(case, "ns") != "" {
            c.args(["-n", s(case, "ns")]);
        }
    }
    let done = c.output().unwrap();
    let stdout = String::from_utf8_lossy(&done.stdout).into_owned();
    let text = match (&file, writes) {
        (Some(f), true) => fs::read_to_string(f).unwrap_or_default(),
        _ => stdout.clone(),
    };
    let crash = done.status.code().map(|c| c == 101).unwrap_or(true);
    let place = if text.is_empty() {
        "nothing"
    } else if text.starts_with("xxxx") {
        "old"
    } else {
        "some"
    };
    let (issues, none) = if writes {
        (vec![], false)
    } else {
        parse(&plain(&stdout)).unwrap_or((vec![json!({})], true))
    };
    let (mut read, mut back) = (json!(""), snap_model(&Model::default()));
    if cmd == "convert" && fmt == "json" {
        match read_model_from_string(&mut atelier_json::JsonReader::default(), &text) {
            Ok(m) => {
                read = json!("ok");
                back = snap_model(&m);
            }
            Err(_) => read = json!("err"),
        }
    }
    let all: Vec<PathBuf> = named.into_iter().chain(searched).collect();
    let (lib, libbag) = library(case, &all).unwrap_or((json!([]), json!([])));
    let mut rec = json!({"op": "cli", "cmd": cmd, "fs": fs_, "named": list(&case["named"]), "searched": list(&case["searched"]),
        "fmt": fmt, "ns": case["ns"], "out": case["out"], "code0": done.status.success(), "place": place,
        "read": read, "back": back, "lines": lines(&text), "lib": lib, "issues": issues, "bag": bag(&issues, s(case, "cmd") == "lint"),
        "libbag": libbag, "none": none});
    if file.is_none() || !writes {
        // nothing but the output goes to standard output
    } else if !stdout.is_empty() {
        rec["place"] = json!("stdout too");
    }
    if crash {
        rec["crash"] = json!({"panic": true});
    }
    out.push(rec);
}

fn list(v: &Value) -> Value {
    Value::Array(items(v).cloned().collect())
}

fn one_line(v: &Value) -> Value {
    let flat = |s: &str| s.replace(|c| c == '\n' || c == '\r', " ");
    match v {
        Value::String(s) => json!(flat(s)),
        Value::Array(vs) => vs.iter().map(one_line).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (flat(k), one_line(v))).collect()),
        v => v.clone(),
    }
}

pub fn gen(r: &mut Rng) -> Value {
    let (mut fs, roots) = gen_fs(r, r.clone().pct(25));
    for e in fs.as_array_mut().unwrap() {
        if e["fmt"] == "locked" {
            e["fmt"] = json!(if e["kind"] == "dir" { "" } else { "bad" });
        }
    }
    let cmd = *r.pick(&[
        "lint", "validate", "convert", "convert", "convert", "document",
    ]);
    // something to report: one model, its shapes spread over the files that are JSON
    if !["convert", "document"].contains(&cmd) && r.pct(80) {
        let m = loop {
            let c = if cmd == "lint" {
                crate::action::gen_names(r)
            } else {
                crate::action::gen_refs(r)
            };
            if c.get("model").is_some() {
                break c["model"].clone();
            }
        };
        let fs = fs.as_array_mut().unwrap();
        if !fs.iter().any(|e| e["fmt"] == "json") {
            let empty = json!({"ver": "1.0", "meta": {}, "shapes": {}});
            fs.push(json!({"path": "all.json", "kind": "file", "to": "", "fmt": "json", "model": empty}));
        }
        let mut files: Vec<&mut Value> = fs.iter_mut().filter(|e| e["fmt"] == "json").collect();
        for f in files.iter_mut() {
            f["model"] = json!({"ver": "1.0", "meta": {}, "shapes": {}});
        }
        for (id, sh) in crate::wire::pairs(&m["shapes"]) {
            let k = r.below(files.len());
            files[k]["model"]["shapes"][id] = sh.clone();
        }
    }
    let fmt = match cmd {
        "convert" => *r.pick(&[
            "json", "json", "json", "smithy", "smithy", "uml", "xml", "JSON",
        ]),
        "document" => *r.pick(&["markdown", "markdown", "html", "latex", "nothing"]),
        _ => "",
    };
    let roots: Vec<Value> = items(&roots).cloned().collect();
    let k = if r.pct(50) {
        roots.len()
    } else {
        r.below(roots.len() + 1)
    };
    let writes = cmd == "convert" || cmd == "document";
    let mut named = roots[..k].to_vec();
    if !named.is_empty() && r.pct(8) {
        let first = named[0].clone();
        named.splice(0..0, std::iter::repeat(first).take(8 + r.below(20)));
    }
    if writes && fmt != "json" {
        // a text of several lines would set the items of an object, which have no order, on any of them
        fs = one_line(&fs);
    }
    json!({
        "fs": fs, "cmd": cmd, "fmt": fmt,
        "named": named, "searched": roots[k..].to_vec(), "via": *r.pick(&["s", "d"]),
        "ns": if fmt == "smithy" { *r.pick(&["", "", "ns.a", "ns.a", "ns.b", "ns.b", "not ok", "ns.a.", " ns.a", "ns.b ", "ns..b", "ns.a#A", "NS.b", "ns.é"]) } else { "" },
        "out": if writes { *r.pick(&["stdout", "new", "old", "nodir"]) } else { "stdout" },
        "style": r.below(30),
    })
}
