//! C11, C12: the Smithy IDL, read and written.
use crate::gen::{self, Cfg, Rng};
use crate::wire::{build_model, sinks_of, snap_model, sources};
use crate::wire::{read_model_from_string, write_model_to_string};
use atelier_core::model::NamespaceID;
use atelier_smithy::{SmithyReader, SmithyWriter};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

/// The characters of the \u escapes in a text.
fn escapes(text: &str) -> Value {
    let cs: Vec<char> = text.chars().collect();
    let mut m = Map::new();
    m.insert("0008".into(), json!("\u{8}"));
    for i in 0..cs.len() {
        if cs[i] == 'u' && i + 4 < cs.len() && i > 0 && cs[i - 1] == '\\' {
            let h: String = cs[i + 1..i + 5].iter().collect();
            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                m.insert(h, json!(c.to_string()));
            }
        }
    }
    Value::Object(m)
}

fn read(text: &str) -> (String, Value) {
    match catch_unwind(AssertUnwindSafe(|| {
        read_model_from_string(&mut SmithyReader::default(), text)
    })) {
        Err(_) => ("panic".into(), snap_model(&Default::default())),
        Ok(Err(e)) => {
            if std::env::var("VH_LOUD").is_ok() {
                eprintln!("{:?}", e);
            }
            ("err".into(), snap_model(&Default::default()))
        }
        Ok(Ok(m)) => ("ok".into(), snap_model(&m)),
    }
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    if let Some(text) = case["text"].as_str() {
        let (r, m) = read(text);
        out.push(json!({"op": "read", "strict": case["strict"] == true, "text": text, "uni": escapes(text), "r": r, "m": m}));
        out.push(sources("idl", text, SmithyReader::default()));
        return;
    }
    let model = build_model(&case["model"]);
    let ns = case["ns"].as_str().unwrap();
    let mut w = SmithyWriter::new(NamespaceID::from_str(ns).unwrap());
    let (r, text) = match catch_unwind(AssertUnwindSafe(|| write_model_to_string(&mut w, &model))) {
        Err(_) => ("panic", String::new()),
        Ok(Err(_)) => ("err", String::new()),
        Ok(Ok(t)) => ("ok", t),
    };
    if std::env::var("VH_LOUD").is_ok() {
        eprintln!("{}", text);
    }
    let (r2, m2) = read(&text);
    if r == "ok" {
        out.push(sinks_of("idl", &text, &mut w, &model));
    }
    out.push(json!({"op": "write", "strict": case["strict"] == true, "ns": ns, "m": snap_model(&model), "r": r, "text": text, "uni": escapes(&text),
        "r2": r2, "m2": m2}));
}

// ------------------------------------------------------------------------------------------------

const NS: [&str; 3] = ["n.s", "example", "com.acme_1.v2"];
const NAMES: [&str; 9] = [
    "Alpha", "Beta", "Gamma", "trueish", "String", "_under", "nullable", "mapped", "X9",
];
const FOREIGN: [&str; 4] = ["o.p#Alpha", "o.p#Delta", "q#Delta", "q#Zeta"];
const PRELUDE: [&str; 5] = ["String", "Integer", "Boolean", "PrimitiveLong", "Timestamp"];
const TRAITS: [&str; 12] = [
    "required",
    "tags",
    "documentation",
    "length",
    "error",
    "box",
    "o.p#Delta",
    "q#Zeta",
    "Alpha",
    "smithy.api#pattern",
    "Beta",
    "readonly",
];
const MEMBERS: [&str; 8] = [
    "a",
    "b",
    "member",
    "string",
    "value",
    "_x",
    "trueValue",
    "list",
];
const PIECES: [&str; 24] = [
    "a", " ", "word", "\\\\", "\\\"", "\\n", "\\t", "\\d", "\\u0041", "\\u00e9", "\\u12", "//",
    ",", "é", "日", "😀", "'", "\\'", "\\/", "\\b", "{}", "@x(", "\\r", "\\u0001",
];
const SIMPLE: [&str; 13] = [
    "blob",
    "boolean",
    "document",
    "string",
    "byte",
    "short",
    "integer",
    "long",
    "float",
    "double",
    "bigInteger",
    "bigDecimal",
    "timestamp",
];
const NUMBERS: [&str; 22] = [
    "1e999",
    "-1e999",
    "1e308",
    "-1.5e-7",
    "99999999999999999999",
    "-9223372036854775809",
    "0",
    "-0",
    "1",
    "-17",
    "9223372036854775807",
    "-9223372036854775808",
    "0.5",
    "-2.25",
    "1.0",
    "1e3",
    "1.5E-2",
    "-3e+2",
    "2.50",
    "100.0",
    "0.1",
    "12e0",
];

struct G {
    names: Vec<String>,
    foreign: Vec<String>,
    ns: String,
}
type Toks = Vec<String>;

fn p(t: &mut Toks, s: &str) {
    t.push(s.to_string());
}

fn name(r: &mut Rng, g: &G) -> String {
    match r.below(10) {
        0 => format!("{}#{}", g.ns, r.pick(&g.names)),
        1 => r.pick(&FOREIGN).to_string(),
        2 => r.pick(&g.foreign).rsplit('#').next().unwrap().to_string(),
        3 | 4 | 5 => r.pick(&PRELUDE).to_string(),
        6 if r.pct(20) => "Nowhere".to_string(),
        6 if r.pct(20) => r.pick(&gen::PRELUDE_T).to_string(),
        _ => r.pick(&g.names).clone(),
    }
}

fn text(r: &mut Rng) -> String {
    let n = r.below(5);
    let mut s: String = (0..n).map(|_| *r.pick(&PIECES)).collect();
    if r.pct(15) {
        if r.pct(60) {
            s = format!(
                "{}{}  \" x\n\t y",
                r.pick(&["", " ", "\n  ", "\n\t//", "\r\n,"]),
                s
            );
        }
        return format!("\"\"\"{}{}\"\"\"", r.pick(&["", "\n", " \n  "]), s);
    }
    format!("\"{}\"", s)
}

fn key(r: &mut Rng) -> String {
    match r.below(6) {
        0 => loop {
            let t = text(r);
            if !t.starts_with("\"\"\"") {
                return t;
            }
        },
        1 => "\"key\"".to_string(),
        _ => r
            .pick(&["key", "min", "max", "true", "_k", "version", "Upper"])
            .to_string(),
    }
}

fn value(r: &mut Rng, g: &G, t: &mut Toks, depth: usize) {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 | 1 => t.push(text(r)),
        2 => p(t, *r.pick(&NUMBERS)),
        3 => p(t, *r.pick(&["true", "false", "null"])),
        4 => t.push(name(r, g)),
        5 => p(
            t,
            *r.pick(&["trueish", "nullable", "falsey", "x.y#true", "true_"]),
        ),
        6 | 7 => {
            p(t, "[");
            let many = r.pct(4);
            for _ in 0..r.below(if many { 14 } else { 4 }) {
                let from = t.len();
                value(r, g, t, depth - 1);
                if r.pct(12) {
                    let again = t[from..].to_vec();
                    t.extend(again);
                }
            }
            p(t, "]");
        }
        _ => {
            p(t, "{");
            pairs(r, g, t, depth - 1);
            p(t, "}");
        }
    }
}

fn pairs(r: &mut Rng, g: &G, t: &mut Toks, depth: usize) {
    for _ in 0..r.below(4) {
        let k = key(r);
        t.push(k);
        p(t, ":");
        value(r, g, t, depth);
    }
}

fn a_trait(r: &mut Rng, g: &G, t: &mut Toks) {
    let n = if r.pct(80) {
        r.pick(&TRAITS).to_string()
    } else {
        name(r, g)
    };
    if r.pct(35) {
        t.push(format!("@{}", n));
        return;
    }
    t.push(format!("@{}(", n));
    match r.below(4) {
        0 => value(r, g, t, 2),
        1 => {}
        _ => pairs(r, g, t, 1),
    }
    p(t, ")");
}

fn notes(r: &mut Rng, g: &G, t: &mut Toks, pct: usize) {
    if r.pct(pct / 2) {
        for _ in 0..1 + r.below(3) {
            t.push(format!(
                "///{}",
                r.pick(&[
                    "",
                    " ",
                    " some words",
                    "   indented, and more",
                    " a \"quoted\" \\d one ",
                    "tight",
                    " é 日 😀"
                ])
            ));
        }
    }
    while r.pct(pct) {
        a_trait(r, g, t);
    }
}

fn member(r: &mut Rng, g: &G, t: &mut Toks, n: &str) {
    notes(r, g, t, 25);
    p(t, n);
    p(t, ":");
    let x = name(r, g);
    t.push(x);
}

fn ids(r: &mut Rng, g: &G, t: &mut Toks, k: &str) {
    p(t, k);
    p(t, ":");
    p(t, "[");
    for _ in 0..r.below(4) {
        let x = name(r, g);
        if r.pct(10) {
            t.push(format!("\"{}\"", x));
        } else if r.pct(4) {
            odd(r, t);
        } else {
            t.push(x);
        }
    }
    p(t, "]");
}

/// Something that does not name a shape, or nearly does not.
fn odd(r: &mut Rng, t: &mut Toks) {
    let x = *r.pick(&[
        "null",
        "null",
        "null",
        "1",
        "[]",
        "{}",
        "true",
        "\"\"",
        "\" Alpha\"",
        "\"a b\"",
        "\"1x\"",
        "\"a#b#c\"",
        "\"a.b\"",
        "\"#x\"",
        "\"n.s#A$b\"",
        "\"A$b\"",
    ]);
    p(t, x);
}

fn one(r: &mut Rng, g: &G, t: &mut Toks, k: &str) {
    p(t, k);
    p(t, ":");
    if r.pct(3) {
        return odd(r, t);
    }
    let x = name(r, g);
    t.push(x);
}

fn decl(r: &mut Rng, g: &G, t: &mut Toks, n: &str) {
    notes(r, g, t, 30);
    let kind = *r.pick(&[
        "simple",
        "simple",
        "list",
        "set",
        "map",
        "structure",
        "structure",
        "union",
        "service",
        "operation",
        "resource",
    ]);
    if kind == "simple" {
        p(t, *r.pick(&SIMPLE));
        p(t, n);
        return;
    }
    p(t, kind);
    p(t, n);
    p(t, "{");
    match kind {
        "list" | "set" => member(r, g, t, "member"),
        "map" => {
            let flip = r.pct(20);
            member(r, g, t, if flip { "value" } else { "key" });
            let same = t.last().filter(|_| r.pct(25)).cloned();
            member(r, g, t, if flip { "key" } else { "value" });
            if let Some(x) = same {
                t.pop();
                t.push(x);
            }
        }
        "structure" | "union" => {
            let mut ms = MEMBERS.to_vec();
            r.shuffle(&mut ms);
            let n = r.below(4);
            for m in &ms[..n] {
                member(r, g, t, m);
            }
            if r.pct(2) {
                member(r, g, t, "a");
                member(r, g, t, *r.clone().pick(&["a", "A"]));
            }
        }
        "service" => {
            let mut ks = vec!["version", "operations", "resources", "rename"];
            r.shuffle(&mut ks);
            for k in ks {
                match k {
                    "version" if r.pct(97) => {
                        p(t, k);
                        p(t, ":");
                        p(
                            t,
                            *r.pick(&[
                                "\"2021-01-01\"",
                                "\"1\"",
                                "\"\"\"v 2\"\"\"",
                                "\"\"",
                                "Word",
                            ]),
                        );
                    }
                    "operations" | "resources" if r.pct(50) => ids(r, g, t, k),
                    "rename" if r.pct(40) => {
                        p(t, k);
                        p(t, ":");
                        p(t, "{");
                        for _ in 0..r.below(3) {
                            t.push(format!("\"{}\"", r.pick(&FOREIGN)));
                            p(t, ":");
                            p(t, *r.pick(&["\"Other\"", "\"New\"", "Third"]));
                            if r.pct(6) {
                                t.pop();
                                odd(r, t);
                            }
                        }
                        p(t, "}");
                    }
                    _ => {}
                }
            }
        }
        "operation" => {
            let mut ks = vec!["input", "output", "errors"];
            r.shuffle(&mut ks);
            for k in ks {
                if r.pct(60) {
                    if k == "errors" {
                        ids(r, g, t, k);
                    } else {
                        one(r, g, t, k);
                    }
                }
            }
        }
        _ => {
            let mut ks = vec![
                "identifiers",
                "create",
                "put",
                "read",
                "update",
                "delete",
                "list",
                "operations",
                "collectionOperations",
                "resources",
            ];
            r.shuffle(&mut ks);
            for k in ks {
                if r.pct(30) {
                    match k {
                        "identifiers" => {
                            p(t, k);
                            p(t, ":");
                            p(t, "{");
                            for _ in 0..r.below(3) {
                                p(t, *r.pick(&["id", "\"id2\"", "other", "true"]));
                                if r.pct(5) {
                                    t.pop();
                                    p(t, *r.pick(&["\"\"", "\"a b\"", "\"1\"", "\"a.b\"", "_"]));
                                }
                                p(t, ":");
                                if r.pct(3) {
                                    odd(r, t);
                                } else {
                                    let x = name(r, g);
                                    t.push(x);
                                }
                            }
                            p(t, "}");
                        }
                        "operations" | "collectionOperations" | "resources" => ids(r, g, t, k),
                        _ => one(r, g, t, k),
                    }
                }
            }
        }
    }
    if ["service", "operation", "resource"].contains(&kind) && r.pct(8) {
        // a key the body may not have, or one whose value may not be what it is
        let k = *r.pick(&[
            "version",
            "operations",
            "resources",
            "rename",
            "input",
            "output",
            "errors",
            "identifiers",
            "create",
            "list",
            "collectionOperations",
            "bogus",
            "Version",
            "\"input\"",
        ]);
        p(t, k);
        p(t, ":");
        match r.below(5) {
            0 => {
                p(t, "[");
                value(r, g, t, 1);
                p(t, "]");
            }
            1 => {
                p(t, "{");
                p(t, *r.pick(&["a", "\"a b\"", "\"a.b#C\"", "\"\"", "id"]));
                p(t, ":");
                value(r, g, t, 1);
                p(t, "}");
            }
            2 => {
                let x = name(r, g);
                t.push(x);
            }
            _ => value(r, g, t, 2),
        }
    }
    p(t, "}");
}

/// The tokens as a text, with some layout between them.
fn lay(r: &mut Rng, toks: &[String]) -> String {
    let mut s = String::new();
    let free = |r: &mut Rng| -> String {
        match r.below(12) {
            0 => "\n".to_string(),
            1 => "\n\n    ".to_string(),
            2 => ", ".to_string(),
            3 => " // a comment, \"of\" @words(\n".to_string(),
            4 => "\t".to_string(),
            5 => ",\r\n".to_string(),
            6 => "//\n//x\n ".to_string(),
            7 if r.pct(30) => "// é 日 😀\n".to_string(),
            _ => " ".to_string(),
        }
    };
    if r.pct(20) {
        s.push_str(&free(r));
    }
    for (i, t) in toks.iter().enumerate() {
        s.push_str(t);
        if t.starts_with("///") {
            s.push_str(*r.pick(&["\n", "\n", "\r\n", "\n    "]));
            continue;
        }
        let tight = |x: &str| x.len() == 1 && "{}[]():=$".contains(x);
        let next = toks.get(i + 1).map(|x| x.as_str()).unwrap_or("");
        if (tight(t) || t.ends_with('(') || tight(next) && !(t.starts_with('@') && next == "("))
            && r.pct(60)
        {
            continue;
        }
        if i + 1 < toks.len() || r.pct(50) {
            s.push_str(&free(r));
        }
    }
    s
}

fn mutate(r: &mut Rng, t: &mut Toks) {
    if t.is_empty() {
        return;
    }
    let i = r.below(t.len());
    match r.below(6) {
        0 | 1 => {
            t.remove(i);
        }
        2 => {
            let x = t[i].clone();
            t.insert(i, x);
        }
        3 => {
            let j = r.below(t.len());
            t.swap(i, j);
        }
        4 => {
            t[i] = r
                .pick(&[
                    "{",
                    "}",
                    "[",
                    "(",
                    ")",
                    ":",
                    "=",
                    "$",
                    "true",
                    "\"x\"",
                    "1",
                    "Alpha",
                    "@tags",
                    "@tags(",
                    "/// doc",
                    "apply",
                    "use",
                    "metadata",
                    "namespace",
                    "a.b",
                    "a.b#C",
                    "a.b#C$d",
                    "string",
                    "#",
                    "/",
                    "\"",
                    "\"\"\"",
                    "-",
                    "1e999",
                    "99999999999999999999",
                    ".",
                ])
                .to_string();
        }
        _ => {
            // a character put into a token
            let cs: Vec<char> = t[i].chars().collect();
            let at = r.below(cs.len() + 1);
            let c = *r.pick(&['{', '}', ':', '"', '#', '$', '.', '@', '\\', '(', '/', '[']);
            let mut s: String = cs[..at].iter().collect();
            s.push(c);
            s.extend(cs[at..].iter());
            t[i] = s;
        }
    }
}

pub fn gen_read(r: &mut Rng) -> Value {
    let mut ns = r.pick(&NS).to_string();
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    if r.pct(20) {
        names.extend((0..6).map(|_| gen::ident(r)));
        ns = format!("{}.{}", gen::ident(r), gen::ident(r));
    }
    r.shuffle(&mut names);
    names.truncate(1 + r.below(5));
    let mut foreign: Vec<String> = FOREIGN.iter().map(|s| s.to_string()).collect();
    r.shuffle(&mut foreign);
    let g = G {
        names: names.clone(),
        foreign: foreign.clone(),
        ns: ns.clone(),
    };
    let mut t: Toks = vec![];
    while r.pct(35) && t.len() < 8 {
        p(&mut t, "$");
        p(
            &mut t,
            *r.pick(&["version", "\"version\"", "version", "version", "other"]),
        );
        p(&mut t, ":");
        p(
            &mut t,
            *r.pick(&[
                "\"1.0\"",
                "\"1\"",
                "1.0",
                "1",
                "\"1.0\"",
                "\"1.0\"",
                "\"2.0\"",
                "[]",
                "\"1.0\"",
                "null",
                "\" 1.0\"",
                "\"1.0 \"",
                "\"\"",
                "1e0",
                "{}",
                "true",
                "\"v1.0\"",
                "\"1.0.0\"",
                "\"\"\"1.0\"\"\"",
                "1.00",
                "10e-1",
            ]),
        );
        if r.pct(70) {
            break;
        }
    }
    let shapes = r.pct(93);
    for k in ["k1", "\"quoted key\"", "k2", "k2", "\"\"", "K1"] {
        if r.pct(if shapes { 12 } else { 50 }) {
            p(&mut t, "metadata");
            p(&mut t, k);
            p(&mut t, "=");
            value(r, &g, &mut t, 2);
        }
    }
    if shapes {
        p(&mut t, "namespace");
        t.push(ns.clone());
        for f in foreign.iter().take(r.below(3)) {
            p(&mut t, "use");
            p(&mut t, f);
        }
        let mut done: Vec<String> = vec![];
        for n in &names {
            if r.pct(75) {
                decl(r, &g, &mut t, n);
                done.push(n.clone());
            }
            while r.pct(12) {
                p(&mut t, "apply");
                let x = name(r, &g);
                let m = if r.pct(30) {
                    format!("{}${}", x, r.pick(&["a", "b", "member"]))
                } else {
                    x
                };
                t.push(m);
                a_trait(r, &g, &mut t);
            }
        }
        if r.pct(2) && !done.is_empty() {
            let n = done[0].clone();
            decl(r, &g, &mut t, &n);
        }
    }
    if r.pct(20) {
        for _ in 0..1 + r.below(2) {
            mutate(r, &mut t);
        }
    }
    json!({"text": lay(r, &t)})
}

pub fn gen_write(r: &mut Rng) -> Value {
    let ns = *r.pick(&["smithy.example", "n"]);
    let mut c = Cfg::default();
    c.nss = vec![ns];
    c.names = vec!["Alpha", "Beta", "String", "Gamma", "trueish", "_u", "Delta"];
    c.members = vec!["a", "b", "string", "true", "_x", "list"];
    c.dangling_pct = 10;
    c.meta_pct = 30;
    if r.pct(20) {
        c.nss = vec![ns, "o.p"];
    }
    if r.pct(30) {
        c.max_shapes = 2;
    }
    c.strs.extend([
        "\\d",
        "\"",
        "é😀",
        "\r\n",
        "\u{8}\u{c}",
        "'",
        "\u{7f}",
        "trailing\\",
        "\u{301}x",
        "\"\"\"",
        " lead",
    ]);
    c.traits.extend([
        "n#Alpha",
        "smithy.example#Beta",
        "o.p#tags",
        "smithy.api#Delta",
    ]);
    let mut m = gen::model(r, &c);
    // shapes that are only referred to, here and elsewhere
    for id in [
        "o.p#Delta",
        "o.p#Other",
        "q#Delta",
        "n#Nowhere",
        "smithy.api#String",
    ] {
        if r.pct(12) {
            let mut s = gen::blank("unresolved");
            if r.pct(50) {
                s["traits"] = gen::traits(r, &c);
            }
            m["shapes"][id] = s;
        }
    }
    for (_, s) in m["shapes"].as_object_mut().unwrap() {
        // references to the shapes above
        for role in ["operations", "resources", "errors"] {
            if let Some(q) = s["refs"][role].as_array_mut() {
                if !q.is_empty() && r.pct(20) {
                    q[0] = json!(*r.pick(&["o.p#Delta", "q#Delta", "n#Nowhere"]));
                }
            }
        }
    }
    json!({"ns": ns, "model": m})
}
