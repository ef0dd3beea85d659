//! C17: the RDF form.
use crate::gen::{self, Cfg, Rng};
use crate::wire::write_model_to_string;
use crate::wire::{build_model, f64_str, items, sinks_of, snap_model};
use atelier_core::model::{Model, ShapeID};
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use atelier_rdf::writer::{model_to_rdf, RdfWriter};
use rdftk_core::simple::graph_factory;
use rdftk_iri::{IRIRef, IRI};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::str::FromStr;

const NAMES: [(&str, &str); 3] = [
    ("https://awslabs.github.io/smithy/rdf-1.0#", "smithy:"),
    ("http://www.w3.org/1999/02/22-rdf-syntax-ns#", "rdf:"),
    ("http://www.w3.org/2001/XMLSchema#", ""),
];

fn short(iri: &str) -> String {
    for (long, s) in NAMES {
        if let Some(r) = iri.strip_prefix(long) {
            return format!("{}{}", s, r);
        }
    }
    iri.to_string()
}

/// The crate keeps the text of a literal as Rust escapes it.
fn unescape(s: &str) -> String {
    crate::describe::unquote(&format!("\"{}\"", s))
}

fn literal(text: &str, dt: &str) -> Value {
    let v = match dt {
        "double" => text
            .parse::<f64>()
            .map(f64_str)
            .unwrap_or_else(|_| "?".into()),
        "string" => unescape(text),
        _ => text.to_string(),
    };
    json!({"k": "lit", "v": v, "dt": dt})
}

fn graph(model: &Model, iri: Option<&str>) -> (String, Vec<Value>) {
    let iri = iri.map(|i| IRIRef::from(IRI::from_str(i).unwrap()));
    let g = model_to_rdf(model, iri, graph_factory()).unwrap();
    let g = g.borrow();
    let mut out = vec![];
    let mut root = String::new();
    for t in g.statements() {
        let s = match t.subject().as_blank() {
            Some(b) => format!("_:{}", b),
            None => short(&t.subject().as_iri().unwrap().to_string()),
        };
        let p = short(&t.predicate().to_string());
        let o = t.object();
        let o = if let Some(b) = o.as_blank() {
            json!({"k": "blank", "v": format!("_:{}", b), "dt": ""})
        } else if let Some(i) = o.as_iri() {
            json!({"k": "iri", "v": short(&i.to_string()), "dt": ""})
        } else {
            let l = o.as_literal().unwrap();
            let dt = l
                .data_type()
                .map(|d| short(&d.as_iri().to_string()))
                .unwrap_or("string".into());
            literal(l.lexical_form(), &dt)
        };
        if p == "smithy:smithy_version" {
            root = s.clone();
        }
        out.push(json!({"s": s, "p": typed(&p), "o": o}));
    }
    (root, out)
}

fn typed(p: &str) -> String {
    p.to_string()
}

// ------------------------------------------------------------------------------------------------
// Turtle, as far as it is written here
// ------------------------------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Iri(String),
    Blank(String),
    Lit(String, String),
    P(char),
    Prefix,
}

struct Turtle {
    toks: Vec<Tok>,
    at: usize,
    fresh: usize,
    out: Vec<Value>,
}

impl Turtle {
    fn lex(s: &str) -> Option<Vec<Tok>> {
        let c: Vec<char> = s.chars().collect();
        let mut prefixes: HashMap<String, String> = HashMap::new();
        let (mut toks, mut i): (Vec<Tok>, usize) = (vec![], 0);
        let word = |i: usize| {
            let mut j = i;
            while j < c.len() && (c[j].is_alphanumeric() || "_.:-/%".contains(c[j])) {
                j += 1;
            }
            // a name does not end with a dot
            while j > i && c[j - 1] == '.' {
                j -= 1;
            }
            j
        };
        while i < c.len() {
            match c[i] {
                x if x.is_whitespace() => i += 1,
                '<' => {
                    let j = i + c[i..].iter().position(|x| *x == '>')?;
                    let iri: String = c[i + 1..j].iter().collect();
                    if let [.., Tok::Prefix, Tok::P(':')] = toks[..] {
                        return None;
                    }
                    toks.push(Tok::Iri(iri));
                    i = j + 1;
                }
                '"' => {
                    let mut j = i + 1;
                    while *c.get(j)? != '"' {
                        j += if c[j] == '\\' { 2 } else { 1 };
                    }
                    let t: String = c[i + 1..j].iter().collect();
                    i = j + 1;
                    if c[i..].starts_with(&['^', '^', '<']) {
                        let k = i + c[i..].iter().position(|x| *x == '>')?;
                        toks.push(Tok::Lit(t, c[i + 3..k].iter().collect()));
                        i = k + 1;
                    } else if c[i..].starts_with(&['^', '^']) {
                        let k = word(i + 2);
                        let q: String = c[i + 2..k].iter().collect();
                        let (p, l) = q.split_once(':')?;
                        toks.push(Tok::Lit(t, format!("{}{}", prefixes.get(p)?, l)));
                        i = k;
                    } else {
                        toks.push(Tok::Lit(t, String::new()));
                    }
                }
                '@' => {
                    let j = word(i + 1);
                    if c[i + 1..j].iter().collect::<String>() != "prefix" {
                        return None;
                    }
                    // @prefix p: <iri> .
                    let a = j + c[j..].iter().position(|x| *x == ':')?;
                    let b = a + c[a..].iter().position(|x| *x == '<')?;
                    let e = b + c[b..].iter().position(|x| *x == '>')?;
                    let d = e + c[e..].iter().position(|x| *x == '.')?;
                    let p: String = c[j..a].iter().collect();
                    prefixes.insert(p.trim().to_string(), c[b + 1..e].iter().collect());
                    i = d + 1;
                }
                '[' | ']' | ',' | ';' | '.' => {
                    toks.push(Tok::P(c[i]));
                    i += 1;
                }
                _ => {
                    let j = word(i);
                    if j == i {
                        return None;
                    }
                    let q: String = c[i..j].iter().collect();
                    if let Some(b) = q.strip_prefix("_:") {
                        toks.push(Tok::Blank(b.to_string()));
                    } else if q == "a" {
                        toks.push(Tok::Iri(format!("{}type", NAMES[1].0)));
                    } else if q == "true" || q == "false" {
                        toks.push(Tok::Lit(q, format!("{}boolean", NAMES[2].0)));
                    } else {
                        let (p, l) = q.split_once(':')?;
                        toks.push(Tok::Iri(format!("{}{}", prefixes.get(p)?, l)));
                    }
                    i = j;
                }
            }
        }
        Some(toks)
    }
    fn next(&mut self) -> Option<Tok> {
        self.at += 1;
        self.toks.get(self.at - 1).cloned()
    }
    fn peek(&self, c: char) -> bool {
        self.toks.get(self.at) == Some(&Tok::P(c))
    }
    fn properties(&mut self, s: &str) -> Option<()> {
        loop {
            let p = match self.next()? {
                Tok::Iri(i) => short(&i),
                _ => return None,
            };
            loop {
                let o = match self.next()? {
                    Tok::Iri(i) => json!({"k": "iri", "v": short(&i), "dt": ""}),
                    Tok::Blank(b) => json!({"k": "blank", "v": format!("_:{}", b), "dt": ""}),
                    Tok::Lit(t, dt) => literal(
                        &t,
                        if dt.is_empty() {
                            "string".to_string()
                        } else {
                            short(&dt)
                        }
                        .as_str(),
                    ),
                    Tok::P('[') => {
                        self.fresh += 1;
                        let b = format!("_:nested{}", self.fresh);
                        if !self.peek(']') {
                            self.properties(&b)?;
                        }
                        if self.next()? != Tok::P(']') {
                            return None;
                        }
                        json!({"k": "blank", "v": b, "dt": ""})
                    }
                    _ => return None,
                };
                self.out.push(json!({"s": s, "p": p, "o": o}));
                if !self.peek(',') {
                    break;
                }
                self.at += 1;
            }
            if !self.peek(';') {
                return Some(());
            }
            self.at += 1;
        }
    }
    fn read(text: &str) -> Option<Vec<Value>> {
        let mut t = Turtle {
            toks: Turtle::lex(text)?,
            at: 0,
            fresh: 0,
            out: vec![],
        };
        while t.at < t.toks.len() {
            let s = match t.next()? {
                Tok::Iri(i) => short(&i),
                Tok::Blank(b) => format!("_:{}", b),
                _ => return None,
            };
            t.properties(&s)?;
            if t.next()? != Tok::P('.') {
                return None;
            }
        }
        Some(t.out)
    }
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    for id in items(&case["ids"]) {
        let s = id.as_str().unwrap();
        let iri = shape_to_iri(&ShapeID::from_str(s).unwrap());
        let back = iri_to_shape(iri.clone())
            .map(|i| i.to_string())
            .unwrap_or_default();
        out.push(json!({"op": "urn", "id": s, "iri": iri.to_string(), "back": back, "is": is_shape_iri(iri)}));
    }
    for t in items(&case["iris"]) {
        let s = t.as_str().unwrap();
        let (mut shape, mut is) = (String::new(), false);
        if let Ok(iri) = IRI::from_str(s) {
            let iri = IRIRef::from(iri);
            shape = iri_to_shape(iri.clone())
                .map(|i| i.to_string())
                .unwrap_or_default();
            is = is_shape_iri(iri);
        }
        out.push(json!({"op": "iri", "text": s, "shape": shape, "is": is}));
    }
    if case["model"].is_object() {
        let model = build_model(&case["model"]);
        let rec = snap_model(&model);
        for iri in [None, Some("https://example.org/model")] {
            let (root, ts) = graph(&model, iri);
            let root_ok = iri.map(|i| i == root).unwrap_or(root.starts_with("_:"));
            out.push(json!({"op": "graph", "model": rec, "root": if root_ok { root } else { "?".into() }, "triples": ts}));
            let mut w = match iri {
                None => RdfWriter::default(),
                Some(i) => RdfWriter::new(IRIRef::from(IRI::from_str(i).unwrap())),
            };
            let text = write_model_to_string(&mut w, &model).unwrap();
            out.push(sinks_of("rdf", &text, &mut w, &model));
            if std::env::var("VH_LOUD").is_ok() {
                println!("{}", text);
            }
            let ts = Turtle::read(&text).unwrap_or_default();
            let root = ts
                .iter()
                .find(|t| t["p"] == "smithy:smithy_version")
                .map(|t| t["s"].as_str().unwrap().to_string())
                .unwrap_or_default();
            out.push(json!({"op": "turtle", "model": rec, "root": root, "triples": ts}));
        }
    }
}

pub fn gen(r: &mut Rng) -> Value {
    let mut m = gen::model(
        r,
        &Cfg {
            max_shapes: 7,
            ..Cfg::default()
        },
    );
    if r.pct(6) {
        // containers of more than a handful
        let n = 17 + r.below(8);
        let many = gen::arr((0..n).map(|i| gen::lit("int", &i.to_string())).collect());
        if let Some((_, sh)) = m["shapes"].as_object_mut().unwrap().iter_mut().next() {
            if !sh["traits"].is_object() {
                sh["traits"] = json!({});
            }
            sh["traits"]["example.traits#kinds"] = many;
        }
    }
    // a graph is a set: it says once that an operation is in a service
    for (_, sh) in m["shapes"].as_object_mut().unwrap() {
        for (_, xs) in sh["refs"].as_object_mut().unwrap() {
            if r.pct(70) {
                let v = xs.as_array_mut().unwrap();
                let mut seen = vec![];
                v.retain(|x| {
                    !seen.contains(x) && {
                        seen.push(x.clone());
                        true
                    }
                });
            }
        }
    }
    let parts = [
        "urn:",
        "smithy:",
        "urn:smithy:",
        "a",
        "a.b",
        "example.ns",
        ":",
        "/",
        "#",
        "?",
        "Shape",
        "_m",
        "1",
        ".",
        "$",
        "%20",
        "@",
        "é",
    ];
    let mut iris = vec![];
    for _ in 0..4 {
        let mut s = String::from(if r.pct(75) { "urn:smithy:" } else { "" });
        for _ in 0..1 + r.below(5) {
            s.push_str(r.pick(&parts));
        }
        iris.push(s);
    }
    json!({"model": m, "iris": iris, "ids": m["shapes"].as_object().unwrap().keys().cloned().collect::<Vec<_>>()})
}
