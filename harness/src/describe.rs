//! C18: diagrams and documents, taken apart.
use crate::gen::{self, Cfg, Rng};
use crate::wire::write_model_to_string;
use crate::wire::{build_model, pairs, sinks_of, snap_model};
use atelier_core::model::Model;
use atelier_describe::document::writer::{describe_model, DocumentationWriter};
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use serde_json::{json, Value};
use somedoc::write::markdown::MarkdownFlavor;
use somedoc::write::{write_document_to_string, OutputFormat};
use std::collections::{HashMap, HashSet};

// ------------------------------------------------------------------------------------------------
// XML, as far as a graph needs it
// ------------------------------------------------------------------------------------------------
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: String,
    pub kids: Vec<Elem>,
}

impl Elem {
    pub fn attr(&self, n: &str) -> String {
        self.attrs
            .iter()
            .find(|(k, _)| k == n)
            .map(|(_, v)| v.clone())
            .unwrap_or_default()
    }
    pub fn named<'a>(&'a self, n: &'a str) -> impl Iterator<Item = &'a Elem> + 'a {
        self.kids.iter().filter(move |k| k.name == n)
    }
    fn data(&self, key: &str) -> String {
        self.named("data")
            .find(|d| d.attr("key") == key)
            .map(|d| d.text.clone())
            .unwrap_or_default()
    }
}

pub struct Xml {
    s: Vec<char>,
    p: usize,
}

type P<T> = Result<T, String>;

impl Xml {
    pub fn document(s: &str) -> P<Elem> {
        let mut x = Xml {
            s: s.chars().collect(),
            p: 0,
        };
        x.ws();
        if x.at("<?xml") {
            while !x.at("?>") {
                x.any()?;
            }
            x.p += 2;
        }
        x.ws();
        let e = x.elem()?;
        x.ws();
        if x.p != x.s.len() {
            return Err("text after the document".into());
        }
        Ok(e)
    }
    fn at(&self, t: &str) -> bool {
        t.chars()
            .enumerate()
            .all(|(i, c)| self.s.get(self.p + i) == Some(&c))
    }
    fn any(&mut self) -> P<char> {
        self.p += 1;
        self.s
            .get(self.p - 1)
            .copied()
            .ok_or_else(|| "end of text".to_string())
    }
    fn take(&mut self, t: &str) -> P<()> {
        if self.at(t) {
            self.p += t.chars().count();
            Ok(())
        } else {
            Err(format!("no {:?} at {}", t, self.p))
        }
    }
    fn ws(&mut self) -> bool {
        let p = self.p;
        while self.p < self.s.len() && " \t\r\n".contains(self.s[self.p]) {
            self.p += 1;
        }
        p != self.p
    }
    fn name(&mut self) -> P<String> {
        let mut n = String::new();
        while self.p < self.s.len()
            && (self.s[self.p].is_alphanumeric() || "_:.-".contains(self.s[self.p]))
        {
            n.push(self.any()?);
        }
        if n.chars()
            .next()
            .map(|c| c.is_alphabetic() || c == '_')
            .unwrap_or(false)
        {
            Ok(n)
        } else {
            Err(format!("no name at {}", self.p))
        }
    }
    fn text(&mut self, end: char) -> P<String> {
        let mut t = String::new();
        loop {
            match self.s.get(self.p) {
                None => return Err("end of text".into()),
                Some(c) if *c == end => return Ok(t),
                Some('<') => return Err("< in a text".into()),
                Some('&') => {
                    let mut e = String::new();
                    self.p += 1;
                    while !self.at(";") {
                        e.push(self.any()?);
                    }
                    self.p += 1;
                    t.push(match e.as_str() {
                        "lt" => '<',
                        "gt" => '>',
                        "amp" => '&',
                        "quot" => '"',
                        "apos" => '\'',
                        e => {
                            let n = e.strip_prefix('#').ok_or("unknown entity")?;
                            let n = match n.strip_prefix('x') {
                                Some(h) => u32::from_str_radix(h, 16),
                                None => n.parse(),
                            };
                            n.ok().and_then(char::from_u32).ok_or("bad reference")?
                        }
                    });
                }
                Some(c) if (*c as u32) < 32 && !"\t\r\n".contains(*c) => {
                    return Err("control".into())
                }
                Some(c) => {
                    t.push(*c);
                    self.p += 1;
                }
            }
        }
    }
    fn elem(&mut self) -> P<Elem> {
        self.take("<")?;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        loop {
            let sp = self.ws();
            if self.at("/>") {
                self.p += 2;
                return Ok(Elem {
                    name,
                    attrs,
                    text: String::new(),
                    kids: vec![],
                });
            }
            if self.at(">") {
                self.p += 1;
                break;
            }
            if !sp {
                return Err("no space before an attribute".into());
            }
            let n = self.name()?;
            self.take("=")?;
            let q = self.any()?;
            if q != '"' && q != '\'' {
                return Err("no quote".into());
            }
            let v = self.text(q)?;
            self.p += 1;
            if attrs.iter().any(|(k, _)| *k == n) {
                return Err("attribute twice".into());
            }
            attrs.push((n, v));
        }
        let (mut text, mut kids) = (String::new(), vec![]);
        loop {
            text.push_str(&self.text('<')?);
            if self.at("</") {
                self.p += 2;
                self.take(&name)?;
                self.ws();
                self.take(">")?;
                return Ok(Elem {
                    name,
                    attrs,
                    text,
                    kids,
                });
            }
            kids.push(self.elem()?);
        }
    }
}

fn graph(model: &Model, rec: &Value) -> Value {
    let mut out = json!({"op": "graph", "model": rec, "wellformed": false, "declared": false,
                         "nodes": [], "edges": [], "ids": []});
    let text = write_model_to_string(&mut GraphMLWriter::default(), model).unwrap_or_default();
    let root = match Xml::document(&text) {
        Ok(r) => r,
        Err(e) => {
            out["why"] = json!(e);
            return out;
        }
    };
    let graphs: Vec<&Elem> = root.named("graph").collect();
    if root.name != "graphml" || graphs.len() != 1 {
        return out;
    }
    let g = graphs[0];
    let (nodes, edges): (Vec<&Elem>, Vec<&Elem>) =
        (g.named("node").collect(), g.named("edge").collect());
    let declared = |e: &Elem, what: &str| {
        e.named("data").all(|d| {
            let k = d.attr("key");
            root.named("key")
                .filter(|x| x.attr("id") == k && [what, "all"].contains(&x.attr("for").as_str()))
                .count()
                == 1
        })
    };
    out["wellformed"] = json!(true);
    out["declared"] = json!(
        declared(g, "graph")
            && nodes.iter().all(|e| declared(e, "node"))
            && edges.iter().all(|e| declared(e, "edge"))
    );
    out["ids"] = nodes
        .iter()
        .chain(edges.iter())
        .map(|e| json!(e.attr("id")))
        .collect();
    out["nodes"] = nodes
        .iter()
        .map(|e| json!({"id": e.attr("id"), "type": e.data("type"), "version": e.data("version")}))
        .collect();
    out["edges"] = edges
        .iter()
        .map(|e| {
            let d: Vec<&Elem> = e.named("data").collect();
            let (k, v) = if d.len() == 1 {
                (d[0].attr("key"), d[0].text.clone())
            } else {
                ("".into(), "".into())
            };
            json!({"s": e.attr("source"), "t": e.attr("target"), "key": k, "val": v})
        })
        .collect();
    out
}

// ------------------------------------------------------------------------------------------------
// class diagrams
// ------------------------------------------------------------------------------------------------
pub fn unquote(s: &str) -> String {
    let s = match s.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
        Some(s) => s,
        None => return s.to_string(),
    };
    let (mut t, mut cs) = (String::new(), s.chars());
    while let Some(c) = cs.next() {
        if c != '\\' {
            t.push(c);
            continue;
        }
        match cs.next() {
            Some('n') => t.push('\n'),
            Some('t') => t.push('\t'),
            Some('r') => t.push('\r'),
            Some('0') => t.push('\0'),
            Some('u') => {
                let h: String = cs.by_ref().skip(1).take_while(|c| *c != '}').collect();
                t.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
            }
            Some(c) => t.push(c),
            None => t.push('\\'),
        }
    }
    t
}

fn classes(model: &Model, rec: &Value, expand: bool) -> Value {
    let text = write_model_to_string(&mut PlantUmlWriter::new(expand), model).unwrap_or_default();
    let mut lines = text
        .lines()
        .map(str::trim)
        .filter(|l| !l.is_empty())
        .peekable();
    let mut ok = lines.next() == Some("@startuml");
    let mut pkg: Option<String> = None;
    let (mut classes, mut relations, mut packages, mut primitives): (
        Vec<Value>,
        Vec<Value>,
        Vec<String>,
        Vec<String>,
    ) = Default::default();
    let mut notes: HashMap<String, String> = HashMap::new();
    let mut linked: Vec<(String, String)> = vec![];
    let mut ended = false;
    while let Some(l) = lines.next() {
        let w: Vec<&str> = l.split(' ').collect();
        ok &= !ended;
        match w[0] {
            "@enduml" => ended = true,
            "hide" => {}
            "package" => {
                ok &= pkg.is_none() && w.len() == 3 && w[2] == "{";
                pkg = Some(w.get(1).unwrap_or(&"").to_string());
                packages.push(pkg.clone().unwrap());
            }
            "}" => {
                ok &= pkg.is_some();
                pkg = None;
            }
            "class" | "annotation" if w.len() > 2 => {
                let stereo = w[2].strip_prefix("<<").and_then(|s| s.strip_suffix(">>"));
                let marker = if w[0] == "annotation" {
                    "annotation"
                } else {
                    stereo.unwrap_or("")
                };
                if l.ends_with("{ }") {
                    ok &= marker == "primitive" && pkg.as_deref() == Some("smithy.api");
                    primitives.push(w[1].to_string());
                    continue;
                }
                ok &= pkg.is_some() && l.ends_with(" {") && (w.len() == 3) != stereo.is_some();
                let (mut body, mut below) = (vec![], String::new());
                loop {
                    match lines.next() {
                        None => {
                            ok = false;
                            break;
                        }
                        Some("}") => break,
                        Some(s) if s.starts_with("..") && s.ends_with("..") => {
                            below = s.trim_matches('.').to_string()
                        }
                        Some(s) => body.push(json!([below, s])),
                    }
                }
                classes.push(json!({"id": w[1], "pkg": pkg.clone().unwrap_or_default(), "marker": marker, "lines": body}));
            }
            "note" if w.get(1) != Some(&"as") => {
                let (t, n) = l["note ".len()..].rsplit_once(" as ").unwrap_or(("", ""));
                ok &= t.starts_with('"') && notes.insert(n.to_string(), unquote(t)).is_none();
            }
            "note" => {
                let mut body: Vec<&str> = vec![];
                loop {
                    match lines.next() {
                        None => {
                            ok = false;
                            break;
                        }
                        Some("end note") => break,
                        Some(s) => body.push(s),
                    }
                }
                ok &= notes
                    .insert(w.last().unwrap().to_string(), unquote(&body.join("\n")))
                    .is_none();
            }
            _ if w.len() == 3 && w[1] == ".." => linked.push((w[0].to_string(), w[2].to_string())),
            _ if w.len() == 3 && ["*--", "<|--", "..>"].contains(&w[1]) => relations.push(json!(w)),
            _ => ok = false,
        }
    }
    for c in classes.iter_mut() {
        let id = c["id"].as_str().unwrap().to_string();
        c["notes"] = linked
            .iter()
            .filter(|(a, _)| *a == id)
            .map(|(_, n)| json!(notes.get(n)))
            .collect();
    }
    ok &= ended && pkg.is_none();
    ok &= linked.len() == notes.len();
    if expand && !primitives.is_empty() {
        if let Some(i) = packages.iter().position(|p| p == "smithy.api") {
            packages.remove(i);
        }
    }
    json!({"op": "classes", "model": rec, "expand": expand, "wellformed": ok, "classes": classes,
           "relations": relations, "packages": packages, "primitives": primitives})
}

// ------------------------------------------------------------------------------------------------
// documents
// ------------------------------------------------------------------------------------------------
fn inline(v: &Value) -> String {
    match v {
        Value::Array(xs) => xs.iter().map(inline).collect(),
        Value::Object(m) => {
            if let Some(t) = m.get("Text") {
                t.as_str().unwrap_or("").to_string()
            } else if let Some(s) = m.get("Span") {
                inline(&s["inner"])
            } else if let Some(h) = m.get("HyperLink") {
                let cap = h["caption"].as_str().unwrap_or("");
                match h["target"]["External"].as_str() {
                    Some(url) => format!("[{}]({})", cap, url),
                    None => cap.to_string(),
                }
            } else {
                m.get("inner").map(inline).unwrap_or_default()
            }
        }
        _ => String::new(),
    }
}

/// The labels that links within the document lead to.
fn links(v: &Value) -> Vec<String> {
    match v {
        Value::Array(xs) => xs.iter().flat_map(links).collect(),
        Value::Object(m) => {
            if let Some(h) = m.get("HyperLink") {
                h["target"]["Internal"]
                    .as_str()
                    .map(|l| vec![l.to_string()])
                    .unwrap_or_default()
            } else {
                m.values().flat_map(links).collect()
            }
        }
        _ => vec![],
    }
}

#[derive(Default)]
struct Doc {
    intro: String,
    mrows: Vec<Value>,
    nss: Vec<Value>,
    below: String,
    at: String,
    ok: bool,
}

impl Doc {
    fn section(&mut self) -> Option<&mut Value> {
        self.nss.last_mut()?["sections"].as_array_mut()?.last_mut()
    }
    fn text(&mut self, v: &Value) {
        let (t, to) = (inline(v), links(v));
        let below = self.below.clone();
        if self.at.is_empty() {
            self.intro.push_str(&t);
        } else if let Some(s) = self.section() {
            s["texts"]
                .as_array_mut()
                .unwrap()
                .push(json!({"text": t, "below": below, "links": to}));
        } else {
            self.ok = false;
        }
    }
    fn block(&mut self, b: &Value) {
        let (k, v) = match b.as_object().and_then(|m| m.iter().next()) {
            Some(kv) => kv,
            None => return,
        };
        match k.as_str() {
            "Heading" => {
                let t = inline(&v["inner"]);
                match v["level"].as_str().unwrap_or("") {
                    "Section" => {
                        self.at = t.clone();
                        self.below = String::new();
                        if let Some(ns) = t.strip_prefix("Namespace ") {
                            self.nss.push(json!({"ns": ns, "sections": []}));
                        } else {
                            self.ok &= t == "Metadata";
                        }
                    }
                    "SubSection" => {
                        self.below = String::new();
                        let (name, kind) = t.split_once(" (").unwrap_or((&t, ""));
                        let s = json!({"name": name, "kind": kind.trim_end_matches(')'), "label": v["label"].as_str().unwrap_or(""), "rows": [], "texts": []});
                        match self.nss.last_mut() {
                            Some(n) => n["sections"].as_array_mut().unwrap().push(s),
                            None => self.ok = false,
                        }
                    }
                    "SubSubSection" => self.below = t,
                    _ => self.ok = false,
                }
            }
            "Paragraph" => self.text(&v["inner"]),
            "Quote" => v["content"]
                .as_array()
                .unwrap()
                .iter()
                .for_each(|b| self.block(b)),
            "List" => v["inner"]
                .as_array()
                .unwrap()
                .iter()
                .for_each(|i| self.text(&i["Item"]["inner"])),
            "Table" => {
                for r in v["rows"].as_array().unwrap() {
                    let cells: Vec<String> = r["cells"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|c| inline(&c["inner"]))
                        .collect();
                    if self.at == "Metadata" {
                        self.mrows.push(json!(cells));
                    } else if let Some(s) = self.section() {
                        s["rows"].as_array_mut().unwrap().push(json!(cells));
                    } else {
                        self.ok = false;
                    }
                }
            }
            _ => self.ok = false,
        }
    }
}

fn sorted(s: &str) -> Vec<&str> {
    let mut v: Vec<&str> = s.lines().collect();
    v.sort_unstable();
    v
}

fn document(model: &Model, rec: &Value) -> Value {
    let doc = describe_model(model).unwrap();
    let text =
        write_document_to_string(&doc, OutputFormat::Markdown(MarkdownFlavor::CommonMark)).unwrap();
    let wrote = write_model_to_string(&mut DocumentationWriter::default(), model).unwrap();
    let form: Value =
        serde_json::from_str(&write_document_to_string(&doc, OutputFormat::Json).unwrap()).unwrap();
    let mut d = Doc {
        ok: true,
        ..Doc::default()
    };
    for b in form["content"].as_array().unwrap() {
        d.block(b);
    }
    json!({"op": "document", "model": rec, "wellformed": d.ok, "written": sorted(&text) == sorted(&wrote),
           "doc": {"intro": d.intro, "mrows": d.mrows, "nss": d.nss}})
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    if let Some(n) = case["many"].as_u64() {
        // one structure with that many members
        let mut shape = gen::blank("structure");
        for i in 0..n {
            shape["mem"][format!("m{}", i)] = json!({"t": "smithy.api#String", "traits": {}});
        }
        let model = build_model(&json!({"ver": "1.0", "meta": {}, "shapes": {"ns.x#Big": shape}}));
        let g = graph(&model, &json!({}));
        let ids: HashSet<&str> = g["ids"]
            .as_array()
            .unwrap()
            .iter()
            .filter_map(|i| i.as_str())
            .collect();
        out.push(
            json!({"op": "many", "expect": [1, n], "nodes": g["nodes"].as_array().unwrap().len(),
                        "edges": g["edges"].as_array().unwrap().len(), "unique": ids.len()}),
        );
        return;
    }
    let model = build_model(&case["model"]);
    let rec = snap_model(&model);
    out.push(graph(&model, &rec));
    out.push(classes(&model, &rec, false));
    out.push(classes(&model, &rec, true));
    let mut d = document(&model, &rec);
    d["strict"] = json!(case["strict"] == true);
    out.push(d);
    let all = |t: atelier_core::error::Result<String>| t.unwrap_or_default();
    let t = all(write_model_to_string(&mut GraphMLWriter::default(), &model));
    out.push(sinks_of(
        "graphml",
        &t,
        &mut GraphMLWriter::default(),
        &model,
    ));
    for e in [false, true] {
        let t = all(write_model_to_string(&mut PlantUmlWriter::new(e), &model));
        out.push(sinks_of(
            "plantuml",
            &t,
            &mut PlantUmlWriter::new(e),
            &model,
        ));
    }
    let t = all(write_model_to_string(
        &mut DocumentationWriter::default(),
        &model,
    ));
    out.push(sinks_of(
        "document",
        &t,
        &mut DocumentationWriter::default(),
        &model,
    ));
}

pub fn gen(r: &mut Rng) -> Value {
    let mut m = gen::model(
        r,
        &Cfg {
            max_shapes: 9,
            ..Cfg::default()
        },
    );
    let texts = [
        "It is.",
        "two\nlines",
        "a \"quoted\" <tag> & more",
        "with\ttab \\ back",
        "}",
        "end note",
        "..",
        "é ü 漢",
        "first\n\n  second.\n\n\n third",
        "* an item\n# 1\n> quoted",
        "A text of many words, which goes on and on, so that whatever is cut off after \
         some number of letters would be missed here, because it says one thing at the \
         start of it and another thing altogether at its very end, which is over here.",
    ];
    for (_, sh) in m["shapes"].as_object_mut().unwrap() {
        if sh["kind"] == "unresolved" && r.pct(50) {
            continue;
        }
        special(r, &mut sh["traits"], &texts);
        for (_, mem) in sh["mem"].as_object_mut().unwrap() {
            special(r, &mut mem["traits"], &texts);
        }
        if sh["kind"] == "service" && r.pct(20) {
            sh["ren"]["smithy.example#Alpha$a"] = json!("Renamed");
        }
        if sh["kind"] == "service" && r.pct(60) {
            sh["ver"] = json!(*r.pick(&["2020-06-21", "1 < 2 & \"3\"", "'1'", "]]>", "-- v --"]));
        }
    }
    if r.pct(60) {
        related(r, &mut m["shapes"]);
    }
    json!({"model": m})
}

/// Points operations at collections, services and resources at operations and resources.
fn related(r: &mut Rng, shapes: &mut Value) {
    let of = |kinds: &[&str]| -> Vec<String> {
        pairs(shapes)
            .filter(|(_, s)| kinds.contains(&s["kind"].as_str().unwrap()))
            .map(|(k, _)| k.clone())
            .collect()
    };
    let data = of(&["list", "set", "map", "string", "union", "structure"]);
    let (ops, ress) = (of(&["operation"]), of(&["resource"]));
    for (_, sh) in shapes.as_object_mut().unwrap() {
        for (role, ids) in sh["refs"].as_object_mut().unwrap() {
            let from = match role.as_str() {
                "input" | "output" | "errors" => &data,
                "resources" => &ress,
                _ => &ops,
            };
            for t in ids.as_array_mut().unwrap() {
                if !from.is_empty() && r.pct(60) {
                    *t = json!(r.pick(from));
                }
            }
        }
    }
}

fn special(r: &mut Rng, ts: &mut Value, texts: &[&str]) {
    if !ts.is_object() {
        *ts = json!({});
    }
    let c = Cfg::default();
    if r.pct(25) {
        ts["smithy.api#documentation"] = if r.pct(85) {
            gen::lit("str", r.pick(texts))
        } else {
            gen::value(r, &c, 1)
        };
    }
    if r.pct(12) {
        let mut kv = serde_json::Map::new();
        let most = r.pct(15);
        for k in ["Home", "API ref", "Source", "a", "B", "c d", "E-f"] {
            if r.pct(if most { 90 } else { 30 }) {
                kv.insert(
                    k.to_string(),
                    if r.pct(90) {
                        gen::lit("str", &format!("https://x.y/{}", r.below(9)))
                    } else {
                        gen::lit("int", "4")
                    },
                );
            }
        }
        ts["smithy.api#externalDocumentation"] = if r.pct(85) {
            gen::obj(kv)
        } else {
            gen::lit("str", "no link")
        };
    }
    if r.pct(8) {
        ts["smithy.api#error"] = gen::lit("str", "client");
    }
    if r.pct(8) {
        ts["smithy.api#trait"] = gen::obj(Default::default());
    }
    if r.pct(10) {
        let padded = *r.pick(&["padded ", " padded", " ", "", "tab\t", "\u{a0}x\u{2003}"]);
        ts["ns.t#note"] = gen::lit("str", if r.pct(30) { padded } else { r.pick(texts) });
    }
}
