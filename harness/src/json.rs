//! C09, C10: the JSON abstract syntax.
use crate::gen::{self, arr, lit, obj, Cfg, Rng};
use crate::wire::{build_model, f64_str, items, pairs, sinks_of, snap_model, sources};
use crate::wire::{read_model_from_string, write_model_to_string};
use atelier_core::io::{read_model_from_file, write_model_to_file};
use atelier_core::model::Model;
use atelier_json::{model_to_json, JsonReader, JsonWriter};
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A JSON document as a value of the specification.
pub fn to_wire(v: &Value) -> Value {
    match v {
        Value::Null => lit("null", ""),
        Value::Bool(b) => lit("bool", if *b { "true" } else { "false" }),
        Value::Number(n) => {
            if n.is_f64() {
                lit("float", &f64_str(n.as_f64().unwrap()))
            } else if n.is_i64() {
                lit("int", &n.to_string())
            } else {
                lit("big", &n.to_string())
            }
        }
        Value::String(s) => lit("str", s),
        Value::Array(xs) => arr(xs.iter().map(to_wire).collect()),
        Value::Object(kv) => obj(kv.iter().map(|(k, v)| (k.clone(), to_wire(v))).collect()),
    }
}

/// A value of the specification as a JSON document.
pub fn from_wire(w: &Value) -> Value {
    let s = w["s"].as_str().unwrap();
    match w["k"].as_str().unwrap() {
        "str" => json!(s),
        "arr" => Value::Array(items(&w["xs"]).map(from_wire).collect()),
        "obj" => Value::Object(
            pairs(&w["kv"])
                .map(|(k, v)| (k.clone(), from_wire(v)))
                .collect(),
        ),
        _ => serde_json::from_str(s).unwrap_or(Value::Null),
    }
}

/// The text of a document; layout, key order and escapes vary with the generator.
fn render(w: &Value, r: &mut Rng, out: &mut String) {
    space(r, out);
    match w["k"].as_str().unwrap() {
        "null" => out.push_str("null"),
        "bool" | "int" | "big" | "float" => out.push_str(w["s"].as_str().unwrap()),
        "str" => string(w["s"].as_str().unwrap(), r, out),
        "arr" => {
            out.push('[');
            for (i, x) in items(&w["xs"]).enumerate() {
                if i > 0 {
                    out.push(',');
                }
                render(x, r, out);
            }
            space(r, out);
            out.push(']');
        }
        "obj" => {
            let mut kv: Vec<(&String, &Value)> = pairs(&w["kv"]).collect();
            r.shuffle(&mut kv);
            out.push('{');
            for (i, (k, x)) in kv.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                space(r, out);
                string(k, r, out);
                space(r, out);
                out.push(':');
                render(x, r, out);
            }
            space(r, out);
            out.push('}');
        }
        k => panic!("wire value kind {}", k),
    }
    space(r, out);
}

fn space(r: &mut Rng, out: &mut String) {
    if r.pct(20) {
        out.push_str(*r.pick(&[" ", "\n", "\t", "\r\n  "]));
    }
}

fn string(s: &str, r: &mut Rng, out: &mut String) {
    if r.pct(85) {
        out.push_str(&serde_json::to_string(s).unwrap());
        return;
    }
    out.push('"');
    for c in s.chars() {
        if r.pct(50) {
            let mut b = [0; 2];
            for u in c.encode_utf16(&mut b) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        } else {
            let q = serde_json::to_string(&c.to_string()).unwrap();
            out.push_str(&q[1..q.len() - 1]);
        }
    }
    out.push('"');
}

fn outcome(r: std::thread::Result<Result<Model, String>>) -> (Value, Value) {
    match r {
        Ok(Ok(m)) => (json!("ok"), snap_model(&m)),
        Ok(Err(_)) => (json!("err"), snap_model(&Model::default())),
        Err(_) => (json!({"panic": true}), Value::Null),
    }
}

fn read(text: &[u8]) -> (Value, Value) {
    outcome(catch_unwind(AssertUnwindSafe(|| {
        read_model_from_string(&mut JsonReader::default(), text).map_err(|e| e.to_string())
    })))
}

fn nonfinite(w: &Value) -> bool {
    let s = w["s"].as_str();
    (w["k"] == "float" && ["NaN", "inf", "-inf"].contains(&s.unwrap_or("")))
        || match w {
            Value::Object(m) => m.values().any(nonfinite),
            Value::Array(xs) => xs.iter().any(nonfinite),
            _ => false,
        }
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let lay = case["lay"].as_u64().unwrap_or(1);
    if let Some(raw) = case["raw"].as_str() {
        let (r, _) = read(raw.as_bytes());
        out.push(json!({"op": "raw", "r": r}));
        return;
    }
    if !case["doc"].is_null() {
        let mut r = Rng::new(lay);
        let mut text = String::new();
        render(&case["doc"], &mut r, &mut text);
        let (res, model) = read(text.as_bytes());
        out.push(sources("json", &text, JsonReader::default()));
        out.push(json!({"op": "read", "doc": case["doc"], "r": res, "model": model}));
        return;
    }
    let model = build_model(&case["model"]);
    if nonfinite(&case["model"]) {
        let ok = write_model_to_string(&mut JsonWriter::default(), &model).is_ok();
        out.push(json!({"op": "nonfinite", "r": if ok { "ok" } else { "err" }}));
        return;
    }
    let mut docs = vec![to_wire(&model_to_json(&model))];
    let mut back = vec![];
    for w in [
        JsonWriter::default(),
        JsonWriter::new(false),
        JsonWriter::new(true),
    ]
    .iter_mut()
    {
        let text = write_model_to_string(w, &model).unwrap();
        out.push(sinks_of("json", &text, w, &model));
        docs.push(to_wire(&serde_json::from_str(&text).unwrap()));
        back.push(snap_model(
            &read_model_from_string(&mut JsonReader::default(), &text).unwrap(),
        ));
    }
    if case["file"] == json!(true) {
        let path = std::env::temp_dir().join(format!("vh-json-{}.json", std::process::id()));
        // over a longer file, so that what was there must go
        std::fs::write(&path, " ".repeat(100_000)).unwrap();
        write_model_to_file(&mut JsonWriter::default(), &model, path.clone()).unwrap();
        let text = std::fs::read_to_string(&path).unwrap();
        docs.push(to_wire(&serde_json::from_str(text.trim_end()).unwrap()));
        back.push(snap_model(
            &read_model_from_file(&mut JsonReader::default(), path.clone()).unwrap(),
        ));
        std::fs::remove_file(&path).unwrap();
    }
    out.push(json!({"op": "write", "r": "ok", "model": case["model"], "docs": docs, "back": back}));
}

fn put(m: &mut Map<String, Value>, k: &str, v: Value) {
    m.insert(k.to_string(), v);
}

fn target(t: &Value) -> Value {
    let mut m = Map::new();
    put(&mut m, "target", lit("str", t.as_str().unwrap()));
    obj(m)
}

fn doc_traits(ts: &Value) -> Value {
    obj(pairs(ts)
        .map(|(k, v)| {
            (
                k.clone(),
                if v["k"] == "absent" {
                    obj(Map::new())
                } else {
                    v.clone()
                },
            )
        })
        .collect())
}

fn doc_member(m: &Value, r: &mut Rng) -> Value {
    let mut d = Map::new();
    put(&mut d, "target", lit("str", m["t"].as_str().unwrap()));
    if pairs(&m["traits"]).count() > 0 || r.pct(10) {
        put(&mut d, "traits", doc_traits(&m["traits"]));
    }
    obj(d)
}

fn doc_shape(s: &Value, r: &mut Rng) -> Value {
    let kind = s["kind"].as_str().unwrap();
    let mut d = Map::new();
    put(
        &mut d,
        "type",
        lit("str", if kind == "unresolved" { "apply" } else { kind }),
    );
    if pairs(&s["traits"]).count() > 0 || r.pct(10) {
        put(&mut d, "traits", doc_traits(&s["traits"]));
    }
    if kind == "service" {
        put(&mut d, "version", lit("str", s["ver"].as_str().unwrap()));
    }
    let members: Map<String, Value> = pairs(&s["mem"])
        .map(|(n, m)| (n.clone(), doc_member(m, r)))
        .collect();
    if kind == "structure" || kind == "union" {
        if !members.is_empty() || r.pct(30) {
            put(&mut d, "members", obj(members));
        }
    } else {
        d.extend(members);
    }
    let lists: &[&str] = match kind {
        "service" => &["operations", "resources"],
        "operation" => &["errors"],
        "resource" => &["operations", "collectionOperations", "resources"],
        _ => &[],
    };
    for (role, ids) in pairs(&s["refs"]) {
        let ids: Vec<Value> = items(ids).map(target).collect();
        if lists.contains(&role.as_str()) {
            if !ids.is_empty() || r.pct(20) {
                put(&mut d, role, arr(ids));
            }
        } else if !ids.is_empty() {
            put(&mut d, role, ids[0].clone());
        }
    }
    if pairs(&s["idents"]).count() > 0 {
        put(
            &mut d,
            "identifiers",
            obj(pairs(&s["idents"])
                .map(|(k, t)| (k.clone(), target(t)))
                .collect()),
        );
    }
    if pairs(&s["ren"]).count() > 0 {
        let m = pairs(&s["ren"]).map(|(k, t)| (k.clone(), lit("str", t.as_str().unwrap())));
        put(&mut d, "rename", obj(m.collect()));
    }
    obj(d)
}

pub fn doc_of(m: &Value, r: &mut Rng) -> Value {
    let mut d = Map::new();
    put(&mut d, "smithy", lit("str", *r.pick(&["1.0", "1.0", "1"])));
    if pairs(&m["meta"]).count() > 0 || r.pct(10) {
        put(
            &mut d,
            "metadata",
            obj(pairs(&m["meta"])
                .map(|(k, v)| (k.clone(), v.clone()))
                .collect()),
        );
    }
    let shapes: Map<String, Value> = pairs(&m["shapes"])
        .map(|(k, s)| (k.clone(), doc_shape(s, r)))
        .collect();
    if !shapes.is_empty() || r.pct(70) {
        put(&mut d, "shapes", obj(shapes));
    }
    obj(d)
}

/// Almost the same text.
fn near(r: &mut Rng, t: &str) -> String {
    let cs: Vec<char> = t.chars().collect();
    let k = r.below(cs.len() + 1);
    match r.below(9) {
        0 => format!("{} ", t),
        1 => format!(" {}", t),
        2 => t.to_uppercase(),
        3 => {
            let mut c = t.chars();
            match c.next() {
                Some(x) => x.to_uppercase().collect::<String>() + c.as_str(),
                None => " ".to_string(),
            }
        }
        4 => cs[..k].iter().collect(),
        5 => cs[k..].iter().collect(),
        6 => format!("{}$a", t),
        7 => format!("{}s", t),
        _ => {
            let mut cs = cs;
            cs.insert(k, *r.pick(&['.', '#', '$', '-', '_', '9', ' ', '\t']));
            cs.into_iter().collect()
        }
    }
}

/// Replaces, removes, renames or adds one node somewhere in the document.
fn damage(d: &mut Value, r: &mut Rng) {
    let keys: Vec<String> = pairs(&d["kv"]).map(|(k, _)| k.clone()).collect();
    let n = items(&d["xs"]).count();
    if !keys.is_empty() && r.pct(75) {
        let k = r.pick(&keys).clone();
        return damage(&mut d["kv"][&k], r);
    }
    if n > 0 && r.pct(75) {
        let i = r.below(n);
        return damage(&mut d["xs"][i], r);
    }
    match r.below(6) {
        0 if !keys.is_empty() => {
            let k = r.pick(&keys).clone();
            d["kv"].as_object_mut().unwrap().remove(&k);
        }
        1 if !keys.is_empty() => {
            let k = r.pick(&keys).clone();
            let v = d["kv"].as_object_mut().unwrap().remove(&k).unwrap();
            let b = *r.pick(&[
                "not an id",
                "",
                "9x",
                "a#",
                "#b",
                "a#b#c",
                "a..b#C",
                "Ok1",
                "zz.y#Ok",
                "a#b$",
            ]);
            let b = if r.pct(50) {
                near(r, &k)
            } else {
                b.to_string()
            };
            put(d["kv"].as_object_mut().unwrap(), &b, v);
        }
        2 if d["k"] == "obj" => {
            let k = *r.pick(&[
                "members", "member", "key", "value", "target", "traits", "version", "type",
                "errors", "input",
            ]);
            let v = gen::value(r, &Cfg::default(), 1);
            put(d["kv"].as_object_mut().unwrap(), k, v);
        }
        3 if d["k"] == "str" && r.pct(50) => {
            let t = d["s"].as_str().unwrap().to_string();
            *d = lit("str", &near(r, &t));
        }
        3 => {
            *d = lit(
                "str",
                *r.pick(&[
                    "structure",
                    "apply",
                    "Structure",
                    "union ",
                    "service",
                    "1.1",
                    "a#b",
                    "#",
                    "member",
                    "x y",
                ]),
            )
        }
        4 => {
            *d = lit(
                "big",
                *r.pick(&["9223372036854775808", "18446744073709551615"]),
            )
        }
        _ => *d = gen::value(r, &Cfg::default(), 1),
    }
}

/// Changes the type of a shape, or what it has for one of the keys shapes have.
fn misuse(d: &mut Value, r: &mut Rng) {
    let keys: Vec<String> = pairs(&d["kv"]["shapes"]["kv"])
        .map(|(k, _)| k.clone())
        .collect();
    if keys.is_empty() {
        return damage(d, r);
    }
    let sh = &mut d["kv"]["shapes"]["kv"][r.pick(&keys)];
    let ty = sh["kv"]["type"]["s"].as_str().unwrap_or("").to_string();
    if sh["k"] != "obj" {
        return;
    }
    if r.pct(40) {
        let other = r
            .pick(&[
                "list",
                "set",
                "map",
                "structure",
                "union",
                "service",
                "operation",
                "resource",
                "apply",
                "string",
                "bigInteger",
                "byte",
                "member",
                "unresolved",
                "simple",
                "enum",
                "",
            ])
            .to_string();
        sh["kv"]["type"] = lit(
            "str",
            &match r.below(4) {
                0 => other,
                1 => near(r, &other),
                _ => near(r, &ty),
            },
        );
        return;
    }
    let own: &[&str] = match ty.as_str() {
        "list" | "set" => &["member"],
        "map" => &["key", "value"],
        "structure" | "union" => &["members"],
        "service" => &["version", "operations", "resources", "rename"],
        "operation" => &["input", "output", "errors"],
        "resource" => &[
            "identifiers",
            "create",
            "put",
            "read",
            "update",
            "delete",
            "list",
            "operations",
            "collectionOperations",
            "resources",
        ],
        _ => &["traits"],
    };
    let all = ["traits", "type", "members", "member", "target", "resources"];
    let from = if r.pct(85) { own } else { &all };
    let k = *r.pick(from);
    let good = |r: &mut Rng| {
        let t = *r.pick(&["a.b#C", "zz.y#Ok", "smithy.api#String", "a#b$c"]);
        obj(std::iter::once(("target".to_string(), lit("str", t))).collect())
    };
    let v = match r.below(9) {
        0 => lit("null", ""),
        1 => arr(vec![]),
        2 => obj(Map::new()),
        3 => lit("str", "a.b#C"),
        4 => lit("bool", "false"),
        5 => good(r),
        6 => {
            let t = good(r);
            arr(vec![t])
        }
        7 => {
            let t = good(r);
            let b = r
                .pick(&[lit("null", ""), lit("int", "0"), lit("str", "a#b")])
                .clone();
            arr(if r.pct(50) { vec![t, b] } else { vec![b, t] })
        }
        _ => {
            let t = good(r);
            obj(std::iter::once((r.pick(&["a", "target", "9", "a#b"]).to_string(), t)).collect())
        }
    };
    put(sh["kv"].as_object_mut().unwrap(), k, v);
}

/// Puts something next to it in the place of one text or key of the document.
const OWN_KEYS: [&str; 20] = [
    "smithy",
    "metadata",
    "type",
    "version",
    "target",
    "member",
    "key",
    "value",
    "input",
    "output",
    "errors",
    "operations",
    "resources",
    "create",
    "put",
    "read",
    "update",
    "delete",
    "list",
    "collectionOperations",
];

fn nudge(d: &mut Value, r: &mut Rng) {
    fn places(d: &Value, at: &str, out: &mut Vec<(String, Option<String>)>) {
        if d["k"] == "str" {
            out.push((at.to_string(), None));
        }
        for (k, v) in pairs(&d["kv"]) {
            out.push((at.to_string(), Some(k.clone())));
            let k = k.replace('~', "~0").replace('/', "~1");
            places(v, &format!("{}/kv/{}", at, k), out);
        }
        for (i, v) in items(&d["xs"]).enumerate() {
            places(v, &format!("{}/xs/{}", at, i), out);
        }
    }
    let mut all = vec![];
    places(d, "", &mut all);
    if all.is_empty() {
        return;
    }
    // each position of the grammar as likely as any other, however rare
    let sort = |(at, key): &(String, Option<String>)| -> String {
        let end = key.iter().map(|k| k.to_string());
        let steps = at.split('/').map(|k| k.to_string()).chain(end);
        let own = [
            "kv",
            "xs",
            "shapes",
            "members",
            "traits",
            "rename",
            "identifiers",
        ];
        steps
            .map(|k| {
                let fixed = own.contains(&k.as_str()) || OWN_KEYS.contains(&k.as_str());
                format!("/{}", if fixed { k.as_str() } else { "*" })
            })
            .collect()
    };
    let mut sorts: Vec<String> = all.iter().map(sort).collect();
    sorts.sort();
    sorts.dedup();
    let which = r.pick(&sorts).clone();
    all.retain(|p| sort(p) == which);
    let (at, key) = r.pick(&all).clone();
    let here = d.pointer_mut(&at).unwrap();
    match key {
        None => {
            let t = here["s"].as_str().unwrap().to_string();
            *here = lit("str", &near(r, &t));
        }
        Some(k) => {
            let kv = here["kv"].as_object_mut().unwrap();
            let v = kv.remove(&k).unwrap();
            put(kv, &near(r, &k), v);
        }
    }
}

fn cfg() -> Cfg {
    Cfg {
        max_shapes: 5,
        member_ids: true,
        ..Cfg::default()
    }
}

pub fn gen_write(r: &mut Rng) -> Value {
    let mut m = gen::model(r, &cfg());
    if r.pct(2) {
        m["meta"]["x"] = lit("float", *r.pick(&["NaN", "inf", "-inf"]));
    }
    json!({"model": m, "file": r.pct(10)})
}

pub fn gen_read(r: &mut Rng) -> Value {
    let m = gen::model(r, &cfg());
    let mut d = doc_of(&m, r);
    let lay = r.next() >> 12;
    if r.pct(8) {
        // not JSON at all
        let mut text = String::new();
        render(&d, &mut Rng::new(lay), &mut text);
        let t = text.trim();
        let raw = match r.below(5) {
            0 => {
                let cut = (0..t.len())
                    .filter(|i| t.is_char_boundary(*i))
                    .collect::<Vec<_>>();
                t[..*r.pick(&cut)].to_string()
            }
            1 => format!("{} x", t),
            2 => format!("{}{}", t, t),
            3 => t.replacen(':', "=", 1),
            _ => format!("{},", t),
        };
        return json!({"raw": raw});
    }
    let n = *r.pick(&[0, 0, 1, 1, 1, 2]);
    for _ in 0..n {
        if r.pct(30) {
            nudge(&mut d, r);
        } else if r.pct(40) {
            misuse(&mut d, r);
        } else {
            damage(&mut d, r);
        }
    }
    json!({"doc": d, "lay": lay})
}
