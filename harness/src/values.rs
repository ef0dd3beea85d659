//! C23: node values: conversions, accessors, equality, display, and their builders.
use crate::gen::{self, Cfg, Rng};
use crate::wire::{build_node, items, snap_node};
use atelier_core::builder::{ArrayBuilder, ObjectBuilder, ValueBuilder};
use atelier_core::model::values::{Number, Value as Node, ValueMap};
use atelier_core::model::ShapeID;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn s<'a>(w: &'a Value, k: &str) -> &'a str {
    w[k].as_str().unwrap_or("")
}

fn from(t: &str, x: &str) -> Vec<Node> {
    macro_rules! number {
        ($t:ty) => {{
            let n: $t = x.parse().unwrap();
            vec![
                Node::from(n),
                Node::Number(Number::from(n)),
                Node::from(Number::from(n)),
            ]
        }};
    }
    match t {
        "i8" => number!(i8),
        "i16" => number!(i16),
        "i32" => number!(i32),
        "i64" => {
            let mut v = number!(i64);
            v.push(ValueBuilder::integer(x.parse().unwrap()).into());
            v.push(ValueBuilder::number(x.parse::<i64>().unwrap().into()).into());
            v
        }
        "f32" => number!(f32),
        "f64" => {
            let mut v = number!(f64);
            v.push(ValueBuilder::float(x.parse().unwrap()).into());
            v
        }
        "bool" => vec![
            Node::from(x == "true"),
            (&mut ValueBuilder::boolean(x == "true")).into(),
        ],
        "str" => vec![
            Node::from(x),
            ValueBuilder::string(x).into(),
            (&mut ValueBuilder::string(x)).into(),
        ],
        "string" => vec![Node::from(x.to_string())],
        "id" => vec![Node::from(ShapeID::from_str(x).unwrap())],
        _ => vec![Node::from(&ShapeID::from_str(x).unwrap())],
    }
}

fn value(case: &Value) -> Value {
    let v = build_node(&case["v"]);
    let is = json!({"arr": v.is_array(), "obj": v.is_object(), "num": v.is_number(),
                    "bool": v.is_boolean(), "str": v.is_string(), "null": v.is_none()});
    let got: Vec<Option<Node>> = vec![
        v.as_array().map(|x| Node::Array(x.clone())),
        v.as_object().map(|x| Node::Object(x.clone())),
        v.as_number().map(|x| Node::Number(x.clone())),
        v.as_boolean().map(|x| Node::Boolean(*x)),
        v.as_string().map(|x| Node::String(x.clone())),
    ];
    let mut copies = vec![v.clone()];
    if let Some(x) = v.as_array() {
        copies.push(x.clone().into());
        copies.push(x.as_slice().into());
    }
    if let Some(x) = v.as_object() {
        let m: ValueMap = x.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        copies.push(m.into());
    }
    if let Some(x) = v.as_number() {
        copies.push(ValueBuilder::number(x.clone()).into());
    }
    let others: Vec<Node> = items(&case["others"]).map(build_node).collect();
    json!({"op": "value", "v": case["v"], "is": is, "as": ["arr", "obj", "num", "bool", "str"],
           "has": got.iter().map(|g| g.is_some()).collect::<Vec<_>>(),
           "got": got.iter().map(|g| g.as_ref().map(snap_node).unwrap_or(json!(""))).collect::<Vec<_>>(),
           "others": items(&case["others"]).cloned().collect::<Vec<_>>(),
           "eq": others.iter().map(|o| &v == o).collect::<Vec<_>>(),
           "qe": others.iter().map(|o| !(o != &v)).collect::<Vec<_>>(),
           "copies": copies.iter().map(snap_node).collect::<Vec<_>>(), "shown": v.to_string()})
}

fn number(v: &Value) -> Number {
    match s(v, "k") {
        "int" => Number::Integer(s(v, "s").parse().unwrap()),
        _ => Number::Float(s(v, "s").parse().unwrap()),
    }
}

fn build(case: &Value) -> Value {
    let mut then = vec![];
    let last: Node;
    if case["kind"] == "arr" {
        let mut b: ArrayBuilder = ValueBuilder::array();
        then.push(Node::from(&mut b));
        for c in items(&case["calls"]) {
            let (v, t) = (&c["v"], s(&c["v"], "s"));
            let _ = match s(c, "c") {
                "string" => b.string(t),
                "boolean" => b.boolean(t == "true"),
                "integer" => b.integer(t.parse().unwrap()),
                "float" => b.float(t.parse().unwrap()),
                "number" => b.number(number(v)),
                _ => b.push(build_node(v)),
            };
            then.push(Node::from(&mut b));
        }
        last = b.into();
    } else {
        let mut b: ObjectBuilder = ValueBuilder::object();
        then.push(Node::from(&mut b));
        for c in items(&case["calls"]) {
            let (k, v, t) = (s(c, "k"), &c["v"], s(&c["v"], "s"));
            let _ = match s(c, "c") {
                "string" => b.string(k, t),
                "reference" => b.reference(k, t),
                "boolean" => b.boolean(k, t == "true"),
                "integer" => b.integer(k, t.parse().unwrap()),
                "float" => b.float(k, t.parse().unwrap()),
                "number" => b.number(k, number(v)),
                _ => b.insert(k, build_node(v)),
            };
            then.push(Node::from(&mut b));
        }
        last = b.into();
    }
    json!({"op": "build", "kind": case["kind"], "calls": items(&case["calls"]).cloned().collect::<Vec<_>>(),
           "then": then.iter().map(snap_node).collect::<Vec<_>>(), "last": snap_node(&last)})
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        if !case["type"].is_null() {
            let (t, x) = (s(case, "type"), s(case, "text"));
            let made: Vec<Value> = from(t, x).iter().map(snap_node).collect();
            json!({"op": "from", "type": t, "text": x, "made": made})
        } else if !case["v"].is_null() {
            value(case)
        } else {
            build(case)
        }
    }));
    out.push(r.unwrap_or(json!({"op": "value", "panic": true})));
}

fn number_text(r: &mut Rng, t: &str) -> String {
    match t {
        "i8" => (r.next() as i8).to_string(),
        "i16" => (r.next() as i16).to_string(),
        "i32" => (r.next() as i32).to_string(),
        "i64" => (r.next() as i64).to_string(),
        // what both kinds of float hold exactly
        "f32" => format!("{:?}", (r.next() as i16) as f64 / 64.0),
        _ => format!("{:?}", (r.next() as i32) as f64 / 1000.0),
    }
}

pub fn gen(r: &mut Rng) -> Value {
    let mut c = Cfg::default();
    if r.pct(30) {
        c = gen::wild(r, &c);
        c.fan = 3;
    }
    match r.below(6) {
        0 => {
            let t = *r.pick(&["i8", "i16", "i32", "i64", "f32", "f64"]);
            json!({"type": t, "text": number_text(r, t)})
        }
        1 => {
            let t = *r.pick(&["str", "string", "id", "idref"]);
            let x = if t.starts_with("id") {
                gen::shape_id(r, &c)
            } else {
                r.pick(&c.strs).to_string()
            };
            json!({"type": t, "text": x})
        }
        2 | 3 => {
            let v = gen::value(r, &c, 3);
            let mut others: Vec<Value> = (0..3).map(|_| gen::value(r, &c, 2)).collect();
            others.push(v.clone());
            let mut near = v.clone();
            near["s"] = json!(format!("{}0", s(&v, "s")));
            if v["k"] == "int" {
                let n: i64 = s(&v, "s").parse().unwrap();
                others.push(gen::lit("int", &n.wrapping_add(1).to_string()));
                others.push(gen::lit("int", &n.wrapping_sub(1).to_string()));
                others.push(gen::lit("float", &format!("{:?}", n as f64)));
                others.push(gen::lit("str", &n.to_string()));
            } else if v["k"] == "str" {
                others.push(gen::lit("str", &s(&v, "s").to_uppercase()));
                others.push(gen::lit("str", s(&v, "s").trim()));
                others.push(near);
            } else if v["k"] == "arr" {
                near["s"] = json!("");
                near["xs"].as_array_mut().unwrap().reverse();
                others.push(near.clone());
                near["xs"].as_array_mut().unwrap().pop();
                others.push(near);
            } else if v["k"] == "obj" {
                near["s"] = json!("");
                near["kv"]["extra"] = gen::lit("null", "");
                others.push(near);
            }
            json!({"v": v, "others": others})
        }
        _ => {
            let kind = *r.pick(&["arr", "obj"]);
            let calls: Vec<Value> = (0..r.below(7))
                .map(|_| {
                    let w = *r.pick(&["push", "string", "boolean", "integer", "float", "number"]);
                    let v = match w {
                        "string" if r.pct(30) => gen::lit(
                            "str",
                            r.pick(&[
                                "#a",
                                " x ",
                                "smithy.api#String",
                                "\"q\"",
                                "$m",
                                "a.b#C$d",
                                "null",
                                "\\",
                                "#",
                            ]),
                        ),
                        "string" => gen::lit("str", r.pick(&c.strs)),
                        "boolean" => gen::lit("bool", *r.pick(&["true", "false"])),
                        "integer" => gen::lit("int", &number_text(r, "i64")),
                        "float" => gen::lit("float", &number_text(r, "f64")),
                        "number" if r.pct(50) => gen::lit("float", &number_text(r, "f32")),
                        "number" => gen::lit("int", &number_text(r, "i16")),
                        _ => gen::value(r, &c, 2),
                    };
                    let w = match w {
                        "push" if kind == "obj" => "insert",
                        "string" if kind == "obj" && r.pct(50) => "reference",
                        w => w,
                    };
                    let k = if kind == "arr" {
                        ""
                    } else {
                        *r.pick(&["k", "l", "K", "", "a b"])
                    };
                    json!({"c": w, "k": k, "v": v})
                })
                .collect();
            json!({"kind": kind, "calls": calls})
        }
    }
}
