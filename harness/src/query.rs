//! C20: evaluating selectors made of shape types.
use crate::gen::{self, Cfg, Rng};
use crate::wire::{build_model, items};
use atelier_core::model::selector::{Selector, SelectorExpression, ShapeType};
use atelier_core::model::Model;
use atelier_query::Projection;
use atelier_smithy::parser::parse_selector;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn observed(p: &Projection) -> Value {
    let mut ids: Vec<String> = p
        .as_shapes()
        .map(|s| s.map(|i| i.to_string()).collect())
        .unwrap_or_default();
    ids.sort();
    let kind = match p {
        Projection::Empty => "empty",
        Projection::Shapes(_) => "shapes",
        Projection::Members(_) => "members",
        Projection::Values(_) => "values",
    };
    json!({"kind": kind, "ids": ids})
}

fn ask(model: &Model, q: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let types: Vec<SelectorExpression> = items(q)
            .map(|t| ShapeType::from_str(t.as_str().unwrap()).unwrap().into())
            .collect();
        let text = items(q)
            .map(|t| t.as_str().unwrap())
            .collect::<Vec<_>>()
            .join(" ");
        let made = atelier_query::evaluate::query(&Selector::from(types), model);
        let read = if text.is_empty() {
            observed(&made)
        } else {
            observed(&atelier_query::evaluate::query(
                &parse_selector(&text).unwrap(),
                model,
            ))
        };
        json!({"q": q, "made": observed(&made), "read": read})
    }));
    r.unwrap_or(json!({"panic": true}))
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let model = build_model(&case["model"]);
    let kinds: serde_json::Map<String, Value> = case["model"]["shapes"]
        .as_object()
        .map(|m| {
            m.iter()
                .map(|(k, s)| (k.clone(), s["kind"].clone()))
                .collect()
        })
        .unwrap_or_default();
    let rs: Vec<Value> = items(&case["queries"]).map(|q| ask(&model, q)).collect();
    out.push(json!({"op": "query", "shapes": kinds, "rs": rs}));
}

const TYPES: [&str; 26] = [
    "*",
    "number",
    "simpleType",
    "collection",
    "blob",
    "boolean",
    "document",
    "string",
    "integer",
    "byte",
    "short",
    "long",
    "float",
    "double",
    "bigDecimal",
    "bigInteger",
    "timestamp",
    "list",
    "set",
    "map",
    "structure",
    "union",
    "service",
    "operation",
    "resource",
    "member",
];

pub fn gen(r: &mut Rng) -> Value {
    let nss = if r.pct(30) {
        vec!["smithy.example", "smithy.api"]
    } else {
        Cfg::default().nss
    };
    let model = gen::model(
        r,
        &Cfg {
            trait_pct: 20,
            max_shapes: 12,
            depth: 1,
            member_ids: true,
            nss,
            ..Cfg::default()
        },
    );
    let mut qs: Vec<Value> = TYPES.iter().map(|t| json!([t])).collect();
    for k in 0..12 {
        let n = if k < 10 { r.below(4) } else { 4 + r.below(4) };
        let q: Vec<&str> = (0..n)
            .map(|_| {
                let top = if r.pct(if n > 3 { 80 } else { 50 }) {
                    4
                } else {
                    26
                };
                TYPES[r.below(top)]
            })
            .collect();
        qs.push(json!(q));
    }
    json!({"model": model, "queries": qs})
}
