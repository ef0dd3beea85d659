//! The model builder: calls described by the specification are made on a real builder.
use crate::fold::{self, Parts};
use crate::gen::{self, Cfg, Rng};
use crate::wire::{build_node, items, pairs, snap_err, snap_model};
use atelier_core::builder::id::ShapeName;
use atelier_core::builder::traits::{self, ErrorSource};
use atelier_core::builder::{
    ArrayBuilder, ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, ObjectBuilder,
    OperationBuilder, ReferenceBuilder, ResourceBuilder, ServiceBuilder, ShapeTraits,
    SimpleShapeBuilder, StructureBuilder, TraitBuilder, ValueBuilder,
};
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::{Number, Value as Node};
use atelier_core::model::{Model, ShapeID};
use atelier_core::Version;
use serde_json::{json, Map, Value};
use std::convert::TryFrom;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn s<'a>(w: &'a Value, k: &str) -> &'a str {
    w[k].as_str().unwrap_or("")
}

/// A value made with the value builders (how decides which of their ways).
fn node(w: &Value, how: u64) -> Node {
    let t = s(w, "s");
    match s(w, "k") {
        "arr" if how & 1 == 1 => {
            let mut b: ArrayBuilder = if how & 2 == 2 {
                ValueBuilder::array()
            } else {
                Default::default()
            };
            for x in items(&w["xs"]) {
                match s(x, "k") {
                    "str" => b.string(s(x, "s")),
                    "int" if how & 4 == 4 => b.number(Number::Integer(s(x, "s").parse().unwrap())),
                    "int" => b.integer(s(x, "s").parse().unwrap()),
                    "float" => b.float(s(x, "s").parse().unwrap()),
                    "bool" => b.boolean(s(x, "s") == "true"),
                    _ => b.push(node(x, how)),
                };
            }
            if how & 4 == 4 {
                b.into()
            } else {
                (&mut b).into()
            }
        }
        "obj" if how & 1 == 1 => {
            let mut b: ObjectBuilder = if how & 2 == 2 {
                ValueBuilder::object()
            } else {
                Default::default()
            };
            for (k, x) in pairs(&w["kv"]) {
                match s(x, "k") {
                    "str" if how & 4 == 4 && !s(x, "s").contains('#') => b.string(k, s(x, "s")),
                    "str" if how & 4 == 4 => b.reference(k, s(x, "s")),
                    "str" => b.string(k, s(x, "s")),
                    "int" if how & 4 == 4 => {
                        b.number(k, Number::Integer(s(x, "s").parse().unwrap()))
                    }
                    "int" => b.integer(k, s(x, "s").parse().unwrap()),
                    "float" => b.float(k, s(x, "s").parse().unwrap()),
                    "bool" => b.boolean(k, s(x, "s") == "true"),
                    _ => b.insert(k, node(x, how)),
                };
            }
            if how & 4 == 4 {
                b.into()
            } else {
                (&mut b).into()
            }
        }
        "str" if how & 2 == 2 => ValueBuilder::string(t).into(),
        "int" if how & 2 == 2 => ValueBuilder::integer(t.parse().unwrap()).into(),
        "float" if how & 2 == 2 => ValueBuilder::float(t.parse().unwrap()).into(),
        "bool" if how & 2 == 2 => ValueBuilder::boolean(t == "true").into(),
        _ => build_node(w),
    }
}

fn a_trait(t: &Value, how: u64) -> TraitBuilder {
    let f = s(t, "f");
    let a: Vec<&str> = items(&t["a"]).map(|x| x.as_str().unwrap()).collect();
    let o = |i: usize| if a[i] == "-" { None } else { Some(a[i]) };
    let n = |i: usize| {
        if a[i] == "-" {
            None
        } else {
            Some(a[i].parse().unwrap())
        }
    };
    match f {
        "" => {
            let (id, v) = (s(t, "n"), &t["v"]);
            let mut b = TraitBuilder::new(id);
            match s(v, "k") {
                "absent" => b,
                "obj"
                    if v["kv"].as_object().map(|m| m.is_empty()).unwrap_or(true)
                        && how & 1 == 0 =>
                {
                    TraitBuilder::annotation(id)
                }
                k if how & 2 == 2 => {
                    let x = s(v, "s");
                    match (k, node(v, how)) {
                        ("str", _) if x.contains('#') && ShapeID::from_str(x).is_ok() => {
                            b.reference(ShapeID::from_str(x).unwrap())
                        }
                        ("str", _) => b.string(x),
                        ("int", _) if how & 1 == 1 => b.number(Number::Integer(x.parse().unwrap())),
                        ("int", _) => b.integer(x.parse().unwrap()),
                        ("float", _) => b.float(x.parse().unwrap()),
                        ("bool", _) => b.boolean(x == "true"),
                        (_, Node::Array(xs)) => b.array(xs),
                        (_, Node::Object(kv)) => b.object(kv),
                        (_, x) => b.value(x),
                    };
                    b
                }
                _ => TraitBuilder::with_value(id, node(v, how)),
            }
        }
        "boxed" => traits::boxed(),
        "idempotent" => traits::idempotent(),
        "no_replace" => traits::no_replace(),
        "private" => traits::private(),
        "readonly" => traits::readonly(),
        "required" => traits::required(),
        "requires_length" => traits::requires_length(),
        "sensitive" => traits::sensitive(),
        "streaming" => traits::streaming(),
        "unique_items" => traits::unique_items(),
        "a_trait" => traits::a_trait(),
        "unstable" => traits::unstable(),
        "documentation" => traits::documentation(a[0]),
        "error_source" => traits::error_source(ErrorSource::from_str(a[0]).unwrap()),
        "pattern" => traits::pattern(a[0]),
        "since" => traits::since(a[0]),
        "title" => traits::title(a[0]),
        "deprecated" => traits::deprecated(o(0), o(1)),
        "external_documentation" => traits::external_documentation(&twos(&a)),
        "length" => traits::length(n(0), n(1)),
        "length_min" => traits::length_min(a[0].parse().unwrap()),
        "length_max" => traits::length_max(a[0].parse().unwrap()),
        "range" => traits::range(n(0), n(1)),
        "range_min" => traits::range_min(a[0].parse().unwrap()),
        "range_max" => traits::range_max(a[0].parse().unwrap()),
        "paginated" => traits::paginated(o(0), o(1), o(2), o(3)),
        "tagged" => traits::tagged(&a),
        "references" => traits::references(node(&t["v"], how)),
        _ => panic!("trait function {}", f),
    }
}

fn twos<'a>(a: &[&'a str]) -> Vec<(&'a str, &'a str)> {
    a.chunks(2).map(|c| (c[0], c[1])).collect()
}

/// Applies traits, through the shape builder's own methods where it has one and how says so.
macro_rules! with_traits {
    ($b:ident, $call:expr, $how:expr, $t:ident, $a:ident, $o:ident, { $($f:pat => $m:expr),* $(,)? }) => {
        for $t in items(&$call["traits"]) {
            let $a: Vec<&str> = items(&$t["a"]).map(|x| x.as_str().unwrap()).collect();
            #[allow(unused_variables)]
            let $o = |i: usize| if $a[i] == "-" { None } else { Some($a[i]) };
            if $how & 1 == 1 {
                #[allow(unreachable_patterns)]
                let _ = match s($t, "f") {
                    "documentation" => $b.documentation($a[0]),
                    "external_documentation" => $b.external_documentation(&twos(&$a)),
                    "deprecated" => $b.deprecated($o(0), $o(1)),
                    "private" => $b.private(),
                    "since" => $b.since($a[0]),
                    "tagged" => $b.tagged(&$a),
                    "unstable" => $b.unstable(),
                    $($f => $m,)*
                    _ => $b.apply_trait(a_trait($t, $how)),
                };
            } else {
                $b.apply_trait(a_trait($t, $how));
            }
        }
    };
}

fn simple(kind: &str) -> Simple {
    match kind {
        "bigInteger" => Simple::BigInteger,
        "bigDecimal" => Simple::BigDecimal,
        k => Simple::from_str(k).unwrap(),
    }
}

fn simple_builder(n: &str, kind: &str, how: u64) -> SimpleShapeBuilder {
    if how & 1 == 0 {
        return SimpleShapeBuilder::new(n, simple(kind));
    }
    match kind {
        "blob" => SimpleShapeBuilder::blob(n),
        "boolean" => SimpleShapeBuilder::boolean(n),
        "document" => SimpleShapeBuilder::document(n),
        "string" => SimpleShapeBuilder::string(n),
        "byte" => SimpleShapeBuilder::byte(n),
        "short" => SimpleShapeBuilder::short(n),
        "integer" => SimpleShapeBuilder::integer(n),
        "long" => SimpleShapeBuilder::long(n),
        "float" => SimpleShapeBuilder::float(n),
        "double" => SimpleShapeBuilder::double(n),
        "bigInteger" => SimpleShapeBuilder::big_integer(n),
        "bigDecimal" => SimpleShapeBuilder::big_decimal(n),
        "timestamp" => SimpleShapeBuilder::timestamp(n),
        _ => panic!("kind {}", kind),
    }
}

fn member(m: &Value, how: u64) -> MemberBuilder {
    let (n, t) = (s(m, "n"), s(m, "t"));
    let mut b = if how & 1 == 1 {
        match t {
            "smithy.api#Blob" => MemberBuilder::blob(n),
            "smithy.api#Boolean" => MemberBuilder::boolean(n),
            "smithy.api#Document" => MemberBuilder::document(n),
            "smithy.api#String" => MemberBuilder::string(n),
            "smithy.api#Byte" => MemberBuilder::byte(n),
            "smithy.api#Short" => MemberBuilder::short(n),
            "smithy.api#Integer" => MemberBuilder::integer(n),
            "smithy.api#Long" => MemberBuilder::long(n),
            "smithy.api#Float" => MemberBuilder::float(n),
            "smithy.api#Double" => MemberBuilder::double(n),
            "smithy.api#BigInteger" => MemberBuilder::big_integer(n),
            "smithy.api#BigDecimal" => MemberBuilder::big_decimal(n),
            "smithy.api#Timestamp" => MemberBuilder::timestamp(n),
            _ => MemberBuilder::with_target(n, ShapeName::from_str(t).unwrap()),
        }
    } else {
        MemberBuilder::new(n, t)
    };
    with_traits!(b, m, how, t, a, o, { "required" => b.required() });
    b
}

fn structure(call: &Value, how: u64) -> StructureBuilder {
    let mut b = StructureBuilder::new(s(call, "n"));
    for m in items(&call["mem"]) {
        let (n, t) = (s(m, "n"), s(m, "t"));
        if items(&m["traits"]).count() > 0 || how & 2 == 2 {
            b.add_member(member(m, how));
        } else if how & 1 == 0 {
            b.member(n, t);
        } else {
            match t {
                "Blob" => b.blob(n),
                "Boolean" => b.boolean(n),
                "Document" => b.document(n),
                "String" => b.string(n),
                "Byte" => b.byte(n),
                "Short" => b.short(n),
                "Integer" => b.integer(n),
                "Long" => b.long(n),
                "Float" => b.float(n),
                "Double" => b.double(n),
                "BigInteger" => b.big_integer(n),
                "BigDecimal" => b.big_decimal(n),
                "Timestamp" => b.timestamp(n),
                _ => b.member(n, t),
            };
        }
    }
    with_traits!(b, call, how, t, a, o, {
        "error_source" => b.error_source(ErrorSource::from_str(a[0]).unwrap()),
        "sensitive" => b.sensitive(),
    });
    b
}

/// Both ways of handing a builder over.
macro_rules! hand {
    ($m:ident . $f:ident, $b:ident, $how:expr) => {
        if $how & 4 == 4 {
            let _ = $m.$f((&mut $b).into());
        } else {
            let _ = $m.$f($b);
        }
    };
}

fn call(m: &mut ModelBuilder, c: &Value) {
    let how = c["how"].as_u64().unwrap_or(0);
    let n = s(c, "n");
    let role =
        |r: &str| -> Vec<&str> { items(&c["refs"][r]).map(|x| x.as_str().unwrap()).collect() };
    match (s(c, "c"), s(c, "kind")) {
        ("use", _) => {
            if items(&c["traits"]).count() == 0 && how & 1 == 0 {
                m.uses(n);
            } else {
                let mut b = if how & 2 == 2 {
                    ReferenceBuilder::from(ShapeID::from_str(n).unwrap())
                } else {
                    ReferenceBuilder::new(n)
                };
                with_traits!(b, c, how, t, a, o, {});
                hand!(m.reference, b, how);
            }
        }
        ("apply", _) => {
            for t in items(&c["traits"]) {
                m.apply(n, a_trait(t, how));
            }
        }
        ("meta", _) => {
            let v = node(&c["v"], how);
            if how & 8 == 8 {
                m.meta_data_from(vec![(n.to_string(), v)].into_iter().collect());
            } else {
                m.meta_data(n.to_string(), v);
            }
        }
        (_, "list") | (_, "set") => {
            let w = items(&c["mem"]).next().unwrap();
            let t = s(w, "t");
            let mut b = if how & 2 == 2 {
                ListBuilder::with_target(n, ShapeName::from_str(t).unwrap())
            } else {
                ListBuilder::new(n, t)
            };
            if items(&w["traits"]).count() > 0 {
                b.target(member(w, how));
            }
            with_traits!(b, c, how, t, a, o, {
                "sensitive" => b.sensitive(),
                "unique_items" => b.unique_items(),
            });
            if s(c, "kind") == "list" {
                hand!(m.list, b, how);
            } else {
                hand!(m.set, b, how);
            }
        }
        (_, "map") => {
            let at = |x: &str| items(&c["mem"]).find(|m| s(m, "n") == x).unwrap().clone();
            let (k, v) = (at("key"), at("value"));
            let mut b = MapBuilder::new(n, s(&k, "t"), s(&v, "t"));
            if items(&k["traits"]).count() > 0 || how & 2 == 2 {
                b.key(member(&k, how));
            }
            if items(&v["traits"]).count() > 0 || how & 2 == 2 {
                b.value(member(&v, how));
            }
            with_traits!(b, c, how, t, a, o, {});
            hand!(m.map, b, how);
        }
        (_, "structure") => {
            let mut b = structure(c, how);
            hand!(m.structure, b, how)
        }
        (_, "union") => {
            let mut b = structure(c, how);
            hand!(m.union, b, how)
        }
        (_, "service") => {
            let mut b = if how & 2 == 2 {
                let mut b = ServiceBuilder::new(n, "0");
                b.version(s(c, "ver"));
                b
            } else {
                ServiceBuilder::new(n, s(c, "ver"))
            };
            if how & 1 == 1 {
                b.operations(&role("operations"))
                    .resources(&role("resources"));
            } else {
                role("operations").iter().for_each(|x| drop(b.operation(x)));
                role("resources").iter().for_each(|x| drop(b.resource(x)));
            }
            for (k, v) in pairs(&c["ren"]) {
                b.rename(k, v.as_str().unwrap());
            }
            with_traits!(b, c, how, t, a, o, {
                "sensitive" => b.sensitive(),
                "title" => b.title(a[0]),
                "paginated" => b.paginated(o(0), o(1), o(2), o(3)),
            });
            hand!(m.service, b, how)
        }
        (_, "operation") => {
            let mut b = OperationBuilder::new(n);
            role("input").iter().for_each(|x| drop(b.input(x)));
            role("output").iter().for_each(|x| drop(b.output(x)));
            if how & 1 == 1 {
                b.errors(&role("errors"));
            } else {
                role("errors").iter().for_each(|x| drop(b.error(x)));
            }
            with_traits!(b, c, how, t, a, o, {
                "sensitive" => b.sensitive(),
                "idempotent" => b.idempotent(),
                "readonly" => b.readonly(),
                "paginated" => b.paginated(o(0), o(1), o(2), o(3)),
            });
            hand!(m.operation, b, how)
        }
        (_, "resource") => {
            let mut b = ResourceBuilder::new(n);
            for (k, v) in pairs(&c["idents"]) {
                b.identifier(k, v.as_str().unwrap());
            }
            role("create").iter().for_each(|x| drop(b.create(x)));
            role("put").iter().for_each(|x| drop(b.put(x)));
            role("read").iter().for_each(|x| drop(b.read(x)));
            role("update").iter().for_each(|x| drop(b.update(x)));
            role("delete").iter().for_each(|x| drop(b.delete(x)));
            role("list").iter().for_each(|x| drop(b.list(x)));
            if how & 1 == 1 {
                b.operations(&role("operations"))
                    .collection_operations(&role("collectionOperations"))
                    .resources(&role("resources"));
            } else {
                role("operations").iter().for_each(|x| drop(b.operation(x)));
                role("collectionOperations")
                    .iter()
                    .for_each(|x| drop(b.collection_operation(x)));
                role("resources").iter().for_each(|x| drop(b.resource(x)));
            }
            with_traits!(b, c, how, t, a, o, {
                "sensitive" => b.sensitive(),
                "no_replace" => b.no_replace(),
                "title" => b.title(a[0]),
            });
            hand!(m.resource, b, how)
        }
        (_, kind) => {
            let mut b = simple_builder(n, kind, how);
            with_traits!(b, c, how, t, a, o, {
                "boxed" => b.boxed(),
                "sensitive" => b.sensitive(),
                "streaming" => b.streaming(),
            });
            hand!(m.simple_shape, b, how)
        }
    }
}

/// In a call, traits and members are lists.
fn lists(v: &mut Value) {
    for k in ["traits", "mem"] {
        if v[k] == json!({}) {
            v[k] = json!([]);
        }
    }
    for k in ["mem"] {
        if let Some(xs) = v.get_mut(k).and_then(|x| x.as_array_mut()) {
            xs.iter_mut().for_each(|m| {
                if m["traits"] == json!({}) {
                    m["traits"] = json!([]);
                }
            });
        }
    }
}

fn outcome(r: Result<Model, atelier_core::error::Error>) -> Value {
    match r {
        Ok(m) => json!({"r": "ok", "err": "", "arg": "", "m": snap_model(&m)}),
        Err(e) => {
            let (k, a) = snap_err(&e);
            json!({"r": "err", "err": k, "arg": a, "m": snap_model(&Model::default())})
        }
    }
}

fn build(ns: &str, ver: &str, calls: &[Value]) -> Value {
    let mut b = ModelBuilder::new(Version::from_str(ver).unwrap(), ns);
    for c in calls {
        call(&mut b, c);
    }
    let first = outcome(Model::try_from(&mut b));
    let again = outcome(Model::try_from(b));
    if first["r"] == again["r"] && first["m"] == again["m"] {
        first
    } else {
        json!({"r": "differ", "err": "", "arg": "", "m": first["m"]})
    }
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    if case["n"].is_string() {
        let b = ModelBuilder::new(Version::default(), s(case, "ns"));
        out.push(json!({"op": "name", "ns": case["ns"], "n": case["n"],
                        "got": b.shape_name(s(case, "n")).to_string()}));
        return;
    }
    let mut calls: Vec<Value> = items(&case["calls"]).cloned().collect();
    calls.iter_mut().for_each(lists);
    let mut parts = case["fold"].as_u64().map(Parts::new);
    if let Some(p) = &mut parts {
        p.first(s(case, "ns"));
        calls = calls
            .iter()
            .map(|c| fold::call(c, &mut |x| p.first(x)))
            .collect();
    }
    for turn in 0..case["turns"].as_u64().unwrap_or(1) {
        if turn > 0 {
            // another order: rotate, and reverse every other time
            let k = 1 + turn as usize % calls.len().max(1);
            if turn % 2 == 1 {
                calls.reverse();
            }
            let k = k % calls.len().max(1);
            calls.rotate_left(k);
        }
        let (ns, ver) = (s(case, "ns"), s(case, "ver"));
        let said = match &mut parts {
            None => calls.clone(),
            Some(p) => calls
                .iter()
                .map(|c| fold::call(c, &mut |x| p.any(x)))
                .collect(),
        };
        let mut got = catch_unwind(AssertUnwindSafe(|| build(ns, ver, &said)))
            .unwrap_or(json!({"panic": true}));
        if let Some(p) = &mut parts {
            if !got["m"].is_null() {
                got["m"] = fold::model(&got["m"], &mut |x| p.first(x));
                got["arg"] = json!(p.first(s(&got, "arg")));
            }
        }
        let mut rec = json!({"op": "build", "ns": ns, "ver": ver, "calls": calls});
        for (k, v) in got.as_object().unwrap() {
            rec[k] = v.clone();
        }
        out.push(rec);
    }
}

// ------------------------------------------------------------------------------------------------

const FNS: [(&str, usize); 27] = [
    ("boxed", 0),
    ("idempotent", 0),
    ("no_replace", 0),
    ("private", 0),
    ("readonly", 0),
    ("required", 0),
    ("requires_length", 0),
    ("sensitive", 0),
    ("streaming", 0),
    ("unique_items", 0),
    ("a_trait", 0),
    ("unstable", 0),
    ("documentation", 1),
    ("error_source", 1),
    ("pattern", 1),
    ("since", 1),
    ("title", 1),
    ("deprecated", 2),
    ("external_documentation", 2),
    ("length", 2),
    ("length_min", 1),
    ("length_max", 1),
    ("range", 2),
    ("range_min", 1),
    ("range_max", 1),
    ("paginated", 4),
    ("tagged", 3),
];
const PRE: [&str; 20] = [
    "String",
    "Blob",
    "BigInteger",
    "BigDecimal",
    "Timestamp",
    "Document",
    "Boolean",
    "PrimitiveBoolean",
    "Byte",
    "PrimitiveByte",
    "Short",
    "PrimitiveShort",
    "Integer",
    "PrimitiveInteger",
    "Long",
    "PrimitiveLong",
    "Float",
    "PrimitiveFloat",
    "Double",
    "PrimitiveDouble",
];
const PRE_T: [&str; 12] = [
    "required",
    "tags",
    "documentation",
    "length",
    "error",
    "http",
    "xmlNamespace",
    "box",
    "cors",
    "timestampFormat",
    "deprecated",
    "suppress",
];

struct W {
    ns: String,
    names: Vec<String>,
    foreign: Vec<String>,
    pet: String,
    prelude_pct: usize,
    cfg: Cfg,
}

fn name(r: &mut Rng, w: &W, is_trait: bool) -> String {
    if !w.pet.is_empty() && r.pct(40) {
        return w.pet.clone();
    }
    match r.below(10) {
        0 if r.pct(20) => format!("{}#{}$x", w.ns, r.pick(&w.names)),
        0 if r.pct(10) => format!("{}$x", r.pick(&w.foreign)),
        0 | 1 => r.pick(&w.foreign).clone(),
        2 => format!("{}#{}", w.ns, r.pick(&w.names)),
        3 => r.pick(&w.foreign).rsplit('#').next().unwrap().to_string(),
        4 if r.pct(w.prelude_pct) => format!(
            "smithy.api#{}",
            if is_trait {
                *r.pick(&PRE_T)
            } else {
                *r.pick(&PRE)
            }
        ),
        5 | 6 if is_trait => r.pick(&PRE_T).to_string(),
        5 | 6 => r.pick(&PRE).to_string(),
        7 if r.pct(30) => "Nowhere".to_string(),
        _ => r.pick(&w.names).clone(),
    }
}

fn trait_item(r: &mut Rng, w: &W) -> Value {
    if r.pct(50) {
        let (f, n) = *r.pick(&FNS);
        let mut a: Vec<String> = (0..n)
            .map(|_| {
                r.pick(&["x", "some text", "2021-01-02", "a#b", "é"])
                    .to_string()
            })
            .collect();
        if f.starts_with("length") || f.starts_with("range") {
            a = (0..n)
                .map(|_| {
                    r.pick(&["0", "1", "255", "70000", "3000000000", "1099511627776"])
                        .to_string()
                })
                .collect();
        }
        if n > 1 && !f.starts_with("ext") && f != "tagged" && r.pct(60) {
            let i = r.below(n);
            a[i] = "-".to_string();
        }
        if f == "error_source" {
            a[0] = r.pick(&["client", "server"]).to_string();
        }
        if f == "external_documentation" && r.pct(50) {
            a.extend(vec!["k2".to_string(), "v2".to_string()]);
        }
        if f == "tagged" {
            a.truncate(r.below(4));
        }
        return json!({"n": "", "v": gen::lit("null", ""), "f": f, "a": a});
    }
    if r.pct(8) {
        let v = gen::arr(vec![gen::value(r, &w.cfg, 1)]);
        return json!({"n": "", "v": v, "f": "references", "a": []});
    }
    let v = if r.pct(25) {
        crate::wire::absent()
    } else {
        gen::value(r, &w.cfg, 2)
    };
    json!({"n": name(r, w, true), "v": v, "f": "", "a": []})
}

fn trait_items(r: &mut Rng, w: &W) -> Vec<Value> {
    let n = [0, 0, 0, 1, 1, 2, 3][r.below(7)];
    (0..n).map(|_| trait_item(r, w)).collect()
}

fn mem(r: &mut Rng, w: &W, n: &str) -> Value {
    json!({"n": n, "t": name(r, w, false), "traits": trait_items(r, w)})
}

fn decl(r: &mut Rng, w: &W, n: String) -> Value {
    let mut c = json!({"c": "decl", "n": n, "kind": "", "traits": trait_items(r, w), "mem": [], "ver": "",
        "refs": crate::wire::empty_refs(), "idents": {}, "ren": {}, "v": gen::lit("null", ""), "how": r.below(16)});
    let kind = match *r.pick(&gen::KINDS) {
        "simple" => r.pick(&gen::SIMPLE).to_string(),
        k => k.to_string(),
    };
    let many = |r: &mut Rng, max: usize| -> Value {
        let n = r.below(max + 1);
        json!((0..n).map(|_| name(r, w, false)).collect::<Vec<_>>())
    };
    let opt = |r: &mut Rng| -> Value {
        if r.pct(40) {
            json!([name(r, w, false)])
        } else {
            json!([])
        }
    };
    match kind.as_str() {
        "list" | "set" => c["mem"] = json!([mem(r, w, "member")]),
        "map" => c["mem"] = json!([mem(r, w, "key"), mem(r, w, "value")]),
        "structure" | "union" => {
            let mut ms = gen::MEMBERS.to_vec();
            r.shuffle(&mut ms);
            ms.truncate(r.below(5));
            c["mem"] = json!(ms.iter().map(|n| mem(r, w, n)).collect::<Vec<_>>());
        }
        "service" => {
            c["ver"] = json!(*r.pick(&["1", "2021-01-02", "v 2"]));
            c["refs"]["operations"] = many(r, 3);
            c["refs"]["resources"] = many(r, 3);
            if r.pct(40) {
                let mut m = Map::new();
                let from = r.pick(&w.foreign).clone();
                let own = from.rsplit('#').next().unwrap().to_string();
                let to = if r.pct(25) {
                    own
                } else {
                    "Renamed".to_string()
                };
                m.insert(from, json!(to));
                m.insert(format!("{}#{}", w.ns, r.pick(&w.names)), json!("Other"));
                c["ren"] = Value::Object(m);
            }
        }
        "operation" => {
            c["refs"]["input"] = opt(r);
            c["refs"]["output"] = opt(r);
            c["refs"]["errors"] = many(r, 3);
        }
        "resource" => {
            for x in ["create", "put", "read", "update", "delete", "list"] {
                c["refs"][x] = opt(r);
            }
            for x in ["operations", "collectionOperations", "resources"] {
                c["refs"][x] = many(r, 2);
            }
            let mut m = Map::new();
            for x in ["id", "otherId"] {
                if r.pct(40) {
                    let mut t = name(r, w, false);
                    if r.pct(8) && t.contains('#') {
                        t = format!("{}${}", t.split('$').next().unwrap(), "first");
                    }
                    m.insert(x.to_string(), json!(t));
                }
            }
            c["idents"] = Value::Object(m);
        }
        _ => {}
    }
    c["kind"] = json!(kind);
    c
}

/// Names that leave nothing to resolve: qualified, or of the prelude.
fn plain(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(m) => {
            for k in ["n", "t"] {
                if let Some(Value::String(x)) = m.get(k) {
                    let done = x.contains('#')
                        || x.is_empty()
                        || m.contains_key("kind")
                        || (k == "n" && m.contains_key("t"));
                    if !done && !(PRE[..].contains(&&x[..]) && k == "t") {
                        m.insert(k.to_string(), json!(format!("other.ns#{}", x)));
                    } else if x.contains('$') {
                        m.insert(k.to_string(), json!("other.ns#Ext"));
                    }
                }
            }
            for (k, x) in m.iter_mut() {
                if k == "refs" {
                    for (_, q) in x.as_object_mut().unwrap().iter_mut() {
                        q.as_array_mut()
                            .unwrap()
                            .iter_mut()
                            .for_each(|y| qualify(r, y));
                    }
                } else if k == "idents" {
                    x.as_object_mut()
                        .unwrap()
                        .iter_mut()
                        .for_each(|(_, y)| qualify(r, y));
                } else if k != "v" {
                    plain(r, x);
                }
            }
        }
        Value::Array(xs) => xs.iter_mut().for_each(|x| plain(r, x)),
        _ => {}
    }
}

fn qualify(r: &mut Rng, y: &mut Value) {
    let t = y.as_str().unwrap();
    if !t.contains('#') || t.contains('$') {
        let t = t.rsplit('#').next().unwrap().split('$').next().unwrap();
        *y = json!(format!(
            "{}#{}",
            r.pick(&["other.ns", "smithy.api", "a"]),
            t
        ));
    }
}

pub fn gen_decls(r: &mut Rng) -> Value {
    loop {
        let mut c = gen(r);
        if !c["calls"].is_array() {
            continue;
        }
        let mut calls = c["calls"].as_array().unwrap().clone();
        let mut seen = std::collections::HashSet::new();
        calls.retain(|x| {
            x["c"] == "meta"
                || x["c"] == "decl"
                    && !s(x, "n").contains('$')
                    && seen.insert(s(x, "n").rsplit('#').next().unwrap().to_string())
        });
        for x in calls.iter_mut() {
            let n = x["n"].clone();
            plain(r, x);
            x["n"] = n;
        }
        if !calls.is_empty() {
            c["calls"] = json!(calls);
            return c;
        }
    }
}

pub fn gen(r: &mut Rng) -> Value {
    let ns = r.pick(&["smithy.example", "a", "com.acme.v2"]).to_string();
    if r.pct(2) {
        return json!({"ns": ns, "n": *r.pick(&gen::NAMES)});
    }
    let mut names: Vec<String> = gen::NAMES[..8].iter().map(|x| x.to_string()).collect();
    if r.pct(30) {
        names.push(r.pick(&PRE).to_string());
        names.push(r.pick(&PRE_T).to_string());
    }
    // a name that many say
    let pet = match r.below(12) {
        0 => r.pick(&PRE_T).to_string(),
        1 => r.pick(&PRE).to_string(),
        2 => r.pick(&names).clone(),
        3 => "Ext".to_string(),
        _ => String::new(),
    };
    if !pet.is_empty() && pet != "Ext" && !names.contains(&pet) {
        names.push(pet.clone());
    }
    let foreign: Vec<String> = [
        "other.ns#Ext",
        "other.ns#Alpha",
        "third#Ext",
        "other.ns#marker",
        "third#String",
        "other.ns#Deep",
        "third#marker",
    ][..3 + r.below(5)]
        .iter()
        .map(|x| x.to_string())
        .collect();
    let mut cfg = Cfg {
        floats: true,
        nulls: true,
        ..Default::default()
    };
    if r.pct(12) {
        cfg = gen::wild(r, &cfg);
        for n in cfg.names.iter().skip(8) {
            if r.pct(20) && !names.iter().any(|x| x.eq_ignore_ascii_case(n)) {
                names.push(n.to_string());
            }
        }
    }
    let w = W {
        ns: ns.clone(),
        names,
        foreign,
        pet,
        prelude_pct: 60,
        cfg,
    };
    let (clash, n) = (r.pct(15), 1 + r.below(9));
    let mut left = w.names.clone();
    r.shuffle(&mut left);
    let mut calls = vec![];
    for _ in 0..n {
        let c = match r.below(12) {
            0 | 1 => {
                let f = r.pick(&w.foreign).clone();
                let c = decl(r, &w, f);
                json!({"c": "use", "n": c["n"], "kind": "", "traits": if r.pct(20) { c["traits"].clone() } else { json!([]) },
                    "mem": [], "ver": "", "refs": crate::wire::empty_refs(), "idents": {}, "ren": {}, "v": gen::lit("null", ""), "how": r.below(16)})
            }
            2 => {
                json!({"c": "meta", "n": *r.pick(&["k", "l l", "suppressions"]), "kind": "", "traits": [], "mem": [], "ver": "",
                "refs": crate::wire::empty_refs(), "idents": {}, "ren": {}, "v": gen::value(r, &w.cfg, 2), "how": r.below(16)})
            }
            3 | 4 => {
                let mut n = if r.pct(25) {
                    r.pick(&w.foreign).clone()
                } else {
                    format!("{}#{}", ns, r.pick(&w.names))
                };
                if r.pct(15) {
                    n = r.pick(&w.names).clone();
                }
                if r.pct(50) && n.contains('#') {
                    let known: Vec<String> = calls
                        .iter()
                        .filter(|c: &&Value| c["c"] == "decl")
                        .flat_map(|c| {
                            let own = c["n"].as_str().unwrap();
                            let own = if own.contains('#') {
                                own.to_string()
                            } else {
                                format!("{}#{}", ns, own)
                            };
                            items(&c["mem"])
                                .map(|m| format!("{}${}", own, s(m, "n")))
                                .collect::<Vec<_>>()
                        })
                        .collect();
                    n = if known.is_empty() || r.pct(15) {
                        format!("{}${}", n, r.pick(&gen::MEMBERS))
                    } else {
                        r.pick(&known).clone()
                    };
                    if let Some(short) = n.strip_prefix(&format!("{}#", ns)) {
                        if r.pct(40) {
                            n = short.to_string();
                        }
                    }
                }
                json!({"c": "apply", "n": n, "kind": "", "traits": [trait_item(r, &w)], "mem": [], "ver": "",
                    "refs": crate::wire::empty_refs(), "idents": {}, "ren": {}, "v": gen::lit("null", ""), "how": r.below(16)})
            }
            _ => {
                let n = if clash && r.pct(30) {
                    r.pick(&w.names).clone()
                } else {
                    left.pop().unwrap_or("Last".to_string())
                };
                let n = if r.pct(15) {
                    format!("{}#{}", ns, n)
                } else if r.pct(5) {
                    format!("else.where#{}", n)
                } else {
                    n
                };
                decl(r, &w, n)
            }
        };
        if clash && r.pct(10) {
            calls.push(c.clone());
        }
        calls.push(c);
    }
    let mut case = json!({"ns": ns, "ver": "1.0", "calls": calls, "turns": 3});
    if r.pct(25) {
        case["fold"] = json!(r.next() >> 12);
    }
    case
}
