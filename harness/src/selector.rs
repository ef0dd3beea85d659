//! C15: selector expressions. A structure is a tree of nodes {k, s, xs} (see spec/Selector.tla).
use crate::gen::Rng;
use crate::wire::{f64_str, items};
use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector::*;
use atelier_core::model::values::Number;
use atelier_core::model::{Identifier, ShapeID};
use atelier_smithy::parser::parse_selector;
use serde_json::{json, Value as Json};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn n(k: &str, s: impl ToString, xs: Vec<Json>) -> Json {
    json!({"k": k, "s": s.to_string(), "xs": xs})
}

// ---------------------------------------------------------------- observing

fn o_value(v: &Value) -> Json {
    match v {
        Value::Text(s) => n("text", s, vec![]),
        Value::Number(Number::Integer(i)) => n("int", i, vec![]),
        Value::Number(Number::Float(f)) => n("float", f64_str(*f), vec![]),
        Value::RootShapeIdentifier(i) => n("id", i, vec![]),
        Value::AbsoluteRootShapeIdentifier(i) => n("abs", i, vec![]),
    }
}

fn o_seg(s: &KeyPathSegment) -> Json {
    match s {
        KeyPathSegment::Value(v) => o_value(v),
        KeyPathSegment::FunctionProperty(i) => n("prop", i, vec![]),
    }
}

fn o_key(k: &Key) -> Json {
    n("key", k.identifier(), k.path().map(o_seg).collect())
}

fn o_scoped(v: &ScopedValue) -> Json {
    match v {
        ScopedValue::Value(v) => o_value(v),
        ScopedValue::ContextValue(p) => n("ctx", "", p.iter().map(o_seg).collect()),
    }
}

fn o_rels(k: &str, ids: &[Identifier]) -> Json {
    n(k, "", ids.iter().map(|i| n("rel", i, vec![])).collect())
}

pub fn o_sel(s: &Selector) -> Json {
    n("sel", "", s.expressions().map(o_expr).collect())
}

fn o_expr(e: &SelectorExpression) -> Json {
    match e {
        SelectorExpression::ShapeType(t) => n("shape", t, vec![]),
        SelectorExpression::AttributeSelector(a) => {
            let mut xs = vec![o_key(a.key())];
            if let Some(c) = a.comparison() {
                let k = if c.is_case_insensitive() {
                    "cmpi"
                } else {
                    "cmp"
                };
                xs.push(n(k, c.comparator(), c.rhs_values().map(o_value).collect()));
            }
            n("attr", "", xs)
        }
        SelectorExpression::ScopedAttributeSelector(a) => {
            let mut xs: Vec<Json> = a.key().iter().map(o_key).collect();
            xs.extend(a.assertions().map(|c| {
                let k = if c.is_case_insensitive() { "asi" } else { "as" };
                let mut vs = vec![o_scoped(c.lhs_value())];
                vs.extend(c.rhs_values().map(o_scoped));
                n(k, c.comparator(), vs)
            }));
            n(
                if a.key().is_some() {
                    "scopedk"
                } else {
                    "scoped"
                },
                "",
                xs,
            )
        }
        SelectorExpression::NeighborSelector(s) => match s {
            NeighborSelector::ForwardUndirected => n("fwd", "", vec![]),
            NeighborSelector::ReverseUndirected => n("rev", "", vec![]),
            NeighborSelector::ForwardRecursiveDirected => n("rec", "", vec![]),
            NeighborSelector::ForwardDirected(r) => o_rels("fwdd", r),
            NeighborSelector::ReverseDirected(r) => o_rels("revd", r),
        },
        SelectorExpression::Function(f) => n("fun", f.name(), f.arguments().map(o_sel).collect()),
        SelectorExpression::VariableDefinition(d) => n("def", d.name(), vec![o_sel(d.selector())]),
        SelectorExpression::VariableReference(r) => n("ref", r.name(), vec![]),
    }
}

// ---------------------------------------------------------------- making

fn s(w: &Json) -> &str {
    w["s"].as_str().unwrap()
}
fn id(w: &Json) -> Identifier {
    Identifier::from_str(s(w)).unwrap()
}
fn all<T>(w: &Json, f: impl Fn(&Json) -> T) -> Vec<T> {
    items(&w["xs"]).map(f).collect()
}

fn m_value(w: &Json) -> Value {
    match w["k"].as_str().unwrap() {
        "text" => Value::Text(s(w).into()),
        "int" => Value::Number(Number::Integer(s(w).parse().unwrap())),
        "float" => Value::Number(Number::Float(s(w).parse().unwrap())),
        "id" => Value::RootShapeIdentifier(id(w)),
        "abs" => Value::AbsoluteRootShapeIdentifier(ShapeID::from_str(s(w)).unwrap()),
        k => panic!("value {}", k),
    }
}

fn m_seg(w: &Json) -> KeyPathSegment {
    if w["k"] == "prop" {
        KeyPathSegment::FunctionProperty(id(w))
    } else {
        KeyPathSegment::Value(m_value(w))
    }
}

fn m_key(w: &Json) -> Key {
    Key::with_path(id(w), &all(w, m_seg))
}

fn m_scoped(w: &Json) -> ScopedValue {
    if w["k"] == "ctx" {
        ScopedValue::ContextValue(all(w, m_seg))
    } else {
        ScopedValue::Value(m_value(w))
    }
}

fn m_cmp(w: &Json) -> AttributeComparison {
    let c = Comparator::from_str(s(w)).unwrap();
    if w["k"] == "cmpi" {
        AttributeComparison::new_case_insensitive(c, &all(w, m_value))
    } else {
        AttributeComparison::new(c, &all(w, m_value))
    }
}

fn m_as(w: &Json) -> ScopedAttributeAssertion {
    let c = Comparator::from_str(s(w)).unwrap();
    let vs = all(w, m_scoped);
    if w["k"] == "asi" {
        ScopedAttributeAssertion::new_case_insensitive(vs[0].clone(), c, &vs[1..])
    } else {
        ScopedAttributeAssertion::new(vs[0].clone(), c, &vs[1..])
    }
}

fn m_sel(w: &Json) -> Selector {
    all(w, m_expr).into()
}

fn m_expr(w: &Json) -> SelectorExpression {
    match w["k"].as_str().unwrap() {
        "shape" => ShapeType::from_str(s(w)).unwrap().into(),
        "attr" => {
            let k = m_key(&w["xs"][0]);
            match w["xs"].get(1) {
                None => AttributeSelector::new(k).into(),
                Some(c) => AttributeSelector::with_comparison(k, m_cmp(c)).into(),
            }
        }
        "scoped" => ScopedAttributeSelector::new(&all(w, m_as)).into(),
        "scopedk" => {
            let a: Vec<_> = items(&w["xs"]).skip(1).map(m_as).collect();
            ScopedAttributeSelector::with_key(m_key(&w["xs"][0]), &a).into()
        }
        "fwd" => NeighborSelector::ForwardUndirected.into(),
        "rev" => NeighborSelector::ReverseUndirected.into(),
        "rec" => NeighborSelector::ForwardRecursiveDirected.into(),
        "fwdd" => NeighborSelector::ForwardDirected(all(w, id)).into(),
        "revd" => NeighborSelector::ReverseDirected(all(w, id)).into(),
        "fun" => Function::new(id(w), &all(w, m_sel)).into(),
        "def" => VariableDefinition::new(id(w), m_sel(&w["xs"][0])).into(),
        "ref" => VariableReference::new(id(w)).into(),
        k => panic!("expression {}", k),
    }
}

// ------------------------------------------- making, by the builders and conveniences

fn b_cmp(w: &Json) -> AttributeComparison {
    let vs = all(w, m_value);
    let num = |v: &Value| v.as_number().cloned();
    let mut c = match (s(w), vs.as_slice()) {
        ("=", [v]) => AttributeComparison::string_equal(v.clone()),
        ("!=", [v]) => AttributeComparison::string_not_equal(v.clone()),
        ("^=", [v]) => AttributeComparison::string_starts_with(v.clone()),
        ("$=", [v]) => AttributeComparison::string_ends_with(v.clone()),
        ("*=", [v]) => AttributeComparison::string_contains(v.clone()),
        ("?=", [Value::Text(t)]) if t == "true" || t == "false" => {
            AttributeComparison::string_exists(t == "true")
        }
        (">", [v]) if v.is_number() => AttributeComparison::number_greater(num(v).unwrap()),
        (">=", [v]) if v.is_number() => {
            AttributeComparison::number_greater_or_equal(num(v).unwrap())
        }
        ("<", [v]) if v.is_number() => AttributeComparison::number_less(num(v).unwrap()),
        ("<=", [v]) if v.is_number() => AttributeComparison::number_less_or_equal(num(v).unwrap()),
        ("{=}", [v]) => AttributeComparison::projection_equal(v.clone()),
        ("{!=}", [v]) => AttributeComparison::projection_not_equal(v.clone()),
        ("{<}", vs) => AttributeComparison::projection_subset(vs),
        ("{<<}", vs) => AttributeComparison::projection_proper_subset(vs),
        _ => {
            let mut c = AttributeComparison::new(Comparator::StringEqual, &[]);
            c.set_comparator(Comparator::from_str(s(w)).unwrap());
            c.append_rhs_values(&vs);
            c
        }
    };
    c.set_case_insensitive(w["k"] == "cmpi");
    c
}

fn b_as(w: &Json) -> ScopedAttributeAssertion {
    type A = ScopedAttributeAssertion;
    let vs = all(w, m_scoped);
    let l = vs[0].clone();
    let num = |v: &ScopedValue| match v {
        ScopedValue::Value(Value::Number(n)) => Some(n.clone()),
        _ => None,
    };
    let truth = |v: &ScopedValue| match v {
        ScopedValue::Value(Value::Text(t)) => bool::from_str(t).ok(),
        _ => None,
    };
    let mut c = match (s(w), &vs[1..]) {
        ("=", [v]) => A::string_equal(l, v.clone()),
        ("!=", [v]) => A::string_not_equal(l, v.clone()),
        ("^=", [v]) => A::string_starts_with(l, v.clone()),
        ("$=", [v]) => A::string_ends_with(l, v.clone()),
        ("*=", [v]) => A::string_contains(l, v.clone()),
        ("?=", [v]) if truth(v).is_some() => A::string_exists(l, truth(v).unwrap()),
        (">", [v]) if num(v).is_some() => A::number_greater(l, num(v).unwrap()),
        (">=", [v]) if num(v).is_some() => A::number_greater_or_equal(l, num(v).unwrap()),
        ("<", [v]) if num(v).is_some() => A::number_less(l, num(v).unwrap()),
        ("<=", [v]) if num(v).is_some() => A::number_less_or_equal(l, num(v).unwrap()),
        ("{=}", [v]) => A::projection_equal(l, v.clone()),
        ("{!=}", [v]) => A::projection_not_equal(l, v.clone()),
        ("{<}", vs) => A::projection_subset(l, vs),
        ("{<<}", vs) => A::projection_proper_subset(l, vs),
        _ => m_as(w),
    };
    c.set_case_insensitive(w["k"] == "asi");
    c
}

fn b_attr(w: &Json) -> AttributeSelector {
    let k = &w["xs"][0];
    let mut b = match s(k) {
        "id" => AttributeBuilder::named_id(),
        "service" => AttributeBuilder::named_service(),
        "trait" => AttributeBuilder::named_trait(),
        "var" => AttributeBuilder::named_var(),
        _ => AttributeBuilder::named(id(k)),
    };
    let path: Vec<KeyPathSegment> = all(k, m_seg);
    let whole = path.len() > 1 && path.len() % 2 == 0;
    if whole {
        // a path replaces the path that was there
        b.path_segment_for_text("junk").path(&path);
    }
    for (i, seg) in items(&k["xs"]).enumerate().filter(|_| !whole) {
        let _ = match m_seg(seg) {
            v if i == 0 && items(&k["xs"]).count() == 1 => b.path(&[v]),
            KeyPathSegment::FunctionProperty(i) => b.path_segment_for_function(i),
            KeyPathSegment::Value(Value::Text(t)) => b.path_segment_for_text(&t),
            KeyPathSegment::Value(Value::Number(t)) => b.path_segment_for_number(t),
            KeyPathSegment::Value(Value::RootShapeIdentifier(t)) => b.path_segment_for_id(t),
            KeyPathSegment::Value(Value::AbsoluteRootShapeIdentifier(t)) => {
                b.path_segment_for_shape(t)
            }
        };
    }
    if let Some(c) = w["xs"].get(1) {
        let ci = c["k"] == "cmpi";
        let vs = all(c, m_value);
        let nums: Vec<Number> = vs.iter().filter_map(|v| v.as_number().cloned()).collect();
        let truth = match vs.as_slice() {
            [Value::Text(t)] => bool::from_str(t).ok(),
            _ => None,
        };
        let all_nums = nums.len() == vs.len() && !ci;
        let _ = match s(c) {
            "=" => b.string_equal(&vs, ci),
            "!=" => b.string_not_equal(&vs, ci),
            "^=" => b.string_starts_with(&vs, ci),
            "$=" => b.string_ends_with(&vs, ci),
            "*=" => b.string_contains(&vs, ci),
            "?=" if truth.is_some() => b.string_exists(truth.unwrap(), ci),
            ">" if all_nums => b.number_greater(&nums),
            ">=" if all_nums => b.number_greater_or_equal(&nums),
            "<" if all_nums => b.number_less(&nums),
            "<=" if all_nums => b.number_less_or_equal(&nums),
            "{=}" if !ci => b.projection_equal(&vs),
            "{!=}" if !ci => b.projection_not_equal(&vs),
            "{<}" if !ci => b.projection_subset(&vs),
            "{<<}" if !ci => b.projection_proper_subset(&vs),
            _ => b.compare(b_cmp(c)),
        };
        if vs.len() == 1 {
            // the two ways to say a comparison agree, or the difference is seen
            let mut a: AttributeSelector = (&mut b).into();
            if a.comparison() != &Some(b_cmp(c)) {
                a.set_comparison(b_cmp(c));
                return a;
            }
        }
    }
    b.into()
}

fn b_scoped(w: &Json) -> ScopedAttributeSelector {
    let mut xs: Vec<&Json> = items(&w["xs"]).collect();
    let mut b = if w["k"] == "scopedk" {
        let k = xs.remove(0);
        let mut b = match s(k) {
            "id" => ScopedAttributeBuilder::new_id(),
            "service" => ScopedAttributeBuilder::new_service(),
            "trait" => ScopedAttributeBuilder::new_trait(),
            "var" => ScopedAttributeBuilder::new_var(),
            _ => ScopedAttributeBuilder::named(id(k)),
        };
        let path: Vec<KeyPathSegment> = all(&k, m_seg);
        let whole = path.len() > 1 && path.len() % 2 == 0;
        if whole {
            b.path_segment_for_text("junk").path(&path);
        }
        for seg in items(&k["xs"]).filter(|_| !whole) {
            let _ = match m_seg(seg) {
                KeyPathSegment::FunctionProperty(i) => b.path_segment_for_function(i),
                KeyPathSegment::Value(Value::Text(t)) => b.path_segment_for_text(&t),
                KeyPathSegment::Value(Value::Number(t)) => b.path_segment_for_number(t),
                KeyPathSegment::Value(Value::RootShapeIdentifier(t)) => b.path_segment_for_id(t),
                KeyPathSegment::Value(Value::AbsoluteRootShapeIdentifier(t)) => {
                    b.path_segment_for_shape(t)
                }
            };
        }
        b
    } else {
        ScopedAttributeBuilder::default()
    };
    for x in xs {
        let ci = x["k"] == "asi";
        let vs = all(x, m_scoped);
        let l = vs[0].clone();
        let r = &vs[1..];
        let num = match r {
            [ScopedValue::Value(Value::Number(n))] if !ci => Some(n.clone()),
            _ => None,
        };
        let truth = match r {
            [ScopedValue::Value(Value::Text(t))] if !ci => bool::from_str(t).ok(),
            _ => None,
        };
        let one = r.len() == 1;
        let a = b_as(x);
        if a != m_as(x) {
            let _ = b.assertion(a);
            continue;
        }
        let _ = match s(x) {
            "=" if one => b.string_equal(l, r[0].clone(), ci),
            "!=" if one => b.string_not_equal(l, r[0].clone(), ci),
            "^=" if one => b.string_starts_with(l, r[0].clone(), ci),
            "$=" if one => b.string_ends_with(l, r[0].clone(), ci),
            "*=" if one => b.string_contains(l, r[0].clone(), ci),
            "?=" if truth.is_some() => b.string_exists(l, truth.unwrap()),
            ">" if num.is_some() => b.number_greater(l, num.unwrap()),
            ">=" if num.is_some() => b.number_greater_or_equal(l, num.unwrap()),
            "<" if num.is_some() => b.number_less(l, num.unwrap()),
            "<=" if num.is_some() => b.number_less_or_equal(l, num.unwrap()),
            "{=}" if one && !ci => b.projection_equal(l, r[0].clone()),
            "{!=}" if one && !ci => b.projection_not_equal(l, r[0].clone()),
            "{<}" if !ci => b.projection_subset(l, r),
            "{<<}" if !ci => b.projection_proper_subset(l, r),
            c => b.string_assertion(l, Comparator::from_str(c).unwrap(), r, ci),
        };
    }
    b.into()
}

fn b_sel(w: &Json) -> SelectorBuilder {
    let mut b: Option<SelectorBuilder> = None;
    for x in items(&w["xs"]) {
        let k = x["k"].as_str().unwrap();
        let args: Vec<SelectorBuilder> = if k == "fun" { all(x, b_sel) } else { vec![] };
        b = Some(match b {
            None => match (k, s(x)) {
                ("shape", "*") => SelectorBuilder::any_shape(),
                ("shape", "number") => SelectorBuilder::any_number(),
                ("shape", "simpleType") => SelectorBuilder::any_simple_type(),
                ("shape", "collection") => SelectorBuilder::any_collection(),
                ("shape", "blob") => SelectorBuilder::blob(),
                ("shape", "boolean") => SelectorBuilder::boolean(),
                ("shape", "document") => SelectorBuilder::document(),
                ("shape", "string") => SelectorBuilder::string(),
                ("shape", "integer") => SelectorBuilder::integer(),
                ("shape", "byte") => SelectorBuilder::byte(),
                ("shape", "short") => SelectorBuilder::short(),
                ("shape", "long") => SelectorBuilder::long(),
                ("shape", "float") => SelectorBuilder::float(),
                ("shape", "double") => SelectorBuilder::double(),
                ("shape", "bigDecimal") => SelectorBuilder::big_decimal(),
                ("shape", "bigInteger") => SelectorBuilder::big_integer(),
                ("shape", "timestamp") => SelectorBuilder::timestamp(),
                ("shape", "list") => SelectorBuilder::list(),
                ("shape", "set") => SelectorBuilder::set(),
                ("shape", "map") => SelectorBuilder::map(),
                ("shape", "structure") => SelectorBuilder::structure(),
                ("shape", "union") => SelectorBuilder::union(),
                ("shape", "service") => SelectorBuilder::service(),
                ("shape", "operation") => SelectorBuilder::operation(),
                ("shape", "resource") => SelectorBuilder::resource(),
                ("shape", "member") => SelectorBuilder::member(),
                ("attr", _) => SelectorBuilder::attribute(b_attr(x)),
                ("scoped" | "scopedk", _) => SelectorBuilder::scoped_attribute(b_scoped(x)),
                ("fwd", _) => SelectorBuilder::forward_undirected(),
                ("rev", _) => SelectorBuilder::reverse_undirected(),
                ("rec", _) => SelectorBuilder::forward_recursive_directed(),
                ("fwdd", _) => SelectorBuilder::forward_directed(&all(x, id)),
                ("revd", _) => SelectorBuilder::reverse_directed(&all(x, id)),
                ("fun", "test") => SelectorBuilder::fn_test(&args),
                ("fun", "is") => SelectorBuilder::fn_is(&args),
                ("fun", "not") => SelectorBuilder::fn_not(&args),
                ("fun", "topdown") => SelectorBuilder::fn_topdown(&args),
                ("fun", _) => SelectorBuilder::function_from(id(x), &args),
                ("def", _) => SelectorBuilder::variable_definition_from(id(x), b_sel(&x["xs"][0])),
                ("ref", _) => SelectorBuilder::variable_reference_from(id(x)),
                (k, _) => panic!("expression {}", k),
            },
            Some(mut b) => {
                let _ = match (k, s(x)) {
                    ("shape", "*") => b.add_any_shape(),
                    ("shape", "number") => b.add_any_number(),
                    ("shape", "simpleType") => b.add_any_simple_type(),
                    ("shape", "collection") => b.add_any_collection(),
                    ("shape", "blob") => b.add_blob(),
                    ("shape", "boolean") => b.add_boolean(),
                    ("shape", "document") => b.add_document(),
                    ("shape", "string") => b.add_string(),
                    ("shape", "integer") => b.add_integer(),
                    ("shape", "byte") => b.add_byte(),
                    ("shape", "short") => b.add_short(),
                    ("shape", "long") => b.add_long(),
                    ("shape", "float") => b.add_float(),
                    ("shape", "double") => b.add_double(),
                    ("shape", "bigDecimal") => b.add_big_decimal(),
                    ("shape", "bigInteger") => b.add_big_integer(),
                    ("shape", "timestamp") => b.add_timestamp(),
                    ("shape", "list") => b.add_list(),
                    ("shape", "set") => b.add_set(),
                    ("shape", "map") => b.add_map(),
                    ("shape", "structure") => b.add_structure(),
                    ("shape", "union") => b.add_union(),
                    ("shape", "service") => b.add_service(),
                    ("shape", "operation") => b.add_operation(),
                    ("shape", "resource") => b.add_resource(),
                    ("shape", "member") => b.add_member(),
                    ("attr", _) => b.add_attribute_from(
                        b_attr(x).key().clone(),
                        b_attr(x).comparison().clone(),
                    ),
                    ("scoped" | "scopedk", _) => b.add_scoped_attribute(b_scoped(x)),
                    ("fwd", _) => b.add_forward_undirected(),
                    ("rev", _) => b.add_reverse_undirected(),
                    ("rec", _) => b.add_forward_recursive_directed(),
                    ("fwdd", _) => b.add_forward_directed(&all(x, id)),
                    ("revd", _) => b.add_reverse_directed(&all(x, id)),
                    ("fun", "test") => b.add_test_function(&args),
                    ("fun", "is") => b.add_is_function(&args),
                    ("fun", "not") => b.add_not_function(&args),
                    ("fun", "topdown") => b.add_topdown_function(&args),
                    ("fun", _) => b.add_function_from(id(x), &args),
                    ("def", _) => b.add_variable_definition_from(id(x), b_sel(&x["xs"][0])),
                    ("ref", _) => b.add_variable_reference_from(id(x)),
                    (k, _) => panic!("expression {}", k),
                };
                b
            }
        });
    }
    b.unwrap()
}

// ------------------------------------------- making, by conversions

fn c_value(w: &Json) -> Value {
    match w["k"].as_str().unwrap() {
        "text" if s(w).len() % 2 == 0 => s(w).into(),
        "text" => s(w).to_string().into(),
        "int" if s(w).len() % 2 == 0 => s(w).parse::<i64>().unwrap().into(),
        "float" if s(w).len() % 2 == 0 => s(w).parse::<f64>().unwrap().into(),
        "int" => Number::Integer(s(w).parse().unwrap()).into(),
        "float" => Number::Float(s(w).parse().unwrap()).into(),
        "id" => id(w).into(),
        _ => ShapeID::from_str(s(w)).unwrap().into(),
    }
}

fn c_seg(w: &Json) -> KeyPathSegment {
    match w["k"].as_str().unwrap() {
        "prop" => id(w).into(),
        _ => c_value(w).into(),
    }
}

fn c_key(w: &Json) -> Key {
    let mut k: Key = id(w).into();
    if items(&w["xs"]).count() > 0 {
        k.set_path(&all(w, c_seg));
    }
    k
}

fn c_scoped(w: &Json) -> ScopedValue {
    match w["k"].as_str().unwrap() {
        "ctx" if items(&w["xs"]).count() == 1 => all(w, c_seg).as_slice().into(),
        "ctx" => all(w, c_seg).into(),
        "text" if s(w).len() % 3 == 0 => s(w).into(),
        "text" if s(w).len() % 3 == 1 => s(w).to_string().into(),
        "int" if s(w).len() % 2 == 0 => s(w).parse::<i64>().unwrap().into(),
        "float" if s(w).len() % 2 == 0 => s(w).parse::<f64>().unwrap().into(),
        "float" => Number::Float(s(w).parse().unwrap()).into(),
        "id" => id(w).into(),
        "abs" => ShapeID::from_str(s(w)).unwrap().into(),
        _ => c_value(w).into(),
    }
}

fn c_attr(w: &Json) -> AttributeSelector {
    let mut a: AttributeSelector = c_key(&w["xs"][0]).into();
    if let Some(c) = w["xs"].get(1) {
        let mut cmp = AttributeComparison::new(Comparator::from_str(s(c)).unwrap(), &[]);
        for v in items(&c["xs"]) {
            cmp.add_value(c_value(v));
        }
        cmp.set_case_insensitive(c["k"] == "cmpi");
        a.set_comparison(cmp);
    }
    a
}

/// An attribute as its builder makes it.
fn c_attr_builder(w: &Json) -> AttributeBuilder {
    let (k, a) = (&w["xs"][0], c_attr(w));
    let mut b = AttributeBuilder::named(id(k));
    for seg in all(k, c_seg) {
        b.path_segment(seg);
    }
    if let Some(c) = a.comparison() {
        b.compare(c.clone());
    }
    b
}

fn c_assertion(w: &Json) -> ScopedAttributeAssertion {
    let vs = all(w, c_scoped);
    let c = Comparator::from_str(s(w)).unwrap();
    let mut a = ScopedAttributeAssertion::new(vs[0].clone(), c, &[]);
    for v in &vs[1..] {
        a.add_value(v.clone());
    }
    a.set_case_insensitive(w["k"] == "asi");
    a
}

fn c_scoped_builder(w: &Json) -> ScopedAttributeBuilder {
    let mut xs = items(&w["xs"]);
    let mut b = if w["k"] == "scopedk" {
        let k = xs.next().unwrap();
        let mut b = ScopedAttributeBuilder::named(id(k));
        for seg in all(k, c_seg) {
            b.path_segment(seg);
        }
        b
    } else {
        ScopedAttributeBuilder::default()
    };
    for x in xs {
        b.assertion(c_assertion(x));
    }
    b
}

fn c_expr(w: &Json) -> SelectorExpression {
    match w["k"].as_str().unwrap() {
        "attr" if w["xs"][0]["xs"][0].is_null() => c_attr(w).into(),
        "attr" => c_attr_builder(w).into(),
        "scoped" => ScopedAttributeSelector::from(&mut c_scoped_builder(w)).into(),
        "scopedk" => c_scoped_builder(w).into(),
        "fun" => Function::new(id(w), &all(w, c_sel)).into(),
        "def" => VariableDefinition::new(id(w), c_sel(&w["xs"][0])).into(),
        "ref" => VariableReference::from(id(w)).into(),
        _ => m_expr(w),
    }
}

fn c_sel(w: &Json) -> Selector {
    let xs: Vec<&Json> = items(&w["xs"]).collect();
    let k = xs[0]["k"].as_str().unwrap();
    let path = xs[0]["xs"][0]["xs"][0].is_null();
    let mut b: SelectorBuilder = match k {
        "attr" if xs.len() == 1 && path => return c_attr_builder(xs[0]).into(),
        "attr" if xs.len() == 1 => return (&mut c_attr_builder(xs[0])).into(),
        "attr" if path => c_attr_builder(xs[0]).into(),
        "attr" => (&mut c_attr_builder(xs[0])).into(),
        "scoped" if xs.len() == 1 => return c_scoped_builder(xs[0]).into(),
        "scopedk" if xs.len() == 1 => return (&mut c_scoped_builder(xs[0])).into(),
        "scoped" => c_scoped_builder(xs[0]).into(),
        "scopedk" => (&mut c_scoped_builder(xs[0])).into(),
        _ if xs.len() == 1 => return c_expr(xs[0]).into(),
        _ => SelectorBuilder::from(c_expr(xs[0])),
    };
    for x in &xs[1..] {
        match x["k"].as_str().unwrap() {
            "fun" => b.add_function(Function::new(id(x), &all(x, c_sel))),
            "def" => b.add_variable_definition(VariableDefinition::new(id(x), c_sel(&x["xs"][0]))),
            "ref" => {
                let d = VariableDefinition::new(id(x), vec![ShapeType::Any.into()].into());
                b.add_variable_reference(d.new_reference())
            }
            "attr" => b.add_attribute(c_attr(x)),
            _ => b.add(c_expr(x)),
        };
    }
    let b: SelectorBuilder = (&mut b).into();
    if b.is_empty() {
        panic!("a builder with expressions is empty");
    }
    b.into()
}

// ---------------------------------------------------------------- running

fn parsed(text: &str) -> Json {
    match parse_selector(text) {
        Ok(x) => o_sel(&x),
        Err(_) => n("none", "", vec![]),
    }
}

fn guarded(f: impl FnOnce() -> Json) -> Json {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!({"panic": true}))
}

pub fn run(case: &Json, out: &mut Vec<Json>) {
    if case.get("texts").is_some() {
        let rs: Vec<Json> = items(&case["texts"])
            .map(|t| guarded(|| json!({"text": t, "tree": parsed(t.as_str().unwrap())})))
            .collect();
        out.push(json!({"op": "texts", "rs": rs}));
    }
    if case.get("trees").is_some() {
        let rs: Vec<Json> = items(&case["trees"])
            .map(|t| {
                guarded(|| {
                    let made = m_sel(t);
                    let built: Selector = b_sel(t).into();
                    let text = made.to_string();
                    let equal = parse_selector(&text).map(|p| p == made).unwrap_or(false);
                    json!({"tree": t, "made": o_sel(&made), "built": o_sel(&built),
                        "turned": o_sel(&c_sel(t)), "text": text, "again": parsed(&text), "equal": equal})
                })
            })
            .collect();
        out.push(json!({"op": "trees", "rs": rs}));
    }
}

// ---------------------------------------------------------------- generating

const SHAPES: [&str; 26] = [
    "*",
    "number",
    "simpleType",
    "collection",
    "blob",
    "boolean",
    "document",
    "string",
    "integer",
    "byte",
    "short",
    "long",
    "float",
    "double",
    "bigDecimal",
    "bigInteger",
    "timestamp",
    "list",
    "set",
    "map",
    "structure",
    "union",
    "service",
    "operation",
    "resource",
    "member",
];
const IDS: [&str; 12] = [
    "id", "service", "trait", "var", "test", "is", "not", "topdown", "x_1", "__y", "I", "Error",
];
const CMPS: [&str; 14] = [
    "=", "!=", "^=", "$=", "*=", "?=", ">", ">=", "<", "<=", "{=}", "{!=}", "{<}", "{<<}",
];

fn g_value(r: &mut Rng) -> Json {
    match r.below(5) {
        0 if r.pct(50) => {
            // any characters, with at most one sort of quote
            let q = *r.pick(&['"', '\'']);
            let cs = [
                'a', 'B', '1', ' ', '.', '#', '[', ']', '(', ')', '|', ',', ':', '&', '$', '@',
                '=', '/', 'é', '日', q, q, q,
            ];
            let t: String = (0..1 + r.below(5)).map(|_| *r.pick(&cs)).collect();
            n("text", &t, vec![])
        }
        0 => n(
            "text",
            *r.pick(&[
                "a",
                "true",
                "false",
                "x y",
                "it's",
                "say \"so\"",
                "é日",
                "#",
                "[|]",
                " ",
                "&&",
                "//",
            ]),
            vec![],
        ),
        1 => n(
            "int",
            *r.pick(&[
                "0",
                "7",
                "-1",
                "9223372036854775807",
                "-9223372036854775808",
            ]),
            vec![],
        ),
        2 => n(
            "float",
            *r.pick(&["0.5", "-2.25", "1.0", "1e300", "1e-7", "123456.789", "0.0"]),
            vec![],
        ),
        3 => n("id", *r.pick(&IDS), vec![]),
        _ => n(
            "abs",
            *r.pick(&["smithy.api#String", "a#b", "a.b_c.D9#__e", "_a#B"]),
            vec![],
        ),
    }
}

fn g_seg(r: &mut Rng) -> Json {
    if r.pct(30) {
        n(
            "prop",
            *r.pick(&["keys", "values", "length", "f_1"]),
            vec![],
        )
    } else {
        g_value(r)
    }
}

fn some(r: &mut Rng, least: usize, f: impl Fn(&mut Rng) -> Json) -> Vec<Json> {
    let mut k = least + [0, 0, 1, 1, 2, 3][r.below(6)];
    if r.pct(2) {
        k += 2 + r.below(5);
    }
    (0..k).map(|_| f(r)).collect()
}

fn g_key(r: &mut Rng) -> Json {
    let k = *r.pick(&IDS);
    n("key", k, some(r, 0, g_seg))
}

fn g_scoped(r: &mut Rng) -> Json {
    if r.pct(40) {
        n("ctx", "", some(r, 1, g_seg))
    } else {
        g_value(r)
    }
}

fn g_expr(r: &mut Rng, depth: usize) -> Json {
    let top = if depth == 0 { 10 } else { 14 };
    match r.below(top) {
        0 | 1 => n("shape", *r.pick(&SHAPES), vec![]),
        2 | 3 => {
            let mut xs = vec![g_key(r)];
            if r.pct(75) {
                let c = *r.pick(&CMPS);
                let k = if r.pct(30) { "cmpi" } else { "cmp" };
                let vs = if c == "?=" && r.pct(60) {
                    vec![n("text", *r.pick(&["true", "false"]), vec![])]
                } else {
                    some(r, 1, g_value)
                };
                xs.push(n(k, c, vs));
            }
            n("attr", "", xs)
        }
        4 | 5 => {
            let keyed = r.pct(50);
            let mut xs = if keyed { vec![g_key(r)] } else { vec![] };
            xs.extend(some(r, 1, |r| {
                let c = *r.pick(&CMPS);
                let k = if r.pct(30) { "asi" } else { "as" };
                n(k, c, some(r, 2, g_scoped))
            }));
            n(if keyed { "scopedk" } else { "scoped" }, "", xs)
        }
        6 => n(*r.pick(&["fwd", "rev", "rec"]), "", vec![]),
        7 => {
            let k = *r.pick(&["fwdd", "revd"]);
            n(
                k,
                "",
                some(r, 1, |r| {
                    n(
                        "rel",
                        *r.pick(&["input", "output", "resource", "__x", "i"]),
                        vec![],
                    )
                }),
            )
        }
        8 | 9 => n("ref", *r.pick(&IDS), vec![]),
        10 | 11 | 12 => {
            let f = *r.pick(&IDS);
            n("fun", f, some(r, 1, |r| g_sel(r, depth - 1)))
        }
        _ => {
            let f = *r.pick(&IDS);
            n("def", f, vec![g_sel(r, depth - 1)])
        }
    }
}

pub fn g_sel(r: &mut Rng, depth: usize) -> Json {
    n("sel", "", some(r, 1, |r| g_expr(r, depth)))
}

/// The tokens of a structure, one by one (mirrors Toks in the specification; what a text means is
/// still decided there, from the text).
fn toks(w: &Json, o: &mut Vec<String>, r: &mut Rng) {
    fn sep(xs: &[&Json], by: &str, o: &mut Vec<String>, r: &mut Rng) {
        for (i, x) in xs.iter().enumerate() {
            if i > 0 && !by.is_empty() {
                o.push(by.into());
            }
            toks(x, o, r);
        }
    }
    let xs: Vec<&Json> = items(&w["xs"]).collect();
    let t = s(w).to_string();
    let mut p = |x: &str, o: &mut Vec<String>| o.push(x.to_string());
    match w["k"].as_str().unwrap() {
        "sel" => sep(&xs, "", o, r),
        "text" if t.contains('"') => o.push(format!("'{}'", t)),
        "text" if t.contains('\'') || r.pct(60) => o.push(format!("\"{}\"", t)),
        "text" => o.push(format!("'{}'", t)),
        "float" if r.pct(40) => {
            let f: f64 = t.parse().unwrap();
            o.push(if r.pct(50) {
                format!("{:e}", f)
            } else {
                format!("{:E}", f).replace("E", "E+").replace("E+-", "E-")
            })
        }
        "shape" | "int" | "float" | "id" | "abs" | "rel" => o.push(t),
        "attr" => {
            p("[", o);
            sep(&xs, "", o, r);
            p("]", o);
        }
        "key" => {
            o.push(t);
            if !xs.is_empty() {
                p("|", o);
                sep(&xs, "|", o, r);
            }
        }
        "prop" => o.extend(["(".to_string(), t, ")".to_string()]),
        k @ ("cmp" | "cmpi") => {
            o.push(t);
            sep(&xs, ",", o, r);
            if k == "cmpi" {
                p("i", o);
            }
        }
        k @ ("as" | "asi") => {
            toks(xs[0], o, r);
            o.push(t);
            sep(&xs[1..], ",", o, r);
            if k == "asi" {
                p("i", o);
            }
        }
        "ctx" => {
            p("@{", o);
            sep(&xs, "|", o, r);
            p("}", o);
        }
        k @ ("scoped" | "scopedk") => {
            p("[@", o);
            let n = if k == "scopedk" { 1 } else { 0 };
            if n == 1 {
                toks(xs[0], o, r);
            }
            p(":", o);
            sep(&xs[n..], "&&", o, r);
            p("]", o);
        }
        "fwd" => p(">", o),
        "rev" => p("<", o),
        "rec" => p("~>", o),
        "fwdd" => {
            p("-[", o);
            sep(&xs, ",", o, r);
            p("]->", o);
        }
        "revd" => {
            p("<-[", o);
            sep(&xs, ",", o, r);
            p("]-", o);
        }
        "fun" => {
            p(":", o);
            o.push(t);
            p("(", o);
            sep(&xs, ",", o, r);
            p(")", o);
        }
        "def" => {
            p("$", o);
            o.push(t);
            p("(", o);
            sep(&xs, "", o, r);
            p(")", o);
        }
        "ref" => {
            p("${", o);
            o.push(t);
            p("}", o);
        }
        k => panic!("{}", k),
    }
}

fn layout(r: &mut Rng, ts: &[String]) -> String {
    let mut out = String::new();
    let style = r.below(3);
    for t in ts {
        let tight = out.ends_with(|c| "()[],|'\"".contains(c))
            || t.starts_with(|c| "()[],|'\"".contains(c));
        match style {
            0 if tight => {}
            1 if tight && r.pct(50) => {}
            0 => out.push(' '),
            _ => {
                for _ in 0..1 + r.below(2) {
                    out.push(*r.pick(&[' ', '\t', '\n']));
                }
            }
        }
        out.push_str(t);
    }
    if style == 1 {
        out.push('\n');
    }
    out
}

pub fn gen(r: &mut Rng) -> Json {
    let trees: Vec<Json> = (0..6).map(|_| g_sel(r, 2)).collect();
    let mut texts = vec![];
    for t in &trees {
        let mut ts = vec![];
        toks(t, &mut ts, r);
        texts.push(layout(r, &ts));
        // the same with something changed
        for _ in 0..3 {
            let mut ts = ts.clone();
            let k = r.below(ts.len());
            let other = ts[r.below(ts.len())].clone();
            match r.below(5) {
                0 => {
                    let _ = ts.remove(k);
                }
                1 => ts[k] = other,
                2 => ts.insert(k, other),
                3 => {
                    let x = *r.pick(&[
                        "1.5",
                        "01",
                        "-",
                        "1e5",
                        "1e400",
                        "9223372036854775808",
                        "''",
                        "'\\'",
                        "'a\"b'",
                        "a.b",
                        "a#b#c",
                        "a#b$c",
                        "_",
                        "__a",
                        "1_",
                        "i",
                        ">=",
                        "<=",
                        "{<",
                        "&",
                        "@",
                        "~",
                        "foo",
                        "String",
                        "É",
                        "\"",
                        "1.",
                        "-0",
                        "0.00",
                    ]);
                    ts[k] = x.to_string();
                }
                _ => {
                    let mut cs: Vec<char> = ts[k].chars().collect();
                    let j = r.below(cs.len());
                    cs[j] = *r.pick(&[
                        'a', '1', '.', '#', '_', '"', '=', '<', '>', '(', '|', ' ', '$', 'e',
                    ]);
                    ts[k] = cs.into_iter().collect();
                }
            }
            // more digits than a float holds are not compared exactly
            let long = |t: &String| {
                t.contains(|c| ".eE".contains(c))
                    && t.chars().filter(|c| c.is_ascii_digit()).count() > 15
            };
            if !ts.iter().any(long) {
                texts.push(layout(r, &ts));
            }
        }
    }
    json!({"trees": trees, "texts": texts})
}
