//! The model as a state machine: sessions of mutations, each followed by an observation of the
//! complete model, and queries of everything a model answers about itself.
use crate::fold::{self, Spelling};
use crate::gen::{self, Cfg, Rng};
use crate::wire::*;
use atelier_core::model::shapes::{HasTraits, MemberShape, ShapeKind, TopLevelShape};
use atelier_core::model::{HasIdentity, Identifier, Model, ShapeID};
use atelier_core::Version;
use serde_json::{json, Map, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn s<'a>(w: &'a Value, k: &str) -> &'a str {
    w[k].as_str().unwrap_or("")
}
fn id(w: &Value, k: &str) -> ShapeID {
    ShapeID::from_str(s(w, k)).unwrap()
}
fn ident(w: &Value, k: &str) -> Identifier {
    Identifier::from_str(s(w, k)).unwrap()
}

pub fn query(m: &Model, pool: &Value) -> Value {
    let ids: Vec<ShapeID> = items(&pool["ids"])
        .map(|i| ShapeID::from_str(i.as_str().unwrap()).unwrap())
        .collect();
    let keys: Vec<&str> = items(&pool["keys"]).map(|i| i.as_str().unwrap()).collect();
    let names: Vec<Identifier> = items(&pool["names"])
        .map(|i| Identifier::from_str(i.as_str().unwrap()).unwrap())
        .collect();
    let tids: Vec<ShapeID> = items(&pool["traits"])
        .map(|i| ShapeID::from_str(i.as_str().unwrap()).unwrap())
        .collect();
    let mut q = Map::new();
    q.insert("has_metadata".into(), json!(m.has_metadata()));
    q.insert("has_shapes".into(), json!(m.has_shapes()));
    q.insert("is_complete".into(), json!(m.is_complete()));
    let strs = |v: Vec<String>| -> Value {
        let mut v = v;
        v.sort();
        json!(v)
    };
    q.insert(
        "shape_names".into(),
        strs(m.shape_names().map(|i| i.to_string()).collect()),
    );
    q.insert(
        "unresolved_names".into(),
        strs(m.unresolved_shape_names().map(|i| i.to_string()).collect()),
    );
    q.insert(
        "namespaces".into(),
        strs(m.namespaces().iter().map(|i| i.to_string()).collect()),
    );
    q.insert(
        "has_meta".into(),
        Value::Object(
            keys.iter()
                .map(|k| (k.to_string(), json!(m.has_metadata_value(k))))
                .collect(),
        ),
    );
    q.insert(
        "meta".into(),
        Value::Object(
            keys.iter()
                .map(|k| {
                    (
                        k.to_string(),
                        m.metadata_value(k).map(snap_node).unwrap_or_else(absent),
                    )
                })
                .collect(),
        ),
    );
    q.insert(
        "has_shape".into(),
        Value::Object(
            ids.iter()
                .map(|i| (i.to_string(), json!(m.has_shape(i))))
                .collect(),
        ),
    );
    q.insert(
        "shape".into(),
        Value::Object(
            ids.iter()
                .map(|i| {
                    (
                        i.to_string(),
                        json!(m.shape(i).map(|s| s.id().to_string()).unwrap_or_default()),
                    )
                })
                .collect(),
        ),
    );
    let mut per = Map::new();
    for sh in m.shapes() {
        per.insert(sh.id().to_string(), query_shape(sh, &names, &tids, &ids));
    }
    q.insert("shapes".into(), Value::Object(per));
    Value::Object(q)
}

fn trait_q<T: HasTraits>(t: &T, tids: &[ShapeID]) -> Value {
    let has: Map<String, Value> = tids
        .iter()
        .map(|i| (i.to_string(), json!(t.has_trait(i))))
        .collect();
    let val: Map<String, Value> = tids
        .iter()
        .map(|i| {
            let v = match t.trait_named(i) {
                None => json!({"k":"none","s":"","xs":[],"kv":{}}),
                Some(v) => v.as_ref().map(snap_node).unwrap_or_else(absent),
            };
            (i.to_string(), v)
        })
        .collect();
    let named: Map<String, Value> = [
        ("documentation", t.has_documentation()),
        ("externalDocumentation", t.has_external_documentation()),
        ("length", t.has_length()),
        ("pattern", t.has_pattern()),
        ("requiresLength", t.has_required_length()),
        ("box", t.is_boxed()),
        ("deprecated", t.is_deprecated()),
        ("error", t.is_error()),
        ("idempotent", t.is_idempotent()),
        ("noReplace", t.is_no_replace()),
        ("paginated", t.is_paginated()),
        ("private", t.is_private()),
        ("readonly", t.is_readonly()),
        ("references", t.is_references()),
        ("required", t.is_required()),
        ("sensitive", t.is_sensitive()),
        ("streaming", t.is_streaming()),
        ("since", t.is_since()),
        ("tags", t.is_tagged()),
        ("title", t.is_titled()),
        ("trait", t.is_trait()),
        ("uniqueItems", t.has_unique_items()),
        ("unstable", t.is_unstable()),
    ]
    .iter()
    .map(|(k, b)| (k.to_string(), json!(b)))
    .collect();
    json!({"any": t.has_traits(), "has": has, "val": val, "named": named})
}

fn query_shape(
    sh: &TopLevelShape,
    names: &[Identifier],
    tids: &[ShapeID],
    ids: &[ShapeID],
) -> Value {
    let is: Map<String, Value> = [
        ("simple", sh.is_simple()),
        ("list", sh.is_list()),
        ("set", sh.is_set()),
        ("map", sh.is_map()),
        ("structure", sh.is_structure()),
        ("union", sh.is_union()),
        ("service", sh.is_service()),
        ("operation", sh.is_operation()),
        ("resource", sh.is_resource()),
        ("unresolved", sh.is_unresolved()),
    ]
    .iter()
    .map(|(k, b)| (k.to_string(), json!(b)))
    .collect();
    let b = sh.body();
    let as_: Map<String, Value> = [
        ("simple", b.as_simple().is_some()),
        ("list", b.as_list().is_some()),
        ("set", b.as_set().is_some()),
        ("map", b.as_map().is_some()),
        ("structure", b.as_structure().is_some()),
        ("union", b.as_union().is_some()),
        ("service", b.as_service().is_some()),
        ("operation", b.as_operation().is_some()),
        ("resource", b.as_resource().is_some()),
        ("unresolved", b.is_unresolved()),
    ]
    .iter()
    .map(|(k, b)| (k.to_string(), json!(b)))
    .collect();
    let has_member: Map<String, Value> = names
        .iter()
        .map(|n| (n.to_string(), json!(sh.has_member(n))))
        .collect();
    let member: Map<String, Value> = names
        .iter()
        .map(|n| {
            (
                n.to_string(),
                json!(sh
                    .member(n)
                    .map(|m| m.target().to_string())
                    .unwrap_or_default()),
            )
        })
        .collect();
    let mtraits: Map<String, Value> = names
        .iter()
        .filter_map(|n| sh.member(n).map(|m| (n.to_string(), trait_q(m, tids))))
        .collect();
    let mut roles = Map::new();
    let mut body_any = false;
    let mut has_n: Map<String, Value> = names
        .iter()
        .map(|n| (n.to_string(), json!(false)))
        .collect();
    let mut get_n: Map<String, Value> = names.iter().map(|n| (n.to_string(), json!(""))).collect();
    let mut any_op = false;
    let mut any_ren = false;
    let mut ren_has = Map::new();
    let mut ren_get = Map::new();
    match sh.body() {
        ShapeKind::Structure(x) | ShapeKind::Union(x) => {
            body_any = x.has_members();
            for n in names {
                has_n.insert(n.to_string(), json!(x.has_member(n)));
                get_n.insert(
                    n.to_string(),
                    json!(x
                        .member(n)
                        .map(|m| m.target().to_string())
                        .unwrap_or_default()),
                );
            }
        }
        ShapeKind::Service(x) => {
            roles.insert("operations".into(), json!(x.has_operations()));
            roles.insert("resources".into(), json!(x.has_resources()));
            any_ren = x.has_renames();
            for i in ids {
                ren_has.insert(i.to_string(), json!(x.has_rename_shape(i)));
                ren_get.insert(
                    i.to_string(),
                    json!(x
                        .contains_rename_shape(i)
                        .map(|n| n.to_string())
                        .unwrap_or_default()),
                );
            }
        }
        ShapeKind::Operation(x) => {
            roles.insert("input".into(), json!(x.has_input()));
            roles.insert("output".into(), json!(x.has_output()));
            roles.insert("errors".into(), json!(x.has_errors()));
        }
        ShapeKind::Resource(x) => {
            roles.insert("create".into(), json!(x.has_create()));
            roles.insert("put".into(), json!(x.has_put()));
            roles.insert("read".into(), json!(x.has_read()));
            roles.insert("update".into(), json!(x.has_update()));
            roles.insert("delete".into(), json!(x.has_delete()));
            roles.insert("list".into(), json!(x.has_list()));
            roles.insert("operations".into(), json!(x.has_operations()));
            roles.insert(
                "collectionOperations".into(),
                json!(x.has_collection_operations()),
            );
            roles.insert("resources".into(), json!(x.has_resources()));
            any_op = x.has_any_resource_operation();
            body_any = x.has_identifiers();
            for n in names {
                has_n.insert(n.to_string(), json!(x.has_identifier(n)));
                get_n.insert(
                    n.to_string(),
                    json!(x.identifier(n).map(|m| m.to_string()).unwrap_or_default()),
                );
            }
        }
        _ => {}
    }
    json!({"is": is, "as": as_, "prelude": sh.is_prelude_shape(), "takes_members": sh.has_members(),
           "has_member": has_member, "member": member, "traits": trait_q(sh, tids),
           "mtraits": mtraits, "roles": roles, "body_any": body_any, "has_n": has_n, "get_n": get_n,
           "any_op": any_op, "any_ren": any_ren, "ren_has": ren_has, "ren_get": ren_get})
}

/// Apply one operation to the model; Ok(Ok(())) succeeded, Ok(Err(..)) refused.
fn step(m: &mut Model, op: &Value) -> Result<(), (String, String)> {
    let e = |r: atelier_core::error::Result<()>| r.map_err(|e| snap_err(&e));
    match s(op, "op") {
        "new" => {
            *m = build_model(&op["init"]);
            Ok(())
        }
        "merge" => e(m.merge(build_model(&op["other"]))),
        "add_meta" => e(m
            .add_metadata(s(op, "key").into(), build_node(&op["val"]))
            .map(|_| ())),
        "remove_meta" => {
            let _ = m.remove_metadata(s(op, "key"));
            Ok(())
        }
        "add_shape" => e(m.add_shape(build_shape(s(op, "id"), &op["sh"]))),
        "remove_shape" => {
            let _ = m.remove_shape(&id(op, "id"));
            Ok(())
        }
        "apply" => match m.shape_mut(&id(op, "id")) {
            None => Err(("NoShape".into(), "".into())),
            Some(sh) => {
                if op["val"]["k"] == "absent" && s(op, "how") == "bare" {
                    e(sh.apply(id(op, "trait")))
                } else {
                    e(sh.apply_with_value(id(op, "trait"), build_opt_node(&op["val"])))
                }
            }
        },
        "append_traits" => match m.shape_mut(&id(op, "id")) {
            None => Err(("NoShape".into(), "".into())),
            Some(sh) => e(sh.append_traits(&build_traits(&op["traits"]))),
        },
        "remove_trait" => {
            if let Some(sh) = m.shape_mut(&id(op, "id")) {
                sh.remove_trait(&id(op, "trait"));
            }
            Ok(())
        }
        "body" => match m.shape_mut(&id(op, "id")) {
            None => Err(("NoShape".into(), "".into())),
            Some(sh) => {
                let known = m_body(sh, op);
                if known {
                    Ok(())
                } else {
                    Err(("NoSuch".into(), "".into()))
                }
            }
        },
        "set_body" => match m.shape_mut(&id(op, "id")) {
            None => Err(("NoShape".into(), "".into())),
            Some(sh) => {
                sh.set_body(build_shape(s(op, "id"), &op["sh"]).body().clone());
                Ok(())
            }
        },
        o => panic!("unknown op {}", o),
    }
}

/// Mutators of shape bodies. `f` names the field, `how` what is done with it.
fn m_body(sh: &mut TopLevelShape, op: &Value) -> bool {
    let how = s(op, "how").to_string();
    let f = s(op, "f").to_string();
    let tgt = || id(op, "t");
    let list: Vec<ShapeID> = items(&op["ts"])
        .map(|i| ShapeID::from_str(i.as_str().unwrap()).unwrap())
        .collect();
    // the shape that is referred to, for the mutators that take it whole
    let of = || {
        let kind = s(op, "sk");
        let mut w = gen::blank(kind);
        let mem: &[&str] = match kind {
            "list" | "set" => &["member"],
            "map" => &["key", "value"],
            _ => &[],
        };
        for n in mem {
            w["mem"][*n] = json!({"t": "smithy.api#String", "traits": {}});
        }
        if kind == "service" {
            w["ver"] = json!("1");
        }
        build_shape(s(op, "t"), &w)
    };
    let mem = || {
        let w = json!({"t": op["t"], "traits": op["mts"]});
        build_member(s(op, "n"), &w)
    };
    let bare = || {
        let mut m = MemberShape::new(ident(op, "n"), id(op, "id"));
        m.set_target(tgt());
        m
    };
    macro_rules! array {
        ($b:expr, $set:ident, $add:ident, $append:ident, $remove:ident, $of:ident) => {
            match how.as_str() {
                "of" => $b.$of(&of()),
                "set" => $b.$set(&list),
                "add" => $b.$add(tgt()),
                "append" => $b.$append(&list),
                "remove" => $b.$remove(&tgt()),
                _ => return false,
            }
        };
    }
    macro_rules! optional {
        ($b:expr, $set:ident, $unset:ident, $of:ident) => {
            match how.as_str() {
                "of" => $b.$of(&of()),
                "set1" => $b.$set(tgt()),
                "unset" => $b.$unset(),
                _ => return false,
            }
        };
    }
    match (sh.body_mut(), f.as_str()) {
        (ShapeKind::List(b), "mem") | (ShapeKind::Set(b), "mem") => {
            match (how.as_str(), s(op, "n").to_lowercase().as_str()) {
                ("put", "member") => b.set_member(bare()),
                ("putm", "member") => b.set_member(mem()),
                _ => return false,
            }
        }
        (ShapeKind::Map(b), "mem") => match (how.as_str(), s(op, "n").to_lowercase().as_str()) {
            ("put", "key") => b.set_key(bare()),
            ("putm", "key") => b.set_key(mem()),
            ("put", "value") => b.set_value(bare()),
            ("putm", "value") => b.set_value(mem()),
            _ => return false,
        },
        (ShapeKind::Structure(b), "mem") | (ShapeKind::Union(b), "mem") => match how.as_str() {
            "putm" => {
                let _ = b.add_a_member(mem());
            }
            "put" => b.add_member(ident(op, "n"), tgt()),
            "del" => {
                let _ = b.remove_member(&ident(op, "n"));
            }
            _ => return false,
        },
        (ShapeKind::Service(b), "ver") => b.set_version(s(op, "n")),
        (ShapeKind::Service(b), "operations") => {
            array!(
                b,
                set_operations,
                add_operation,
                append_operations,
                remove_operation,
                add_operation_shape
            )
        }
        (ShapeKind::Service(b), "resources") => {
            array!(
                b,
                set_resources,
                add_resource,
                append_resources,
                remove_resource,
                add_resource_shape
            )
        }
        (ShapeKind::Service(b), "ren") => match how.as_str() {
            "put" => {
                let _ = b.insert_rename_shape(tgt(), ident(op, "n"));
            }
            "del" => {
                let _ = b.remove_rename_shape(&tgt());
            }
            "all" => b.set_renames(
                pairs(&op["kv"])
                    .map(|(k, v)| {
                        (
                            ShapeID::from_str(k).unwrap(),
                            Identifier::from_str(v.as_str().unwrap()).unwrap(),
                        )
                    })
                    .collect(),
            ),
            _ => return false,
        },
        (ShapeKind::Operation(b), "input") => optional!(b, set_input, unset_input, set_input_shape),
        (ShapeKind::Operation(b), "output") => {
            optional!(b, set_output, unset_output, set_output_shape)
        }
        (ShapeKind::Operation(b), "errors") => {
            array!(
                b,
                set_errors,
                add_error,
                append_errors,
                remove_error,
                add_error_shape
            )
        }
        (ShapeKind::Resource(b), "idents") => match how.as_str() {
            "put" => {
                let _ = b.add_identifier(ident(op, "n"), tgt());
            }
            "del" => {
                let _ = b.remove_identifier(&ident(op, "n"));
            }
            "all" => {
                let kv: std::collections::HashMap<Identifier, ShapeID> = pairs(&op["kv"])
                    .map(|(k, v)| {
                        (
                            Identifier::from_str(k).unwrap(),
                            ShapeID::from_str(v.as_str().unwrap()).unwrap(),
                        )
                    })
                    .collect();
                b.set_identifiers(kv)
            }
            _ => return false,
        },
        (ShapeKind::Resource(b), "create") => {
            optional!(b, set_create, unset_create, set_create_operation_shape)
        }
        (ShapeKind::Resource(b), "put") => {
            optional!(b, set_put, unset_put, set_put_operation_shape)
        }
        (ShapeKind::Resource(b), "read") => {
            optional!(b, set_read, unset_read, set_read_operation_shape)
        }
        (ShapeKind::Resource(b), "update") => {
            optional!(b, set_update, unset_update, set_update_operation_shape)
        }
        (ShapeKind::Resource(b), "delete") => {
            optional!(b, set_delete, unset_delete, set_delete_operation_shape)
        }
        (ShapeKind::Resource(b), "list") => {
            optional!(b, set_list, unset_list, set_list_operation_shape)
        }
        (ShapeKind::Resource(b), "operations") => {
            array!(
                b,
                set_operations,
                add_operation,
                append_operations,
                remove_operation,
                add_operation_shape
            )
        }
        (ShapeKind::Resource(b), "collectionOperations") => array!(
            b,
            set_collection_operations,
            add_collection_operation,
            append_collection_operations,
            remove_collection_operation,
            add_collection_operation_shape
        ),
        (ShapeKind::Resource(b), "resources") => {
            array!(
                b,
                set_resources,
                add_resource,
                append_resources,
                remove_resource,
                add_resource_shape
            )
        }
        _ => return false,
    }
    true
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let mut m = Model::new(Version::V10);
    let empty = json!({"ver": "1.0", "meta": {}, "shapes": {}});
    let init = if case["init"].is_null() {
        &empty
    } else {
        &case["init"]
    };
    let mut broken = false;
    let folded = case["fold"].as_u64();
    let mut sp = Spelling::new(folded.unwrap_or(0));
    let new = json!({"op": "new", "init": init});
    if folded.is_some() {
        for op in std::iter::once(&new).chain(items(&case["ops"])) {
            fold::op(op, &mut |x| sp.learn(x));
        }
    }
    for op in std::iter::once(&new).chain(items(&case["ops"])) {
        let mut rec = op.clone();
        let op = &match folded {
            Some(_) => fold::op(op, &mut |x| sp.any(x)),
            None => op.clone(),
        };
        if s(op, "op") == "query" {
            let q = catch_unwind(AssertUnwindSafe(|| query(&m, &op["pool"])));
            let q = q.unwrap_or(json!({"panic": true}));
            rec["q"] = match folded {
                Some(_) => fold::answers(&q, &mut |x| sp.first(x)),
                None => q,
            };
            out.push(rec);
            continue;
        }
        if broken {
            break;
        }
        let r = catch_unwind(AssertUnwindSafe(|| step(&mut m, op)));
        let (r, err, arg) = match r {
            Ok(Ok(())) => ("ok", String::new(), String::new()),
            Ok(Err((k, a))) => ("err", k, a),
            Err(_) => {
                broken = true;
                ("panic", String::new(), String::new())
            }
        };
        rec["r"] = json!(r);
        rec["err"] = json!(err);
        let post = snap_model(&m);
        if folded.is_some() {
            rec["arg"] = json!(match err.as_str() {
                "MergeMetadataConflict" | "" => arg,
                _ => sp.first(&arg),
            });
            rec["post"] = fold::model(&post, &mut |x| sp.first(x));
        } else {
            rec["arg"] = json!(arg);
            rec["post"] = post;
        }
        out.push(rec);
    }
}

// ------------------------------------------------------------------------------------------------
// generation

fn pool(r: &mut Rng, c: &Cfg) -> Value {
    let mut ids: Vec<String> = vec![];
    for ns in &c.nss {
        for n in &c.names {
            ids.push(format!("{}#{}", ns, n));
        }
    }
    ids.push("smithy.api#String".into());
    let _ = r;
    json!({"ids": ids, "keys": ["authors", "suppressions", "x-y", "nokey"],
           "names": ["first", "second", "id", "key", "value", "member", "nope"],
           "traits": c.traits})
}

/// An identifier that differs from another one a little.
fn near_id(r: &mut Rng, id: &str) -> String {
    let root = id.split('$').next().unwrap();
    let mut at = root.splitn(2, '#');
    let (ns, name) = (at.next().unwrap(), at.next().unwrap_or("X"));
    match r.below(7) {
        0 | 1 => format!("{}${}", root, r.pick(&["first", "member", "value", "id"])),
        2 => format!(
            "{}#{}",
            r.pick(&["smithy.api", "example.traits", "com.acme.v2", "a"]),
            name
        ),
        3 => format!("{}.more#{}", ns, name),
        4 => format!("{}#{}2", ns, name),
        5 => match ns.rfind('.') {
            Some(i) => format!("{}#{}", &ns[..i], name),
            None => format!("x.{}#{}", ns, name),
        },
        _ => root.to_string(),
    }
}

/// The keys of a model's metadata and others that differ from them a little.
fn meta_keys(r: &mut Rng, base: &Value) -> Vec<String> {
    let mut keys: Vec<String> = pairs(&base["meta"]).map(|(k, _)| k.clone()).collect();
    keys.push("authors".into());
    keys.push("x-y".into());
    for k in keys.clone() {
        keys.push(match r.below(8) {
            0 => format!(" {}", k),
            1 => format!("{} ", k),
            2 => k.to_uppercase(),
            3 => k.to_lowercase(),
            4 => format!("{}.x", k),
            5 => format!("\"{}\"", k),
            6 => k.replace('-', "_"),
            _ => String::new(),
        });
    }
    keys.sort();
    keys.dedup();
    keys
}

/// What to ask about a model: what it has, and what is named almost like that.
fn pool_near(r: &mut Rng, c: &Cfg, base: &Value, keys: &[String]) -> Value {
    let mut pl = pool(r, c);
    let add = |pl: &mut Value, k: &str, v: String| {
        let xs = pl[k].as_array_mut().unwrap();
        if !xs.iter().any(|x| x == &json!(v)) {
            xs.push(json!(v));
        }
    };
    for k in keys {
        add(&mut pl, "keys", k.clone());
    }
    for (i, sh) in pairs(&base["shapes"]) {
        add(&mut pl, "ids", i.clone());
        let n = near_id(r, i);
        add(&mut pl, "ids", n);
        for k in ["mem", "idents"] {
            for (n, _) in pairs(&sh[k]).take(3) {
                add(&mut pl, "names", n.clone());
            }
        }
        for (t, _) in pairs(&sh["traits"]) {
            let t = if r.pct(50) { near_id(r, t) } else { t.clone() };
            add(&mut pl, "traits", t);
        }
    }
    pl
}

fn small_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.names = vec!["Alpha", "Beta", "GammaRay", "Delta2"];
    c.nss = vec!["smithy.example", "com.acme.v2"];
    c.strs = vec!["a", "b"];
    c.depth = 1;
    c.max_shapes = 4;
    c.trait_pct = 50;
    c.unresolved_pct = 30;
    if r.pct(40) {
        c.nss = vec!["smithy.example"];
    }
    if r.pct(30) {
        c.traits = vec!["smithy.api#tags", "example.traits#marker"];
    }
    c.members = vec!["first", "second", "id"];
    c
}

fn known(m: &Value) -> Vec<String> {
    pairs(&m["shapes"]).map(|(k, _)| k.clone()).collect()
}

/// A model that mostly overlaps with the previous ones: reuses shapes of `prev`, mutated a little.
fn related(r: &mut Rng, c: &Cfg, prev: &[Value]) -> Value {
    let mut m = gen::model(r, c);
    if let Some(p) = if prev.is_empty() {
        None
    } else {
        Some(r.pick(prev).clone())
    } {
        for (k, sh) in pairs(&p["shapes"]) {
            if r.pct(70) {
                let mut sh = sh.clone();
                match r.below(10) {
                    0 => {
                        sh = gen::blank("unresolved");
                        sh["traits"] = gen::traits(r, c)
                    }
                    1 | 2 => sh["traits"] = gen::traits(r, c),
                    3 => {
                        // member-level traits differ
                        let ns: Vec<String> = pairs(&sh["mem"]).map(|(n, _)| n.clone()).collect();
                        for n in ns {
                            sh["mem"][&n]["traits"] = gen::traits(r, c);
                        }
                    }
                    4 => {
                        // rename or retarget a member
                        let ns: Vec<String> = pairs(&sh["mem"]).map(|(n, _)| n.clone()).collect();
                        if !ns.is_empty() {
                            let n = r.pick(&ns).clone();
                            if r.pct(50) && (sh["kind"] == "structure" || sh["kind"] == "union") {
                                let v = sh["mem"].as_object_mut().unwrap().remove(&n).unwrap();
                                sh["mem"]["other"] = v;
                            } else {
                                sh["mem"][&n]["t"] = json!("smithy.api#Blob");
                            }
                        }
                    }
                    5 => {
                        let k = *r.pick(&["list", "set"]);
                        if sh["kind"] == "list" || sh["kind"] == "set" {
                            sh["kind"] = json!(k);
                        } else if sh["kind"] == "structure" || sh["kind"] == "union" {
                            sh["kind"] = json!(*r.pick(&["structure", "union"]));
                        }
                    }
                    6 => {
                        let role = *r.pick(&["operations", "resources", "errors"]);
                        let has = items(&sh["refs"][role]).count() > 0;
                        if has {
                            sh["refs"][role].as_array_mut().unwrap().reverse();
                        }
                    }
                    7 => {
                        // strip all traits: always compatible
                        sh["traits"] = json!({});
                    }
                    _ => {}
                }
                m["shapes"][k] = sh;
            }
        }
        for (k, v) in pairs(&p["meta"]) {
            if r.pct(50) {
                m["meta"][k] = v.clone();
            }
        }
    }
    m
}

/// Make `m` compatible with `acc` often enough that long successful sequences of merges occur.
fn soften(r: &mut Rng, m: &mut Value, acc: &Value) {
    let ids = known(m);
    for k in ids {
        if let Some(a) = acc["shapes"].get(&k) {
            if r.pct(80) {
                let mut n = m["shapes"][&k].clone();
                if a["kind"] != "unresolved" && n["kind"] != "unresolved" {
                    let tr = n["traits"].clone();
                    let mem = n["mem"].clone();
                    n = a.clone();
                    n["traits"] = tr;
                    for (mn, mv) in pairs(&mem) {
                        if n["mem"].get(mn).is_some() {
                            n["mem"][mn]["traits"] = mv["traits"].clone();
                        }
                    }
                    let ns: Vec<String> = pairs(&n["mem"]).map(|(n, _)| n.clone()).collect();
                    for mn in ns {
                        let at = a["mem"][&mn]["traits"].clone();
                        compat_traits(&mut n["mem"][&mn]["traits"], &at);
                    }
                }
                compat_traits(&mut n["traits"], &a["traits"]);
                m["shapes"][&k] = n;
            }
        }
    }
    let ks: Vec<String> = pairs(&m["meta"]).map(|(k, _)| k.clone()).collect();
    for k in ks {
        if let Some(a) = acc["meta"].get(&k) {
            if !(a["k"] == "arr" && m["meta"][&k]["k"] == "arr") {
                m["meta"][&k] = a.clone();
            }
        }
    }
}

fn compat_traits(n: &mut Value, a: &Value) {
    let ks: Vec<String> = pairs(n).map(|(k, _)| k.clone()).collect();
    for k in ks {
        if let Some(av) = a.get(&k) {
            if !(av["k"] == "arr" && n[&k]["k"] == "arr") {
                n[&k] = av.clone();
            }
        }
    }
}

/// Sessions of merges (C01).
/// An identifier that differs from this one in one part.
fn other_id(r: &mut Rng, id: &str) -> String {
    let (ns, rest) = id.split_once('#').unwrap_or(("a", id));
    let (name, mem) = rest
        .split_once('$')
        .map(|(n, m)| (n, Some(m)))
        .unwrap_or((rest, None));
    match r.below(5) {
        0 => format!("{}.x#{}", ns, rest),
        1 => format!("other.place#{}", rest),
        2 => format!(
            "{}#{}X{}",
            ns,
            name,
            mem.map(|m| format!("${}", m)).unwrap_or_default()
        ),
        3 if mem.is_some() => format!("{}#{}", ns, name),
        3 => format!("{}#{}$first", ns, name),
        _ => "smithy.api#Blob".to_string(),
    }
}

/// Changes a shape in one place (in none when there is no such place).
fn one_change(r: &mut Rng, c: &Cfg, sh: &mut Value) {
    let kind = s(sh, "kind").to_string();
    let names: Vec<String> = pairs(&sh["mem"]).map(|(n, _)| n.clone()).collect();
    let roles: Vec<&str> = ROLES
        .iter()
        .filter(|k| items(&sh["refs"][**k]).count() > 0)
        .cloned()
        .collect();
    let idents: Vec<String> = pairs(&sh["idents"]).map(|(n, _)| n.clone()).collect();
    let rens: Vec<String> = pairs(&sh["ren"]).map(|(n, _)| n.clone()).collect();
    let ts: Vec<String> = pairs(&sh["traits"]).map(|(n, _)| n.clone()).collect();
    if !ts.is_empty() && r.pct(28) {
        let t = r.pick(&ts);
        if r.pct(50) && !names.is_empty() {
            let n = r.pick(&names);
            sh["mem"][n]["traits"][t] = sh["traits"][t].clone();
        }
        return gen::inner_change(r, c, &mut sh["traits"][t]);
    }
    if !names.is_empty() && r.pct(8) {
        // all of the members get the same
        let t = gen::traits(r, c);
        for n in &names {
            sh["mem"][n]["traits"] = t.clone();
        }
        return;
    }
    match r.below(8) {
        0..=2 if !names.is_empty() => {
            let n = r.pick(&names).clone();
            let t = s(&sh["mem"][&n], "t").to_string();
            sh["mem"][&n]["t"] = json!(other_id(r, &t));
        }
        3 if kind == "structure" || kind == "union" => {
            if names.is_empty() || r.pct(50) {
                sh["mem"]["extra"] = json!({"t": "smithy.api#String", "traits": {}});
            } else {
                let n = r.pick(&names).clone();
                let v = sh["mem"].as_object_mut().unwrap().remove(&n).unwrap();
                if r.pct(50) {
                    sh["mem"]["renamed"] = v;
                }
            }
        }
        4 => {
            let to: &[&str] = match kind.as_str() {
                "list" | "set" => &["list", "set"],
                "structure" | "union" => &["structure", "union"],
                "map" | "service" | "operation" | "resource" | "unresolved" => return,
                _ => &gen::SIMPLE,
            };
            sh["kind"] = json!(r.pick(to));
        }
        5 if kind == "service" => sh["ver"] = json!("2"),
        5 if kind == "resource" && !idents.is_empty() => {
            let n = r.pick(&idents).clone();
            let t = s(&sh["idents"], &n).to_string();
            sh["idents"][&n] = json!(other_id(r, &t));
        }
        6 if kind == "resource" => sh["idents"]["extra"] = json!("smithy.api#String"),
        6 if kind == "service" && !rens.is_empty() => {
            let n = r.pick(&rens).clone();
            sh["ren"][&n] = json!("Otherwise");
        }
        6 if kind == "service" => sh["ren"]["smithy.api#String"] = json!("Text"),
        _ if !roles.is_empty() => {
            let k = *r.pick(&roles);
            let mut v: Vec<Value> = items(&sh["refs"][k]).cloned().collect();
            let n = r.below(v.len());
            match r.below(4) {
                0 => {
                    let _ = v.remove(n);
                }
                1 if v.len() > 1 => v.rotate_left(1),
                _ => v[n] = json!(other_id(r, v[n].as_str().unwrap())),
            }
            sh["refs"][k] = Value::Array(v);
        }
        _ => sh["traits"] = gen::traits(r, c),
    }
}

/// A model, and shapes of it once more with one place changed.
fn gen_near(r: &mut Rng) -> Value {
    let mut c = small_cfg(r);
    c.max_shapes = 4;
    let mut m = gen::model(r, &c);
    let names = known(&m);
    if !names.is_empty() && r.pct(25) {
        // a value that has something at every depth
        let mut deep = serde_json::Map::new();
        for k in ["a", "b", "c"] {
            let inner = gen::lit("str", k);
            let v = match r.below(4) {
                0 => gen::arr(vec![inner]),
                1 => gen::arr(vec![gen::arr(vec![inner]), gen::lit("int", "1")]),
                2 => gen::obj(
                    [(k.to_string(), gen::arr(vec![inner]))]
                        .into_iter()
                        .collect(),
                ),
                _ => inner,
            };
            deep.insert(k.to_string(), v);
        }
        let t = *r.pick(&c.traits);
        m["shapes"][r.pick(&names)]["traits"] = json!({ t: gen::obj(deep) });
    }
    let m = m;
    let mut ops = vec![json!({"op": "merge", "other": m})];
    let ids = known(&m);
    for _ in 0..1 + r.below(2) {
        let mut o = json!({"ver": "1.0", "meta": {}, "shapes": {}});
        if r.pct(20) {
            o["meta"] = m["meta"].clone();
            let ks: Vec<String> = pairs(&m["meta"]).map(|(n, _)| n.clone()).collect();
            if !ks.is_empty() && r.pct(40) {
                let k = r.pick(&ks);
                gen::inner_change(r, &c, &mut o["meta"][k]);
            }
        }
        for i in &ids {
            if r.pct(60) {
                o["shapes"][i] = m["shapes"][i].clone();
                // the same again with the same traits, or with none
                if r.pct(60) {
                    o["shapes"][i]["traits"] = json!({});
                    let ns: Vec<String> = pairs(&o["shapes"][i]["mem"])
                        .map(|(n, _)| n.clone())
                        .collect();
                    for n in ns {
                        o["shapes"][i]["mem"][&n]["traits"] = json!({});
                    }
                }
            }
        }
        let mine = known(&o);
        if !mine.is_empty() && r.pct(80) {
            let i = r.pick(&mine).clone();
            let mut sh = o["shapes"][&i].clone();
            one_change(r, &c, &mut sh);
            o["shapes"][&i] = sh;
        }
        if r.pct(25) && mine.len() == 1 {
            ops.push(json!({"op": "add_shape", "id": mine[0], "sh": o["shapes"][&mine[0]]}));
        } else {
            ops.push(json!({"op": "merge", "other": o}));
        }
    }
    json!({ "ops": ops })
}

pub fn gen_merge(r: &mut Rng) -> Value {
    if r.pct(50) {
        return gen_near(r);
    }
    let c = small_cfg(r);
    let mut prev: Vec<Value> = vec![];
    let mut ops = vec![];
    let mut acc = json!({"ver":"1.0","meta":{},"shapes":{}});
    let soft = r.pct(60);
    for _ in 0..(2 + r.below(4)) {
        let mut m = related(r, &c, &prev);
        if soft {
            soften(r, &mut m, &acc);
        }
        for (k, v) in pairs(&m["shapes"].clone()) {
            if acc["shapes"]
                .get(k)
                .map(|x| x["kind"] == "unresolved")
                .unwrap_or(true)
            {
                acc["shapes"][k] = v.clone();
            } else {
                for (tk, tv) in pairs(&v["traits"].clone()) {
                    acc["shapes"][k]["traits"][tk] = tv.clone();
                }
                for (mn, mv) in pairs(&v["mem"].clone()) {
                    for (tk, tv) in pairs(&mv["traits"].clone()) {
                        if acc["shapes"][k]["mem"].get(mn).is_some() {
                            acc["shapes"][k]["mem"][mn]["traits"][tk] = tv.clone();
                        }
                    }
                }
            }
        }
        for (k, v) in pairs(&m["meta"].clone()) {
            acc["meta"][k] = v.clone();
        }
        prev.push(m.clone());
        match r.below(6) {
            0 => {
                let key = *r.pick(&["authors", "x-y"]);
                ops.push(json!({"op":"add_meta","key":key,"val":gen::value(r,&c,1)}));
            }
            1 => {
                let k = known(&m);
                if !k.is_empty() {
                    let id = r.pick(&k).clone();
                    let sh = m["shapes"][&id].clone();
                    ops.push(json!({"op":"add_shape","id":id,"sh":sh}));
                }
            }
            _ => ops.push(json!({"op":"merge","other":m})),
        }
    }
    json!({ "ops": ops })
}

/// Sessions of definitions, references and applications in all orders (C02).
pub fn gen_apply(r: &mut Rng) -> Value {
    let mut c = small_cfg(r);
    c.names = vec!["Alpha", "Beta"];
    c.nss = vec!["smithy.example"];
    c.traits = vec![
        "smithy.api#tags",
        "example.traits#marker",
        "smithy.api#documentation",
    ];
    let ids: Vec<String> = c
        .names
        .iter()
        .map(|n| format!("smithy.example#{}", n))
        .collect();
    let mut ops = vec![];
    let mut defs: Vec<(String, Value)> = vec![];
    for i in &ids {
        let k = *r.pick(&gen::KINDS);
        defs.push((i.clone(), gen::shape_of(r, &c, k, &ids)));
    }
    for _ in 0..(3 + r.below(7)) {
        let id = r.pick(&ids).clone();
        match r.below(12) {
            0..=2 => {
                let sh = defs.iter().find(|d| d.0 == id).unwrap().1.clone();
                let mut sh = sh;
                if r.pct(60) {
                    sh["traits"] = gen::traits(r, &c);
                }
                ops.push(json!({"op":"add_shape","id":id,"sh":sh}));
            }
            3..=5 => {
                let mut sh = gen::blank("unresolved");
                sh["traits"] = gen::traits(r, &c);
                ops.push(json!({"op":"add_shape","id":id,"sh":sh}));
            }
            6 => {
                let mut mid = id.clone();
                mid.push_str("$first");
                let mut sh = if r.pct(50) {
                    gen::blank("unresolved")
                } else {
                    gen::shape_of(r, &c, "simple", &ids)
                };
                sh["traits"] = gen::traits(r, &c);
                ops.push(json!({"op":"add_shape","id":mid,"sh":sh}));
            }
            7 | 8 => {
                let t = *r.pick(&c.traits);
                let v = gen::trait_value(r, &c, t);
                ops.push(json!({"op":"apply","id":id,"trait":t,"val":v,
                                "how": *r.pick(&["bare","value"])}));
            }
            9 => {
                let ts = gen::traits(r, &c);
                ops.push(json!({"op":"append_traits","id":id,"traits":ts}));
            }
            10 => ops.push(
                json!({"op":"apply","id":id,"trait":"smithy.api#tags$member",
                                  "val":gen::lit("absent",""),"how":"value"}),
            ),
            _ => {
                let t = *r.pick(&c.traits);
                ops.push(json!({"op":"remove_trait","id":id,"trait":t}));
            }
        }
    }
    json!({ "ops": ops })
}

/// Sessions that interleave every mutator with queries (C05).
/// Any session, executed with identifiers in letters of any case.
pub fn gen_folded(r: &mut Rng) -> Value {
    let case = match r.below(5) {
        0 | 1 => gen_near(r),
        2 => gen_merge(r),
        3 => gen_apply(r),
        _ => gen_query(r),
    };
    fold::folded(&case, r.next() >> 12)
}

pub fn gen_query(r: &mut Rng) -> Value {
    let mut c = small_cfg(r);
    c.member_ids = true;
    c.traits = gen::TRAITS.to_vec();
    if r.pct(20) {
        c.nss.push("smithy.api");
    }
    if r.pct(30) {
        c.traits = vec![
            "smithy.api#documentation",
            "smithy.api#externalDocumentation",
            "smithy.api#length",
            "smithy.api#pattern",
            "smithy.api#requiresLength",
            "smithy.api#box",
            "smithy.api#deprecated",
            "smithy.api#error",
            "smithy.api#idempotent",
            "smithy.api#noReplace",
            "smithy.api#paginated",
            "smithy.api#private",
            "smithy.api#readonly",
            "smithy.api#references",
            "smithy.api#required",
            "smithy.api#sensitive",
            "smithy.api#streaming",
            "smithy.api#since",
            "smithy.api#tags",
            "smithy.api#title",
            "smithy.api#trait",
            "smithy.api#uniqueItems",
            "smithy.api#unstable",
        ];
    }
    if r.pct(50) {
        // traits of one name in several namespaces
        c.traits.extend(&[
            "example.traits#tags",
            "com.acme.v2#tags",
            "smithy.api.x#required",
            "smithy#api",
        ]);
    }
    let base = gen::model(r, &c);
    let keys = meta_keys(r, &base);
    let pl = pool_near(r, &c, &base, &keys);
    let mut ids = known(&base);
    ids.retain(|i| !i.contains('$'));
    if ids.is_empty() {
        ids.push("smithy.example#Alpha".into());
    }
    let mut ops = vec![
        json!({"op":"merge","other":base}),
        json!({"op":"query","pool":pl}),
    ];
    for _ in 0..(3 + r.below(8)) {
        let id = r.pick(&ids).clone();
        let t = gen::target(r, &c, &ids);
        let n = *r.pick(&c.members);
        match r.below(11) {
            0 => {
                let id = if r.pct(25) { near_id(r, &id) } else { id };
                ops.push(json!({"op":"remove_shape","id":id}))
            }
            1 => ops.push(
                json!({"op":"add_meta","key":r.pick(&keys).clone(),"val":gen::value(r,&c,1)}),
            ),
            2 => ops.push(json!({"op":"remove_meta","key":r.pick(&keys).clone()})),
            9 | 10 => {
                // a trait that the shape has, or one named almost like it
                let has: Vec<String> = pairs(&base["shapes"][&id]["traits"])
                    .map(|(t, _)| t.clone())
                    .collect();
                let t = if has.is_empty() || r.pct(20) {
                    r.pick(&c.traits).to_string()
                } else {
                    r.pick(&has).clone()
                };
                let t = if r.pct(40) { near_id(r, &t) } else { t };
                ops.push(json!({"op":"remove_trait","id":id,"trait":t}))
            }
            3 => {
                let sh = gen::shape(r, &c, &ids);
                let op = *r.pick(&["add_shape", "set_body"]);
                ops.push(json!({"op":op,"id":id,"sh":sh}))
            }
            4 => {
                let tr = *r.pick(&c.traits);
                ops.push(json!({"op":"apply","id":id,"trait":tr,"val":gen::trait_value(r,&c,tr),"how":"value"}))
            }
            _ => {
                let f = *r.pick(&[
                    "mem",
                    "ver",
                    "operations",
                    "resources",
                    "ren",
                    "input",
                    "output",
                    "errors",
                    "idents",
                    "create",
                    "put",
                    "read",
                    "update",
                    "delete",
                    "list",
                    "collectionOperations",
                ]);
                // choose a shape that has such a field when there is one
                let kind_of =
                    |i: &String| base["shapes"][i]["kind"].as_str().unwrap_or("").to_string();
                let want: &[&str] = match f {
                    "mem" => &["structure", "union", "list", "set", "map"],
                    "ver" | "ren" => &["service"],
                    "operations" | "resources" => &["service", "resource"],
                    "input" | "output" | "errors" => &["operation"],
                    _ => &["resource"],
                };
                let cands: Vec<String> = ids
                    .iter()
                    .filter(|i| want.contains(&kind_of(i).as_str()))
                    .cloned()
                    .collect();
                let id = if cands.is_empty() {
                    id
                } else {
                    r.pick(&cands).clone()
                };
                let how = match f {
                    "mem" => *r.pick(&["put", "put", "putm", "putm", "del"]),
                    "ren" | "idents" => *r.pick(&["put", "put", "all", "del"]),
                    "ver" => "set1",
                    "operations" | "resources" | "errors" | "collectionOperations" => {
                        *r.pick(&["set", "add", "append", "remove", "of", "of"])
                    }
                    _ => *r.pick(&["set1", "unset", "of"]),
                };
                let n = match kind_of(&id).as_str() {
                    "list" | "set" if r.pct(80) => "member",
                    "map" if r.pct(80) => *r.pick(&["key", "value"]),
                    _ => n,
                };
                let sk = *r.pick(&[
                    "operation",
                    "operation",
                    "operation",
                    "resource",
                    "resource",
                    "service",
                    "unresolved",
                    "structure",
                    "union",
                    "list",
                    "map",
                    "string",
                    "blob",
                ]);
                let mut kv = Map::new();
                for _ in 0..r.below(3) {
                    let (i, n) = (gen::target(r, &c, &ids), *r.pick(&c.members));
                    if f == "ren" {
                        kv.insert(i, json!(n));
                    } else {
                        kv.insert(n.into(), json!(i));
                    }
                }
                let mts = gen::traits(r, &c);
                let n = if f == "ver" { "3.2" } else { n };
                let ts: Vec<String> = (0..r.below(3)).map(|_| gen::target(r, &c, &ids)).collect();
                ops.push(
                    json!({"op":"body","id":id,"f":f,"how":how,"n":n,"t":t,"ts":ts,
                               "sk":sk,"kv":kv,"mts":mts}),
                );
            }
        }
        if r.pct(60) {
            ops.push(json!({"op":"query","pool":pl}));
        }
    }
    ops.push(json!({"op":"query","pool":pl}));
    json!({ "ops": ops })
}
