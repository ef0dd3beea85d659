//! Wire format between the specification (TLA+ values, as JSON) and the real types.
//! `snap_*` observe real objects through their public interface, `build_*` make real objects.
use atelier_core::error::{Error, ErrorKind};
use atelier_core::model::shapes::{
    AppliedTraits, HasTraits, ListOrSet, Map as MapShape, MemberShape, Operation, Resource,
    Service, ShapeKind, Simple, StructureOrUnion, TopLevelShape,
};
use atelier_core::model::values::{Number, Value as Node};
use atelier_core::model::{HasIdentity, Identifier, Model, ShapeID};
use atelier_core::Version;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::str::FromStr;

pub const ROLES: [&str; 13] = [
    "operations",
    "resources",
    "collectionOperations",
    "errors",
    "input",
    "output",
    "create",
    "put",
    "read",
    "update",
    "delete",
    "list",
    "unused",
];

pub fn f64_str(f: f64) -> String {
    format!("{:?}", f)
}

fn v(k: &str, s: &str) -> Value {
    json!({"k": k, "s": s, "xs": [], "kv": {}})
}

pub fn absent() -> Value {
    v("absent", "")
}

pub fn snap_node(n: &Node) -> Value {
    match n {
        Node::None => v("null", ""),
        Node::Boolean(b) => v("bool", if *b { "true" } else { "false" }),
        Node::String(s) => v("str", s),
        Node::Number(Number::Integer(i)) => v("int", &i.to_string()),
        Node::Number(Number::Float(f)) => v("float", &f64_str(*f)),
        Node::Array(xs) => {
            let xs: Vec<Value> = xs.iter().map(snap_node).collect();
            json!({"k": "arr", "s": "", "xs": xs, "kv": {}})
        }
        Node::Object(kv) => {
            let kv: Map<String, Value> =
                kv.iter().map(|(k, v)| (k.clone(), snap_node(v))).collect();
            json!({"k": "obj", "s": "", "xs": [], "kv": kv})
        }
    }
}

pub fn build_node(w: &Value) -> Node {
    let s = w["s"].as_str().unwrap();
    match w["k"].as_str().unwrap() {
        "null" | "absent" => Node::None,
        "bool" => Node::Boolean(s == "true"),
        "str" => Node::String(s.to_string()),
        "int" => Node::Number(Number::Integer(s.parse().unwrap())),
        "float" => Node::Number(Number::Float(s.parse().unwrap())),
        "arr" => Node::Array(items(&w["xs"]).map(build_node).collect()),
        "obj" => Node::Object(
            pairs(&w["kv"])
                .map(|(k, v)| (k.clone(), build_node(v)))
                .collect(),
        ),
        k => panic!("wire value kind {}", k),
    }
}

pub fn build_opt_node(w: &Value) -> Option<Node> {
    if w["k"] == "absent" {
        None
    } else {
        Some(build_node(w))
    }
}

/// Empty functions and empty sequences are the same value in TLA+, and may arrive as either.
pub fn items(w: &Value) -> Box<dyn Iterator<Item = &Value> + '_> {
    match w {
        Value::Array(xs) => Box::new(xs.iter()),
        _ => Box::new(std::iter::empty()),
    }
}

pub fn pairs(w: &Value) -> Box<dyn Iterator<Item = (&String, &Value)> + '_> {
    match w {
        Value::Object(m) => Box::new(m.iter()),
        _ => Box::new(std::iter::empty()),
    }
}

pub fn snap_traits(ts: &AppliedTraits) -> Value {
    let m: Map<String, Value> = ts
        .iter()
        .map(|(id, v)| {
            (
                id.to_string(),
                v.as_ref().map(snap_node).unwrap_or_else(absent),
            )
        })
        .collect();
    Value::Object(m)
}

pub fn build_traits(w: &Value) -> AppliedTraits {
    pairs(w)
        .map(|(id, v)| (ShapeID::from_str(id).unwrap(), build_opt_node(v)))
        .collect()
}

fn snap_member(m: &MemberShape) -> Value {
    json!({"t": m.target().to_string(), "traits": snap_traits(m.traits())})
}

pub fn build_member(n: &str, w: &Value) -> MemberShape {
    let target = ShapeID::from_str(w["t"].as_str().unwrap()).unwrap();
    let traits = build_traits(&w["traits"]);
    let named = Identifier::from_str(n).unwrap();
    if n.len() % 3 == 0 {
        let unnamed = Identifier::new_unchecked("unnamed");
        let mut renamed = MemberShape::with_traits(unnamed, target, traits);
        renamed.set_id(named);
        renamed
    } else {
        MemberShape::with_traits(named, target, traits)
    }
}

fn ids<'a>(it: impl Iterator<Item = &'a ShapeID>) -> Value {
    Value::Array(it.map(|i| Value::String(i.to_string())).collect())
}

fn opt(i: &Option<ShapeID>) -> Value {
    ids(i.iter())
}

pub fn empty_refs() -> Map<String, Value> {
    ROLES.iter().map(|r| (r.to_string(), json!([]))).collect()
}

pub fn kind_name(k: &ShapeKind) -> String {
    match k {
        ShapeKind::Simple(s) => s.to_string(),
        ShapeKind::List(_) => "list".into(),
        ShapeKind::Set(_) => "set".into(),
        ShapeKind::Map(_) => "map".into(),
        ShapeKind::Structure(_) => "structure".into(),
        ShapeKind::Union(_) => "union".into(),
        ShapeKind::Service(_) => "service".into(),
        ShapeKind::Operation(_) => "operation".into(),
        ShapeKind::Resource(_) => "resource".into(),
        ShapeKind::Unresolved => "unresolved".into(),
    }
}

pub fn snap_shape(s: &TopLevelShape) -> Value {
    let mut mem: Map<String, Value> = Map::new();
    let mut refs = empty_refs();
    let mut idents: Map<String, Value> = Map::new();
    let mut ren: Map<String, Value> = Map::new();
    let mut ver = String::new();
    match s.body() {
        ShapeKind::Simple(_) | ShapeKind::Unresolved => {}
        ShapeKind::List(l) | ShapeKind::Set(l) => {
            mem.insert(l.member().id().to_string(), snap_member(l.member()));
        }
        ShapeKind::Map(m) => {
            mem.insert(m.key().id().to_string(), snap_member(m.key()));
            mem.insert(m.value().id().to_string(), snap_member(m.value()));
        }
        ShapeKind::Structure(b) | ShapeKind::Union(b) => {
            for m in b.members() {
                mem.insert(m.id().to_string(), snap_member(m));
            }
        }
        ShapeKind::Service(b) => {
            ver = b.version().clone();
            refs.insert("operations".into(), ids(b.operations()));
            refs.insert("resources".into(), ids(b.resources()));
            for (k, n) in b.renames() {
                ren.insert(k.to_string(), Value::String(n.to_string()));
            }
        }
        ShapeKind::Operation(b) => {
            refs.insert("input".into(), opt(b.input()));
            refs.insert("output".into(), opt(b.output()));
            refs.insert("errors".into(), ids(b.errors()));
        }
        ShapeKind::Resource(b) => {
            for (n, t) in b.identifiers() {
                idents.insert(n.to_string(), Value::String(t.to_string()));
            }
            refs.insert("create".into(), opt(b.create()));
            refs.insert("put".into(), opt(b.put()));
            refs.insert("read".into(), opt(b.read()));
            refs.insert("update".into(), opt(b.update()));
            refs.insert("delete".into(), opt(b.delete()));
            refs.insert("list".into(), opt(b.list()));
            refs.insert("operations".into(), ids(b.operations()));
            refs.insert(
                "collectionOperations".into(),
                ids(b.collection_operations()),
            );
            refs.insert("resources".into(), ids(b.resources()));
        }
    }
    json!({"kind": kind_name(s.body()), "traits": snap_traits(s.traits()), "mem": mem, "ver": ver,
           "refs": refs, "idents": idents, "ren": ren})
}

fn sid(w: &Value) -> ShapeID {
    ShapeID::from_str(w.as_str().unwrap()).unwrap()
}

pub fn build_shape(id: &str, w: &Value) -> TopLevelShape {
    let refs = |r: &str| -> Vec<ShapeID> { items(&w["refs"][r]).map(sid).collect() };
    let one = |r: &str| -> Option<ShapeID> { refs(r).into_iter().next() };
    let mem = &w["mem"];
    let plain = |n: &str| pairs(&mem[n]["traits"]).next().is_none();
    let of = |n: &str| sid(&mem[n]["t"]);
    let body = match w["kind"].as_str().unwrap() {
        "unresolved" => ShapeKind::Unresolved,
        "list" if plain("member") => ShapeKind::List(ListOrSet::new(of("member"))),
        "set" if plain("member") => ShapeKind::Set(ListOrSet::new(of("member"))),
        "map" if plain("key") && plain("value") => {
            ShapeKind::Map(MapShape::new(of("key"), of("value")))
        }
        "list" => ShapeKind::List(ListOrSet::from(build_member("member", &mem["member"]))),
        "set" => ShapeKind::Set(ListOrSet::from(build_member("member", &mem["member"]))),
        "map" => ShapeKind::Map(MapShape::from(
            build_member("key", &mem["key"]),
            build_member("value", &mem["value"]),
        )),
        k @ ("structure" | "union") => {
            let ms: Vec<MemberShape> = pairs(mem).map(|(n, m)| build_member(n, m)).collect();
            let b = if ms.len() % 2 == 0 {
                StructureOrUnion::with_members(&ms)
            } else {
                let mut b = StructureOrUnion::new();
                for m in ms {
                    if m.has_traits() {
                        let _ = b.add_a_member(m);
                    } else {
                        b.add_member(m.id().clone(), m.target().clone());
                    }
                }
                b
            };
            if k == "structure" {
                ShapeKind::Structure(b)
            } else {
                ShapeKind::Union(b)
            }
        }
        "service" => {
            let mut b = Service::new(w["ver"].as_str().unwrap());
            b.set_operations(&refs("operations"));
            b.set_resources(&refs("resources"));
            b.set_renames(
                pairs(&w["ren"])
                    .map(|(k, n)| {
                        (
                            ShapeID::from_str(k).unwrap(),
                            Identifier::from_str(n.as_str().unwrap()).unwrap(),
                        )
                    })
                    .collect(),
            );
            ShapeKind::from(b)
        }
        "operation" => {
            let mut b = Operation::default();
            if let Some(i) = one("input") {
                b.set_input(i)
            }
            if let Some(i) = one("output") {
                b.set_output(i)
            }
            b.set_errors(&refs("errors"));
            ShapeKind::from(b)
        }
        "resource" => {
            let mut b = Resource::default();
            let h: HashMap<Identifier, ShapeID> = pairs(&w["idents"])
                .map(|(k, t)| (Identifier::from_str(k).unwrap(), sid(t)))
                .collect();
            b.set_identifiers(h);
            if let Some(i) = one("create") {
                b.set_create(i)
            }
            if let Some(i) = one("put") {
                b.set_put(i)
            }
            if let Some(i) = one("read") {
                b.set_read(i)
            }
            if let Some(i) = one("update") {
                b.set_update(i)
            }
            if let Some(i) = one("delete") {
                b.set_delete(i)
            }
            if let Some(i) = one("list") {
                b.set_list(i)
            }
            b.set_operations(&refs("operations"));
            b.set_collection_operations(&refs("collectionOperations"));
            b.set_resources(&refs("resources"));
            ShapeKind::from(b)
        }
        s => ShapeKind::from(Simple::from_str(s).unwrap()),
    };
    let traits = build_traits(&w["traits"]);
    let named = ShapeID::from_str(id).unwrap();
    if id.len() % 3 == 0 {
        let mut renamed = TopLevelShape::with_traits(
            named.make_shape(Identifier::new_unchecked("Unnamed")),
            body,
            traits,
        );
        renamed.set_id(named);
        renamed
    } else {
        TopLevelShape::with_traits(named, body, traits)
    }
}

pub fn snap_model(m: &Model) -> Value {
    let meta: Map<String, Value> = m
        .metadata()
        .map(|(k, v)| (k.clone(), snap_node(v)))
        .collect();
    let mut shapes: Map<String, Value> = Map::new();
    for s in m.shapes() {
        let mut id = s.id().to_string();
        while shapes.contains_key(&id) {
            id.push_str("!duplicate");
        }
        shapes.insert(id, snap_shape(s));
    }
    json!({"ver": m.smithy_version().to_string(), "meta": meta, "shapes": shapes})
}

pub fn build_model(w: &Value) -> Model {
    let mut m = Model::new(Version::from_str(w["ver"].as_str().unwrap_or("1.0")).unwrap());
    for (k, v) in pairs(&w["meta"]) {
        let _ = m.add_metadata(k.clone(), build_node(v)).unwrap();
    }
    for (id, s) in pairs(&w["shapes"]) {
        m.add_shape(build_shape(id, s)).unwrap();
    }
    m
}

/// The error as the specification sees it: its kind and the thing it names.
pub fn snap_err(e: &Error) -> (String, String) {
    match e.kind() {
        ErrorKind::MergeVersionConflict(..) => ("MergeVersionConflict".into(), String::new()),
        ErrorKind::MergeShapeConflict(id) => ("MergeShapeConflict".into(), id.to_string()),
        ErrorKind::MergeTraitConflict(id) => ("MergeTraitConflict".into(), id.to_string()),
        ErrorKind::MergeMetadataConflict(k) => ("MergeMetadataConflict".into(), k.clone()),
        ErrorKind::ShapeIDExpected(id) => ("ShapeIDExpected".into(), id.to_string()),
        ErrorKind::AmbiguousShape(s) => ("AmbiguousShape".into(), s.clone()),
        ErrorKind::UnknownMember(s) => ("UnknownMember".into(), s.clone()),
        ErrorKind::InvalidShapeID(s) => ("InvalidShapeID".into(), s.clone()),
        ErrorKind::InvalidVersionNumber(s) => {
            ("InvalidVersionNumber".into(), s.clone().unwrap_or_default())
        }
        _ => ("Other".into(), String::new()),
    }
}

/// A destination with room for so many bytes; whatever does not fit is an error.
pub struct Sink(pub usize);

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Writes to destinations that have room for nothing, a part, and all of the text.
pub fn sinks(form: &str, len: usize, mut write: impl FnMut(&mut Sink) -> bool) -> Value {
    let mut room = vec![0, len / 3, len / 2, len.saturating_sub(1), len, len + 9];
    if form == "rdf" {
        // how long the text is depends on the order of what is in it
        room = vec![0, len / 3, len / 2, 2 * len + 100];
    }
    room.dedup();
    let ok: Vec<bool> = room.iter().map(|k| write(&mut Sink(*k))).collect();
    json!({"op": "sinks", "form": form, "len": len, "room": room, "ok": ok})
}

pub fn sinks_of(
    form: &str,
    text: &str,
    w: &mut impl atelier_core::io::ModelWriter,
    m: &Model,
) -> Value {
    sinks(form, text.len(), |s| w.write(s, m).is_ok())
}

/// A source that has these bytes and then fails.
pub struct Source(pub Vec<u8>);

impl std::io::Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0.len()).min(7);
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "broken"));
        }
        b[..n].copy_from_slice(&self.0[..n]);
        self.0.drain(..n);
        Ok(n)
    }
}

/// Reads from sources that fail after some or all of the text, and from ones that are not UTF-8.
pub fn sources(form: &str, text: &str, mut rd: impl atelier_core::io::ModelReader) -> Value {
    let t = text.as_bytes();
    let mut r = vec![];
    for k in [0, t.len() / 2, t.len()] {
        r.push(rd.read(&mut Source(t[..k].to_vec())).is_ok());
    }
    for k in [0, t.len() / 2, t.len()] {
        let bad = [&t[..k], &[0xffu8], &t[k..]].concat();
        r.push(rd.read(&mut &bad[..]).is_ok());
    }
    json!({"op": "sources", "form": form, "ok": r})
}

// ------------------------------------------------------------------------------------------------
// Every other time a reader or writer has been used before: nothing may be left in it.

fn calls() -> usize {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static CALLS: AtomicUsize = AtomicUsize::new(0);
    CALLS.fetch_add(1, Ordering::Relaxed)
}

/// A file that holds `text`; removed when dropped.
struct Temp(std::path::PathBuf);

impl Temp {
    fn new(text: &[u8]) -> Self {
        let name = format!("vh-file-{}-{}", std::process::id(), calls());
        let path = std::env::temp_dir().join(name);
        std::fs::write(&path, text).unwrap();
        Temp(path)
    }
}

impl Drop for Temp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub fn write_model_to_string(
    w: &mut impl atelier_core::io::ModelWriter,
    m: &Model,
) -> atelier_core::error::Result<String> {
    let n = calls();
    if n % 2 == 1 {
        let _ = atelier_core::io::write_model_to_string(w, m);
    }
    if n % 5 == 3 {
        // to a file, over what was there before
        let file = Temp::new(&[b'x'; 50000]);
        atelier_core::io::write_model_to_file(w, m, file.0.clone())?;
        return Ok(std::fs::read_to_string(&file.0)?);
    }
    atelier_core::io::write_model_to_string(w, m)
}

pub fn read_model_from_string<S: AsRef<[u8]> + Copy>(
    r: &mut impl atelier_core::io::ModelReader,
    s: S,
) -> atelier_core::error::Result<Model> {
    let n = calls();
    if n % 2 == 1 {
        let _ = atelier_core::io::read_model_from_string(r, s);
    }
    if n % 5 == 3 {
        let file = Temp::new(s.as_ref());
        return atelier_core::io::read_model_from_file(r, file.0.clone());
    }
    atelier_core::io::read_model_from_string(r, s)
}
