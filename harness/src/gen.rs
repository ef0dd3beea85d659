//! Seeded random generation of abstract (wire) models, values and names.
use serde_json::{json, Map, Value};

use crate::wire::empty_refs;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) < p
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

pub const SIMPLE: [&str; 13] = [
    "blob",
    "boolean",
    "document",
    "string",
    "byte",
    "short",
    "integer",
    "long",
    "float",
    "double",
    "bigInteger",
    "bigDecimal",
    "timestamp",
];
pub const KINDS: [&str; 9] = [
    "simple",
    "list",
    "set",
    "map",
    "structure",
    "union",
    "service",
    "operation",
    "resource",
];
pub const NAMES: [&str; 16] = [
    "Alpha",
    "Beta",
    "GammaRay",
    "Delta2",
    "Epsilon_x",
    "_Zeta",
    "eta",
    "thetaThing",
    "Iota",
    "Kappa",
    "LambdaFn",
    "Mu",
    "Nu",
    "Xi",
    "Omicron",
    "Pi3",
];
pub const MEMBERS: [&str; 10] = [
    "first",
    "second",
    "id",
    "nextToken",
    "a1",
    "Items",
    "_priv",
    "with_under",
    "type",
    "member",
];
pub const PRELUDE_T: [&str; 20] = [
    "String",
    "Integer",
    "Boolean",
    "Blob",
    "Timestamp",
    "Document",
    "BigInteger",
    "BigDecimal",
    "Byte",
    "Short",
    "Long",
    "Float",
    "Double",
    "PrimitiveBoolean",
    "PrimitiveByte",
    "PrimitiveShort",
    "PrimitiveInteger",
    "PrimitiveLong",
    "PrimitiveFloat",
    "PrimitiveDouble",
];
pub const TRAITS: [&str; 9] = [
    "smithy.api#required",
    "smithy.api#documentation",
    "smithy.api#tags",
    "smithy.api#readonly",
    "smithy.api#length",
    "example.traits#marker",
    "example.traits#config",
    "example.traits#kinds",
    "smithy.api#error",
];
pub const STRS: [&str; 20] = [
    "",
    "a",
    "hello world",
    "client",
    "1.0",
    "true",
    "null",
    "say \"hi\"",
    "back\\slash",
    "line1\nline2",
    "tab\there",
    "{braces}",
    "[x]",
    "a#b$c",
    "// not a comment",
    "päß",
    "日本",
    "a,b",
    "smithy.api#String",
    "\u{0}",
];
pub const SAFE_STRS: [&str; 11] = [
    "a",
    "hello world",
    "client",
    "1.0",
    "true",
    "{braces}",
    "a#b$c",
    "// not a comment",
    "päß",
    "a,b",
    "smithy.api#String",
];

#[derive(Clone)]
pub struct Cfg {
    pub nss: Vec<&'static str>,
    pub names: Vec<&'static str>,
    pub members: Vec<&'static str>,
    pub traits: Vec<&'static str>,
    pub strs: Vec<&'static str>,
    pub kinds: Vec<&'static str>,
    pub max_shapes: usize,
    pub trait_pct: usize,
    pub unresolved_pct: usize,
    pub meta_pct: usize,
    pub depth: usize,
    pub dangling_pct: usize,
    pub floats: bool,
    pub nulls: bool,
    pub absent: bool,
    pub member_ids: bool,
    /// percentage of models with unusual names, texts and sizes
    pub wild: usize,
    /// characters that texts may hold
    pub text_ok: fn(char) -> bool,
    pub fan: usize,
    pub keys: Vec<&'static str>,
    pub numbers: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            nss: vec!["smithy.example", "com.acme.v2"],
            names: NAMES.to_vec(),
            members: MEMBERS.to_vec(),
            traits: TRAITS.to_vec(),
            strs: STRS.to_vec(),
            kinds: KINDS.to_vec(),
            max_shapes: 6,
            trait_pct: 40,
            unresolved_pct: 12,
            meta_pct: 50,
            depth: 2,
            dangling_pct: 10,
            floats: true,
            nulls: true,
            absent: true,
            member_ids: false,
            wild: 12,
            text_ok: |_| true,
            fan: 3,
            keys: vec![
                "k1", "key two", "Upper", "a.b", "min", "max", "q\"q", "name",
            ],
            numbers: false,
        }
    }
}

pub fn lit(k: &str, s: &str) -> Value {
    json!({"k": k, "s": s, "xs": [], "kv": {}})
}
pub fn arr(xs: Vec<Value>) -> Value {
    json!({"k": "arr", "s": "", "xs": xs, "kv": {}})
}
pub fn obj(kv: Map<String, Value>) -> Value {
    json!({"k": "obj", "s": "", "xs": [], "kv": kv})
}

pub fn value(r: &mut Rng, c: &Cfg, depth: usize) -> Value {
    let n = if depth == 0 { 6 } else { 9 };
    let what = if c.depth > 9 && depth > 4 && r.pct(85) {
        6 + r.below(3)
    } else {
        r.below(n)
    };
    match what {
        0 | 1 => lit("str", r.pick(&c.strs)),
        2 if c.numbers && r.pct(70) => {
            let v = r.next() as i64 >> r.below(64);
            lit("int", &v.to_string())
        }
        3 if c.numbers && c.floats && r.pct(70) => {
            let v = (r.below(1 << 31) as f64 - 1e9) / 10f64.powi(r.below(7) as i32);
            lit("float", &format!("{:?}", v))
        }
        2 => lit(
            "int",
            *r.pick(&[
                "0",
                "1",
                "-1",
                "42",
                "9223372036854775807",
                "-9223372036854775808",
            ]),
        ),
        3 if c.floats => lit(
            "float",
            *r.pick(&[
                "0.5",
                "-2.25",
                "1.0",
                "1e300",
                "3.141592653589793",
                "1e-7",
                "-0.0",
            ]),
        ),
        4 => lit("bool", *r.pick(&["true", "false"])),
        5 if c.nulls => lit("null", ""),
        3 | 5 => lit("int", "7"),
        6 | 7 => {
            let n = if depth > 0 && r.pct(3) {
                8 + r.below(6)
            } else {
                r.below(c.fan + 1)
            };
            let mut xs: Vec<Value> = vec![];
            for _ in 0..n {
                let twice = r.pct(12);
                let again = xs.last().filter(|_| twice).cloned();
                xs.push(
                    again.unwrap_or_else(|| {
                        value(r, c, if n > 7 { depth.min(2) } else { depth } - 1)
                    }),
                );
            }
            arr(xs)
        }
        _ => {
            let n = r.below(c.fan + 1);
            let mut m = Map::new();
            for _ in 0..n {
                let k = *r.pick(&c.keys);
                m.insert(k.to_string(), value(r, c, depth - 1));
            }
            obj(m)
        }
    }
}

pub fn traits(r: &mut Rng, c: &Cfg) -> Value {
    let mut m = Map::new();
    while r.pct(c.trait_pct) && m.len() < 4 {
        let t = *r.pick(&c.traits);
        let v = trait_value(r, c, t);
        m.insert(t.to_string(), v);
    }
    Value::Object(m)
}

pub fn trait_value(r: &mut Rng, c: &Cfg, _t: &str) -> Value {
    if c.absent && r.pct(30) {
        lit("absent", "")
    } else {
        value(r, c, c.depth)
    }
}

pub fn shape_id(r: &mut Rng, c: &Cfg) -> String {
    format!("{}#{}", r.pick(&c.nss), r.pick(&c.names))
}

/// A target: mostly one of the known ids, sometimes a prelude shape, sometimes dangling.
pub fn target(r: &mut Rng, c: &Cfg, known: &[String]) -> String {
    if r.pct(c.dangling_pct) {
        dangling(r, c, known)
    } else if known.is_empty() || r.pct(30) {
        format!("smithy.api#{}", r.pick(&PRELUDE_T))
    } else {
        r.pick(known).clone()
    }
}

/// A shape that is not there; often almost one that is.
fn dangling(r: &mut Rng, c: &Cfg, known: &[String]) -> String {
    let near = if known.is_empty() {
        shape_id(r, c)
    } else {
        r.pick(known).clone()
    };
    let near = near.split('$').next().unwrap().to_string();
    let (ns, name) = near.split_once('#').unwrap();
    match r.below(12) {
        0 => "smithy.api#NoSuch".to_string(),
        1 => format!("smithy.api.{}#String", ns),
        2 => format!("smithy.api#{}", name),
        3 => "smithy#String".to_string(),
        4 => format!("{}#NoSuch", ns),
        5 => format!("{}#{}_2", ns, name),
        6 => format!("{}.more#{}", ns, name),
        7 if c.member_ids => format!("{}${}", near, r.pick(&c.members)),
        _ => "not.here#Missing".to_string(),
    }
}

pub fn member(r: &mut Rng, c: &Cfg, known: &[String]) -> Value {
    json!({"t": target(r, c, known), "traits": traits(r, c)})
}

pub fn blank(kind: &str) -> Value {
    json!({"kind": kind, "traits": {}, "mem": {}, "ver": "", "refs": empty_refs(), "idents": {}, "ren": {}})
}

fn ids(r: &mut Rng, c: &Cfg, known: &[String], max: usize) -> Value {
    let n = r.below(max + 1);
    Value::Array((0..n).map(|_| Value::String(target(r, c, known))).collect())
}

fn opt_id(r: &mut Rng, c: &Cfg, known: &[String]) -> Value {
    if r.pct(50) {
        json!([target(r, c, known)])
    } else {
        json!([])
    }
}

pub fn shape_of(r: &mut Rng, c: &Cfg, kind: &str, known: &[String]) -> Value {
    let kind = if kind == "simple" {
        *r.pick(&SIMPLE)
    } else {
        kind
    };
    let mut s = blank(kind);
    s["traits"] = traits(r, c);
    match kind {
        "list" | "set" => s["mem"]["member"] = member(r, c, known),
        "map" => {
            s["mem"]["key"] = member(r, c, known);
            s["mem"]["value"] = member(r, c, known);
        }
        "structure" | "union" => {
            for _ in 0..r.below(c.fan + 2) {
                let n = *r.pick(&c.members);
                s["mem"][n] = member(r, c, known);
            }
        }
        "service" => {
            let v = *r.pick(&["1.0", "2021-06-01", "v\"q"]);
            let odd = *r.pick(&[" ", "0", "1.0 ", "\t", "null", "1e3", "\u{e9}"]);
            s["ver"] = json!(if r.pct(15) && odd.chars().all(c.text_ok) {
                odd
            } else {
                v
            });
            s["refs"]["operations"] = ids(r, c, known, c.fan);
            s["refs"]["resources"] = ids(r, c, known, c.fan - 1);
            while r.pct(30) {
                s["ren"][shape_id(r, c)] = json!(*r.pick(&c.names));
            }
        }
        "operation" => {
            s["refs"]["input"] = opt_id(r, c, known);
            s["refs"]["output"] = opt_id(r, c, known);
            s["refs"]["errors"] = ids(r, c, known, c.fan);
        }
        "resource" => {
            for k in ["create", "put", "read", "update", "delete", "list"] {
                s["refs"][k] = opt_id(r, c, known);
            }
            s["refs"]["operations"] = ids(r, c, known, c.fan - 1);
            s["refs"]["collectionOperations"] = ids(r, c, known, c.fan - 1);
            s["refs"]["resources"] = ids(r, c, known, c.fan - 1);
            for _ in 0..r.below(c.fan) {
                let n = *r.pick(&c.members);
                s["idents"][n] = json!(target(r, c, known));
            }
        }
        _ => {}
    }
    if r.pct(25) {
        echo(r, &mut s);
    }
    s
}

/// Says in one place of a shape what it says in another.
fn echo(r: &mut Rng, s: &mut Value) {
    let names: Vec<String> = s["mem"].as_object().unwrap().keys().cloned().collect();
    if !names.is_empty() {
        let (a, b) = (r.pick(&names).clone(), r.pick(&names).clone());
        match r.below(4) {
            0 => s["mem"][&b] = s["mem"][&a].clone(),
            1 => s["mem"][&b]["t"] = s["mem"][&a]["t"].clone(),
            2 => s["mem"][&b]["traits"] = s["mem"][&a]["traits"].clone(),
            _ => s["mem"][&b]["traits"] = s["traits"].clone(),
        }
    }
    let roles: Vec<String> = s["refs"].as_object().unwrap().keys().cloned().collect();
    let full: Vec<&String> = roles
        .iter()
        .filter(|k| !s["refs"][*k].as_array().unwrap().is_empty())
        .collect();
    if full.is_empty() {
        return;
    }
    let from = s["refs"][*r.pick(&full)][0].clone();
    let to = *r.pick(&full);
    let xs = s["refs"][to].as_array().unwrap().clone();
    let many = to.ends_with('s') && r.pct(50);
    let idents: Vec<String> = s["idents"].as_object().unwrap().keys().cloned().collect();
    if !idents.is_empty() && r.pct(30) {
        s["idents"][r.pick(&idents)] = from;
    } else if s["kind"] == "service" && r.pct(50) {
        s["ren"][from.as_str().unwrap()] = json!("Renamed");
    } else if many {
        let mut xs = xs;
        xs.insert(r.below(xs.len() + 1), from);
        s["refs"][to] = Value::Array(xs);
    } else {
        let to = to.clone();
        s["refs"][to][r.below(xs.len())] = from;
    }
}

/// Changes one place within a value.
pub fn inner_change(r: &mut Rng, c: &Cfg, v: &mut Value) {
    let keys: Vec<String> = v["kv"].as_object().unwrap().keys().cloned().collect();
    let n = v["xs"].as_array().unwrap().len();
    if !keys.is_empty() && r.pct(90) {
        let k = r.pick(&keys);
        inner_change(r, c, &mut v["kv"][k]);
    } else if n > 0 && r.pct(90) {
        let i = r.below(n);
        inner_change(r, c, &mut v["xs"][i]);
    } else {
        *v = value(r, c, 1);
    }
}

pub fn shape(r: &mut Rng, c: &Cfg, known: &[String]) -> Value {
    if r.pct(c.unresolved_pct) {
        let mut s = blank("unresolved");
        s["traits"] = traits(r, c);
        s
    } else {
        let k = *r.pick(&c.kinds);
        shape_of(r, c, k, known)
    }
}

pub fn meta(r: &mut Rng, c: &Cfg) -> Value {
    let mut m = Map::new();
    while r.pct(c.meta_pct) && m.len() < 4 {
        let k = *r.pick(&["authors", "suppressions", "x-y", "quoted key", "Validators"]);
        let odd = *r.pick(&["", "Authors", " authors", "authors ", "x_y", "suppression"]);
        let k = if r.pct(12) && odd.chars().all(c.text_ok) {
            odd
        } else {
            k
        };
        let v = value(r, c, c.depth);
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// An identifier of the grammar: underscores, then a letter, then letters, digits, underscores.
/// Its letters determine their case, so that no two differ in case only.
pub fn ident(r: &mut Rng) -> String {
    let first: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
    let rest: Vec<char> = first
        .iter()
        .cloned()
        .chain('0'..='9')
        .chain("_".chars())
        .collect();
    let mut s = String::new();
    while r.pct(12) {
        s.push('_');
    }
    s.push(*r.pick(&first));
    let n = if r.pct(5) { 60 } else { r.below(9) };
    for _ in 0..n {
        s.push(*r.pick(&rest));
    }
    let mut h = Rng::new(
        s.to_lowercase()
            .bytes()
            .fold(7, |a, b| a * 31 % 1_000_003 + b as u64),
    );
    let half = h.below(3) * 40;
    s.chars()
        .map(|c| {
            if h.pct(half) {
                c.to_ascii_uppercase()
            } else {
                c.to_ascii_lowercase()
            }
        })
        .collect()
}

/// Any text: control, separator, combining and astral characters, and what is special somewhere.
pub fn text(r: &mut Rng, ok: fn(char) -> bool) -> String {
    const ODD: &str = "\u{0}\u{1}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{1b}\u{7f}\u{80}\u{85}\u{a0}\u{ad}\u{300}\u{200b}\u{200d}\u{2028}\u{2029}\u{202e}\u{fe0f}\u{feff}\u{fffd}\u{10000}\u{1f600}\u{10ffff} !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~aZ09éßΩ漢İıſK";
    let odd: Vec<char> = ODD.chars().filter(|c| ok(*c)).collect();
    let n = if r.pct(6) { 300 } else { r.below(12) };
    let plain = r.pct(30);
    (0..n)
        .map(|_| {
            if plain {
                *r.pick(&['a', 'b', 'c', ' ', 'é', 'x'])
            } else {
                *r.pick(&odd)
            }
        })
        .collect()
}

/// The same, with unusual names, texts, numbers and sizes.
pub fn wild(r: &mut Rng, c: &Cfg) -> Cfg {
    let mut c = c.clone();
    c.wild = 0;
    c.numbers = true;
    let extra = 12 - 4.min(c.names.len() / 4);
    // names that mean something elsewhere
    let mut names: Vec<&'static str> = vec![
        "String",
        "Member",
        "Key",
        "Structure",
        "Service",
        "List",
        "A",
        "Unit",
        "Version",
        "A_",
        "Key_",
    ];
    let mut members: Vec<&'static str> = vec![
        "member", "key", "value", "target", "traits", "input", "version", "a", "members", "list",
        "a_",
    ];
    for _ in 0..extra {
        names.push(leak(ident(r)));
        members.push(leak(ident(r)));
    }
    // identifiers that differ in case only are the same
    let same = |xs: &[&str], x: &str| xs.iter().any(|y| y.eq_ignore_ascii_case(x));
    for x in names {
        if !same(&c.names, x) {
            c.names.push(x);
        }
    }
    for x in members {
        if !same(&c.members, x) {
            c.members.push(x);
        }
    }
    if r.pct(30) && !c.nss.contains(&"smithy.api") {
        c.nss.push("smithy.api");
    }
    c.keys.extend([
        "", "target", "type", "traits", "k", "K", "10", "9", "é😀", " ", "a}={b", "<=", "k<=", "}",
        "{", "a=b",
    ]);
    c.traits.extend([
        "example.traits#documentation",
        "example.traits#required",
        "example.traits#tags",
        "smithy.apis#documentation",
        "smithy.api.more#error",
        "smithy#required",
    ]);
    if r.pct(30) {
        // next to another
        let near = *r.pick(&["smithy.apis", "smithy.example.inner", "smithy", "com.acme"]);
        if !c.nss.contains(&near) {
            c.nss.push(near);
        }
    }
    for _ in 0..8 {
        let t = leak(text(r, c.text_ok));
        c.strs.push(t);
        if r.pct(30) {
            c.keys.push(t);
        }
    }
    match r.below(4) {
        0 => {
            // many
            c.fan = if r.pct(30) { 40 } else { 14 };
            c.depth = 1;
            c.max_shapes = if c.fan > 14 { 2 } else { 4 };
        }
        1 => {
            // deep
            c.fan = 2;
            c.depth = 12;
            c.max_shapes = 4;
        }
        2 => c.max_shapes = 14,
        _ => {}
    }
    c
}

pub fn model(r: &mut Rng, c: &Cfg) -> Value {
    if r.pct(c.wild) {
        let c = wild(r, c);
        return model(r, &c);
    }
    let n = r.below(c.max_shapes + 1);
    let mut known: Vec<String> = vec![];
    for _ in 0..n {
        let id = shape_id(r, c);
        if !known.contains(&id) {
            known.push(id);
        }
    }
    let mut shapes = Map::new();
    for id in &known {
        shapes.insert(id.clone(), shape(r, c, &known));
    }
    if !known.is_empty() && r.pct(15) {
        // what the model defines is applied, to itself too
        for _ in 0..1 + r.below(3) {
            let on = r.pick(&known).clone();
            let t = r.pick(&known).clone();
            let v = trait_value(r, c, &t);
            shapes[&on]["traits"][t] = v;
        }
    }
    if c.member_ids && r.pct(30) {
        let mut s = blank("unresolved");
        s["traits"] = traits(r, c);
        let name = *r.pick(&c.names);
        let member = match r.below(5) {
            0 | 1 => "first",
            2 => name,
            _ => *r.pick(&c.members),
        };
        shapes.insert(format!("{}#{}${}", r.pick(&c.nss), name, member), s);
    }
    json!({"ver": "1.0", "meta": meta(r, c), "shapes": shapes})
}
