//! Identifiers are equal whatever the case of their letters. A session that is folded is executed
//! with every identifier spelled in letters of arbitrary case, differently each time; what is
//! observed is written down in the spelling of the session, so that the specification, in which
//! an identifier is one text, judges it as it is.
use crate::gen::Rng;
use crate::wire::*;
use atelier_core::prelude::{defined_prelude_shapes, defined_prelude_traits};
use serde_json::{json, Map, Value};
use std::collections::{HashMap, HashSet};

type F<'a> = &'a mut dyn FnMut(&str) -> String;

fn keys(w: &Value, f: F, g: &mut dyn FnMut(&Value, F) -> Value) -> Value {
    let mut out = Map::new();
    for (k, v) in pairs(w) {
        let mut k = f(k);
        while out.contains_key(&k) {
            k.push('!');
        }
        let v = g(v, f);
        out.insert(k, v);
    }
    Value::Object(out)
}

fn text(w: &Value, f: F) -> Value {
    match w.as_str() {
        Some(s) if !s.is_empty() => json!(f(s)),
        _ => w.clone(),
    }
}

fn list(w: &Value, f: F) -> Value {
    Value::Array(items(w).map(|i| text(i, f)).collect())
}

fn set(o: &mut Value, k: &str, f: F, g: &mut dyn FnMut(&Value, F) -> Value) {
    if !o[k].is_null() {
        let v = g(&o[k], f);
        o[k] = v;
    }
}

fn same(v: &Value, _: F) -> Value {
    v.clone()
}

fn traits(w: &Value, f: F) -> Value {
    keys(w, f, &mut same)
}

fn member(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    set(&mut w, "t", f, &mut text);
    set(&mut w, "traits", f, &mut traits);
    w
}

fn shape(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    set(&mut w, "traits", f, &mut traits);
    if ["list", "set", "map"].contains(&w["kind"].as_str().unwrap_or("")) {
        // these names are the kind's own; only what the mutators put there may be spelled otherwise
        let own: Map<String, Value> = pairs(&w["mem"])
            .map(|(k, v)| (k.to_lowercase(), member(v, f)))
            .collect();
        w["mem"] = Value::Object(own);
    } else {
        set(&mut w, "mem", f, &mut |m, f| keys(m, f, &mut member));
    }
    set(&mut w, "refs", f, &mut |m, f| {
        Value::Object(pairs(m).map(|(k, v)| (k.to_string(), list(v, f))).collect())
    });
    set(&mut w, "idents", f, &mut |m, f| keys(m, f, &mut text));
    set(&mut w, "ren", f, &mut |m, f| keys(m, f, &mut text));
    w
}

/// One call on a builder, with every identifier as `f` spells it.
pub fn call(w: &Value, f: F) -> Value {
    let each = |w: &Value, k: &str, f: F| {
        let mut w = w.clone();
        set(&mut w, k, f, &mut text);
        w
    };
    let traits =
        |w: &Value, f: F| -> Value { Value::Array(items(w).map(|t| each(t, "n", f)).collect()) };
    let mut w = w.clone();
    if w["c"] != "meta" {
        set(&mut w, "n", f, &mut text);
    }
    set(&mut w, "traits", f, &mut |t, f| traits(t, f));
    set(&mut w, "mem", f, &mut |m, f| {
        let one = |m: &Value, f: F| {
            let mut m = each(&each(m, "n", f), "t", f);
            set(&mut m, "traits", f, &mut |t, f| traits(t, f));
            m
        };
        Value::Array(items(m).map(|m| one(m, f)).collect())
    });
    set(&mut w, "refs", f, &mut |m, f| {
        Value::Object(pairs(m).map(|(k, v)| (k.to_string(), list(v, f))).collect())
    });
    set(&mut w, "idents", f, &mut |m, f| keys(m, f, &mut text));
    set(&mut w, "ren", f, &mut |m, f| keys(m, f, &mut text));
    w
}

pub fn model(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    set(&mut w, "shapes", f, &mut |m, f| keys(m, f, &mut shape));
    w
}

/// One step of a session, with every identifier as `f` spells it.
pub fn op(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    for k in ["id", "trait", "t"] {
        set(&mut w, k, f, &mut text);
    }
    if w["f"] != "ver" {
        set(&mut w, "n", f, &mut text);
    }
    set(&mut w, "ts", f, &mut list);
    set(&mut w, "kv", f, &mut |m, f| keys(m, f, &mut text));
    set(&mut w, "mts", f, &mut traits);
    set(&mut w, "traits", f, &mut traits);
    set(&mut w, "sh", f, &mut shape);
    for k in ["other", "init"] {
        set(&mut w, k, f, &mut model);
    }
    set(&mut w, "pool", f, &mut |p, f| {
        let mut p = p.clone();
        for k in ["ids", "names", "traits"] {
            set(&mut p, k, f, &mut list);
        }
        p
    });
    w
}

fn trait_q(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    for k in ["has", "val"] {
        set(&mut w, k, f, &mut traits);
    }
    w
}

/// The answers to the queries, with every identifier as `f` spells it.
pub fn answers(w: &Value, f: F) -> Value {
    let mut w = w.clone();
    for k in ["shape_names", "unresolved_names", "namespaces"] {
        set(&mut w, k, f, &mut list);
    }
    set(&mut w, "has_shape", f, &mut traits);
    set(&mut w, "shape", f, &mut |m, f| keys(m, f, &mut text));
    set(&mut w, "shapes", f, &mut |m, f| {
        keys(m, f, &mut |q, f| {
            let mut q = q.clone();
            for k in ["has_member", "has_n", "ren_has"] {
                set(&mut q, k, f, &mut traits);
            }
            for k in ["member", "get_n", "ren_get"] {
                set(&mut q, k, f, &mut |m, f| keys(m, f, &mut text));
            }
            set(&mut q, "traits", f, &mut trait_q);
            set(&mut q, "mtraits", f, &mut |m, f| keys(m, f, &mut trait_q));
            q
        })
    });
    w
}

fn alter(r: &mut Rng, s: &str) -> String {
    let (ns, rest) = match s.split_once('#') {
        Some((n, x)) => (format!("{}#", n), x),
        None => (String::new(), s),
    };
    let how = r.below(4);
    let mut one = |s: &str| -> String {
        s.chars()
            .map(|c| match how {
                0 => c,
                1 => c.to_ascii_uppercase(),
                2 => c.to_ascii_lowercase(),
                _ if r.pct(50) => c.to_ascii_uppercase(),
                _ => c.to_ascii_lowercase(),
            })
            .collect()
    };
    // the prelude is named in exactly one way
    if ns == "smithy.api#" {
        ns + &one(rest)
    } else {
        one(&ns) + &one(rest)
    }
}

/// The spellings of one session: `first` gives each identifier the spelling it first had.
pub struct Spelling {
    known: HashMap<String, String>,
    rng: Rng,
}

impl Spelling {
    pub fn new(seed: u64) -> Self {
        // these names are the kinds' own, see `shape`
        let own = ["member", "key", "value"];
        Spelling {
            known: own.iter().map(|n| (n.to_string(), n.to_string())).collect(),
            rng: Rng::new(seed),
        }
    }
    pub fn learn(&mut self, s: &str) -> String {
        let x = self
            .known
            .entry(s.to_lowercase())
            .or_insert_with(|| s.to_string())
            .clone();
        if let Some((ns, _)) = s.split_once('#') {
            let ns = ns.to_string();
            self.known.entry(ns.to_lowercase()).or_insert(ns);
        }
        x
    }
    pub fn first(&self, s: &str) -> String {
        match self.known.get(&s.to_lowercase()) {
            Some(x) => x.clone(),
            None => s.to_lowercase(),
        }
    }
    pub fn any(&mut self, s: &str) -> String {
        alter(&mut self.rng, s)
    }
}

/// A session in which no identifier is spelled in two ways, marked to be executed folded.
pub fn folded(case: &Value, seed: u64) -> Value {
    let mut sp = Spelling::new(1);
    let mut f = |s: &str| sp.learn(s);
    let mut case = case.clone();
    if !case["init"].is_null() {
        case["init"] = model(&case["init"], &mut f);
    }
    let ops: Vec<Value> = items(&case["ops"]).map(|o| op(o, &mut f)).collect();
    case["ops"] = json!(ops);
    case["fold"] = json!(seed);
    case
}

/// The spellings of the identifiers of one session, part by part. The names of the prelude and those of
/// the members of lists, sets and maps are spelled in one way.
pub struct Parts {
    first: HashMap<String, String>,
    fixed: HashSet<String>,
    rng: Rng,
}

impl Parts {
    pub fn new(seed: u64) -> Self {
        let mut fixed: HashSet<String> = ["smithy.api", "member", "key", "value"]
            .iter()
            .map(|x| x.to_string())
            .collect();
        for n in defined_prelude_shapes().iter() {
            fixed.insert(n.to_lowercase());
        }
        for n in defined_prelude_traits().iter() {
            fixed.insert(n.to_lowercase());
        }
        Parts {
            first: HashMap::new(),
            fixed,
            rng: Rng::new(seed),
        }
    }
    fn spell(&mut self, s: &str, one: &mut dyn FnMut(&mut Self, &str) -> String) -> String {
        let mut out = String::new();
        for (i, c) in s.char_indices() {
            if c == '#' || c == '$' {
                let from = s[..i].rfind(|c| c == '#' || c == '$').map_or(0, |k| k + 1);
                out += &one(self, &s[from..i]);
                out.push(c);
            }
        }
        let from = s.rfind(|c| c == '#' || c == '$').map_or(0, |k| k + 1);
        out + &one(self, &s[from..])
    }
    pub fn first(&mut self, s: &str) -> String {
        self.spell(s, &mut |p, x| {
            if p.fixed.contains(&x.to_lowercase()) {
                return x.to_string();
            }
            p.first
                .entry(x.to_lowercase())
                .or_insert_with(|| x.to_string())
                .clone()
        })
    }
    pub fn any(&mut self, s: &str) -> String {
        self.spell(s, &mut |p, x| {
            if p.fixed.contains(&x.to_lowercase()) {
                return x.to_string();
            }
            alter(&mut p.rng, x)
        })
    }
}
