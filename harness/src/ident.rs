//! C04: identifiers.
use crate::gen::Rng;
use crate::wire::items;
use atelier_core::builder::id::ShapeName;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::model::shapes::{ShapeKind, Simple, TopLevelShape};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::prelude::prelude_shape_named;
use atelier_core::Version;
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

fn text(s: &str) -> Value {
    let ident = Identifier::from_str(s);
    let ns = NamespaceID::from_str(s);
    let sid = ShapeID::from_str(s);
    let name = ShapeName::from_str(s);
    let mut o = json!({
        "ident": Identifier::is_valid(s),
        "ident_from_str": ident.is_ok(),
        "ident_text": ident.map(|i| i.to_string()).unwrap_or_default(),
        "ns": NamespaceID::is_valid(s),
        "ns_from_str": ns.is_ok(),
        "ns_parts": ns.as_ref().map(|n| n.split().map(|i| i.to_string()).collect::<Vec<_>>()).unwrap_or_default(),
        "ns_text": ns.map(|i| i.to_string()).unwrap_or_default(),
        "sid": ShapeID::is_valid(s),
        "parts": {"ok": false, "ns": "", "name": "", "mem": ""},
        "sid_text": "", "ways": [], "as_name": {}, "as_local": {}, "is_member": false, "shape_only": "", "with_member": "", "with_shape": "", "again": false,
        "version": Version::from_str(s).is_ok(),
        "name_kind": match &name {
            Ok(ShapeName::Qualified(_)) => "qualified",
            Ok(ShapeName::Local(_)) => "local",
            Err(_) => "error" },
        "source": ErrorSource::from_str(s).map(|x| x.to_string()).unwrap_or_default(),
        "in_prelude": prelude_shape_named(s).map(|i| i.to_string()).unwrap_or_default(),
        "name_text": name.map(|i| i.to_string()).unwrap_or_default(),
    });
    if let Ok(i) = sid {
        o["parts"] = json!({"ok": true, "ns": i.namespace().to_string(), "name": i.shape_name().to_string(),
            "mem": i.member_name().as_ref().map(|m| m.to_string()).unwrap_or_default()});
        o["sid_text"] = json!(i.to_string());
        o["is_member"] = json!(i.is_member());
        o["shape_only"] = json!(i.shape_only().to_string());
        o["with_member"] = json!(i
            .make_member(Identifier::from_str("zz").unwrap())
            .to_string());
        o["with_shape"] = json!(i
            .make_shape(Identifier::from_str("Zz").unwrap())
            .to_string());
        let (a, b) = (i.namespace().to_string(), i.shape_name().to_string());
        let m = i.member_name().as_ref().map(|m| m.to_string());
        let by_parts = match &m {
            None => ShapeID::shape(&a, &b),
            Some(m) => ShapeID::member(&a, &b, m),
        };
        let by_ns = match i.member_name() {
            None => i.namespace().make_shape(i.shape_name().clone()),
            Some(m) => i.namespace().make_member(i.shape_name().clone(), m.clone()),
        };
        o["ways"] = json!([
            by_parts.to_string(),
            by_ns.to_string(),
            ShapeID::new_unchecked(&a, &b, m.as_deref()).to_string(),
            ShapeID::new(
                i.namespace().clone(),
                i.shape_name().clone(),
                i.member_name().clone()
            )
            .to_string()
        ]);
        let n = ShapeName::from(i.clone());
        o["as_name"] = json!({"eq": n.eq_qualified(&i), "local": n.eq_local(i.shape_name()), "is_local": n.is_local(),
            "is_qualified": n.is_qualified(), "ns": n.namespace().map(|n| n.to_string()).unwrap_or_default(),
            "name": n.shape_name().to_string(), "mem": n.member_name().map(|n| n.to_string()).unwrap_or_default()});
        let l = ShapeName::from(i.shape_name().clone());
        o["as_local"] = json!({"eq": l.eq_qualified(&i), "local": l.eq_local(i.shape_name()), "is_local": l.is_local(),
            "is_qualified": l.is_qualified(), "ns": l.namespace().map(|n| n.to_string()).unwrap_or_default(),
            "name": l.shape_name().to_string(), "mem": l.member_name().map(|n| n.to_string()).unwrap_or_default()});
        o["again"] = json!(ShapeID::from_str(&i.to_string())
            .map(|j| j == i)
            .unwrap_or(false));
    }
    o
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut d = DefaultHasher::new();
    t.hash(&mut d);
    d.finish()
}

fn pair(a: &str, b: &str) -> Value {
    let (p, q) = (ShapeID::from_str(a).unwrap(), ShapeID::from_str(b).unwrap());
    let set: HashSet<ShapeID> = [p.clone()].into_iter().collect();
    let tree: BTreeSet<ShapeID> = [p.clone()].into_iter().collect();
    let map: HashMap<ShapeID, u8> = [(p.clone(), 1)].into_iter().collect();
    let mut m = Model::new(Version::V10);
    m.add_shape(TopLevelShape::new(p.clone(), ShapeKind::Unresolved))
        .unwrap();
    let sh = TopLevelShape::new(p.clone(), ShapeKind::Unresolved);
    json!({
        "eq": p == q, "eq_rev": q == p,
        "hash_eq": h(&p) == h(&q) && h(p.namespace()) == h(q.namespace()) && h(p.shape_name()) == h(q.shape_name()),
        "cmp_eq": p.cmp(&q) == Ordering::Equal && p.partial_cmp(&q) == Some(Ordering::Equal),
        "ns_cmp_eq": p.namespace().cmp(q.namespace()) == Ordering::Equal,
        "name_cmp_eq": p.shape_name().cmp(q.shape_name()) == Ordering::Equal,
        "cmp_rev": p.cmp(&q) == q.cmp(&p).reverse(),
        "in_tree": tree.contains(&q),
        "in_set": set.contains(&q), "in_map": map.get(&q).is_some(),
        "in_model": m.has_shape(&q) && m.shape(&q).is_some() && m.remove_shape(&q).is_some(),
        "ns_eq": p.namespace() == q.namespace(), "name_eq": p.shape_name() == q.shape_name(),
        "same_ns": p.is_in_same_namespace(&q),
        "valid_member": p.is_valid_member(&q),
        "is": sh.is(&q),
    })
}

fn rel<T: Ord>(a: &T, b: &T) -> String {
    let c = match a.cmp(b) {
        Ordering::Less => "<",
        Ordering::Equal => "=",
        Ordering::Greater => ">",
    };
    let said = (a < b, a <= b, a >= b, a > b);
    let meant = (c == "<", c != ">", c != "<", c == ">");
    let partly = a.partial_cmp(b) == Some(a.cmp(b));
    if said == meant && partly {
        c.to_string()
    } else {
        format!("{} but {:?}", c, said)
    }
}

fn table<T: Ord>(xs: &[T]) -> Vec<Vec<String>> {
    xs.iter()
        .map(|a| xs.iter().map(|b| rel(a, b)).collect())
        .collect()
}

/// How some identifiers compare with each other, and what collections make of them.
fn order(ids: &Value) -> Value {
    let ids: Vec<ShapeID> = items(ids)
        .map(|t| ShapeID::from_str(t.as_str().unwrap()).unwrap())
        .collect();
    let nss: Vec<_> = ids.iter().map(|i| i.namespace().clone()).collect();
    let names: Vec<_> = ids.iter().map(|i| i.shape_name().clone()).collect();
    let tree: BTreeSet<&ShapeID> = ids.iter().collect();
    let set: HashSet<&ShapeID> = ids.iter().collect();
    let mut sorted = ids.clone();
    sorted.sort();
    sorted.dedup();
    let mut m = Model::new(Version::V10);
    for i in &ids {
        if !m.has_shape(i) {
            m.add_shape(TopLevelShape::new(
                i.shape_only(),
                ShapeKind::Simple(Simple::String),
            ))
            .unwrap();
        }
    }
    let yes = |b: bool| if b { "yes" } else { "no" };
    json!({
        "ids": table(&ids), "nss": table(&nss), "names": table(&names),
        "counts": [tree.len(), set.len(), sorted.len()],
        "shapes": m.shape_names().count(), "spaces": m.namespaces().len(),
        "found": ids.iter().map(|i| yes(tree.contains(i) && set.contains(i)
            && sorted.binary_search(i).is_ok() && m.shape(&i.shape_only()).is_some())).collect::<Vec<_>>(),
    })
}

fn guarded(f: impl FnOnce() -> Value) -> Value {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(json!({"panic": true}))
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    if case.get("texts").is_some() {
        let o: Vec<Value> = items(&case["texts"])
            .map(|t| guarded(|| text(t.as_str().unwrap())))
            .collect();
        out.push(json!({"op": "texts", "texts": case["texts"], "out": o}));
    } else if case.get("order").is_some() {
        let o = guarded(|| order(&case["order"]));
        out.push(json!({"op": "order", "ids": case["order"], "out": o}));
    } else {
        let o: Vec<Value> = items(&case["pairs"])
            .map(|p| guarded(|| pair(p[0].as_str().unwrap(), p[1].as_str().unwrap())))
            .collect();
        out.push(json!({"op": "pairs", "pairs": case["pairs"], "out": o}));
    }
}

fn ident(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..[0, 0, 0, 1, 3][r.below(5)] {
        s.push('_');
    }
    const A: &[u8] = b"abcxyzABCXYZmMkK";
    s.push(A[r.below(A.len())] as char);
    const R: &[u8] = b"abzABZ019__iIsSkK";
    for _ in 0..r.below(10) {
        s.push(R[r.below(R.len())] as char);
    }
    s
}

fn sid(r: &mut Rng) -> String {
    let n: Vec<String> = (0..1 + r.below(4)).map(|_| ident(r)).collect();
    let mut s = format!("{}#{}", n.join("."), ident(r));
    if r.pct(40) {
        s = format!("{}${}", s, ident(r));
    }
    s
}

fn recase(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| {
            if r.pct(50) {
                c.to_ascii_uppercase()
            } else if r.pct(50) {
                c.to_ascii_lowercase()
            } else {
                c
            }
        })
        .collect()
}

pub fn gen(r: &mut Rng) -> Value {
    if r.pct(50) {
        let mut ts = vec![];
        for _ in 0..30 {
            let mut s: Vec<char> = match r.below(4) {
                0 if r.pct(30) => r
                    .pick(&[
                        "client", "server", "Client", "service", "clients", "1.0", "1", "1.",
                        "01.0", "2.0", "1.00", "10",
                    ])
                    .to_string(),
                0 => ident(r),
                1 => (0..1 + r.below(4))
                    .map(|_| ident(r))
                    .collect::<Vec<_>>()
                    .join("."),
                _ => sid(r),
            }
            .chars()
            .collect();
            for _ in 0..[0, 0, 1, 1, 2][r.below(5)] {
                let c = *r.pick(&[
                    '.', '#', '$', '_', '-', ' ', '\n', '9', 'é', 'ſ', 'K', '٣', ':', '/', 'A',
                    '\u{0}', '日',
                ]);
                let k = r.below(s.len() + 1);
                match r.below(3) {
                    0 => s.insert(k, c),
                    1 if k < s.len() => s[k] = c,
                    _ if k < s.len() => {
                        let _ = s.remove(k);
                    }
                    _ => s.push(c),
                }
            }
            ts.push(s.into_iter().collect::<String>());
        }
        json!({ "texts": ts })
    } else if r.pct(50) {
        let first = sid(r);
        let mut ids = vec![first];
        for _ in 0..2 + r.below(6) {
            let near = r.pick(&ids).clone();
            let next = match r.below(5) {
                0 => sid(r),
                1 | 2 => {
                    let mut cs: Vec<char> = near.chars().collect();
                    let k = r.below(cs.len());
                    if cs[k].is_ascii_alphanumeric() {
                        cs[k] = *r.pick(&['q', 'Q', 'a', 'Z', 'm']);
                    }
                    cs.into_iter().collect()
                }
                3 => match near.split_once('$') {
                    Some((shape, _)) => shape.to_string(),
                    None => format!("{}${}", near, r.pick(&["a", "B", "c"])),
                },
                _ => recase(r, &near),
            };
            ids.push(next);
        }
        json!({ "order": ids })
    } else {
        let mut ps = vec![];
        for _ in 0..20 {
            let mut a = sid(r);
            if r.pct(15) {
                // one name for the shape, its member and its namespace
                let n = ident(r);
                a = format!(
                    "{}#{}",
                    n,
                    if r.pct(50) { recase(r, &n) } else { n.clone() }
                );
                if r.pct(50) {
                    a = format!("{}${}", a, n);
                }
            }
            let b = match r.below(5) {
                0 => sid(r),
                1 => {
                    let mut b: Vec<char> = a.chars().collect();
                    let k = r.below(b.len());
                    if b[k].is_ascii_alphanumeric() {
                        b[k] = 'q';
                    }
                    b.into_iter().collect()
                }
                2 => {
                    let b = recase(r, &a);
                    match b.find('$') {
                        Some(k) => b[..k].to_string(),
                        None if r.pct(30) => format!("{}${}", b, b.rsplit('#').next().unwrap()),
                        None => format!("{}$zz", b),
                    }
                }
                3 => {
                    // the other way round
                    let c = a.clone();
                    match c.find('$') {
                        Some(k) => {
                            a = c[..k].to_string();
                            c
                        }
                        None => format!("{}${}", c, ident(r)),
                    }
                }
                _ => recase(r, &a),
            };
            ps.push(json!([a, b]));
        }
        json!({ "pairs": ps })
    }
}
