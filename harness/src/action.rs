//! C06, C07, C08: validators, linters and running them.
use crate::fold::{self, Parts};
use crate::gen::{self, Cfg, Rng};
use crate::wire::{build_model, items, pairs, snap_err};
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{
    run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences,
};
use atelier_core::action::{Action, ActionIssue, IssueLevel, Linter, Validator};
use atelier_core::error::{ErrorKind, Result as ModelResult};
use atelier_core::model::{Model, ShapeID};
use atelier_core::Version;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;

fn level(l: &IssueLevel) -> &'static str {
    match l {
        IssueLevel::Info => "info",
        IssueLevel::Warning => "warning",
        IssueLevel::Error => "error",
    }
}

pub fn issue(i: &ActionIssue) -> Value {
    json!({"level": level(i.level()), "locus": i.locus().as_ref().map(|l| l.to_string()).unwrap_or_default(),
        "msg": i.message(), "by": i.reporter()})
}

fn issues(r: ModelResult<Vec<ActionIssue>>) -> (Value, Value, Value) {
    match r {
        Ok(v) => (
            json!("ok"),
            Value::Array(v.iter().map(issue).collect()),
            json!(""),
        ),
        Err(e) => (json!("err"), json!([]), json!(snap_err(&e).0)),
    }
}

type Issues = ModelResult<Vec<ActionIssue>>;

/// What a validator reports, and what the same one reports when it is run again.
pub fn validate(which: &str, m: &Model) -> (Issues, Issues) {
    let mut v: [Box<dyn Validator>; 1] = match which {
        "references" => [Box::new(CorrectTypeReferences::default())],
        _ => [Box::new(NoUnresolvedReferences::default())],
    };
    let first = run_validation_actions(&mut v, m, false);
    (first, run_validation_actions(&mut v, m, false))
}

pub fn lint(which: &str, m: &Model) -> (Issues, Issues) {
    let mut v: [Box<dyn Linter>; 1] = match which {
        "naming" => [Box::new(NamingConventions::default())],
        _ => [Box::new(UnwelcomeTerms::default())],
    };
    let first = run_linter_actions(&mut v, m, false);
    (first, run_linter_actions(&mut v, m, false))
}

// A scripted action.
#[derive(Debug)]
struct Scripted {
    k: usize,
    levels: Vec<IssueLevel>,
    fails: bool,
    ran: Rc<RefCell<Vec<usize>>>,
    issues: Vec<ActionIssue>,
}

impl Scripted {
    fn go(&mut self) -> ModelResult<()> {
        self.ran.borrow_mut().push(self.k);
        for (n, l) in self.levels.iter().enumerate() {
            let msg = format!("m{}", n + 1);
            let by = format!("a{}", self.k);
            self.issues.push(match (n % 2, l) {
                (0, IssueLevel::Info) => ActionIssue::info(&by, &msg),
                (0, IssueLevel::Warning) => ActionIssue::warning(&by, &msg),
                (0, IssueLevel::Error) => ActionIssue::error(&by, &msg),
                (_, l) => {
                    let id = ShapeID::from_str("a.b#C").unwrap();
                    match l {
                        IssueLevel::Info => ActionIssue::info_at(&by, &msg, id),
                        IssueLevel::Warning => ActionIssue::warning_at(&by, &msg, id),
                        IssueLevel::Error => ActionIssue::error_at(&by, &msg, id),
                    }
                }
            });
        }
        if self.fails {
            Err(ErrorKind::UnknownShape("scripted".into()).into())
        } else {
            Ok(())
        }
    }
}

impl Action for Scripted {
    fn label(&self) -> &'static str {
        "scripted"
    }
    fn issues(&self) -> &Vec<ActionIssue> {
        &self.issues
    }
    fn issues_mut(&mut self) -> &mut Vec<ActionIssue> {
        &mut self.issues
    }
}
impl Linter for Scripted {
    fn check(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}
impl Validator for Scripted {
    fn validate(&mut self, _: &Model) -> ModelResult<()> {
        self.go()
    }
}

fn run_script(case: &Value) -> Value {
    let ran = Rc::new(RefCell::new(vec![]));
    let acts: Vec<Scripted> = items(&case["acts"])
        .enumerate()
        .map(|(n, a)| Scripted {
            k: n + 1,
            levels: items(&a["levels"])
                .map(|l| match l.as_str().unwrap() {
                    "info" => IssueLevel::Info,
                    "warning" => IssueLevel::Warning,
                    _ => IssueLevel::Error,
                })
                .collect(),
            fails: a["fails"].as_bool().unwrap(),
            ran: ran.clone(),
            issues: vec![],
        })
        .collect();
    let m = Model::new(Version::V10);
    let fast = case["fast"].as_bool().unwrap();
    let r = if case["kind"] == "lint" {
        let mut v: Vec<Box<dyn Linter>> = acts
            .into_iter()
            .map(|a| Box::new(a) as Box<dyn Linter>)
            .collect();
        run_linter_actions(&mut v, &m, fast)
    } else {
        let mut v: Vec<Box<dyn Validator>> = acts
            .into_iter()
            .map(|a| Box::new(a) as Box<dyn Validator>)
            .collect();
        run_validation_actions(&mut v, &m, fast)
    };
    let mut rec = case.clone();
    rec["op"] = json!("run");
    let v = ran.borrow().clone();
    rec["ran"] = json!(v);
    let mut texts = true;
    match r {
        Ok(is) => {
            rec["r"] = json!("ok");
            let mut o = vec![];
            for i in &is {
                let by: usize = i.reporter()[1..].parse().unwrap();
                let nr: usize = i.message()[1..].parse().unwrap();
                // how an issue prints: who, level, where, what
                let want = if nr % 2 == 1 {
                    format!("a{} {}: m{}", by, level(i.level()), nr)
                } else {
                    format!("a{} {} a.b#C: m{}", by, level(i.level()), nr)
                };
                texts = texts && i.to_string() == want && i.locus().is_some() == (nr % 2 == 0);
                o.push(json!({"by": by, "nr": nr, "level": level(i.level())}));
            }
            rec["issues"] = json!(o);
        }
        Err(e) => {
            rec["r"] = json!("err");
            rec["issues"] = json!([]);
            texts = matches!(e.kind(), ErrorKind::UnknownShape(s) if s == "scripted");
        }
    }
    rec["texts_ok"] = json!(texts);
    rec
}

fn words(names: &Value) -> Value {
    let out: Vec<Value> = items(names)
        .map(|n| {
            let n = n.as_str().unwrap();
            let one = |sh: Value, id: String| {
                let mut s = serde_json::Map::new();
                s.insert(id, sh);
                build_model(&json!({"ver": "1.0", "meta": {}, "shapes": s}))
            };
            let plain = one(gen::blank("string"), format!("a#{}", n));
            let mut st = gen::blank("structure");
            st["mem"][n] = json!({"t": "smithy.api#String", "traits": {}});
            let member = one(st, "a#Ok".into());
            let mut tr = gen::blank("string");
            tr["traits"][format!("a#{}", n)] = gen::lit("absent", "");
            let tr = one(tr, "a#Ok".into());
            json!({
                "shape": !lint("naming", &plain).0.unwrap().is_empty(),
                "member": !lint("naming", &member).0.unwrap().is_empty(),
                "tr": !lint("naming", &tr).0.unwrap().is_empty(),
                "terms": lint("terms", &plain).0.unwrap().len(),
            })
        })
        .collect();
    json!({"op": "words", "names": names, "out": out})
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    if case.get("acts").is_some() {
        let r = catch_unwind(AssertUnwindSafe(|| run_script(case)));
        out.push(r.unwrap_or(json!({"op": "broken", "panic": true})));
        return;
    }
    if case.get("names").is_some() {
        let r = catch_unwind(AssertUnwindSafe(|| words(&case["names"])));
        out.push(r.unwrap_or(json!({"op": "broken", "panic": true})));
        return;
    }
    // every mention of an identifier in letters of another case, which changes nothing
    let folded = case["fold"].as_u64();
    let m = match folded {
        None => build_model(&case["model"]),
        Some(seed) => {
            let mut p = Parts::new(seed);
            build_model(&fold::model(&case["model"], &mut |x| p.any(x)))
        }
    };
    for what in items(&case["what"]) {
        let w = what.as_str().unwrap();
        let rec = catch_unwind(AssertUnwindSafe(|| match w {
            "references" | "unresolved" => {
                let (first, second) = validate(w, &m);
                let ((r, i, e), (_, i2, _)) = (issues(first), issues(second));
                json!({"op": w, "model": case["model"], "fold": folded.is_some(), "r": r, "issues": i, "again": i2, "err": e})
            }
            "naming" | "terms" => {
                let (first, second) = lint(w, &m);
                let ((r, i, e), (_, i2, _)) = (issues(first), issues(second));
                json!({"op": w, "model": case["model"], "r": r, "issues": i, "again": i2, "err": e})
            }
            _ => {
                let fast = w == "standard_fast";
                let (r, i, _) = issues(atelier_lib::actions::standard_model_validation(&m, fast));
                let (r2, i2, _) = issues(atelier_lib::actions::standard_model_lint(&m, fast));
                let r = if r == "ok" { r2 } else { r };
                json!({"op": "standard", "model": case["model"], "fast": fast, "r": r, "validation": i, "lint": i2})
            }
        }));
        out.push(rec.unwrap_or(json!({"op": w, "model": case["model"], "panic": true})));
    }
}

/// Models whose references point at every kind of target (C06).
pub fn gen_refs(r: &mut Rng) -> Value {
    let mut c = Cfg::default();
    c.max_shapes = 9;
    c.depth = 0;
    c.trait_pct = 25;
    c.unresolved_pct = 10;
    c.dangling_pct = 15;
    c.meta_pct = 0;
    c.member_ids = r.pct(40);
    if r.pct(20) {
        c.nss = vec!["smithy.apiary", "smithy.api.more", "smithy"];
    }
    if r.pct(50) {
        c.kinds = vec![
            "service",
            "operation",
            "resource",
            "structure",
            "simple",
            "resource",
            "operation",
        ];
    }
    let mut m = gen::model(r, &c);
    // sometimes a repaired model: every reference right
    if r.pct(30) {
        let of = |k: &str| {
            pairs(&m["shapes"])
                .filter(|(_, s)| s["kind"] == k)
                .map(|(i, _)| json!(i))
                .collect::<Vec<_>>()
        };
        let (ops, res) = (of("operation"), of("resource"));
        let mut shapes = m["shapes"].clone();
        for (_, s) in shapes.as_object_mut().unwrap() {
            let k = s["kind"].clone();
            for role in crate::wire::ROLES {
                let n = items(&s["refs"][role]).count();
                if n > 0 && !["input", "output", "errors"].contains(&role) {
                    let from = if role == "resources" { &res } else { &ops };
                    s["refs"][role] = if from.is_empty() {
                        json!([])
                    } else {
                        json!([r.pick(from)])
                    };
                } else if n > 0 {
                    s["refs"][role] = json!(["smithy.api#String"]);
                }
            }
            if k != "service" {
                for (_, t) in s["idents"].as_object_mut().unwrap() {
                    *t = json!("smithy.api#String");
                }
            }
            for (_, t) in s["mem"].as_object_mut().unwrap() {
                t["t"] = json!("smithy.api#Blob");
            }
        }
        m["shapes"] = shapes;
    }
    let mut case = json!({"model": m, "what": ["references", "unresolved"]});
    if r.pct(25) {
        case["fold"] = json!(r.next() >> 12);
    }
    case
}

const BASES: [&str; 18] = [
    "Thing",
    "thing",
    "ThingAsJSON",
    "killMasterNode",
    "Blacklist",
    "blackList",
    "WhitelistOf",
    "masterKey",
    "snake_case",
    "MASTER",
    "enslave",
    "SlaveNode",
    "http2Server",
    "ABTest",
    "x",
    "Skill",
    "kill_9",
    "KillKill",
];

fn name(r: &mut Rng) -> String {
    if r.pct(60) {
        return r.pick(&BASES).to_string();
    }
    let parts = [
        "kill", "Master", "node", "Of", "_", "1", "URL", "a", "B", "slave", "white", "List",
        "list", "__", "X9", "iD",
    ];
    let mut s = String::new();
    let words = if r.pct(12) {
        6 + r.below(8)
    } else {
        1 + r.below(4)
    };
    for _ in 0..words {
        s.push_str(r.pick(&parts));
    }
    if !s.starts_with(|c: char| c.is_ascii_alphabetic()) {
        s.insert(0, *r.pick(&['k', 'K', 'm']));
    }
    s
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// Models with all sorts of names in all positions (C07).
pub fn gen_names(r: &mut Rng) -> Value {
    if r.pct(20) {
        let ns: Vec<String> = (0..20).map(|_| name(r)).collect();
        return json!({ "names": ns });
    }
    let mut c = Cfg::default();
    let mut seen: Vec<String> = vec![];
    let mut uniq = |r: &mut Rng| loop {
        let n = name(r);
        if !seen.contains(&n.to_lowercase()) {
            seen.push(n.to_lowercase());
            break leak(n);
        }
        seen.push(String::new());
        if seen.len() > 60 {
            break leak(format!("n{}", seen.len()));
        }
    };
    c.names = (0..6).map(|_| uniq(r)).collect();
    c.members = (0..5).map(|_| uniq(r)).collect();
    c.nss = vec![leak(format!("com.{}", name(r))), "smithy.example"];
    if r.pct(25) {
        c.nss[1] = leak(format!("a.b.c.{}.{}", name(r), name(r)));
    }
    c.traits = vec![
        leak(format!("t.ns#{}", name(r))),
        leak(format!("{}.ns#goodTrait", name(r))),
        leak(format!("smithy.api#{}", name(r))),
        "smithy.api#trait",
        "smithy.api#required",
    ];
    c.depth = 0;
    c.meta_pct = 0;
    c.max_shapes = 5;
    if r.pct(60) {
        c.kinds = vec![
            "structure",
            "union",
            "simple",
            "list",
            "map",
            "service",
            "resource",
        ];
    }
    c.member_ids = true;
    c.dangling_pct = *r.pick(&[0, 10, 25]);
    let mut m = gen::model(r, &c);
    if r.pct(40) {
        // targets that are named nowhere else
        for (id, sh) in m["shapes"].as_object_mut().unwrap() {
            let ns = id.split('#').next().unwrap().to_string();
            for (_, t) in sh["mem"].as_object_mut().unwrap() {
                if r.pct(40) {
                    t["t"] = json!(format!("{}#{}", ns, uniq(r)));
                }
            }
        }
    }
    json!({"model": m, "what": ["naming", "terms"]})
}

/// The standard sets, and scripted ones (C08).
pub fn gen_run(r: &mut Rng) -> Value {
    if r.pct(50) {
        let n = r.below(7);
        let acts: Vec<Value> = (0..n)
            .map(|_| {
                let k = r.below(4);
                let l: Vec<&str> = (0..k)
                    .map(|_| *r.pick(&["info", "warning", "info", "warning", "error"]))
                    .collect();
                json!({"levels": l, "fails": r.pct(8)})
            })
            .collect();
        return json!({"kind": *r.pick(&["lint", "validate"]), "acts": acts, "fast": r.pct(50)});
    }
    let mut c = if r.pct(50) { gen_refs(r) } else { gen_names(r) };
    if c.get("names").is_some() {
        c = gen_refs(r);
    }
    json!({"model": c["model"], "what": [*r.pick(&["standard", "standard_fast"])]})
}
