//! C16: assembling models from files.  Every case works in a scratch directory of its own.
use crate::gen::{self, Cfg, Rng};
use crate::json::{doc_of, from_wire};
use crate::wire::{items, pairs, snap_model, snap_node};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler, SMITHY_PATH};
use atelier_core::io::ModelReader;
use atelier_core::model::Model;
use search_path::SearchPath;
use serde_json::{json, Map, Value};
use std::convert::TryFrom;
use std::fs::{self, File};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

extern "C" {
    fn seteuid(uid: u32) -> i32;
}

/// A directory that goes with the value.
pub struct Scratch(pub PathBuf);
static N: AtomicUsize = AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Self {
        let n = N.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("vh-{}-{}", std::process::id(), n));
        fs::create_dir(&dir).unwrap();
        let dir = dir.canonicalize().unwrap();
        mode(&dir, 0o755);
        Scratch(dir)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn mode(p: &Path, m: u32) {
    use std::os::unix::fs::PermissionsExt;
    fs::set_permissions(p, fs::Permissions::from_mode(m)).unwrap();
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}

/// A value of the model as it is written in the IDL.
fn idl_value(w: &Value) -> String {
    match s(w, "k") {
        "str" => format!("\"{}\"", s(w, "s")),
        "arr" => format!(
            "[{}]",
            items(&w["xs"])
                .map(idl_value)
                .collect::<Vec<_>>()
                .join(", ")
        ),
        "int" | "bool" => s(w, "s").to_string(),
        k => panic!("no IDL for a value of kind {}", k),
    }
}

fn idl_traits(ts: &Value, pad: &str) -> String {
    pairs(ts)
        .map(|(t, v)| format!("{}@{}({})\n", pad, t, idl_value(v)))
        .collect()
}

/// The text of a small model in one namespace.
pub fn idl_of(m: &Value) -> String {
    let mut out = String::from("$version: \"1.0\"\n");
    for (k, v) in pairs(&m["meta"]) {
        out.push_str(&format!("metadata {} = {}\n", k, idl_value(v)));
    }
    let ns = pairs(&m["shapes"])
        .next()
        .map(|(k, _)| k.split('#').next().unwrap())
        .unwrap_or("ns.none");
    out.push_str(&format!("namespace {}\n", ns));
    for (id, sh) in pairs(&m["shapes"]) {
        out.push_str(&idl_traits(&sh["traits"], ""));
        let name = id.split('#').nth(1).unwrap();
        if pairs(&sh["mem"]).count() > 0 || sh["kind"] == "structure" {
            out.push_str(&format!("{} {} {{\n", s(sh, "kind"), name));
            for (n, t) in pairs(&sh["mem"]) {
                out.push_str(&idl_traits(&t["traits"], "    "));
                out.push_str(&format!("    {}: {},\n", n, s(t, "t")));
            }
            out.push_str("}\n");
        } else {
            out.push_str(&format!("{} {}\n", s(sh, "kind"), name));
        }
    }
    out
}

pub fn text_of(fmt: &str, model: &Value) -> String {
    match fmt {
        "smithy" => idl_of(model),
        "bad" => "{ this is no model".to_string(),
        _ => serde_json::to_string_pretty(&from_wire(&doc_of(model, &mut Rng::new(1)))).unwrap(),
    }
}

/// Makes the entries of a file system below the directory; says which cannot be locked.
pub fn make(dir: &Path, fs_: &mut Value) -> Vec<PathBuf> {
    let mut locked = vec![];
    for e in fs_.as_array_mut().unwrap() {
        let p = dir.join(s(e, "path"));
        match s(e, "kind") {
            "dir" => fs::create_dir(&p).unwrap(),
            "link" => std::os::unix::fs::symlink(dir.join(s(e, "to")), &p).unwrap(),
            _ if s(e, "fmt") == "bad" && s(e, "path").to_lowercase().ends_with(".json") => {
                // what is no model, however little it is
                let texts = ["{ this is no model", "", "{}", " ", "[]", "null", "\"a#b\""];
                let k: usize = s(e, "path").bytes().map(|b| b as usize).sum();
                fs::write(&p, texts[k % texts.len()]).unwrap()
            }
            _ => fs::write(&p, text_of(s(e, "fmt"), &e["model"])).unwrap(),
        }
        if e["fmt"] == "locked" {
            locked.push(p);
        }
    }
    for p in &locked {
        mode(p, 0);
    }
    locked
}

/// What we may not read as another user; false if there is no becoming one.
fn as_nobody(dir: &Path, locked: &[PathBuf]) -> bool {
    if locked.is_empty() || unsafe { seteuid(65534) } != 0 {
        return locked.is_empty();
    }
    let ok = fs::read_dir(dir).is_ok()
        && locked.iter().all(|p| {
            if p.is_dir() {
                fs::read_dir(p).is_err()
            } else {
                fs::File::open(p).is_err()
            }
        });
    if !ok {
        unsafe { seteuid(0) };
    }
    ok
}

fn registry(reg: &Value) -> FileTypeRegistry {
    let mut r = FileTypeRegistry::empty();
    for (ext, f) in pairs(reg) {
        let t = if f == "json" {
            FileType::new("J", |f| atelier_json::JsonReader::default().read(f))
        } else {
            FileType::new("S", |f| atelier_smithy::SmithyReader::default().read(f))
        };
        r.register(t, ext);
    }
    r
}

fn outcome(way: &str, f: impl FnOnce() -> Result<Model, String>) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(m)) => json!({"way": way, "r": "ok", "m": snap_model(&m)}),
        Ok(Err(_)) => json!({"way": way, "r": "err", "m": snap_model(&Model::default())}),
        Err(_) => json!({"way": way, "panic": true}),
    }
}

fn take(mut a: ModelAssembler) -> Result<Model, String> {
    Model::try_from(&mut a).map_err(|e| e.to_string())
}

pub fn run(case: &Value, out: &mut Vec<Value>) {
    let scratch = Scratch::new();
    let dir = scratch.0.clone();
    let mut fs_ = case["fs"].clone();
    let locked = make(&dir, &mut fs_);
    let nobody = as_nobody(&dir, &locked);
    if !nobody {
        // everything is readable here: let it be so
        for p in &locked {
            mode(p, 0o755);
        }
        for e in fs_.as_array_mut().unwrap() {
            if e["fmt"] == "locked" {
                e["fmt"] = json!(if e["kind"] == "dir" { "" } else { "json" });
            }
        }
    }
    let reg = || registry(&case["reg"]);
    let at = |p: &Value| dir.join(p.as_str().unwrap());
    let roots: Vec<PathBuf> = items(&case["roots"]).map(at).collect();
    let joined = roots
        .iter()
        .map(|p| p.to_str().unwrap())
        .collect::<Vec<_>>()
        .join(":");
    let mut files: Vec<PathBuf> = vec![];
    let mut got = vec![];
    let mut named: Vec<Value> = vec![];
    let names = |a: &ModelAssembler| {
        let ps: Vec<String> = a
            .paths()
            .map(|p| {
                let n = p.strip_prefix(&dir).unwrap_or(p).display().to_string();
                (if n.is_empty() { "." } else { &n }).to_string()
            })
            .collect();
        json!({"paths": ps, "len": a.len(), "empty": a.is_empty()})
    };
    got.push(outcome("push", || {
        let mut a = ModelAssembler::new(reg(), None);
        for p in &roots {
            let _ = a.push(p);
        }
        files = a.expand_file_paths();
        named.push(names(&a));
        take(a)
    }));
    got.push(outcome("grown", || {
        // assembled after every path, and once more as a copy
        let mut a = ModelAssembler::new(reg(), None);
        for p in &roots {
            let _ = Model::try_from(&mut a);
            let _ = a.push(p);
        }
        named.push(names(&a));
        let b = a.clone();
        let _ = take(a);
        named.push(names(&b));
        take(b)
    }));
    got.push(outcome("back", || {
        let mut a = ModelAssembler::new(reg(), None);
        for p in roots.iter().rev().chain(roots.iter()) {
            let _ = a.push_str(p.to_str().unwrap());
        }
        named.push(names(&a));
        Model::try_from(a).map_err(|e| e.to_string())
    }));
    got.push(outcome("path", || {
        let sp = if roots.is_empty() {
            SearchPath::from(Vec::<PathBuf>::new())
        } else {
            SearchPath::from(joined.as_str())
        };
        let a = ModelAssembler::new(reg(), Some(sp));
        named.push(names(&a));
        take(a)
    }));
    got.push(outcome("half", || {
        // some through the search path, the rest named
        let n = roots.len() / 2;
        let mut a = ModelAssembler::new(reg(), Some(SearchPath::from(roots[..n].to_vec())));
        for p in &roots[n..] {
            let _ = a.push(p);
        }
        take(a)
    }));
    got.push(outcome("round", || {
        // the same places by other names
        let mut a = ModelAssembler::new(reg(), None);
        for p in items(&case["roots"]) {
            let _ = a.push_str(&format!("{}/./{}", dir.display(), p.as_str().unwrap()));
        }
        take(a)
    }));
    got.push(outcome("relative", || {
        // from within the directory
        let was = std::env::current_dir().unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let mut a = ModelAssembler::new(reg(), None);
        for (n, p) in items(&case["roots"]).enumerate() {
            let p = p.as_str().unwrap();
            let _ = match n % 3 {
                0 => a.push_str(p),
                1 => a.push_str(&format!("./{}", p)),
                _ => a.push(Path::new(p)),
            };
        }
        let m = catch_unwind(AssertUnwindSafe(|| take(a)));
        std::env::set_current_dir(was).unwrap();
        m.unwrap_or_else(|e| std::panic::resume_unwind(e))
    }));
    if case["reg"] == json!({"json": "json", "smithy": "smithy"}) {
        std::env::remove_var(SMITHY_PATH);
        if !roots.is_empty() {
            std::env::set_var(SMITHY_PATH, &joined);
        }
        got.push(outcome("env", || take(ModelAssembler::default())));
        std::env::remove_var(SMITHY_PATH);
    }
    let blocked = locked.iter().any(|p| p.is_dir()) && nobody;
    if !blocked {
        got.push(outcome("each", || {
            let mut a = ModelAssembler::new(reg(), None);
            for p in &files {
                let _ = a.push(p);
            }
            take(a)
        }));
    }
    let files: Vec<Value> = files
        .iter()
        .map(|p| {
            let c = p.canonicalize().unwrap_or_else(|_| p.clone());
            json!(c
                .strip_prefix(&dir)
                .map(|p| p.display().to_string())
                .unwrap_or("elsewhere".into()))
        })
        .collect();
    if nobody && !locked.is_empty() {
        unsafe { seteuid(0) };
    }
    for p in &locked {
        mode(p, 0o755);
    }
    out.push(
        json!({"op": "assemble", "fs": fs_, "reg": case["reg"], "roots": lists(&case["roots"]),
                    "got": got, "files": files, "named": named}),
    );
}

fn lists(v: &Value) -> Value {
    Value::Array(items(v).cloned().collect())
}

/// A file type that is known by what its reader makes of a file.
fn of_type(t: Option<&std::rc::Rc<FileType>>, probes: &[PathBuf]) -> Value {
    match t {
        None => json!({"name": "", "mime": "", "rd": "", "shown": ""}),
        Some(t) => {
            let rd = probes
                .iter()
                .filter_map(|p| {
                    let m = (t.reader())(&mut File::open(p).unwrap()).ok()?;
                    let v = m.metadata_value("reader").map(snap_node)?;
                    v["s"].as_str().map(|s| s.to_string())
                })
                .next()
                .unwrap_or_default();
            let shown = format!("{}", t);
            let debug = format!("{:?}", t);
            json!({"name": t.name(), "mime": t.mime_type().clone().unwrap_or_default(), "rd": rd,
                   "shown": if shown == debug { shown } else { shown + " or " + &debug }})
        }
    }
}

fn marked(name: &str) -> atelier_core::error::Result<Model> {
    let mut m = Model::default();
    m.add_metadata("reader".into(), name.to_string().into())?;
    Ok(m)
}

pub fn run_registry(case: &Value, out: &mut Vec<Value>) {
    let scratch = Scratch::new();
    let probes = [scratch.0.join("p1"), scratch.0.join("p2")];
    std::fs::write(
        &probes[0],
        "{\"smithy\": \"1.0\", \"metadata\": {\"reader\": \"json\"}}",
    )
    .unwrap();
    std::fs::write(&probes[1], "metadata reader = \"smithy\"\nnamespace a.b\n").unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut r = if case["start"] == "default" {
            FileTypeRegistry::default()
        } else {
            FileTypeRegistry::empty()
        };
        let mut calls = vec![];
        for c in items(&case["calls"]) {
            let f: atelier_assembler::FileReader = match s(c, "rd") {
                "r1" => |_| marked("r1"),
                "r2" => |_| marked("r2"),
                "r3" => |_| marked("r3"),
                _ => |_| marked("r0"),
            };
            let t = || match s(c, "mime") {
                "" => FileType::new(s(c, "name"), f),
                m => FileType::new_with_mime_type(s(c, "name"), f, m),
            };
            let xs: Vec<&str> = items(&c["x"]).map(|x| x.as_str().unwrap()).collect();
            let mut given = None;
            match s(c, "c") {
                "register" => r.register(t(), xs[0]),
                "register_all" => r.register_all(t(), &xs),
                _ => given = r.remove(xs[0]),
            }
            let mut c = c.clone();
            c["given"] = of_type(given.as_ref(), &probes);
            calls.push(c);
        }
        // what a copy of it knows
        let r = if calls.len() % 2 == 0 { r.clone() } else { r };
        let asked: Vec<Value> = items(&case["ask"])
            .map(|x| {
                let e = x.as_str().unwrap();
                json!({"x": e, "has": r.contains(e), "got": of_type(r.get(e), &probes)})
            })
            .collect();
        let mimes: Vec<Value> = items(&case["mimes"])
            .map(|x| {
                let m = x.as_str().unwrap();
                json!({"x": m, "got": of_type(r.get_by_mime_type(m), &probes)})
            })
            .collect();
        let debug: Vec<String> = serde_json::from_str(&format!("{:?}", r)).unwrap_or_default();
        json!({"op": "registry", "start": case["start"], "calls": calls, "debug": debug,
               "exts": r.extensions().collect::<Vec<_>>(), "asked": asked, "mimes": mimes})
    }));
    out.push(r.unwrap_or(json!({"op": "registry", "panic": true})));
}

pub fn gen_registry(r: &mut Rng) -> Value {
    let exts = [
        "json",
        "JSON",
        "smithy",
        "Smithy",
        "x",
        "X",
        "tar.gz",
        "Tar.GZ",
        "",
        "y",
        "j",
        "jsonx",
        ".json",
        "a-very-long-file-extension",
        "A-Very-Long-File-Extension",
        " x",
        "json.",
        "\u{e9}",
        "\u{c9}",
        "x\u{3a9}",
        "X\u{3c9}",
    ];
    let mimes = [
        "a/b", "A/b", "text/x", "TEXT/X", "", "a/b;x=1", "a/b; x=1", " a/b", "a/b+json",
        "a/\u{e4}", "A/\u{c4}",
    ];
    let calls: Vec<Value> = (0..r.below(9))
        .map(|_| {
            let c = *r.pick(&["register", "register", "register_all", "remove"]);
            let n = if c == "register_all" { r.below(4) } else { 1 };
            let x: Vec<&str> = (0..n).map(|_| *r.pick(&exts)).collect();
            if c == "remove" {
                return json!({"c": c, "x": x, "name": "", "mime": "", "rd": ""});
            }
            json!({"c": c, "x": x, "name": *r.pick(&["N1", "N2", "n1", "", "JSON AST"]),
                   "mime": *r.pick(&mimes), "rd": *r.pick(&["r1", "r2", "r3"])})
        })
        .collect();
    json!({"start": *r.pick(&["default", "empty"]), "calls": calls, "ask": exts, "mimes": mimes})
}

/// What a file holds: models whose JSON form says exactly what they are.
fn content(r: &mut Rng, fmt: &str) -> Value {
    let c = Cfg {
        nss: vec!["ns.a", "ns.b"],
        names: vec![
            "Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota",
        ],
        max_shapes: 2,
        unresolved_pct: 0,
        dangling_pct: 30,
        floats: false,
        absent: false,
        trait_pct: 30,
        meta_pct: 20,
        ..Cfg::default()
    };
    let mut m = if fmt == "smithy" {
        json!({"ver": "1.0", "meta": {}, "shapes": {}})
    } else {
        gen::model(r, &c)
    };
    let ns = if fmt == "smithy" { "ns.b" } else { "ns.a" };
    let tags = |r: &mut Rng| {
        gen::arr(
            (0..1 + r.below(2))
                .map(|_| gen::lit("str", *r.pick(&["a", "b"])))
                .collect(),
        )
    };
    if fmt == "smithy" || r.pct(40) {
        let id = format!("{}#{}", ns, *r.pick(&["Kappa", "Lambda"]));
        let mut sh = gen::blank(*r.pick(&["string", "string", "string", "string", "blob"]));
        if r.pct(60) {
            sh["traits"]["smithy.api#tags"] = tags(r);
        }
        m["shapes"][id] = sh;
    }
    if r.pct(30) {
        m["meta"]["k"] = tags(r);
    }
    m
}

pub fn gen_fs(r: &mut Rng, trouble: bool) -> (Value, Value) {
    let mut fs: Vec<Value> = vec![];
    let mut dirs: Vec<String> = vec![".".into()];
    let mut all: Vec<String> = vec![".".into()];
    let path = |d: &str, n: &str| {
        if d == "." {
            n.to_string()
        } else {
            format!("{}/{}", d, n)
        }
    };
    let put = |fs: &mut Vec<Value>,
               all: &mut Vec<String>,
               p: &str,
               kind: &str,
               to: &str,
               fmt: &str,
               m: Value| {
        if all.iter().any(|q| q == p) {
            return false;
        }
        all.push(p.to_string());
        fs.push(json!({"path": p, "kind": kind, "to": to, "fmt": fmt, "model": m}));
        true
    };
    let none = json!({"ver": "1.0", "meta": {}, "shapes": {}});
    for n in ["d", "e.json", ".f", "g", "h.d", "target"]
        .iter()
        .take(r.below(7))
    {
        let at = r.pick(&dirs).clone();
        let p = path(&at, n);
        if put(&mut fs, &mut all, &p, "dir", "", "", none.clone()) {
            dirs.push(p);
        }
    }
    if r.pct(6) {
        // far down
        let mut at = r.pick(&dirs).clone();
        for k in 0..4 + r.below(14) {
            at = path(&at, &format!("n{}", k));
            put(&mut fs, &mut all, &at, "dir", "", "", none.clone());
        }
        dirs = vec![at];
    }
    for _ in 0..r.below(6) {
        let at = r.pick(&dirs).clone();
        let fmt = *r.pick(&["json", "json", "json", "smithy", "smithy", "bad", "locked"]);
        let fmt = if trouble || fmt == "json" || fmt == "smithy" {
            fmt
        } else {
            "json"
        };
        let n = *r.pick(&["m", "n", "o.p", "Q", ".h", "~m", "#n", "a b", "m.smithy"]);
        let e = match fmt {
            "json" => *r.pick(&["json", "json", "JSON", "Json"]),
            "smithy" => *r.pick(&["smithy", "smithy", "SMITHY"]),
            "bad" => *r.pick(&["json", "smithy", "txt", "txt", "txt", "json~", "jso", "bak"]),
            _ => *r.pick(&["json", "txt"]),
        };
        let n = if r.pct(8) {
            "".to_string()
        } else {
            format!("{}.", n)
        };
        let p = path(&at, &format!("{}{}", n, if r.pct(2) { "json" } else { e }));
        let m = content(r, fmt);
        put(&mut fs, &mut all, &p, "file", "", fmt, m);
    }
    for n in ["l", "k", "i"].iter().take(r.below(4)) {
        let at = r.pick(&dirs).clone();
        let to = if r.pct(8) {
            "gone".to_string()
        } else {
            r.pick(&all).clone()
        };
        // a link to a file is named like it, or like nothing that is read
        let leaf = to.rsplit('/').next().unwrap().to_string();
        let ext = match leaf.rfind('.') {
            Some(i) if i > 0 => leaf[i + 1..].to_string(),
            _ => String::new(),
        };
        let name = if ext.is_empty() || ext == "txt" || r.pct(15) {
            n.to_string()
        } else {
            format!("{}.{}", n, ext)
        };
        put(
            &mut fs,
            &mut all,
            &path(&at, &name),
            "link",
            &to,
            "",
            none.clone(),
        );
    }
    if trouble && r.pct(6) {
        let at = r.pick(&dirs).clone();
        put(
            &mut fs,
            &mut all,
            &path(&at, "sealed"),
            "dir",
            "",
            "locked",
            none,
        );
    }
    let mut roots: Vec<Value> = vec![];
    for _ in 0..r.below(5) {
        roots.push(json!(r.pick(&all)));
    }
    if r.pct(50) {
        roots.push(json!("."));
    }
    if trouble && r.pct(6) {
        roots.push(json!(*r.pick(&[
            "no.json",
            "no",
            "no/where.smithy",
            "no.txt"
        ])));
    }
    r.shuffle(&mut roots);
    (Value::Array(fs), Value::Array(roots))
}

pub fn gen(r: &mut Rng) -> Value {
    let trouble = r.pct(30);
    let (fs, roots) = gen_fs(r, trouble);
    let mut reg = Map::new();
    if r.pct(85) {
        reg.insert("json".into(), json!("json"));
        reg.insert("smithy".into(), json!("smithy"));
    } else {
        for (k, v) in [
            ("json", "json"),
            ("smithy", "smithy"),
            ("txt", "json"),
            ("bak", "smithy"),
        ] {
            if r.pct(50) {
                reg.insert(k.into(), json!(v));
            }
        }
    }
    json!({"fs": fs, "reg": reg, "roots": roots})
}
