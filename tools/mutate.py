#!/usr/bin/env python3
"""Mutation runs in scratch copies: how much of what the code does do the recorded runs and the specification see?
   mutate.py prepare              cases for every job, baseline traces (in /tmp/mut)
   mutate.py run WORKERS N SEED [FILE-SUBSTRING ...]     results appended to /tmp/mut/results.ndjson
One mutant: a one-place change of a copy of /repo, built with a copy of the harness; the cases of all jobs are run on
it; the cases whose records differ from the unchanged code's are judged by TLC.  A mutant that changes no record, or
only in ways the specification allows, survives; survivors are then tried against the repository's own tests.
Nothing here is a registered check, and nothing touches /repo."""
import json, os, random, re, shutil, subprocess, sys, time, threading, hashlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check  # noqa: E402
from plan import PLAN  # noqa: E402
M = "/tmp/mut"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_HUSKY_DONT_INSTALL_HOOKS="1",
           RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
CRATES = ["atelier-core", "atelier-json", "atelier-smithy", "atelier-assembler", "atelier-query", "atelier-rdf",
          "atelier-describe", "atelier-lib", "cargo-atelier"]
USES = {"atelier-json": ["json", "assemble", "cli"], "atelier-smithy": ["idl", "selector", "cli"],
        "atelier-assembler": ["assemble", "registry", "cli"], "atelier-query": ["query"], "atelier-rdf": ["rdf", "cli"],
        "atelier-describe": ["describe", "cli"], "atelier-lib": ["cli", "assemble", "registry"], "cargo-atelier": ["cli"]}


SRC = M + "/src"


def prepare():
    os.makedirs(SRC, exist_ok=True)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cp /repo/Cargo.lock %s/" % (SRC, SRC), shell=True, check=True)
    check.VH = setup(0) + "/target/debug/vh"
    os.makedirs(M + "/cases", exist_ok=True)
    os.makedirs(M + "/base", exist_ok=True)
    jobs = []
    for prop in sorted(PLAN):
        for n, mc in enumerate(PLAN[prop].get("mc", [])):
            cf, *_ = check.run_mc(prop, n, mc, "quick", M + "/cases")
            dst = "%s/cases/%s-mc%d" % (M, prop, n)
            os.rename(cf, dst)
            jobs.append([prop, mc["run"], mc["spec"], dst])
        for n, st in enumerate(PLAN[prop].get("streams", [])):
            dst = "%s/cases/%s-gen%d" % (M, prop, n)
            check.vh(["gen", st["gen"], "1", str(st["quick"]), dst])
            jobs.append([prop, st["run"], st["spec"], dst])
        for n, pin in enumerate(PLAN[prop].get("pinned", [])):
            dst = "%s/cases/%s-pin%d" % (M, prop, n)
            shutil.copy(os.path.join(V, "cases", pin["file"]), dst)
            jobs.append([prop, pin["run"], pin["spec"], dst])
    seen, out = set(), []
    for j in jobs:
        h = hashlib.md5(open(j[3], "rb").read()).hexdigest() + j[1]
        if h not in seen:
            seen.add(h)
            out.append(j)
    json.dump(out, open(M + "/jobs.json", "w"))
    for j in out:
        t = time.time()
        tr = M + "/base/" + os.path.basename(j[3])
        check.execute(j[1], j[3], tr, j[0])
        print(os.path.basename(j[3]), j[1], round(time.time() - t, 1), flush=True)


def group(path):
    g = {}
    for l in open(path):
        m = re.search(r'"case":\s?"((?:[^"\\]|\\.)*)"', l)
        g.setdefault(m.group(1), []).append(l)
    return g


# ---- mutants -------------------------------------------------------------------------------------
SWAPS = [("create", "read", "update", "delete", "put", "list"), ("key", "value"), ("input", "output"),
         ("operations", "collection_operations", "resources"), ("namespace", "shape_name", "member_name"),
         ("errors", "operations"), ("any", "all"), ("is_some", "is_none"), ("is_ok", "is_err"), ("continue", "break"),
         ("min", "max"), ("first", "last"), ("starts_with", "ends_with"), ("filter", "skip_while"), ("values", "keys"),
("is_structure", "is_union"), ("is_list", "is_set", "is_map"), ("List", "Set"),
         ("Structure", "Union"), ("Service", "Resource", "Operation"), ("Integer", "Float"), ("Byte", "Short", "Long"),
         ("BigInteger", "BigDecimal"),
         ("insert", "remove"), ("uppercase", "lowercase"), ("is_uppercase", "is_lowercase"),
         ("is_ascii_digit", "is_ascii_alphabetic"), ("is_numeric", "is_alphabetic"), ("push_str", "insert_str"),
         ("or_else", "and_then"), ("unwrap_or_default", "unwrap"), ("get", "remove"), ("is_member", "is_shape"),
         ("has_traits", "is_unresolved"), ("info", "warning", "error")]
OPS = [("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<=", "<"), (">=", ">"), (" < ", " <= "),
       (" > ", " >= "), ("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "), ("!self", "self"),
       ("if !", "if "), (".is_empty()", ".is_empty() == false"), (".iter()", ".iter().skip(1)"),
       (".iter()", ".iter().take(1)"), (".values()", ".values().skip(1)"), (".chars()", ".chars().skip(1)"),
       (".into_iter()", ".into_iter().skip(1)"), (".trim()", ""), (".to_lowercase()", ""), (".rev()", ""),
       (".to_ascii_lowercase()", ""), (".sorted()", ""), ("Some(_)", "None"), ("+=", "-="), (" 0", " 1"), ("(0", "(1"),
       (" 1", " 2"), ("(1", "(2"), ("?;", ".ok();"), ("..=", "..")]


def mutants(text):
    """(position, old, new, kind) over the non-test code."""
    cut = re.search(r"^#\[cfg\(test\)\]", text, re.M)
    end = cut.start() if cut else len(text)
    # blank out comments and attributes so that nothing there is chosen
    text = re.sub(r"/\*!.*?\*/|^lazy_static! \{.*?^\}", lambda m: re.sub(r"[^\n]", "\x01", m.group(0)), text[:end], flags=re.M | re.S)
    mask = re.sub(r"//[^\n]*|^\s*#!?\[[^\n]*|^\s*(pub )?use [^;]*;", lambda m: re.sub(r"[^\n]", "\x01", m.group(0)), text[:end], flags=re.M)
    out = []
    strs = [m.span() for m in re.finditer(r'"(?:[^"\\\n]|\\.)*"', mask)]

    def in_str(p):
        return any(a <= p < b for a, b in strs)
    for a, b in strs:
        s = text[a:b]
        if b - a > 2 and not re.match(r'"(parse_|[^"]* [^"]* )|" ', s) and "#[" not in text[text.rfind("\n", 0, a) + 1:a]:
            out.append((a, s, '"' + s[1:-1] + 'X"', "string"))
            out.append((a, s, '""', "string"))
    for old, new in OPS:
        for m in re.finditer(re.escape(old), mask):
            if not in_str(m.start()) and not (old in ("<=", ">=") and False):
                out.append((m.start(), old, new, "op"))
    for grp in SWAPS:
        for w in grp:
            for m in re.finditer(r"(?<![A-Za-z0-9])" + w + r"(?![A-Za-z0-9])", mask):
                if not in_str(m.start()):
                    for x in grp:
                        if x != w:
                            out.append((m.start(), w, x, "swap"))
    # a word inside an identifier: SHAPE_CREATE -> SHAPE_READ and the like
    consts = sorted(set(re.findall(r"\b[A-Z][A-Z0-9]*_[A-Z0-9_]+\b", mask)))
    for m in re.finditer(r"\b[A-Z][A-Z0-9]*_[A-Z0-9_]+\b", mask):
        c = m.group(0)
        same = [x for x in consts if x != c and x.split("_")[0] == c.split("_")[0]]
        if same:
            out.append((m.start(), c, same[hash(c) % len(same)] if False else same[len(c) % len(same)], "const"))
    for m in re.finditer(r"\bif (?!let)([^{}\n]+) \{", mask):
        out.append((m.start(), m.group(0), "if !(" + m.group(1) + ") {", "if"))
        out.append((m.start(), m.group(0), "if true || (" + m.group(1) + ") {", "if"))
        out.append((m.start(), m.group(0), "if false && (" + m.group(1) + ") {", "if"))
    # whole statements, possibly of several lines
    for m in re.finditer(r"(?<=[;{}]\n)([ \t]+)(?!let |return |pub |fn |if |for |match |while |use |impl |const |else|\}|type |struct )([a-z*_][^;{}]*;)", mask):
        s = m.group(2)
        if s.count("(") == s.count(")") and "\x01" not in s:
            out.append((m.start(2), text[m.start(2):m.end(2)], "();", "stmt"))
    for m in re.finditer(r"(?<=[;{}]\n)([ \t]+)(return [^;{}]*;)", mask):
        out.append((m.start(2), text[m.start(2):m.end(2)], "();", "return"))
    # a single-line match arm goes
    for m in re.finditer(r"^[ \t]+([^\n=]+ => [^\n{}]*,)$", mask, re.M):
        if not m.group(1).startswith("_ "):
            out.append((m.start(1), text[m.start(1):m.end(1)], "", "arm"))
    # two call arguments change places
    for m in re.finditer(r"\(([a-z_.&]+(?:\(\))?), ([a-z_.&]+(?:\(\))?)\)", mask):
        out.append((m.start(), m.group(0), "(%s, %s)" % (m.group(2), m.group(1)), "args"))
    return [x for x in out if "\x01" not in mask[x[0]:x[0] + len(x[1])]]


def setup(w):
    d = "%s/w%d" % (M, w)
    os.makedirs(d, exist_ok=True)
    for x in ("repo", "harness"):
        shutil.rmtree(d + "/" + x, ignore_errors=True)
    shutil.copytree(SRC, d + "/repo")
    shutil.copytree(V + "/harness", d + "/harness")
    p = d + "/harness/Cargo.toml"
    s = open(p).read().replace("/repo/", d + "/repo/")
    open(p, "w").write(s)
    ok, log = build(d)
    if not ok:
        raise SystemExit("worker does not build: " + log)
    return d


def build(d):
    e = dict(ENV, CARGO_TARGET_DIR=d + "/target")
    p = subprocess.run(["cargo", "build", "--offline", "--bins", "-j", "2"], cwd=d + "/harness", env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0, p.stdout.decode("utf8", "replace")[-2000:]


def tests(d):
    e = dict(ENV, CARGO_TARGET_DIR=d + "/target-test")
    try:
        p = subprocess.run(["cargo", "test", "--offline", "--workspace", "-j", "2", "--tests"], cwd=d + "/repo", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    except subprocess.TimeoutExpired:
        return "timeout"
    return "pass" if p.returncode == 0 else "fail"


class Local:
    """check.execute with this worker's binary."""
    def __init__(self, d):
        self.d = d

    def execute(self, what, cases, trace):
        vh = self.d + "/target/debug/vh"
        start, deaths = 0, 0
        lines = [x for x in open(cases) if x.strip()]
        open(trace, "w").close()
        while start < len(lines):
            try:
                p = subprocess.run([vh, "run", what, cases, trace, str(start)], stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=240, cwd=self.d)
            except subprocess.TimeoutExpired:
                return "timeout"
            if p.returncode == 0:
                return None
            prog = open(trace + ".at").read().strip()
            if not prog:
                return "abort"
            start = int(prog) + 1
            deaths += 1
            if deaths > 0:
                return "abort"
        return None


def judge(spec, lines, d):
    path = d + "/judge.nd"
    with open(path, "w") as f:
        f.writelines(lines)
    try:
        out, _, _ = check.tlc(spec + ".tla", spec + ".cfg", d + "/meta", {"TRACE": path}, workers=2, timeout=300)
    except check.Broken as e:
        return "unevaluable"
    return "rejected" if '"NONCONF ' in out else None


def one(d, mut, jobs, base):
    f, pos, old, new, kind = mut
    p = d + "/repo/" + f
    text = open(SRC + "/" + f).read()
    if text[pos:pos + len(old)] != old:
        return dict(result="stale")
    open(p, "w").write(text[:pos] + new + text[pos + len(old):])
    try:
        ok, log = build(d)
        if not ok:
            return dict(result="nocompile")
        crate = f.split("/")[0]
        runs = USES.get(crate)
        accepted = 0
        for prop, run, spec, cases in jobs:
            if runs and run not in runs:
                continue
            tr = d + "/trace.nd"
            died = Local(d).execute(run, cases, tr)
            name = os.path.basename(cases)
            if died:
                return dict(result="caught", by=prop, how=died, job=name)
            g = group(tr)
            diff = [k for k in base[name] if g.get(k) != base[name][k]]
            if not diff:
                continue
            random.Random(1).shuffle(diff)
            noisy = len(diff)
            sel = diff[:60]
            v = judge(spec, [l for k in sel for l in g.get(k, [])], d)
            if v:
                return dict(result="caught", by=prop, how=v, job=name, differ=noisy)
            accepted += noisy
        r = dict(result="survived", differ=accepted)
        r["tests"] = tests(d)
        return r
    finally:
        open(p, "w").write(text)


def main():
    if sys.argv[1] == "prepare":
        return prepare()
    workers, n, seed = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    want = sys.argv[5:]
    jobs = json.load(open(M + "/jobs.json"))
    base = {os.path.basename(j[3]): group(M + "/base/" + os.path.basename(j[3])) for j in jobs}
    rnd = random.Random(seed)
    done = set()
    if os.path.exists(M + "/results.ndjson"):
        for l in open(M + "/results.ndjson"):
            r = json.loads(l)
            done.add((r["file"], r["pos"], r["new"]))
    pool = []
    files = subprocess.run("cd %s && find %s -path '*/src/*.rs' | sort" % (SRC, " ".join(CRATES)), shell=True,
                           stdout=subprocess.PIPE).stdout.decode().split()
    for f in files:
        if want and not any(w in f for w in want):
            continue
        for m in mutants(open(SRC + "/" + f).read()):
            if (f, m[0], m[2]) not in done and (m[3] != "swap" or rnd.random() < 0.25):
                pool.append((f,) + m)
    rnd.shuffle(pool)
    print(len(pool), "mutants", flush=True)
    pool = pool[:n]
    lock = threading.Lock()

    def worker(w):
        d = setup(w)
        while True:
            with lock:
                if not pool or os.path.exists(M + "/stop"):
                    return
                mut = pool.pop()
            t = time.time()
            try:
                r = one(d, mut, jobs, base)
            except Exception as e:  # noqa: BLE001
                r = dict(result="error", why=repr(e)[:300])
            line = open(SRC + "/" + mut[0]).read()[:mut[1]].count("\n") + 1
            r.update(file=mut[0], line=line, pos=mut[1], old=mut[2], new=mut[3], kind=mut[4], secs=round(time.time() - t))
            with lock, open(M + "/results.ndjson", "a") as fh:
                fh.write(json.dumps(r) + "\n")
    ts = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
