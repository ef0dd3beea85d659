#!/usr/bin/env python3
"""Decides one property of /repo: check.py <property>   (VERIF_SEED, VERIF_TIER from the environment)
   check.py <property> --replay <file>   runs one stored case again

Every check has the same two halves:
 (a) TLC explores a bounded instance of the specification (spec/MC_*.tla), checks the laws stated
     there on every state, and prints one test case per state/transition;
 (b) those cases, the seeded random cases and the pinned cases (cases/*.ndjson) are executed on the
     real code, which records what it did; TLC then decides for every record whether the
     specification (spec/*Trace.tla) allows it.
A record the specification does not allow is a violation, unless its case is listed as a known
finding.  Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check itself failed."""
import json, os, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN  # noqa: E402

VH = os.path.join(V, "target/debug/vh")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CHUNK = 12000


class Broken(Exception):
    pass


def tlc(module, cfg, meta, env=None, workers=4, timeout=800, extra=()):
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx5g", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, module]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=os.path.join(V, "spec"), env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if p.returncode != 0 or not m:
        raise Broken("TLC failed on %s (%s)\n%s" % (module, cfg, out[-3000:]), out)
    return out, int(m.group(1)), int(m.group(2))


def unquote(line):
    return json.loads(line)


def run_mc(prop, n, mc, tier, work):
    """Explores an instance; returns (cases, generated, distinct)."""
    cfg = mc["cfg_thorough"] if tier == "thorough" and "cfg_thorough" in mc else mc["cfg"]
    out, gen, dist = tlc(mc["module"] + ".tla", cfg + ".cfg", os.path.join(work, "mc%d" % n), workers=8,
                         timeout=mc.get("timeout", 800))
    path = os.path.join(work, "mc%d.cases" % n)
    k = 0
    seen = set()
    with open(path, "w") as f:
        for line in out.splitlines():
            if line.startswith('"CASE '):
                body = unquote(line)[5:]
                h = hashlib.md5(body.encode()).digest()
                if h in seen:
                    continue
                seen.add(h)
                c = json.loads(body)
                c["id"] = "%s-%d" % (cfg, k)
                k += 1
                f.write(json.dumps(c) + "\n")
    if k == 0 and mc.get("run"):
        raise Broken("no cases from " + cfg)
    return path, k, gen, dist


def vh(args, timeout=600):
    return subprocess.run([VH] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)


def execute(what, cases, trace, prop):
    """Runs the cases on the real code. A case that kills or hangs the process is itself a record."""
    start = 0
    with open(cases) as f:
        lines = [x for x in f if x.strip()]
    open(trace, "w").close()
    deaths = 0
    while start < len(lines):
        try:
            p = vh(["run", what, cases, trace, str(start)])
            dead = p.returncode != 0
            why = "abort"
            if p.returncode == 3:
                why = "hang"
            err = p.stderr.decode("utf8", "replace")[-300:]
        except subprocess.TimeoutExpired:
            raise Broken("harness ran out of time")
        if not dead:
            break
        prog = open(trace + ".at").read().strip()
        if not prog:
            raise Broken("harness failed: " + err)
        at = int(prog)
        case = json.loads(lines[at])
        # drop what the dying case may have written in part
        keep = []
        with open(trace) as f:
            for l in f:
                try:
                    r = json.loads(l)
                except ValueError:
                    continue
                if r["case"] != case["id"]:
                    keep.append(l)
        with open(trace, "w") as f:
            f.writelines(keep)
            f.write(json.dumps({"op": "broken", "why": why, "case": case["id"], "step": 0, "first": True}) + "\n")
        start = at + 1
        deaths += 1
        if deaths > 20:
            raise Broken("too many crashes: " + err)
    return len(lines)


def validate(spec, trace, work, tag, retries=12):
    """TLC judges every record. Returns (records, nonconforming record numbers, states, transitions)."""
    chunks, cur, n = [], [], 0
    with open(trace) as f:
        lines = f.readlines()
    last = None
    for idx, l in enumerate(lines):
        c = re.search(r'"case":\s?"((?:[^"\\]|\\.)*)"', l)
        c = c.group(1) if c else None
        if len(cur) >= CHUNK and c != last:
            chunks.append(cur)
            cur = []
        cur.append(idx)
        last = c
    if cur:
        chunks.append(cur)
    bad, gen, dist = [], 0, 0

    def one(k):
        ch = chunks[k]
        path = os.path.join(work, "%s.%d.nd" % (tag, k))
        b = []
        for attempt in range(retries):
            with open(path, "w") as f:
                f.writelines(lines[i] for i in ch)
            try:
                out, g, d = tlc(spec + ".tla", spec + ".cfg", os.path.join(work, "%s.%d.meta" % (tag, k)), {"TRACE": path})
                break
            except Broken as e:
                # A record the specification cannot even evaluate (an output of another shape than
                # any it allows) is not allowed by it. Put it aside and judge the others.
                at = re.findall(r"^(?:/\\ )?i = (\d+)$", str(e.args[1]) if len(e.args) > 1 else "", re.M)
                if not at or attempt == retries - 1 or "OutOfMemory" in str(e) or "StackOverflow" in str(e):
                    raise
                n = int(at[-1])
                case = json.loads(lines[ch[n - 1]])["case"]
                nxt = ch[n] if n < len(ch) and json.loads(lines[ch[n]])["case"] == case else ch[n - 1]
                b.append((nxt, "(not evaluable)"))
                ch = [i for i in ch if json.loads(lines[i])["case"] != case]
                if not ch:
                    return b, 0, 0, 0
        for line in out.splitlines():
            m = re.match(r'"NONCONF (\d+)( .*)?"$', line)
            if m:
                b.append((ch[int(m.group(1)) - 1], (m.group(2) or "").strip()))
        os.remove(path)
        return b, g, d, len(ch)
    with ThreadPoolExecutor(2) as ex:
        for b, g, d, k in ex.map(one, range(len(chunks))):
            bad += b
            gen += g
            dist += d
            if d < k:
                raise Broken("%s: %d records but only %d states: some records were not judged" % (tag, k, d))
    return lines, sorted(set(bad)), dist, gen


def load_known():
    known = {}
    p = os.path.join(V, "known_findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) case=(\S+) (.*)$", l.strip())
        if m:
            known[(m.group(1), m.group(2))] = m.group(3)
    return known


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    plan = PLAN[prop]
    work = os.path.join(V, "work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    replays = os.path.join(V, "work", "replay")
    os.makedirs(replays, exist_ok=True)
    try:
        b = subprocess.run(["bash", os.path.join(V, "build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode != 0:
            raise Broken("harness does not build against /repo:\n" + b.stdout.decode("utf8", "replace")[-3000:])
        known = load_known()
        jobs = []  # (stream name, run, spec, cases file, case count, ops)
        states = trans = 0
        covered = {}
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            rp = json.load(open(sys.argv[3]))
            cf = os.path.join(work, "replay.cases")
            with open(cf, "w") as f:
                f.write(json.dumps(rp["input"]) + "\n")
            jobs.append(("replay", rp["run"], rp["spec"], cf, rp.get("ops")))
            known = {}
        else:
            for n, mc in enumerate(plan.get("mc", [])):
                cf, k, g, d = run_mc(prop, n, mc, tier, work)
                states += d
                trans += g
                covered["model " + mc["module"]] = {"states": d, "transitions": g, "cases_emitted": k}
                if mc.get("run"):
                    jobs.append((mc["module"], mc["run"], mc["spec"], cf, mc.get("ops")))
            for n, st in enumerate(plan.get("streams", [])):
                count = st["thorough"] if tier == "thorough" else st["quick"]
                cf = os.path.join(work, "gen%d.cases" % n)
                p = vh(["gen", st["gen"], str(seed), str(count), cf])
                if p.returncode != 0:
                    raise Broken("generator failed: " + p.stderr.decode("utf8", "replace")[-500:])
                jobs.append((st["gen"], st["run"], st["spec"], cf, st.get("ops")))
            for pin in plan.get("pinned", []):
                cf = os.path.join(V, "cases", pin["file"])
                jobs.append((pin["file"], pin["run"], pin["spec"], cf, pin.get("ops")))

        def work_on(k):
            name, run, spec, cf, ops = jobs[k]
            tr = os.path.join(work, "t%d.nd" % k)
            n = execute(run, cf, tr, prop)
            return (k, n) + validate(spec, tr, work, "t%d" % k)
        findings, violations, samples, traces = [], [], [], 0
        with ThreadPoolExecutor(3) as ex:
            results = list(ex.map(work_on, range(len(jobs))))
        for k, n, lines, bad, d, g in results:
            name, run, spec, cf, ops = jobs[k]
            states += d
            trans += g
            traces += n
            counts = {}
            for l in lines:
                o = json.loads(l)["op"]
                counts[o] = counts.get(o, 0) + 1
            covered["conformance " + name] = {"cases": n, "records_judged": len(lines), "by_action": counts,
                                              "rejected": len(bad)}
            cases = None
            for idx, why in bad:
                rec = json.loads(lines[idx])
                if ops and rec["op"] not in ops and rec["op"] != "broken":
                    continue
                key = (prop, rec["case"])
                if key in known:
                    findings.append((rec["case"], known[key]))
                    continue
                if cases is None:
                    cases = {}
                    for c in open(cf):
                        c = json.loads(c)
                        cases[c["id"]] = c
                violations.append({"property": prop, "stream": name, "run": run, "spec": spec, "ops": ops,
                                   "case": rec["case"], "step": rec["step"], "why": why, "record": rec,
                                   "input": cases.get(rec["case"])})
            if len(samples) < 6:
                for idx in [0, len(lines) // 2]:
                    if idx < len(lines):
                        s = lines[idx].strip()
                        samples.append(json.loads(s) if len(s) < 3000 else s[:3000] + "...")
        for case, what in sorted(set(findings)):
            print("KNOWN-FINDING: property=%s case=%s %s" % (prop, case, what))
        shown = 0
        done = set()
        for v in violations:
            if v["case"] in done:
                continue
            done.add(v["case"])
            path = os.path.join(replays, "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["case"])))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if shown < 5:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  step %s (%s) of case %s is not allowed by %s %s" %
                      (v["step"], v["record"]["op"], v["case"], v["spec"], v["why"]))
            shown += 1
        if len(sys.argv) <= 2:
            ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
                  "coverage": {"states": states, "transitions": trans, "traces_validated_against_impl": traces,
                               "samples": samples, "parts": covered, "known_findings": len(set(findings))},
                  "assumptions": plan.get("assumptions", []),
                  "wall_s": round(time.time() - t0, 1), "violations": len(done)}
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d states, %d rejected, %.1fs" % (prop, tier, traces, states, len(done), time.time() - t0))
        return 1 if violations else 0
    except Broken as e:
        print("CHECK ERROR: %s" % e.args[0])
        return 2
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
