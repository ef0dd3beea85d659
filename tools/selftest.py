#!/usr/bin/env python3
"""Shows that the binding bites: records are taken from the real code, one leaf of one recorded field is
   changed, and TLC judges the changed records.  Prints, per trace specification and recorded field, how
   many of the changed records were rejected; a field never rejected is either an input, a field nobody reads
   or a hole.       selftest.py [-v] [<property> ...]"""
import copy, functools, json, os, random, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check  # noqa: E402
from plan import PLAN  # noqa: E402
META = {"op", "case", "step", "first", "input"}


def leaves(x, path=()):
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, list):
        if x:
            yield path  # the list itself: drop an element
        for k, y in enumerate(x):
            yield from leaves(y, path + (k,))
    else:
        yield path


def change(rec, path, rnd):
    o = rec
    for p in path[:-1]:
        o = o[p]
    v = o[path[-1]]
    if isinstance(v, bool):
        n = not v
    elif isinstance(v, int):
        n = v + 1
    elif isinstance(v, str):
        n = v + "q" if v else "q"
    elif isinstance(v, list):
        n = list(v)
        n.pop(rnd.randrange(len(n)))
    else:
        return False
    o[path[-1]] = n
    return True


def main():
    rnd = random.Random(7)
    props = [a for a in sys.argv[1:] if a != "-v"] or sorted(PLAN)
    done = set()
    subprocess.run(["bash", os.path.join(V, "build.sh")], stdout=subprocess.DEVNULL, check=True)
    verbose = "-v" in sys.argv
    keep = os.path.join(V, "work", "selftest-bin")
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(os.path.dirname(check.VH), keep, ignore=lambda d, n: [x for x in n if x not in ("vh", "cargo-atelier", "debug")])
    check.VH = os.path.join(keep, "vh")
    for prop in props:
        work = os.path.join(V, "work", "self-" + prop)
        os.makedirs(work, exist_ok=True)
        for st in PLAN[prop].get("streams", []):
            key = (st["gen"], st["run"], st["spec"])
            if key in done:
                continue
            done.add(key)
            cf = os.path.join(work, "c"); tr = os.path.join(work, "t"); mt = os.path.join(work, "m")
            check.vh(["gen", st["gen"], "3", "60", cf])
            check.execute(st["run"], cf, tr, prop)
            groups = {}
            for l in open(tr):
                r = json.loads(l)
                groups.setdefault(r["case"], []).append(r)
            out, tags = [], []
            for g in groups.values():
                for _ in range(8):
                    h = copy.deepcopy(g)
                    k = rnd.randrange(len(h))
                    keys = [f for f in h[k] if f not in META]
                    f = rnd.choice(keys)
                    ls = [p for p in leaves(h[k][f], (f,))]
                    if not ls:
                        continue
                    p = rnd.choice(ls)
                    old = functools.reduce(lambda o, q: o[q], p, h[k])
                    if not change(h[k], p, rnd):
                        continue
                    cid = "m%d" % len(tags)
                    for r in h:
                        r["case"] = cid
                    out += h[:k + 2]
                    tags.append((h[k].get("op", "?"), f, p, old))
            cnt = {}
            bad = set()
            at = 0
            while at < len(out):
                with open(mt, "w") as fh:
                    for r in out[at:]:
                        fh.write(json.dumps(r) + "\n")
                env = {"TRACE": mt}
                try:
                    o, _, _ = check.tlc(st["spec"] + ".tla", st["spec"] + ".cfg", os.path.join(work, "meta"), env)
                    end = len(out)
                except check.Broken as e:
                    # a record of a shape the specification cannot evaluate: rejected; go on after its case
                    o = str(e.args[1])
                    n = at + int(re.findall(r"^(?:/\\ )?i = (\d+)$", o, re.M)[-1])
                    n = min(n, len(out) - 1)
                    bad.add(out[n]["case"])
                    end = n + 1
                    while end < len(out) and out[end]["case"] == out[n]["case"]:
                        end += 1
                for m in re.findall(r'^"NONCONF (\d+)', o, re.M):
                    bad.add(out[at + int(m) - 1]["case"])
                at = end
            for n, full in enumerate(tags):
                t = full[:2]
                if verbose and ("m%d" % n) not in bad:
                    print("  accepted", prop, t[0], ".".join(str(q) for q in full[2]), "was", json.dumps(full[3])[:60])
                c = cnt.setdefault(t, [0, 0])
                c[1] += 1
                c[0] += ("m%d" % n) in bad
            for t in sorted(cnt):
                print("%s %s %s.%s: %d of %d rejected" % (prop, st["spec"], t[0], t[1], *cnt[t]), flush=True)
        shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(keep, ignore_errors=True)


if __name__ == "__main__":
    main()
