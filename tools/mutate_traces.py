"""Demonstrates the binding: corrupts single leaves of recorded traces and asks the trace specification.
usage: mutate_traces.py PROPERTY [COPIES]     (prints, per place in an event, how many corruptions were noticed)
A place that is never noticed is recorded but not compared: either an input the specification only copies, or a gap."""
import copy, json, os, random, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness")); sys.dont_write_bytecode = True
import lib, checks
P, N = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 400
seen, noticed = {}, {}
R = random.Random(5)


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path, x


def put(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def judge(self, module, traces, scenarios, clauses=None, what="", env=None, **kw):
    pool = [t for t in traces if not any(e["op"] == "broken" or e.get("err") for e in t["ev"]) and len(json.dumps(t)) < 40000]
    if not pool:
        return []
    tests, paths = [], []
    for _ in range(N):
        t = copy.deepcopy(R.choice(pool))
        k = R.randrange(len(t["ev"]))
        ls = [(p, v) for p, v in leaves(t["ev"][k]) if p not in (("op",), ("err",))]
        if not ls:
            continue
        kinds = {}
        for p, v in ls:
            kinds.setdefault(tuple("*" if isinstance(q, int) else q for q in p), []).append((p, v))
        place = R.choice(sorted(kinds))
        p, v = R.choice(kinds[place])
        new = (not v) if isinstance(v, bool) else v + (1 if 0 < abs(v) < 1000 else 1000) * R.choice([-1, 1]) if isinstance(v, int) else str(v) + "x"
        put(t["ev"][k], p, new)
        t["ev"] = t["ev"][:k + 1]
        tests.append(t); paths.append((t["ev"][k]["op"],) + place)
    step = 40
    for a in range(0, len(tests), step):
        go(self, module, tests[a:a + step], paths[a:a + step], env, kw)
    return []


def go(self, module, ts, ps, env, kw):
    if not ts:
        return
    f = self.path("m.json")
    json.dump(lib.no_null(ts), open(f, "w"))
    try:
        out, dist, gen, rc = self.tlc(module, env={"TRACE": f, **(env or {})}, **kw)
    except lib.MachineryError as x:
        out, rc, dist = str(x), 1, 0
    if rc != 0 or "Error:" in out:
        if len(ts) == 1:
            note(ps[0], True)
            return
        h = len(ts) // 2
        go(self, module, ts[:h], ps[:h], env, kw)
        go(self, module, ts[h:], ps[h:], env, kw)
        return
    hit = {json.loads(json.loads(l)[5:])["tid"] for l in out.splitlines() if l.startswith('"@BAD ')}
    for k, p in enumerate(ps):
        note(p, k + 1 in hit)


def note(p, ok):
    seen[p] = seen.get(p, 0) + 1
    noticed[p] = noticed.get(p, 0) + ok


lib.Check.judge = judge
lib.Check.model_ = lib.Check.model
cache = {}
lib.Check.witness = lambda *a, **k: None
lib.Check.evidence = lambda s: None
checks.scale = lambda ck, q, t: max(1, q // 12) if isinstance(q, int) else q
ck = lib.Check(P, "quick", 1)
checks.CHECKS[P](ck)
import shutil
shutil.rmtree(ck.dir, ignore_errors=True)
for p in sorted(seen):
    print(f"{noticed[p]:4d} of {seen[p]:4d}  {'.'.join(p)}")
