"""Running drivers and TLC, collecting verdicts and evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HERE = os.path.join(VERIF, "harness")
REPO = os.environ.get("REPO", "/repo")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class MachineryError(Exception):
    pass


class Check:
    """One property's run: accumulates coverage, violations, known findings; writes evidence."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.spec_runs, self.ops, self.samples, self.violations, self.known = [], {}, [], [], []
        self.notes = []
        os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-", dir=os.path.join(VERIF, "work"))
        self.known_list = load_known(prop)
        self.rnd = random.Random(f"{prop}/{seed}/{tier}")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------ the code
    def drive(self, driver, scenarios, hashseeds=None, timeout=600, workers=NPROC, scenario_timeout=60):
        """Run scenarios on the real code; returns traces [{tid, ev}] in scenario order."""
        for k, sc in enumerate(scenarios):
            sc["tid"] = k + 1
        tag = f"{driver}{len(self.spec_runs)}_{time.time_ns()}"
        cache = self.path("pycache")
        procs = []
        n = max(1, min(workers, len(scenarios)))
        for w in range(n):
            part = scenarios[w::n]
            fin, fout = self.path(f"{tag}.{w}.in"), self.path(f"{tag}.{w}.out")
            with open(fin, "w") as f:
                json.dump(part, f)
            hs = (hashseeds or [self.seed * 8 + w for w in range(8)])[w % len(hashseeds or range(8))]
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX=cache, MPLBACKEND="Agg",
                       PYTHONHASHSEED=str(hs % 4294967295), REPO=REPO, SCENARIO_TIMEOUT=str(scenario_timeout),
                       OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1")
            env.pop("PYTHONPATH", None)
            p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), driver, fin, fout], env=env, cwd=self.dir,
                                 stdout=subprocess.DEVNULL, stderr=open(fout + ".err", "w"))
            procs.append((p, part, fout))
        res = {}
        end = time.time() + timeout
        for p, part, fout in procs:
            why = ""
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
                if rc != 0:
                    why = f"worker exit {rc}"
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                why = "worker timeout"
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        x = json.loads(line)
                    except ValueError:
                        continue
                    res[x["tid"]] = x
            missing = [s["tid"] for s in part if s["tid"] not in res]
            if missing:
                err = open(fout + ".err").read()[-2000:]
                if not any(s["tid"] in res for s in part) and ("ModuleNotFoundError" in err and "pybbn" not in err):
                    raise MachineryError(err)
                if why == "worker timeout" and not any(x["err"] == "hang" for x in res.values()):
                    raise MachineryError(f"{driver} took too long in all, though no scenario hung")
                # the first unfinished scenario took the worker down; the rest were never run
                first = missing[0]
                res[first] = dict(tid=first, ev=[], err=f"{why or 'worker stopped'}: {err[-300:]}")
        out = []
        for sc in scenarios:
            x = res.get(sc["tid"])
            if x is None:
                continue
            ev = x["ev"]
            if x["err"]:
                ev = ev + [dict(op="broken", err=x["err"], obs=[])]
            if not ev:
                raise MachineryError(f"driver {driver} produced no events for {sc['tid']}")
            out.append(dict(tid=sc["tid"], ev=ev))
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, args=(), workers=NPROC, timeout=800, label=None, consts=None,
            quiet_ok=True):
        """Run TLC; returns (stdout, distinct states, generated states). Raises MachineryError on TLC errors."""
        cfg = cfg or os.path.join(SPEC, module + ".cfg")
        meta = tempfile.mkdtemp(prefix="md-", dir=self.dir)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss32m", "-cp", JAR, f"-DTLA-Library={SPEC}", "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ, **(env or {}))
        try:
            p = subprocess.run(cmd, env=e, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timeout on {module}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            raise MachineryError(f"TLC gave no result on {module}:\n{out[-3000:]}")
        gen, dist = int(m[-1][0]), int(m[-1][1])
        return out, dist, gen, p.returncode

    def model(self, module, cfg=None, what="", **kw):
        """Exhaustive check of a design model: it must pass (a failure is an error of the machinery)."""
        t = time.time()
        out, dist, gen, rc = self.tlc(module, cfg, **kw)
        if rc != 0 or "Error:" in out:
            raise MachineryError(f"model {module} failed:\n{out[-4000:]}")
        self.states += dist
        self.transitions += gen
        self.spec_runs.append(dict(model=module, cfg=os.path.basename(cfg) if cfg else module + ".cfg", what=what,
                                   states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
        return out

    def witness(self, module, cfg=None, what="", **kw):
        """A deliberately wrong design must be found out by the same invariants."""
        out, dist, gen, rc = self.tlc(module, cfg, **kw)
        if "is violated" not in out:
            raise MachineryError(f"the wrong design in {module} was not found out:\n{out[-2000:]}")
        self.spec_runs.append(dict(model=module, what="must be refuted, and is: " + what, states=dist, transitions=gen))

    def judge(self, module, traces, scenarios, clauses=None, what="", env=None, **kw):
        """Validate traces against a trace spec. clauses: set of clause names this property judges (None = all)."""
        t = time.time()
        if not traces:
            return []
        f = self.path(f"trace-{time.time_ns()}.json")
        # TLC numbers traces by position
        with open(f, "w") as h:
            json.dump(no_null(traces), h)
        out, dist, gen, rc = self.tlc(module, env={"TRACE": f, **(env or {})}, **kw)
        want = sum(len(x["ev"]) + 1 for x in traces)
        ill = ill_typed(out)
        if ill:
            # the first observation TLC could not even compare with what the specification has: not of its type
            h = dict(clauses=["ill-typed-observation"], l=ill[1] + 1, module=module, trace=traces[ill[0] - 1],
                     tid=traces[ill[0] - 1]["tid"], event=traces[ill[0] - 1]["ev"][ill[1]], why=ill[2],
                     scenario=next((s for s in scenarios if s.get("tid") == traces[ill[0] - 1]["tid"]), None))
            self.violations.append(h)
            return [h]
        if rc != 0 or "Error:" in out or dist != want:
            keep = os.path.join(VERIF, "work", f"failed-{self.prop}-trace.json")
            shutil.copy(f, keep)
            raise MachineryError(f"trace validation with {module} did not complete ({dist} of {want} states; {keep}):\n"
                                 + re.sub(r"(?s)(.{3500}).*(.{1500})", r"\1 ... \2", out[:200000]))
        self.states += dist
        self.transitions += gen
        self.traces += len(traces)
        n = sum(len(x["ev"]) for x in traces)
        self.events += n
        for x in traces:
            for e in x["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        self.spec_runs.append(dict(trace_spec=module, what=what, traces=len(traces), events=n, states=dist,
                                   wall_s=round(time.time() - t, 1)))
        if traces and len(self.samples) < 3:
            x = traces[self.rnd.randrange(len(traces))]
            self.samples.append(dict(what=what, trace=shorten(x)))
        bads = []
        for line in out.splitlines():
            if line.startswith('"@BAD '):
                b = json.loads(json.loads(line)[5:])
                bads.append(b)
        by_tid = {s["tid"]: s for s in scenarios}
        hits = []
        for b in sorted(bads, key=lambda b: (b["tid"], b["l"])):
            names = sorted(c for c in b["bad"] if clauses is None or c in clauses)
            if not names:
                continue
            tr = traces[b["tid"] - 1]
            hits.append(dict(clauses=names, tid=tr["tid"], l=b["l"], event=tr["ev"][b["l"] - 1],
                             scenario=by_tid.get(tr["tid"]), trace=tr, module=module))
        for h in hits:
            self.record(h)
        os.unlink(f)
        return hits

    # ------------------------------------------------------------ verdicts
    def record(self, h):
        rest = []
        for c in h["clauses"]:
            k = self.known_list.get(c)
            if k:
                if k not in self.known:
                    self.known.append(k)
            else:
                rest.append(c)
        if rest:
            h["clauses"] = rest
            self.violations.append(h)

    def finish(self):
        rc = 0
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        seen = set()
        if self.violations:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            for h in self.violations:
                key = tuple(h["clauses"])
                if key in seen:
                    continue
                seen.add(key)
                f = os.path.join(VERIF, "replay", f"{self.prop}-{'+'.join(h['clauses'])[:60]}-{os.getpid()}.json")
                with open(f, "w") as o:
                    json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **{k: v for k, v in h.items()}),
                              o, indent=1, default=str)
                ev = h.get("event") or {}
                print(f"  clauses {h['clauses']} at event {h.get('l')} op={ev.get('op')} err={ev.get('err')!r} "
                      f"(scenario {h.get('tid')}, {h.get('module')})")
                print(f"VIOLATION property={self.prop} replay={f}")
            rc = 1
        self.evidence()
        shutil.rmtree(self.dir, ignore_errors=True)
        print(f"{self.prop} {self.tier}: {'VIOLATED' if rc else 'held'}; {self.traces} traces, {self.events} events, "
              f"{self.states} states, {time.time() - self.t0:.1f}s")
        return rc

    def evidence(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events=self.events, operations=self.ops, runs=self.spec_runs, samples=self.samples,
                   notes=self.notes)
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                 assumptions=ASSUME, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(e, f, indent=1, default=str)


ASSUME = ["the driver's projection of library objects to abstract values (names, values, positions) is faithful",
          "TLC evaluates the specification correctly",
          "conformance covers the executions driven, not all executions; design models cover the stated bounds"]


def no_null(x):
    """JSON null is no TLA+ value: shown as a string, which equals nothing else that is observed."""
    if x is None:
        return "null"
    if isinstance(x, list):
        return [no_null(y) for y in x]
    if isinstance(x, dict):
        return {k: no_null(v) for k, v in x.items()}
    return x


ILL = re.compile(r"Attempted to (check equality of|compare|check if|apply|access|select|compute the value|evaluate an expr|"
                 r"enumerate)|is not in the domain|the first argument of|was not in the domain|should be an? |"
                 r"out of bounds|The \w+ argument of", re.I)


def ill_typed(out):
    """(tid, l, message) of the event at which TLC met a value of another type than the specification gives it."""
    i = out.find("Error:")
    if i < 0:
        return None
    j = out.find("behavior up to this point", i)
    head = out[i:j if j > 0 else i + 1500]
    if j < 0 or not ILL.search(head) or re.search("Overflow|StackOverflow|OutOfMemory|Assert", head):
        return None
    block = out[j:out.find("nested", j) if "nested" in out[j:] else len(out)]
    t, l = re.findall(r"/\\ tid = (\d+)", block), re.findall(r"/\\ l = (\d+)", block)
    if not t or not l:
        return None
    return int(t[-1]), int(l[-1]), head.strip()[:400]


def shorten(x, n=2500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def load_known(prop):
    """KNOWN_FINDINGS.txt: 'finding: property=C19 clause=<name> <text>' lines; 'fixed:' lines suppress nothing."""
    out = {}
    f = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) clause=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out
