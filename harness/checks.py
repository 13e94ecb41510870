"""The checks, one function per property."""
import copy
import itertools
import math
from fractions import Fraction

import gen
import walks
from lib import *

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


# a variable with five to seven parents
FAN = dict(nmin=6, nmax=8, kind="fan", cards=(2,), mode="mixed", supmax=300)


# ten to fourteen variables, with every assignment possible or nearly so
WIDE = dict(nmin=10, nmax=14, bound=10 ** 8, supmax=8000, cards=(2, 2, 2, 3), dens_of=(2, 3, 4))


def scale(ck, quick, thorough):
    return thorough if ck.thorough else quick


# ================================================================ sessions
class Gen:
    """Generates one session scenario while tracking the evidence in force (to stay in bounds)."""

    def __init__(self, r, allow_impossible=False, one=4, tables=False, **kw):
        self.r = r
        self.one = one       # certainty, in evidence
        self.tables = tables  # tables are observed, so likelihoods keep their size
        self.allow = allow_impossible
        self.kw = kw
        self.ops = []
        self.nets = {}
        self.trees = {}      # t -> dict(net, sup, liks, src)
        self.builders = {}   # builder -> what it has been given so far
        self.keys = 0

    def evidence(self, net, node=None, types="VVFOOO", weird=True):
        return gen.evidence(self.r, net, node, types, weird, one=self.one)

    def net(self, s=1, net=None):
        net = net or gen.network(self.r, **{"numeric": True, **self.kw})
        self.nets[s] = net
        self.ops.append(dict(op="net", s=s, net=net))
        return net

    def compile(self, t, s=1):
        net = self.nets[s]
        self.trees[t] = dict(net=net, sup=gen.support(net), liks=[[self.one] * c for c in net["card"]], src=s)
        self.ops.append(dict(op="compile", t=t, s=s))

    def fits(self, tr, liks):
        fits = gen.den_total(tr["net"]) * gen.soft_cost(liks, self.one) <= 2 * 10 ** 8
        return fits and (self.allow or gen.possible(tr["net"], liks, tr["sup"]))

    def dress(self, t, ev, builders):
        """The way a piece of evidence is handed over: see drv_session.Session.evidence."""
        r = self.r
        if "how" in ev:
            if ev["how"] == "same" or r.random() < 0.5:
                return dict(ev, how="same")
            ev = {k: ev[k] for k in ("node", "type", "vals")}
        self.keys += 1
        ev = dict(ev, how="new", key=self.keys)
        x = r.random()
        if x < 0.15:
            ev["how"] = "direct"
        elif x < 0.40:
            b = f"{t}.{ev['node']}"
            vals = dict(builders.get(b, {}))
            vals.update((v, q) for v, q in ev["vals"])
            builders[b] = vals
            ev.update(how="builder", b=b, put=ev["vals"], vals=[[v, q] for v, q in vals.items()])
        if ev["how"] != "builder" and ev["type"] in "FOU" and r.random() < 0.25:
            ev["scale"] = r.choice([1e-15, 1e-6, 1e-2, 1e4])
        if ev["how"] != "builder" and ev["type"] == "V" and not self.tables and r.random() < 0.25:
            x = [q for _, q in ev["vals"]]
            if 0 <= min(x) and max(x) <= self.one and sum(1 for q in x if q) > 1:
                ev["scale"] = r.choice([1e-12, 1e-6, 1e-2, 0.5])
        return ev

    def try_update(self, t, evs, op="update"):
        tr = self.trees[t]
        builders = copy.deepcopy(self.builders)
        evs = [self.dress(t, e, builders) for e in evs]
        liks = [x[:] for x in tr["liks"]]
        for e in evs:
            i = e["node"] - 1
            x = gen.normalise(tr["net"], e, self.one)
            if op == "toggle" and sorted(x) == [0] * (len(x) - 1) + [self.one] and liks[i] == x:
                x = [self.one] * len(x)
            liks[i] = x
        if not self.fits(tr, liks):
            return False
        tr["liks"] = liks
        self.builders = builders
        self.ops.append(dict(op=op, t=t, evs=evs))
        return True

    def random_evidence_op(self, t, types="VVFOOOU"):
        r, tr = self.r, self.trees[t]
        net = tr["net"]
        for _ in range(30):
            x = r.random()
            if x < 0.40:
                k = r.choice([1, 1, 1, 2, 3])
                nodes = [r.randint(1, net["n"]) for _ in range(k)]
                if self.try_update(t, [self.evidence(net, i, types) for i in nodes]):
                    return
            elif x < 0.52:
                # sharpen or blur the same variable: hard -> soft with the same mode, and back
                i = r.randint(1, net["n"])
                c = net["card"][i - 1]
                v = r.randint(1, c)
                q = r.choice([0, 1, 2, 3] if self.one == 4 else [0, 1, 500, 990, 999])
                ev = dict(node=i, type=r.choice("VVO"),
                          vals=[[v, self.one]] + [[u, q] for u in range(1, c + 1) if u != v])
                if self.try_update(t, [ev], r.choice(["update", "update", "toggle"])):
                    return
            elif x < 0.72:
                i = r.randint(1, net["n"])
                if self.try_update(t, [self.evidence(net, i, "OOOVF", weird=False)], "toggle"):
                    return
            elif x < 0.80 and any(o["op"] in ("update", "toggle") and o["t"] == t for o in self.ops):
                # repeat an earlier operation
                o = r.choice([o for o in self.ops if o["op"] in ("update", "toggle") and o["t"] == t])
                if all(e["node"] <= net["n"] for e in o["evs"]) and not o.get("bad_ok") \
                        and self.try_update(t, copy.deepcopy(o["evs"]), o["op"]):
                    return
            elif x < 0.94:
                ns = r.sample(range(1, net["n"] + 1), r.randint(1, min(3, net["n"])))
                liks = [x[:] for x in tr["liks"]]
                for i in ns:
                    liks[i - 1] = [self.one] * len(liks[i - 1])
                tr["liks"] = liks
                self.ops.append(dict(op="retract", t=t, nodes=ns))
                return
            else:
                self.clear(t)
                return
        self.clear(t)

    def clear(self, t):
        tr = self.trees[t]
        tr["liks"] = [[self.one] * len(x) for x in tr["liks"]]
        self.ops.append(dict(op="clear", t=t))

    def refused(self, t):
        """A batch whose last item names an unknown value or variable, after valid ones."""
        r, net = self.r, self.trees[t]["net"]
        evs = [self.evidence(net, weird=False) for _ in range(r.randint(0, 2))]
        if r.random() < 0.7:
            e = self.evidence(net, weird=False, types="VFO")
            e["vals"].insert(r.randint(0, len(e["vals"])), [0, r.choice([self.one // 2, self.one])])
            evs.append(e)
        else:
            evs.append(dict(node=0, type="O", vals=[[0, self.one]]))
        if r.random() < 0.3:
            evs.append(self.evidence(net, weird=False))
        op = "update" if len(evs) > 1 or r.random() < 0.6 else "toggle"
        self.ops.append(dict(op=op, t=t, evs=evs, bad_ok=True))

    def copy(self, t, t2):
        self.trees[t2] = dict(copy.deepcopy(self.trees[t]), src=0)
        self.ops.append(dict(op="copy", t=t, t2=t2))

    def reload(self, t, t2, s=1):
        tr = copy.deepcopy(self.trees[t])
        self.trees[t2] = dict(tr, src=0, liks=[[self.one] * len(x) for x in tr["liks"]])
        self.ops.append(dict(op="reload", t=t, t2=t2, s=s, json=self.r.random() < 0.6))

    def reapply(self, t, t2):
        r, tr = self.r, self.trees[t]
        net = tr["net"]
        for _ in range(50):
            upd = []
            for i in range(net["n"]):
                if r.random() < 0.5:
                    upd.append([])
                else:
                    par0 = [[p - 1 for p in q] for q in net["par"]]
                    upd.append(gen.gen_cpt(r, par0, net["card"], i, net["den"][i], r.choice(["pos", "any", "mixed"])))
            new = dict(net, cpt=[u if u else net["cpt"][i] for i, u in enumerate(upd)])
            if gen.support_size(new, 1500) <= 1500:
                break
        else:
            return
        self.trees[t2] = dict(net=new, sup=gen.support(new), liks=[[self.one] * c for c in net["card"]], src=0)
        self.ops.append(dict(op="reapply", t=t, t2=t2, upd=upd))

    def change(self, s=1):
        """In-place change: new tables, perhaps a new leaf, perhaps a new edge."""
        r, net = self.r, self.nets[s]
        for _ in range(50):
            new = copy.deepcopy(net)
            par0 = [[p - 1 for p in q] for q in new["par"]]
            touched = set()
            kind = r.choice(["tables", "leaf", "edge", "edge", "leaf"])
            if kind == "leaf" and gen.den_total(new) * 4 <= 2 * 10**7 and new["n"] < 9:
                n = new["n"]
                par0.append(r.sample(range(n), min(n, r.randint(0, 2))))
                new["card"].append(2)
                new["den"].append(4)
                new["cpt"].append([])
                new["ids"].append(max(new["ids"]) + r.randint(1, 5))
                k = n
                while f"added {k}" in new["names"]:
                    k += 1
                new["names"].append(f"added {k}")
                new["vals"].append(["in", "out"])
                new["norder"].append(n + 1)
                new["eorder"] += [[p + 1, n + 1] for p in par0[n]]
                new["n"] = n + 1
                touched.add(n)
            elif kind == "edge" and new["n"] > 1:
                top = new["top"]
                a, b = sorted(r.sample(range(new["n"]), 2))
                p, c = top[a] - 1, top[b] - 1
                if p in par0[c] or len(par0[c]) > 3:
                    continue
                par0[c].append(p)
                new["eorder"].append([p + 1, c + 1])
                touched.add(c)
            for i in range(new["n"]):
                if i in touched or r.random() < 0.3:
                    new["cpt"][i] = gen.gen_cpt(r, par0, new["card"], i, new["den"][i], r.choice(["pos", "any"]))
            new["par"] = [[p + 1 for p in q] for q in par0]
            new["top"] = [i + 1 for i in gen.topo(par0)]
            if gen.support_size(new, 1500) <= 1500:
                break
        else:
            return
        self.nets[s] = new
        self.trees = {t: x for t, x in self.trees.items() if x["src"] != s}
        self.ops.append(dict(op="change", s=s, net=new))

    def query(self):
        self.ops.append(dict(op="query"))


def replay_model(ck, model, clauses, limit=None, tabs=False, maxlen=150):
    """Check the bounded session model and replay its transitions into the library."""
    out = ck.model("MCSession", env={"MODEL": model, "EMIT": "1"}, what=f"session machine, model {model}")
    es = walks.edges(out)
    ws, total = walks.covering_walks(es, ck.rnd, maxlen, limit)
    nets = {
        "ab": dict(ids=[1, 0], names=["a", "b"], vals=[["on", "off"], ["on", "off"]], norder=[2, 1], eorder=[[1, 2]]),
        "abc": dict(ids=[7, 10, 2], names=["a", "b", "c"], vals=[["x", "y", "z"], ["on", "off"], ["1", "0"]],
                    norder=[3, 2, 1], eorder=[[1, 2]]),
    }
    scs = []
    for w in ws:
        ops = []
        for o in w:
            o = copy.deepcopy(o)
            if o["op"] == "net":
                o["net"] = dict(NETS[model], **nets["abc" if model == "island" else "ab"])
            if o["op"] == "update" and any(e["node"] == 0 or any(v == 0 for v, _ in e["vals"]) for e in o["evs"]):
                o["bad_ok"] = True
            if o["op"] == "reload":
                o["json"] = len(ops) % 2 == 0
            ops.append(o)
        scs.append(dict(ops=ops, tabs=tabs))
    tr = ck.drive("drv_session", scs)
    ck.judge("TraceSession", tr, scs, clauses, what=f"replay of {total} of {len(es)} transitions of model {model}")
    ck.notes.append(f"model {model}: {total} of {len(es)} transitions replayed in {len(ws)} walks")


AB = dict(n=2, card=[2, 2], par=[[], [1]], den=[4, 4], cpt=[[[1, 3]], [[4, 0], [1, 3]]], top=[1, 2])
ABC = dict(n=3, card=[3, 2, 2], par=[[], [1], []], den=[4, 4, 5],
           cpt=[[[1, 2, 1]], [[4, 0], [1, 3], [2, 2]], [[2, 3]]], top=[1, 2, 3])
NETS = {"evidence": AB, "slots": AB, "island": ABC}


def sessions(ck, n, make, clauses, what, **drive):
    scs = []
    for _ in range(n):
        g = make(ck.rnd)
        scs.append(g if isinstance(g, dict) else dict(ops=g.ops, one=g.one))
    tr = ck.drive("drv_session", scs, **drive)
    ones = {sc.get("one", 4) for sc in scs}
    if len(ones) != 1:
        raise MachineryError("one unit of likelihood per run")
    ck.judge("TraceSession", tr, scs, clauses, what=what, env={"FINE": "1"} if ones == {1000} else {})


ERR = {"unexpected-error"}


# ------------------------------------------------------------------ C01
def fresh(r, trees=3, **kw):
    """A freshly compiled network and one batch of possible evidence, a few times over."""
    g = Gen(r, **kw)
    net = g.net()
    for t in range(1, trees + 1):
        g.compile(t)
        k = r.randint(1, net["n"])
        for _ in range(20):
            nodes = r.sample(range(1, net["n"] + 1), k)
            if g.try_update(t, [g.evidence(net, i) for i in nodes]):
                break
            k = max(1, k - 1)
    return g


def long_session(r, lo=560, hi=640, then=()):
    """Hundreds of variables along a path: compiled, given evidence, and handed on by the operations in `then`."""
    g = Gen(r)
    net = g.net(1, gen.long_network(r, r.randint(lo, hi)))
    g.compile(1)
    g.try_update(1, [g.evidence(net)])
    for k, what in enumerate(then):
        t = k + 2
        if what == "copy":
            g.copy(1, t)
        elif what == "reload":
            g.reload(1, t)
        else:
            upd = [[] for _ in range(net["n"])]
            i = net["top"][0]
            upd[i - 1] = [row[::-1] for row in net["cpt"][i - 1]]
            new = dict(net, cpt=[u if u else net["cpt"][j] for j, u in enumerate(upd)])
            g.trees[t] = dict(net=new, sup=gen.support(new), liks=[[g.one] * c for c in net["card"]], src=0)
            g.ops.append(dict(op="reapply", t=1, t2=t, upd=upd))
        for _ in range(10):
            if g.try_update(t, [g.evidence(net)]):
                break
    return g


@check("C01")
def c01(ck):
    cl = ERR | {"posterior", "two-readings-differ"}
    replay_model(ck, "island", cl, scale(ck, 400, None))
    sessions(ck, scale(ck, 160, 1500), fresh, cl, "random networks, one batch of evidence on a fresh tree")
    sessions(ck, scale(ck, 40, 400), lambda r: fresh(r, kind=r.choice(["islands", "empty"]), nmax=8), cl,
             "unconnected networks")
    sessions(ck, scale(ck, 40, 400), lambda r: fresh(r, kind=r.choice(["ring", "grid", "complete", "collider"]),
                                                     nmax=8, cards=(2, 2, 3, 4)), cl, "loops, grids, many parents")
    sessions(ck, scale(ck, 25, 250), lambda r: fresh(r, nmax=5, cards=(1, 2, 3, 5, 6)), cl,
             "one to six values per variable")
    sessions(ck, scale(ck, 25, 250), lambda r: fresh(r, nmin=9, nmax=14, bound=2 * 10**8, mode="mixed", supmax=600),
             cl, "larger, partly deterministic networks")
    sessions(ck, scale(ck, 12, 120), lambda r: fresh(r, nmax=3, cards=(7, 9, 11, 12, 2)), cl, "up to twelve values")
    sessions(ck, scale(ck, 12, 120), lambda r: fresh(r, trees=2, **FAN), cl, "five to seven parents")
    sessions(ck, scale(ck, 40, 400), lambda r: fresh(r, nmax=6, rare=True, supmax=600), cl,
             "values of vanishing probability")
    sessions(ck, scale(ck, 30, 300), lambda r: fresh(r, nmax=5, bound=10**4, one=1000), cl, "fine likelihoods")
    sessions(ck, scale(ck, 60, 500), lambda r: fresh(r, **WIDE), cl, "ten to fourteen variables")
    sessions(ck, scale(ck, 6, 30), long_session, cl, "paths of hundreds of variables")
    sessions(ck, scale(ck, 40, 300), lambda r: long_session(r, 20, 90), cl, "dozens of variables")


# ------------------------------------------------------------------ C02
def history(r, k=12, **kw):
    g = Gen(r, **kw)
    g.net()
    g.compile(1)
    for _ in range(k):
        g.random_evidence_op(1)
    g.clear(1)
    return g


@check("C02")
def c02(ck):
    cl = ERR | {"posterior", "untouched-tree-changed"}
    replay_model(ck, "evidence", cl, scale(ck, 3000, None))
    sessions(ck, scale(ck, 120, 1200), lambda r: history(r, r.randint(6, 16)), cl, "random evidence histories")
    sessions(ck, scale(ck, 40, 300), lambda r: history(r, 20, nmax=3), cl, "dense histories on small networks")
    sessions(ck, scale(ck, 40, 300), lambda r: history(r, 10, nmax=5, rare=True, supmax=300), cl,
             "evidence of vanishing probability")
    sessions(ck, scale(ck, 50, 400), lambda r: history(r, 10, nmax=4, bound=10**4, one=1000), cl, "fine likelihoods")
    sessions(ck, scale(ck, 12, 120), lambda r: history(r, 8, nmax=3, cards=(7, 9, 12, 2)), cl, "up to twelve values")
    sessions(ck, scale(ck, 10, 100), lambda r: history(r, 8, **FAN), cl, "five to seven parents")
    sessions(ck, scale(ck, 40, 300), lambda r: history(r, 12, **WIDE), cl, "ten to fourteen variables")
    if ck.thorough:
        sessions(ck, 60, lambda r: history(r, 60, nmax=5), cl, "long histories")


# ------------------------------------------------------------------ C03
def odd_evidence(r, k=10, **kw):
    g = Gen(r, **kw)
    one = g.one
    odd = [-2 * one, -1, 0, 0, 1, one // 2, one - 1, one, one, one + 1, 10 * one]
    g.net()
    g.compile(1)
    for _ in range(k):
        if r.random() < 0.3:
            g.refused(1)
        elif r.random() < 0.5:
            net = g.nets[1]
            for _ in range(20):
                i = r.randint(1, net["n"])
                c = net["card"][i - 1]
                order = list(range(1, c + 1))
                r.shuffle(order)
                order = order[: r.randint(1, c)]
                ev = dict(node=i, type=r.choice("VFOU"),
                          vals=[[v, r.choice(odd)] for v in order])
                if g.try_update(1, [ev], r.choice(["update", "update", "toggle"])):
                    break
        else:
            g.random_evidence_op(1)
    return g


@check("C03")
def c03(ck):
    replay_model(ck, "evidence", None, scale(ck, 2500, None))
    sessions(ck, scale(ck, 150, 1500), lambda r: odd_evidence(r, nmax=4), None,
             "odd likelihoods, toggles, refused batches")
    sessions(ck, scale(ck, 30, 300), lambda r: odd_evidence(r, nmax=2, cards=(1, 2, 4, 5)), None,
             "one or two variables, up to five values")
    sessions(ck, scale(ck, 12, 120), lambda r: odd_evidence(r, nmax=2, cards=(8, 11, 12)), None, "up to twelve values")
    sessions(ck, scale(ck, 30, 300), lambda r: odd_evidence(r, nmax=3, bound=10**4, one=1000), None,
             "fine likelihoods")


# ------------------------------------------------------------------ C05
@check("C05")
def c05(ck):
    cl = ERR | {"cluster-table", "two-readings-differ"}

    def tab(g):
        return dict(ops=g.ops, one=g.one, tabs=True)
    for net in ("chain", "diamond", "path", "island"):
        ck.model("MCHugin", env={"NET": net, "ROUNDS": "3" if ck.thorough and net != "path" else "2",
                                 "ALLNODES": "1" if ck.thorough and net != "path" else "0"},
                 what=f"message passing in any order on every forest of the net {net}")
    ck.witness("MCHugin", env={"NET": "chain", "ROUNDS": "2", "CARELESS": "1"},
               what="multiplying new evidence in over earlier evidence")
    replay_model(ck, "island", cl, scale(ck, 400, None), tabs=True)
    sessions(ck, scale(ck, 110, 1000), lambda r: tab(history(r, 5, tables=True)), cl, "tables under evidence histories")
    sessions(ck, scale(ck, 40, 300), lambda r: tab(history(r, 4, kind=r.choice(["ring", "grid", "islands", "complete"]),
                                                           nmax=7, allow_impossible=True, tables=True)), cl,
             "loops and unconnected networks, also with impossible evidence")
    sessions(ck, scale(ck, 20, 150), lambda r: tab(history(r, 4, nmax=4, bound=10**4, one=1000, tables=True)), cl,
             "fine likelihoods")
    sessions(ck, scale(ck, 30, 300), lambda r: tab(history(r, 5, nmax=6, rare=True, supmax=300, tables=True)), cl,
             "evidence of vanishing probability")
    sessions(ck, scale(ck, 8, 80), lambda r: tab(history(r, 4, tables=True, **FAN)), cl, "five to seven parents")
    sessions(ck, scale(ck, 30, 200), lambda r: tab(history(r, 4, tables=True, **WIDE)), cl, "ten to fourteen variables")
    sessions(ck, scale(ck, 8, 80), lambda r: tab(history(r, 4, nmax=3, cards=(7, 9, 12, 2), tables=True)), cl,
             "up to twelve values")


# ------------------------------------------------------------------ C07
def reapplies(r, **kw):
    g = Gen(r, **kw)
    g.net()
    g.compile(1)
    live, nxt = [1], 2
    for _ in range(r.randint(0, 3)):
        g.random_evidence_op(1)
    for _ in range(r.randint(1, 3)):
        g.reapply(r.choice(live), nxt)
        if nxt in g.trees:
            live.append(nxt)
            nxt += 1
        for _ in range(r.randint(1, 3)):
            g.random_evidence_op(r.choice(live))
    return dict(ops=g.ops, one=g.one, seen=True)


@check("C07")
def c07(ck):
    replay_model(ck, "slots", None, scale(ck, 1500, 8000))
    sessions(ck, scale(ck, 150, 1200), lambda r: reapplies(r, nmax=6), None, "reapplication chains with evidence")
    sessions(ck, scale(ck, 8, 80), lambda r: reapplies(r, **FAN), None, "five to seven parents")
    sessions(ck, scale(ck, 40, 300), lambda r: reapplies(r, **WIDE), None, "ten to fourteen variables")
    sessions(ck, scale(ck, 2, 12), lambda r: long_session(r, then=["reapply"]), None, "hundreds of variables")
    sessions(ck, scale(ck, 20, 120), lambda r: long_session(r, 20, 60, ["reapply", "reapply"]), None,
             "dozens of variables")


# ------------------------------------------------------------------ C08
def isolation(r, **kw):
    g = Gen(r, **kw)
    g.net(1)
    g.compile(1)
    nxt = 2
    for _ in range(r.randint(6, 12)):
        live = sorted(g.trees)
        x = r.random()
        if x < 0.45 and live:
            g.random_evidence_op(r.choice(live))
        elif x < 0.60 and live and nxt < 6:
            g.copy(r.choice(live), nxt)
            nxt += 1
        elif x < 0.72 and nxt < 6:
            g.compile(nxt, r.choice(sorted(g.nets)))
            nxt += 1
        elif x < 0.78 and live and nxt < 6:
            own = [t for t in live if g.trees[t]["src"] == 1]
            if own:
                g.reload(r.choice(own), nxt)
                nxt += 1
        elif x < 0.84 and live and nxt < 6:
            g.reapply(r.choice(live), nxt)
            nxt += 1
        elif x < 0.92:
            g.query()
        else:
            g.change(1)
            g.compile(nxt, 1)
            nxt += 1
    return dict(ops=g.ops, one=g.one, seen=True)


def recompile(r, **kw):
    g = Gen(r, **kw)
    g.net(1)
    for t in range(1, 5):
        g.compile(t, 1)
        if r.random() < 0.5:
            g.random_evidence_op(t)
        if r.random() < 0.3:
            g.copy(t, 20 + t)
        g.change(1)
    g.compile(9, 1)
    g.random_evidence_op(9)
    return dict(ops=g.ops, one=g.one, seen=True)


@check("C08")
def c08(ck):
    replay_model(ck, "slots", None, scale(ck, 2500, None))
    sessions(ck, scale(ck, 100, 900), lambda r: isolation(r, nmax=5), None, "several live trees, copies, changes")
    sessions(ck, scale(ck, 80, 700), lambda r: recompile(r, nmax=5), None, "change in place and compile again")
    sessions(ck, scale(ck, 20, 200), lambda r: isolation(r, **WIDE), None, "ten to fourteen variables")
    sessions(ck, scale(ck, 2, 12), lambda r: long_session(r, then=["copy"]), None, "hundreds of variables")
    sessions(ck, scale(ck, 20, 120), lambda r: long_session(r, 20, 60, ["copy", "reapply", "copy"]), None,
             "dozens of variables")


# ------------------------------------------------------------------ C24
@check("C24")
def c24(ck):
    cl = ERR | {"posterior", "impossible-evidence-not-zero", "untouched-tree-changed"}
    replay_model(ck, "island", cl, scale(ck, 800, None))
    replay_model(ck, "evidence", cl, scale(ck, 800, None))
    kinds = ["islands", "chain", "collider", "ring", "random", "islands"]
    sessions(ck, scale(ck, 140, 1200),
             lambda r: history(r, 9, kind=r.choice(kinds), mode=r.choice(["mixed", "any", "det"]), nmax=7,
                               allow_impossible=True), cl, "histories through impossible evidence")
    sessions(ck, scale(ck, 10, 100), lambda r: history(r, 8, allow_impossible=True, **FAN), cl, "five to seven parents")
    sessions(ck, scale(ck, 30, 300), lambda r: history(r, 8, allow_impossible=True, mode="mixed",
                                                       kind=r.choice(kinds), **WIDE), cl, "ten to fourteen variables")
    sessions(ck, scale(ck, 50, 500),
             lambda r: history(r, 9, kind=r.choice(kinds), mode=r.choice(["mixed", "any"]), nmax=5, rare=True,
                               supmax=300, allow_impossible=True), cl, "all but impossible, and impossible evidence")


# ================================================================ graphs
def graph_ids(r, n):
    style = r.randrange(3)
    ids = list(range(n)) if style == 0 else r.sample(range(0, 120), n)
    if style == 1:
        ids.sort(reverse=True)
    return {str(v): ids[v - 1] for v in range(1, n + 1)}


def replay_graphs(ck, kind, nodes, clauses, limit=None):
    out = ck.model("MCGraphs", env={"KIND": kind, "NODES": str(nodes), "COPY": "0", "EMIT": "1"},
                   what=f"all histories of a {kind} over {nodes} nodes")
    es = walks.edges(out)
    ws, total = walks.covering_walks(es, ck.rnd, 200, limit)
    real = "graph" if kind.startswith("graph") else kind
    scs = [dict(ids=graph_ids(ck.rnd, nodes), ops=w, plain=(k % 3 == 2 and real != "bbn")) for k, w in enumerate(ws)]
    tr = ck.drive("drv_graph", scs)
    ck.judge("TraceGraphs", tr, scs, clauses, what=f"replay of {total} of {len(es)} transitions, {kind} over {nodes} nodes")
    ck.notes.append(f"{kind}/{nodes}: {total} of {len(es)} transitions replayed")


def graph_history(r, kind, n, k, removal=0.0, copies=True):
    ops = [dict(op="new", s=1, kind=kind)]
    slots = [1]
    types = {"ug": "U", "graph": r.choice("DU"), "dag": "DDDU", "bbn": "DDDU", "pdag": "DDU"}[kind]
    order = list(range(1, n + 1))
    r.shuffle(order)
    for _ in range(k):
        s = r.choice(slots)
        x = r.random()
        if x < 0.1:
            ops.append(dict(op="node", s=s, v=r.randint(1, n)))
        elif x < 0.1 + removal:
            ops.append(dict(op="remove", s=s, v=r.randint(1, n)))
        elif copies and x > 0.96 and len(slots) < 3:
            ops.append(dict(op="copy", s=s, s2=len(slots) + 1))
            slots.append(len(slots) + 1)
        else:
            i, j = r.randint(1, n), r.randint(1, n)
            if r.random() < 0.7 and i != j:
                # mostly along a hidden order, so that long paths arise and cycles need them
                a, b = sorted((order.index(i), order.index(j)))
                i, j = order[a], order[b]
            ops.append(dict(op="edge", s=s, i=i, j=j, t=r.choice(types)))
    return ops


def long_chain(r, kind, n, removal):
    """A long directed path, built piece by piece, and edges that would close it into a cycle."""
    ops = [dict(op="new", s=1, kind=kind)]
    order = r.sample(range(1, n + 1), n)
    arcs = list(zip(order, order[1:]))
    if r.random() < 0.6:
        r.shuffle(arcs)
    t = {"ug": "U", "graph": r.choice("DU")}.get(kind, "D")
    ops += [dict(op="edge", s=1, i=a, j=b, t=t) for a, b in arcs]
    for _ in range(r.randint(2, 6)):
        b, a = sorted(r.sample(range(n), 2))
        if r.random() < 0.4:
            a, b = n - 1, r.randint(0, 1)
        if r.random() < removal:
            ops.append(dict(op="remove", s=1, v=r.choice(order)))
        ops.append(dict(op="edge", s=1, i=order[a], j=order[b], t=t))
        if r.random() < 0.3:
            ops.append(dict(op="edge", s=1, i=order[b], j=order[a], t=t))
    return ops


def shaped(r, kind, n, removal):
    """Stars, brooms, bushes, ladders and dense orders, and edges that would close cycles across them."""
    order = r.sample(range(1, n + 1), n)
    how = r.randrange(5)
    if how == 0:        # a root of many leaves, one of which leads on
        k = r.randint(2, n - 1)
        at = r.randint(1, k - 1)
        arcs = [(0, i) for i in range(1, k)] + [(i if i > k else at, i + 1) for i in range(k, n - 1)]
        if k < n:
            arcs.append((at, k))
    elif how == 1:      # many roots, one end
        k = r.randint(2, n - 1)
        arcs = [(i, k) for i in range(k)] + [(i, i + 1) for i in range(k, n - 1)]
    elif how == 2:      # a tree
        arcs = [(r.randint(max(0, i - 4), i - 1), i) for i in range(1, n)]
    elif how == 3:      # diamonds one after the other
        arcs = [(i, j) for i in range(n) for j in (i + 1, i + 2) if j < n]
    else:
        arcs = [(i, j) for j in range(n) for i in range(j) if r.random() < 0.5]
    arcs = sorted(set(arcs))
    if r.random() < 0.7:
        r.shuffle(arcs)
    t = {"ug": "U", "graph": r.choice("DU")}.get(kind, "D")
    ops = [dict(op="new", s=1, kind=kind)] + [dict(op="edge", s=1, i=order[a], j=order[b], t=t) for a, b in arcs]
    for _ in range(r.randint(3, 8)):
        a, b = r.sample(range(n), 2)
        if r.random() < 0.8:
            a, b = max(a, b), min(a, b)
        if r.random() < 0.4:
            a, b = n - 1 - r.randint(0, 1), r.randint(0, 1)
        if a == b:
            continue
        if r.random() < removal:
            ops.append(dict(op="remove", s=1, v=r.choice(order)))
        ops.append(dict(op="edge", s=1, i=order[a], j=order[b],
                        t=t if kind != "pdag" or r.random() < 0.8 else "U"))
    return ops


def graph_random(ck, n, removal, clauses, what, sizes=(3, 8)):
    r = ck.rnd
    scs = []
    for k in range(n):
        kind = r.choice(["dag", "bbn", "bbn", "pdag", "ug", "graph"])
        m = r.randint(*sizes)
        scs.append(dict(ids=graph_ids(r, m), plain=r.random() < 0.3 and kind != "bbn",
                        ops=long_chain(r, kind, m, removal) if k % 8 == 0 else
                        shaped(r, kind, m, removal) if k % 4 == 0 or (m > 10 and k % 2) else
                        graph_history(r, kind, m, r.randint(15, 45), removal)))
    tr = ck.drive("drv_graph", scs)
    ck.judge("TraceGraphs", tr, scs, clauses, what=what)


@check("C11")
def c11(ck):
    cl = None
    for kind, lim in (("dag", 1500), ("bbn", 2500), ("pdag", 2500), ("ug", None), ("graphd", 1500)):
        replay_graphs(ck, kind, 3, cl, None if ck.thorough else lim)
    if ck.thorough:
        replay_graphs(ck, "bbn", 4, cl, 20000)
        replay_graphs(ck, "pdag", 4, cl, 20000)
    graph_random(ck, scale(ck, 160, 1500), 0.0, cl, "random histories of additions and copies")
    graph_random(ck, scale(ck, 24, 200), 0.0, cl, "one to two dozen nodes", sizes=(12, 24))


@check("C12")
def c12(ck):
    cl = {"unexpected-error", "removal", "nodes", "edge-list", "neighbours", "parents", "children", "edge-query",
          "parent-order", "saved-form", "conversion", "edge-wrongly-refused", "untouched-graph-changed", "posterior",
          "network-changed"}
    for kind in ("bbn", "dag", "pdag", "ug", "graphd"):
        replay_graphs(ck, kind, 3, cl, scale(ck, 1500, None))
    graph_random(ck, scale(ck, 160, 1500), 0.18, cl, "random histories with removals")
    graph_random(ck, scale(ck, 20, 160), 0.18, cl, "one to two dozen nodes", sizes=(12, 20))
    sessions(ck, scale(ck, 60, 500), lambda r: removals(r, nmax=6, nmin=2), cl, "networks shrunk by removing leaves")


def removals(r, **kw):
    g = Gen(r, **kw)
    g.net(1)
    nxt = 1
    for _ in range(r.randint(1, 3)):
        net = g.nets[1]
        if r.random() < 0.5:
            g.compile(nxt, 1)
            g.random_evidence_op(nxt)
            nxt += 1
        leaves = [i for i in range(1, net["n"] + 1) if not any(i in q for q in net["par"])]
        if net["n"] < 2:
            break
        v = r.choice(leaves)
        new = shrink(net, v)
        g.nets[1] = new
        g.trees = {t: x for t, x in g.trees.items() if x["src"] != 1}
        g.ops.append(dict(op="change", s=1, net=new, remove=[net["ids"][v - 1]]))
        if r.random() < 0.3:
            g.change(1)
        g.compile(nxt, 1)
        g.random_evidence_op(nxt)
        nxt += 1
    return dict(ops=g.ops, one=g.one, seen=True)


def shrink(net, v):
    m = {}
    for i in range(1, net["n"] + 1):
        if i != v:
            m[i] = len(m) + 1
    keep = [i for i in range(1, net["n"] + 1) if i != v]
    new = {f: [net[f][i - 1] for i in keep] for f in ("card", "den", "cpt", "ids", "names", "vals")}
    new["n"] = len(keep)
    new["par"] = [[m[p] for p in net["par"][i - 1]] for i in keep]
    new["top"] = [m[i] for i in net["top"] if i != v]
    new["norder"] = [m[i] for i in net["norder"] if i != v]
    new["eorder"] = [[m[p], m[c]] for p, c in net["eorder"] if v not in (p, c)]
    return new


# ================================================================ C04
def big_structure(r, nmax=14):
    """Structures too large for joint enumeration: uniform-ish tables, only the shape matters."""
    while True:
        n = r.randint(2, nmax)
        k = r.choice(gen.KINDS + ["ring", "grid", "random"])
        par0 = gen.dag(r, n, k)
        perm = list(range(n))
        r.shuffle(perm)
        par = [None] * n
        for i in range(n):
            par[perm[i]] = [perm[p] for p in par0[i]]
        card = [r.choice([1, 2, 2, 2, 3, 4]) for _ in range(n)]
        size = 1
        rows = []
        for i in range(n):
            q = 1
            for p in par[i]:
                q *= card[p]
            rows.append(q)
        if max(q * c for q, c in zip(rows, card)) > 200:
            continue
        if k in ("random", "complete") and n > 10:
            continue
        dens = [c for c in card]
        return gen.assemble(r, par, card, dens, [[[1] * card[i]] * rows[i] for i in range(n)])


def dense_structure(r):
    """Few arcs missing, so that what is eliminated has many neighbours that are not yet joined."""
    n = r.randint(8, 12)
    how = r.randrange(3)
    if how == 0:        # two or three groups, arcs between groups only
        g = [r.randrange(r.choice([2, 3])) for _ in range(n)]
        par = [[j for j in range(i) if g[j] != g[i]] for i in range(n)]
    elif how == 1:      # hubs joined pairwise by common children
        k = r.randint(5, 7)
        pairs = r.sample(list(itertools.combinations(range(k), 2)), min(n + 2 - k, k * (k - 1) // 2))
        n = k + len(pairs)
        par = [[] for _ in range(k)] + [list(q) for q in pairs]
    else:
        par = [[j for j in range(i) if r.random() < 0.7] for i in range(n)]
    par = [r.sample(q, min(len(q), r.choice([2, 3, 3, 4]))) for q in par]
    perm = r.sample(range(n), n)
    par2 = [None] * n
    for i in range(n):
        par2[perm[i]] = [perm[j] for j in par[i]]
    return shape(r, par2, cards=(2,))


def all_dags(n):
    """Every labelled DAG over 0..n-1, as parent lists."""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    out = []
    for code in itertools.product((0, 1, 2), repeat=len(pairs)):
        par = [[] for _ in range(n)]
        for (i, j), c in zip(pairs, code):
            if c == 1:
                par[i].append(j)
            elif c == 2:
                par[j].append(i)
        try:
            gen.topo(par)
        except ValueError:
            continue
        out.append(par)
    return out


def shape(r, par, lab=None, shuffle=True, cards=(2,)):
    n = len(par)
    card = [r.choice(cards) for _ in range(n)]
    par = [r.sample(q, len(q)) if shuffle else list(q) for q in par]
    rows = []
    for i in range(n):
        q = 1
        for p in par[i]:
            q *= card[p]
        rows.append(q)
    return gen.assemble(r, par, card, list(card), [[[1] * card[i]] * rows[i] for i in range(n)], lab=lab)


def structures(ck, nets, what, extra=True):
    scs = []
    for net in nets:
        ops = [dict(op="net", s=1, net=net), dict(op="compile", t=1, s=1)]
        if extra and ck.rnd.random() < 0.4:
            i = ck.rnd.randint(1, net["n"])
            ops.append(dict(op="update", t=1, evs=[dict(node=i, type="O", vals=[[1, 4]])]))
            ops.append(dict(op="copy", t=1, t2=2))
            ops.append(dict(op="reapply", t=1, t2=3, upd=[net["cpt"][0]] + [[]] * (net["n"] - 1)))
            ops.append(dict(op="compile", t=4, s=1))
        scs.append(dict(ops=ops))
    tr = ck.drive("drv_compile", scs)
    ck.judge("TraceCompile", tr, scs, what=what)


@check("C04")
def c04(ck):
    ck.model("MCCompile", env={"NODES": "5" if ck.thorough else "4"},
             what="every elimination order and tie-break from every graph")
    r = ck.rnd
    for n in (1, 2, 3):
        structures(ck, [shape(r, p, cards=(1, 2, 3)) for p in all_dags(n)], f"every DAG over {n} nodes")
    dags = all_dags(4)
    structures(ck, [shape(r, p, cards=(2, 3)) for p in dags], "every DAG over 4 nodes", extra=False)
    structures(ck, [big_structure(r) for _ in range(scale(ck, 250, 4000))], "random structures up to 14 variables")
    structures(ck, [dense_structure(r) for _ in range(scale(ck, 60, 800))], "dense structures of 8 to 12 variables",
               extra=False)
    if ck.thorough:
        for rep in range(3):
            structures(ck, [shape(r, p, cards=(1, 2, 3)) for p in dags], "every DAG over 4 nodes, relabelled",
                       extra=False)
        dags5 = all_dags(5)
        structures(ck, [shape(r, p) for p in r.sample(dags5, 6000)], "a sample of the DAGs over 5 nodes", extra=False)


# ================================================================ C06
def variant(r, net, kinds):
    """The same network with other ids / insertion orders / parent orders / value orders."""
    new = copy.deepcopy(net)
    n = net["n"]
    vp = [list(range(1, c + 1)) for c in net["card"]]
    if "ids" in kinds:
        style = r.randrange(4)
        if style == 0:
            new["ids"] = r.sample(range(0, 140), n)
        elif style == 1:
            new["ids"] = [max(net["ids"]) - x for x in net["ids"]]
        elif style == 2:
            new["ids"] = r.sample(net["ids"], n)
        else:
            new["ids"] = r.sample(range(-((n + 1) // 2), n // 2 + 1), n)
    if "values" in kinds:
        vp = [r.sample(q, len(q)) for q in vp]
        new["vals"] = [[net["vals"][i][k - 1] for k in vp[i]] for i in range(n)]
    par = [list(q) for q in net["par"]]
    if "parents" in kinds:
        par = [r.sample(q, len(q)) for q in par]
    new["par"] = par
    if "values" in kinds or "parents" in kinds:
        new["cpt"] = [table_like(net, i + 1, par[i], vp) for i in range(n)]
    if "nodes" in kinds:
        new["norder"] = r.sample(net["norder"], n)
    if "edges" in kinds or "parents" in kinds:
        new["eorder"] = gen.edge_order(r, new)
    return new, vp


def table_like(net, i, par, vp):
    """Rows of position i for parents in the order par and values in the order vp."""
    out = []
    for combo in itertools.product(*[vp[p - 1] for p in par]):
        a = [0] * net["n"]
        for p, v in zip(par, combo):
            a[p - 1] = v
        row = net["cpt"][i - 1][gen.row_index(net, i, a)]
        out.append([row[k - 1] for k in vp[i - 1]])
    return out


def tie_free(net, ev):
    """Spell out every value, with one clear winner for hard evidence."""
    c = net["card"][ev["node"] - 1]
    raw = dict((v, q) for v, q in ev["vals"])
    vals = [[v, raw.get(v, 0)] for v in range(1, c + 1)]
    if ev["type"] == "O":
        qs = sorted((q for _, q in vals), reverse=True)
        if c > 1 and qs[0] == qs[1]:
            w = max(range(c), key=lambda k: (vals[k][1], -k))
            vals = [[v, 4 if k == w else 0] for k, (v, q) in enumerate(vals)]
    return dict(ev, vals=vals)


def evidence_plan(r, net):
    """A few batches of possible evidence on distinct variables, with retractions."""
    sup = gen.support(net)
    liks = [[4] * c for c in net["card"]]
    plan = []
    for _ in range(r.randint(1, 4)):
        for _ in range(20):
            nodes = r.sample(range(1, net["n"] + 1), r.randint(1, min(4, net["n"])))
            evs = [tie_free(net, gen.evidence(r, net, i, "VVFOOU", weird=False)) for i in nodes]
            new = [x[:] for x in liks]
            for e in evs:
                new[e["node"] - 1] = gen.normalise(net, e)
            if gen.possible(net, new, sup):
                plan.append(evs)
                liks = new
                break
    return plan


def tell(r, net, vp, plan, what):
    ops = [dict(op="net", s=1, net=net), dict(op="compile", t=1, s=1)]
    inv = [{v: k + 1 for k, v in enumerate(q)} for q in vp]
    for evs in plan:
        evs = [dict(e, vals=[[inv[e["node"] - 1][v], q] for v, q in e["vals"]]) for e in evs]
        if "batch" in what:
            evs = r.sample(evs, len(evs))
        ops.append(dict(op="update", t=1, evs=evs))
    return dict(ops=ops, net=net, vp=vp, what="+".join(what))


WAYS = [["hash"], ["ids"], ["nodes"], ["edges"], ["parents"], ["values"], ["batch"], ["ids", "nodes"],
        ["ids", "nodes", "edges", "parents", "values", "batch"]]


def variants(ck, n, what, seeds, per=5, **kw):
    r = ck.rnd
    scs, groups = [], []
    for k in range(n):
        net = gen.network(r, **{"numeric": True, **kw})
        plan = evidence_plan(r, net)
        ident = [list(range(1, c + 1)) for c in net["card"]]
        g = [tell(r, net, ident, plan, [])]
        ways = [WAYS[k % len(WAYS)], WAYS[(k * 5 + 2) % len(WAYS)], WAYS[-1]] + r.sample(WAYS, max(0, per - 3))
        for w in ways[:per]:
            v, vp = variant(r, net, w)
            g.append(tell(r, v, vp, plan, w))
        groups.append((len(scs), len(g)))
        scs += g
    tr = ck.drive("drv_variants", scs, hashseeds=seeds)
    if len(tr) != len(scs):
        raise MachineryError("variants lost")
    merged, msc = [], []
    for k, (a, m) in enumerate(groups):
        ev = [e for x in tr[a:a + m] for e in x["ev"]]
        for e, sc in zip(ev, scs[a:a + m]):
            if e["op"] == "broken":
                e.update(what=sc["what"], net=gen.strip_net(sc["net"]),
                         vp=sc["vp"], reads=[])
        merged.append(dict(tid=k + 1, ev=ev))
        msc.append(dict(tid=k + 1, variants=scs[a:a + m]))
    ck.judge("TraceVariants", merged, msc, what=what)


@check("C06")
def c06(ck):
    r = ck.rnd
    seeds = [0, 1, 2, 3] + [r.randrange(10 ** 6) for _ in range(4)]
    variants(ck, scale(ck, 90, 900), "random networks told in other ways under eight hash seeds", seeds, per=6)
    variants(ck, scale(ck, 40, 400), "loops and many parents", seeds, per=6,
             kind=None, cards=(2, 2, 3), nmin=5, nmax=9, supmax=3000)
    variants(ck, scale(ck, 8, 80), "five to seven parents", seeds, per=6, **FAN)
    variants(ck, scale(ck, 30, 200), "ten to fourteen variables", seeds, per=6, **WIDE)
    variants(ck, scale(ck, 8, 80), "up to twelve values", seeds, per=6, nmax=3, cards=(2, 8, 11, 12))
    for kind in ("ring", "grid", "collider", "islands"):
        variants(ck, scale(ck, 12, 120), kind, seeds, per=6, kind=kind, nmin=4, nmax=9, supmax=3000)


# ================================================================ saved forms
def codec_change(r, net):
    """Remove a leaf, perhaps add a node, reorder how edges arrived: what saving must survive."""
    leaves = [i for i in range(1, net["n"] + 1) if not any(i in q for q in net["par"])]
    if net["n"] < 2:
        return None
    v = r.choice(leaves)
    new = shrink(net, v)
    return dict(op="change", s=1, net=new, remove=[net["ids"][v - 1]], add=[], edges=[]), new


HOWS = ["dict", "text", "json", "csv"]


def codec_scenario(r, **kw):
    net = gen.network(r, **kw)
    if r.random() < 0.15:
        # tables with awkward floating point values and unnormalised rows
        net["den"] = [r.choice([3, 7, 9, 11, 13, 997]) for _ in range(net["n"])]
    ops = [dict(op="net", s=1, net=net)]
    d, s = 0, 1
    cur = {1: net}
    for _ in range(r.randint(2, 5)):
        how = r.choice(HOWS)
        a = r.choice(sorted(cur))
        d, s = d + 1, s + 1
        ops.append(dict(op="save", s=a, d=d, how=how))
        ops.append(dict(op="load", s=s, d=d, how=how))
        cur[s] = cur[a]
        d += 1
        ops.append(dict(op="save", s=s, d=d, how=how))
        if r.random() < 0.35:
            x = codec_change(r, cur[1])
            if x:
                ops.append(x[0])
                cur[1] = x[1]
    return dict(ops=ops)


def resaved(r, **kw):
    g = Gen(r, **kw)
    g.net(1)
    g.nets[2] = g.nets[1]
    g.ops.append(dict(op="resave", s=1, s2=2, how=r.choice(HOWS)))
    g.compile(1, 1)
    g.compile(2, 2)
    for _ in range(r.randint(1, 3)):
        g.random_evidence_op(r.choice([1, 2]))
    if r.random() < 0.5:
        g.nets[3] = g.nets[2]
        g.ops.append(dict(op="resave", s=2, s2=3, how=r.choice(HOWS)))
        g.compile(3, 3)
        g.random_evidence_op(3)
    return dict(ops=g.ops, one=g.one, seen=True)


def no_bar(net):
    return net


@check("C09")
def c09(ck):
    cl = {"unexpected-error", "variables-lost", "tables-lost", "edges-lost", "parent-order-lost",
          "network-in-memory-changed", "saved-again-differs"}
    r = ck.rnd
    for what, n, kw in (("random networks", scale(ck, 260, 2500), dict(nmax=8)),
                        ("one to six values, up to four parents", scale(ck, 100, 900),
                         dict(nmax=6, cards=(1, 2, 3, 6), supmax=4000)),
                        ("five to seven parents", scale(ck, 20, 200), FAN),
                        ("up to twelve values", scale(ck, 20, 200), dict(nmax=4, cards=(2, 8, 11, 12), supmax=20000)),
                        ("larger networks", scale(ck, 60, 500), dict(nmin=9, nmax=13, supmax=4000))):
        scs = [codec_scenario(r, **kw) for _ in range(n)]
        tr = ck.drive("drv_codec", scs)
        ck.judge("TraceCodec", tr, scs, cl, what="saved and loaded: " + what)
    sessions(ck, scale(ck, 80, 700), lambda r: resaved(r, nmax=6, numeric=False), ERR | {"posterior", "network-changed"},
             "posteriors of reloaded networks")


@check("C23")
def c23(ck):
    r = ck.rnd
    scs = []
    for k in range(scale(ck, 300, 3000)):
        net = gen.network(r, plain=True, **FAN) if k % 15 == 0 else gen.network(
            r, plain=True, nmax=4, cards=(2, 8, 11, 12), supmax=20000) if k % 15 == 1 else gen.network(
            r, plain=True, nmax=9, cards=r.choice([(2, 2, 3), (1, 2, 3, 5), (2, 3, 4)]), supmax=4000,
                          nmin=1)
        ops = [dict(op="net", s=1, net=net), dict(op="describe", s=1, named=k % 2 == 0)]
        x = codec_change(r, net)
        if x and r.random() < 0.4:
            ops += [x[0], dict(op="describe", s=1)]
        if r.random() < 0.3:
            ops += [dict(op="save", s=1, d=1, how="json"), dict(op="load", s=2, d=1, how="json"),
                    dict(op="describe", s=2)]
        scs.append(dict(ops=ops))
    tr = ck.drive("drv_codec", scs)
    ck.judge("TraceCodec", tr, scs, what="exported descriptions")


def trees_saved(r, **kw):
    g = Gen(r, **kw)
    g.net(1)
    g.compile(1)
    nxt = 2
    for _ in range(r.randint(2, 5)):
        for _ in range(r.randint(0, 2)):
            g.random_evidence_op(r.choice(sorted(g.trees)))
        g.reload(r.choice(sorted(g.trees)), nxt)
        nxt += 1
        g.random_evidence_op(nxt - 1)
    return dict(ops=g.ops, one=g.one, seen=True)


@check("C10")
def c10(ck):
    r = ck.rnd
    cl = ERR | {"posterior", "untouched-tree-changed", "network-changed", "impossible-evidence-not-zero"}
    replay_model(ck, "island", cl, scale(ck, 600, None))
    sessions(ck, scale(ck, 90, 800), lambda r: trees_saved(r, nmax=6), cl, "saved with and without evidence")
    sessions(ck, scale(ck, 40, 400), lambda r: trees_saved(r, nmax=7, kind=r.choice(["islands", "empty", "polytree"])),
             cl, "saved trees of unconnected networks")
    sessions(ck, scale(ck, 8, 80), lambda r: trees_saved(r, **FAN), cl, "five to seven parents")
    sessions(ck, scale(ck, 30, 200), lambda r: trees_saved(r, **WIDE), cl, "ten to fourteen variables")
    sessions(ck, scale(ck, 2, 12), lambda r: long_session(r, then=["reload"]), cl, "hundreds of variables")
    sessions(ck, scale(ck, 20, 120), lambda r: long_session(r, 20, 60, ["reload", "reload"]), cl,
             "dozens of variables")
    scs = []
    for k in range(scale(ck, 200, 2000)):
        net = big_structure(r, 10) if k % 2 else gen.network(r, nmax=9, supmax=4000)
        evs = [[i, 1] for i in r.sample(range(1, net["n"] + 1), min(net["n"], r.randint(0, 2)))]
        scs.append(dict(ops=[dict(op="net", s=1, net=net),
                             dict(op="tree", s=1, how=r.choice(["dict", "text"]), twice=r.random() < 0.3,
                                  evs=evs)]))
    tr = ck.drive("drv_codec", scs)
    ck.judge("TraceCodec", tr, scs, what="structure and tables of reloaded trees")


# ================================================================ sampling
def prob_of(net, ev, sup_w):
    tot = sum(w for _, w in sup_w)
    return sum(w for a, w in sup_w if all(a[i - 1] == v for i, v in ev)) / tot


def support_w(net):
    S = [(tuple([0] * net["n"]), 1.0)]
    for i in net["top"]:
        T = []
        for a, w in S:
            row = net["cpt"][i - 1][gen.row_index(net, i, a)]
            for v, x in enumerate(row):
                if x:
                    b = list(a)
                    b[i - 1] = v + 1
                    T.append((tuple(b), w * x / net["den"][i - 1]))
        S = T
    return S


def hard_evidence(r, net, sw, least, kmax=3):
    for _ in range(30):
        k = r.randint(0, min(kmax, net["n"]))
        a, _ = r.choice(sw)
        ev = [[i, a[i - 1]] for i in r.sample(range(1, net["n"] + 1), k)]
        if prob_of(net, ev, sw) >= least:
            return ev
    return []


def sampling(ck, n, ops, what, clauses=None, **kw):
    r = ck.rnd
    scs = []
    for _ in range(n):
        net = gen.network(r, **{"numeric": True, **kw})
        scs.append(dict(net=net, ops=ops(r, net, support_w(net))))
    seeds = [r.randrange(10 ** 6) for _ in range(8)]
    tr = ck.drive("drv_sampler", scs, hashseeds=seeds)
    if any(o["op"] == "draw" for s in scs for o in s["ops"]):
        # the same calls in other processes, under other hash seeds
        tr2 = ck.drive("drv_sampler", scs, hashseeds=[s + 1 for s in seeds])
        for a, b in zip(tr, tr2):
            for e, f in zip(a["ev"], b["ev"]):
                if "runs" in e and "runs" in f:
                    e["runs"].append(f["runs"][0])
    ck.judge("TraceSampler", tr, scs, clauses, what=what)


def draws(r, net, sw):
    return [dict(op="draw", n=r.choice([0, 1, 2, 7, 25, 60]), ev=hard_evidence(r, net, sw, 0.01, 4),
                 seed=r.choice([None, 0, 1, 37, r.randrange(2 ** 31)]), fresh=r.random() < 0.4,
                 explicit=r.random() < 0.5) for _ in range(r.randint(2, 4))]


@check("C13")
def c13(ck):
    ck.model("MCSampler", env={"DEEP": "1" if ck.thorough else "0"}, what="every run of the sampling machine")
    sampling(ck, scale(ck, 160, 1500), draws, "draws from random networks", nmax=8, mode="mixed")
    sampling(ck, scale(ck, 60, 500), draws, "draws from deterministic-leaning networks", nmax=8, mode="det")
    sampling(ck, scale(ck, 60, 500), draws, "colliders, loops, islands", nmax=8, mode="mixed",
             kind=ck.rnd.choice(["collider", "islands", "grid", "ring"]), cards=(1, 2, 3, 4))
    sampling(ck, scale(ck, 16, 160), draws, "five to seven parents", **FAN)
    sampling(ck, scale(ck, 16, 160), draws, "up to twelve values", nmax=3, cards=(2, 8, 11, 12))
    sampling(ck, scale(ck, 60, 500), draws, "many parents", nmax=7, nmin=4, kind="collider", mode="mixed",
             cards=(2, 2, 3))


@check("C14")
def c14(ck):
    ck.model("MCSampler", env={"DEEP": "0"}, what="accepted draws carry exactly their joint weight")
    N = scale(ck, 6000, 20000)

    def counts(r, net, sw):
        return [dict(op="count", n=N if net["n"] > 2 else 20000, ev=hard_evidence(r, net, sw, 0.12, 3), seed=r.randrange(2 ** 31))
                for _ in range(2)]
    fine = (200, 250, 400, 500, 1000)
    for what, n, kw in (("random networks", scale(ck, 24, 160), dict(nmax=6, supmax=400)),
                        ("finely divided tables", scale(ck, 24, 160), dict(nmin=1, nmax=2, dens_of=fine,
                                                                           cards=(2, 3, 4, 5))),
                        ("small shares", scale(ck, 16, 120), dict(nmin=1, nmax=2, dens_of=fine, mode="edge",
                                                                  cards=(2, 3, 4))),
                        ("five to seven parents", scale(ck, 10, 80), FAN),
                        ("up to twelve values", scale(ck, 10, 80), dict(nmax=2, cards=(8, 11, 12),
                                                                        dens_of=(60, 100, 200))),
                        ("several parents in any order", scale(ck, 16, 120),
                         dict(nmin=3, nmax=6, kind="collider", supmax=400, cards=(2, 2, 3))),
                        ("complete and loopy", scale(ck, 16, 120),
                         dict(nmin=3, nmax=6, kind="complete", supmax=400, cards=(2, 2, 3)))):
        sampling(ck, n, counts, "frequencies: " + what, **kw)


# ================================================================ causality
def supported(net, x):
    for a in gen.support(net):
        if any(w == 0 for w in net["cpt"][x - 1][gen.row_index(net, x, a)]):
            return False
    return True


ACE_BUDGET = 6.0        # seconds per scenario, roughly


def effects(r, **kw):
    while True:
        net = gen.network(r, **kw)
        if net["n"] < 2:
            continue
        xs = [i for i in range(1, net["n"] + 1) if supported(net, i)]
        if not xs:
            continue
        # prefer variables with parents
        xs.sort(key=lambda i: (-len(net["par"][i - 1]), r.random()))
        # each configuration of x and its parents costs the library some propagations: keep the sum affordable
        fam = [math.prod(net["card"][j - 1] for j in [i + 1] + net["par"][i]) for i in range(net["n"])]
        budget, pairs = ACE_BUDGET, []
        for x in (xs[:2] + r.sample(xs, 1)):
            others = [i for i in range(1, net["n"] + 1) if i != x]
            for y in r.sample(others, min(2, len(others))):
                cost = fam[x - 1] * (len(net["par"][x - 1]) + 2) * max(fam) ** 2 * 1.7e-6
                if cost <= budget:
                    budget -= cost
                    pairs.append([x, y, r.randint(1, net["card"][y - 1]), r.random() < 0.3])
        if not pairs:
            continue
        r.shuffle(pairs)
        return dict(net=net, pairs=pairs)


@check("C15")
def c15(ck):
    ck.model("MCAce", env={"NODES": "4" if ck.thorough else "3"}, what="adjustment = truncated factorisation")
    r = ck.rnd
    for what, n, kw in (("random networks", scale(ck, 120, 1200), dict(nmax=6, nmin=2, supmax=300)),
                        ("several dependent parents", scale(ck, 60, 600),
                         dict(nmin=3, nmax=5, kind="complete", supmax=300, cards=(2, 2, 3))),
                        ("colliders and islands", scale(ck, 50, 500),
                         dict(nmin=3, nmax=6, kind=None, supmax=300, mode="mixed")),
                        ("five to seven parents", scale(ck, 16, 160), dict(FAN, mode="pos", dens_of=(2, 3, 4))),
                        ("many values", scale(ck, 16, 160), dict(nmin=2, nmax=3, cards=(2, 5, 7, 9), supmax=300,
                                                                 dens_of=(10, 12, 20))),
                        ("loops", scale(ck, 40, 400), dict(nmin=4, nmax=6, kind="grid", supmax=300))):
        scs = [effects(r, **kw) for _ in range(n)]
        tr = ck.drive("drv_ace", scs)
        ck.judge("TraceAce", tr, scs, what="effects: " + what)


# ---------------------------------------------------------------- paths
def path_dag(r, n, arcs, pairs, via=None):
    style = r.randrange(4)
    lab = [list(range(1, n + 1)), r.sample(range(100), n), [f"v{r.randrange(100)}_{i}" for i in range(n)],
           r.sample([c for c in "abcdefghijxyz"], n)][style]
    via = via or ("bbn" if style < 2 and r.random() < 0.5 else "nx")
    order = r.sample(range(1, n + 1), n)
    arcs = r.sample(arcs, len(arcs))
    return dict(arcs=arcs, labels=lab, via=via, order=order, pairs=pairs)


def subsets(xs):
    out = [[]]
    for x in xs:
        out += [s + [x] for s in out]
    return out


def all_dag_queries(r, n):
    out = []
    for par in all_dags(n):
        arcs = [[p + 1, i + 1] for i in range(n) for p in par[i]]
        pairs = [dict(x=x, y=y, sets=subsets([v for v in range(1, n + 1) if v not in (x, y)]))
                 for x in range(1, n + 1) for y in range(1, n + 1) if x != y]
        out.append(path_dag(r, n, arcs, pairs))
    return out


def random_dag_queries(r, n, k):
    out = []
    for _ in range(k):
        m = r.randint(5, n)
        perm = r.sample(range(1, m + 1), m)
        p = r.choice([0.25, 0.35, 0.5]) if m < 7 else r.choice([0.2, 0.3, 0.4])
        arcs = [[perm[a], perm[b]] for a in range(m) for b in range(a + 1, m) if r.random() < p]
        pairs = []
        for _ in range(3):
            x, y = r.sample(range(1, m + 1), 2)
            rest = [v for v in range(1, m + 1) if v not in (x, y)]
            pairs.append(dict(x=x, y=y, sets=[r.sample(rest, r.randint(0, len(rest))) for _ in range(5)] + [[]]))
        out.append(path_dag(r, m, arcs, pairs))
    return out


def deep_dag_queries(r, k):
    """Long directed paths out of X with common causes reaching into them, and mirrored ones into Y."""
    out = []
    for _ in range(k):
        depth = r.randint(2, 4)
        n = r.randint(depth + 3, 8)
        lab = r.sample(range(1, n + 1), n)
        nodes = list(range(n))
        ups = r.randint(1, max(1, n - depth - 2))
        x, chain = ups, list(range(ups + 1, ups + 1 + depth))
        arcs = set(zip([x] + chain, chain))
        for a in nodes:
            for b in nodes[a + 1:]:
                if a >= x and b <= chain[-1] and b - a > 1:
                    q = 0.08
                else:
                    q = 0.45 if n < 8 else 0.3
                if r.random() < q:
                    arcs.add((a, b))
        y = r.choice([v for v in nodes if v not in (x,)][-2:] + r.sample([v for v in nodes if v != x], 1))
        if r.random() < 0.2:
            arcs = {(b, a) for a, b in arcs}
        x, y = lab[x], lab[y]
        arcs = [[lab[a], lab[b]] for a, b in sorted(arcs)]
        rest = [v for v in range(1, n + 1) if v not in (x, y)]
        pairs = [dict(x=a, y=b, sets=[r.sample(rest, r.randint(0, len(rest))) for _ in range(3)])
                 for a, b in ((x, y), (y, x))]
        out.append(path_dag(r, n, arcs, pairs))
    return out


def paths(ck, clauses):
    ck.model("MCPaths", env={"NODES": "5" if ck.thorough else "4"},
             what="d-separation = no active path, for every DAG, pair and set")
    r = ck.rnd

    def go(dags, what, batch=8):
        scs = [dict(dags=dags[k:k + batch]) for k in range(0, len(dags), batch)]
        tr = ck.drive("drv_paths", scs)
        ck.judge("TracePaths", tr, scs, clauses, what=what)
    for n in (2, 3):
        go(all_dag_queries(r, n), f"every DAG over {n} nodes, every pair and set")
    d4 = all_dag_queries(r, 4)
    go(d4, "every DAG over 4 nodes, every pair and set")
    go(random_dag_queries(r, 7, scale(ck, 250, 4000)), "random DAGs over 5 to 7 nodes")
    go(deep_dag_queries(r, scale(ck, 200, 3000)), "long directed paths with common causes")
    if ck.thorough:
        go(random_dag_queries(r, 8, 1000), "random DAGs over up to 8 nodes")
        d5 = r.sample(all_dags(5), 3000)
        qs = []
        for par in d5:
            arcs = [[p + 1, i + 1] for i in range(5) for p in par[i]]
            x, y = r.sample(range(1, 6), 2)
            qs.append(path_dag(r, 5, arcs, [dict(x=x, y=y, sets=subsets([v for v in range(1, 6) if v not in (x, y)]))]))
        go(qs, "a tenth of the DAGs over 5 nodes, one pair, every set")


PATHS = {"unexpected-error", "paths-listed", "listed-activity", "listed-colliders", "listed-non-colliders",
         "listed-direction", "listed-ends", "activity", "d-separation", "triplet-type", "graph-changed"}


@check("C16")
def c16(ck):
    paths(ck, PATHS)


@check("C17")
def c17(ck):
    paths(ck, {"unexpected-error", "minimal-confounders", "all-confounders", "minimal-mediators", "listed-twice",
               "graph-changed"})


# ---------------------------------------------------------------- Gaussian
BIG = 2 ** 31 - 1


def det(A):
    """Determinant by the specification's expansion; raises OverflowError where TLC would."""
    if not A:
        return 1
    if len(A) == 1:
        return A[0][0]
    acc = 0
    for j in range(len(A)):
        if A[0][j]:
            t = (1 if j % 2 == 0 else -1) * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]])
            acc += t
            if abs(t) > BIG or abs(acc) > BIG:
                raise OverflowError
    return acc


class Normal:
    """Python mirror used to keep generated histories within TLC's integers."""

    def __init__(self, r, n, zero, blocks=False):
        self.n = n
        block, k = [], 0
        while len(block) < n:
            block += [k] * r.choice([1, 2, 2, 3, 3])
            k += 1
        while True:
            L = [[0] * n for _ in range(n)]
            for i in range(n):
                L[i][i] = 1 if blocks else r.choice([1, 1, 2])
                for j in range(i):
                    L[i][j] = r.choice([-2, -1, -1, 0, 0, 1, 1, 2])
                    if blocks and block[i] != block[j]:
                        L[i][j] = 0
            S = [[sum(L[i][k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]
            p = r.sample(range(n), n)
            self.s = [[S[p[i]][p[j]] for j in range(n)] for i in range(n)]
            if max(max(map(abs, x)) for x in self.s) <= 14:
                break
        self.m = [0] * n if zero else [r.randint(-4, 4) for _ in range(n)]

    def step(self, H, obs):
        Z, z, D, dd = H
        s, n = self.s, self.n
        q = [o[0] - 1 for o in obs]
        v0 = [o[1] for o in obs]
        sub = lambda A, r, c: [[A[i][j] for j in c] for i in r]
        A = [[det(sub(s, Z + [y], Z + [w])) for w in range(n)] for y in range(n)]
        den0 = det(sub(A, q, q))
        gone = set(Z) | set(q)
        f = [0] * n
        for y in range(n):
            if y in gone:
                continue
            v = [v0[k] * dd - D[q[k]] for k in range(len(q))]
            B = det([[A[i][j] for j in q] + [v[t]] for t, i in enumerate(q)] + [[A[y][j] for j in q] + [0]])
            f[y] = D[y] * den0 + B
            if max(abs(D[y] * den0), abs(f[y]), abs(v0[0] * dd)) > BIG or max(map(abs, v)) > BIG:
                raise OverflowError
        den = den0 * dd
        g = den
        for y in range(n):
            if y not in gone:
                g = math.gcd(g, f[y])
        Z2, z2 = Z + q, z + v0
        # the report
        d = det(sub(s, Z2, Z2))
        for y in range(n):
            if y not in Z2:
                v = [z2[k] - self.m[Z2[k]] for k in range(len(Z2))]
                B = det([[s[i][j] for j in Z2] + [v[t]] for t, i in enumerate(Z2)] + [[s[y][j] for j in Z2] + [0]])
                if max(abs(self.m[y] * d - B), abs(self.m[y] * d)) > BIG:
                    raise OverflowError
                for num, dn in ((self.m[y] * d - B, d), (f[y], den)):
                    if abs(num) // abs(dn) > 1900:
                        raise OverflowError
                h = math.gcd(f[y] // g, den // g)
                if 10 * max(d, den // g // h) > BIG:
                    raise OverflowError
                for w in range(n):
                    if w not in Z2:
                        c = det(sub(s, Z2 + [y], Z2 + [w]))
                        if 1000 * abs(c) > BIG:
                            raise OverflowError
        if den > BIG or (len(Z2) < n and abs(den) > BIG):
            raise OverflowError
        return Z2, z2, [x // g for x in f], den // g


def gaussian(r, nmax, nsteps, zero=False, joint=None, samples=0, blocks=False):
    n = r.randint(6 if blocks else 1, nmax)
    N = Normal(r, n, zero, blocks)
    style = r.randrange(3)
    names = [[f"x{i}" for i in range(n)], r.sample(["Y", "X", "Z", "A", "B", "C", "b", "a1", "zz"], n),
             r.sample(["height", "Weight", "été", "x y", "v-1", "2", "10", "ab", "AB"], n)][style]
    hs = {1: ([], [], list(N.m), 1)}
    ops = [dict(op="normal", h=1)]
    for _ in range(nsteps):
        h = r.choice(list(hs)) if r.random() < 0.5 else max(hs)
        free = [i for i in range(1, n + 1) if i - 1 not in hs[h][0]]
        if not free:
            continue
        k = r.choice([1, 1, 2, 2, 3, 4] if joint is None else joint)
        q = r.sample(free, min(k, len(free)))
        if len(hs[h][0]) + len(q) > (n if blocks else 4):
            continue
        obs = [[i, r.randint(-5, 5)] for i in q]
        try:
            H = N.step(hs[h], obs)
        except OverflowError:
            continue
        d = max(hs) + 1
        hs[d] = H
        ops.append(dict(op="observe", h=h, dst=d, obs=obs, single=len(obs) == 1 and r.random() < 0.5))
        # the same observations listed in another order, or in two steps
        if len(q) > 1:
            perm = r.sample(obs, len(obs))
            ops.append(dict(op="observe", h=h, dst=d + 1, obs=perm, single=False))
            hs[d + 1] = N.step(hs[h], perm)
            try:
                c = r.randint(1, len(obs) - 1)
                A = N.step(hs[h], perm[:c])
                B = N.step(A, perm[c:])
                hs[d + 2], hs[d + 3] = A, B
                ops.append(dict(op="observe", h=h, dst=d + 2, obs=perm[:c], single=c == 1))
                ops.append(dict(op="observe", h=d + 2, dst=d + 3, obs=perm[c:], single=False))
            except OverflowError:
                hs.pop(d + 2, None)
                hs.pop(d + 3, None)
    for _ in range(samples):
        ops.append(dict(op="sample", h=r.choice(list(hs)), size=r.choice([10000, 10000, 10000, 1000, 1]),
                        seed=r.randrange(2 ** 31)))
    units = [r.choice([1, 0.001, 0.01, 16, 1000]) for _ in range(n)] if r.random() < 0.4 else [1] * n
    return dict(n=n, names=names, scale=r.choice([1, 1, 2, 4, 10]), units=units, order=r.sample(range(1, n + 1), n),
                m=N.m, s=N.s, ops=ops, list=r.random() < 0.3)


def gauss(ck, clauses, samples=0, known=False):
    for z in ("0", "1"):
        ck.model("MCGauss", env={"NODES": "4" if ck.thorough else "3", "ZERO": z},
                 what="steps, orders and splits agree with conditioning at once")
    if known:
        ck.witness("MCGauss", os.path.join(SPEC, "MCGaussPublished.cfg"), env={"NODES": "3"},
                   what="the published mean update differs from the conditional mean")
    r = ck.rnd
    for what, n, a in (("mixed histories", scale(ck, 250, 3000), dict(nmax=5, nsteps=4)),
                       ("one observation at a time", scale(ck, 150, 1500), dict(nmax=5, nsteps=6, joint=[1])),
                       ("joint observations", scale(ck, 150, 1500), dict(nmax=6, nsteps=2, joint=[2, 3, 4])),
                       ("zero means", scale(ck, 100, 1000), dict(nmax=5, nsteps=3, zero=True)),
                       ("many variables in independent groups, most of them observed", scale(ck, 40, 400),
                        dict(nmax=9, nsteps=3, joint=[1, 3, 4, 5, 6, 7, 8], blocks=True))):
        scs = [gaussian(r, samples=samples, **a) for _ in range(n if not samples else n // 2)]
        tr = ck.drive("drv_gauss", scs)
        ck.judge("TraceGauss", tr, scs, clauses, what=what)


@check("C18")
def c18(ck):
    gauss(ck, {"unexpected-error", "reported-names", "remaining-variables", "covariance", "variance", "observed-value",
               "observed-variance", "marginals-differ-from-parameters", "source-changed"})


@check("C19")
def c19(ck):
    gauss(ck, {"unexpected-error", "mean", "mean-sign"}, known=True)


@check("C25")
def c25(ck):
    gauss(ck, {"unexpected-error", "sampled-names", "sample-size", "sample-observed", "sample-mean", "sample-variance",
               "source-changed"}, samples=3)


# ---------------------------------------------------------------- learned, imported, generated
COLPOOL = [list("abcdefgh"), ["x1", "x10", "x2", "y", "X1", "Y"], ["class", "wet grass", "é", "a-b", "index", "if", "1", "n"],
           ["name", "p", "v", "df", "values", "n", "c", "nodes"]]


def learn_op(r, n, k, recs, post_bound=None, sparse=False, lopsided=False, most=3):
    names = r.sample(r.choice(COLPOOL), n) if n <= 6 else r.sample([f"c{i}" for i in range(20)], n)
    perm = r.sample(range(1, n + 1), n)
    par = [[] for _ in range(n)]
    dens = r.choice([0.25, 0.5, 0.8])
    for a in range(n):
        for b in range(a + 1, n):
            if r.random() < dens and len(par[perm[b] - 1]) < most:
                par[perm[b] - 1].append(perm[a])
    dtypes, vals = {}, []
    for c in range(n):
        kc = r.randint(1, k) if r.random() < 0.2 else r.randint(2, k)
        t = r.choice(["str", "str", "digits", "int", "float", "quote", "bool"])
        pool = {"str": ["on", "off", "maybe", "x", "y"], "digits": ["0", "1", "2", "10", "9"], "int": [0, 1, 2, 10, -3],
                "float": [0.5, 1.0, 2.25, -1.5, 10.0], "quote": ["it's", 'a"b', "c d", "", "é"], "bool": [True, False]}[t]
        if k > 5:
            pool = {"str": [f"s{i}" for i in range(14)], "digits": [str(i) for i in range(14)], "int": list(range(-2, 12)),
                    "float": [i / 4 for i in range(14)], "quote": pool, "bool": pool}[t]
        vals.append(sorted(r.sample(pool, min(kc, len(pool)))))
        if r.random() < 0.35:
            # columns may be stored in other ways than the default
            dtypes[names[c]] = r.choice(["object", "category"] + {"int": ["int8", "int16", "Int64", "float64"],
                                        "float": ["float32", "Float64"], "bool": ["boolean"]}.get(t, ["string"]))
            if dtypes[names[c]] == "float64":
                vals[-1] = [float(v) for v in vals[-1]]
    if sparse:
        rows = [[r.randint(1, len(v)) for v in vals] for _ in range(max(1, recs // 4))]
        data = [r.choice(rows) for _ in range(recs)]
    elif lopsided:
        # a few records that occur all the time, and some that occur once
        rows = [[r.randint(1, len(v)) for v in vals] for _ in range(r.randint(1, 3))]
        rare = [[r.randint(1, len(v)) for v in vals] for _ in range(r.randint(1, 12))]
        data = [list(x) for x in rare + [r.choice(rows) for _ in range(recs - len(rare))]]
        r.shuffle(data)
    else:
        data = [[r.randint(1, len(v)) for v in vals] for _ in range(recs)]
    # only values that occur count
    for c in range(n):
        seen = sorted({d[c] for d in data})
        vals[c] = [vals[c][s - 1] for s in seen]
        for d in {id(d): d for d in data}.values():
            d[c] = seen.index(d[c]) + 1
    data = [list(d) for d in data]
    card = [len(v) for v in vals]
    # the order in which parents are listed
    listed = [r.sample(q, len(q)) for q in par]
    op = dict(op="learn", names=names, vals=vals, data=data, card=card, par=[sorted(q) for q in par], top=perm,
              listed=listed, order=r.sample(range(n), n), colorder=r.sample(range(n), n),
              dtypes=dtypes, index=r.choice(["", "", "shuffled", "same"]), idx=r.sample(range(max(1000, recs)), recs), post=False)
    if post_bound:
        op["post"] = learned_bound(op) <= post_bound
    return op


def learned_bound(op):
    t = 1
    for c in range(len(op["card"])):
        cnt = {}
        for d in op["data"]:
            row = cnt.setdefault(tuple(d[p - 1] for p in op["par"][c]), [0] * op["card"][c])
            row[d[c] - 1] += 1
        den = op["card"][c]
        for row in cnt.values():
            g = 0
            for x in row:
                g = math.gcd(g, x)
            den = math.lcm(den, sum(row) // g)
        t *= den
    return t


def pack(ops, k=6):
    return [dict(ops=ops[j:j + k]) for j in range(0, len(ops), k)]


@check("C20")
def c20(ck):
    ck.model("MCLearn", env={"RECORDS": "5" if ck.thorough else "3"},
             what="a learned network is valid and reproduces the families it can")
    ck.model("MCNets", what="comparison of tables by meaning")
    r = ck.rnd
    for what, n, f in (
            ("small tables, with posteriors", scale(ck, 300, 3000),
             lambda: learn_op(r, r.randint(1, 4), 3, r.randint(1, 10), post_bound=2 * 10 ** 7)),
            ("several parents", scale(ck, 150, 1500), lambda: learn_op(r, r.randint(3, 6), 3, r.randint(5, 60))),
            ("configurations without records", scale(ck, 150, 1500),
             lambda: learn_op(r, r.randint(2, 6), 4, r.randint(1, 12), sparse=True, post_bound=2 * 10 ** 7)),
            ("many columns, up to six parents", scale(ck, 30, 300),
             lambda: learn_op(r, r.randint(7, 10), 2, r.randint(20, 120), most=6)),
            ("up to twelve values", scale(ck, 40, 400), lambda: learn_op(r, r.randint(1, 4), 12, r.randint(15, 120))),
            ("thousands of records, some of them unique", scale(ck, 6, 60),
             lambda: learn_op(r, r.randint(2, 4), 3, r.randint(1100, 6000), lopsided=True))):
        ops = [f() for _ in range(n)]
        scs = pack(ops)
        tr = ck.drive("drv_nets", scs)
        ck.judge("TraceNets", tr, scs, what="learned: " + what)


def libpgm_op(r, net, post):
    n, names, ids = net["n"], net["names"], net["ids"]
    vd = {}
    kids = {i: [j for j in range(1, n + 1) if i in net["par"][j - 1]] for i in range(1, n + 1)}
    sp = r.random() < 0.5
    for i in r.sample(range(1, n + 1), n):
        ps = net["par"][i - 1]
        rows = [[w / net["den"][i - 1] for w in row] for row in net["cpt"][i - 1]]
        if ps:
            cfg = [[]]
            for p in ps:
                cfg = [c + [v] for c in cfg for v in net["vals"][p - 1]]
            items = [(str(c), row) for c, row in zip(cfg, rows)]     # as libpgm writes them
            r.shuffle(items)
            cprob = dict(items)
        else:
            cprob = rows[0]
        x = dict(ord=ids[i - 1], numoutcomes=net["card"][i - 1], vals=list(net["vals"][i - 1]),
                 parents=[names[p - 1] for p in ps] or (None if sp else []),
                 children=[names[j - 1] for j in kids[i]] or (None if sp else []), cprob=cprob)
        ks = list(x)
        r.shuffle(ks)
        vd[names[i - 1]] = {k: x[k] for k in ks}
    E = [[names[p - 1], names[i - 1]] for i in range(1, n + 1) for p in net["par"][i - 1]]
    r.shuffle(E)
    doc = dict(V=[names[i - 1] for i in r.sample(range(1, n + 1), n)], E=E, Vdata=vd)
    src = dict(vars=[dict(name=names[i - 1], id=ids[i - 1], vals=list(net["vals"][i - 1]),
                          par=[names[p - 1] for p in net["par"][i - 1]],
                          rows=[[round(w * 1e8 / net["den"][i - 1]) for w in row] for row in net["cpt"][i - 1]])
                     for i in range(1, n + 1)], edges=E)
    return dict(op="import", doc=doc, how=r.choice(["json", "dict", "object"]), src=src, abs=gen.abstract(net),
                names=names, vals=net["vals"], post=post, again=r.random() < 0.3, indent=r.choice([None, 1]))


@check("C21")
def c21(ck):
    ck.model("MCNets", what="comparison of tables by meaning")
    r = ck.rnd
    for what, n, kw in (("random networks", scale(ck, 200, 2500), dict(nmax=7, supmax=400)),
                        ("several parents", scale(ck, 120, 1200), dict(nmin=3, nmax=5, kind="complete", supmax=300, cards=(2, 2, 3))),
                        ("five to seven parents", scale(ck, 12, 120), FAN),
                        ("up to twelve values", scale(ck, 12, 120), dict(nmax=3, cards=(2, 8, 11, 12), supmax=2000)),
                        ("colliders", scale(ck, 120, 1200), dict(nmin=3, nmax=6, kind="collider", supmax=400, cards=(1, 2, 2, 3, 4)))):
        ops = []
        for _ in range(n):
            net = gen.network(r, **kw)
            ops.append(libpgm_op(r, net, r.random() < 0.6))
        scs = pack(ops)
        tr = ck.drive("drv_nets", scs)
        ck.judge("TraceNets", tr, scs, what="imported: " + what)


def generated_op(r, nmax):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, r.randint(1, nmax), r.randint(1, nmax)])
    kw = {}
    if r.random() < 0.9:
        kw["max_iter"] = r.choice([0, 1, 2, 3, 5, 10, 20, 50, 100])
    if r.random() < 0.8:
        kw["max_values"] = r.choice([1, 2, 2, 3, 3, 4, 5])
    if r.random() < 0.7:
        kw["max_alpha"] = r.choice([1, 2, 10, 100])
    kind = r.choice(["singly", "multi"])
    if kind == "multi" and n > 8:
        kw["max_iter"] = min(kw.get("max_iter", 10), 20)
        kw["max_values"] = min(kw.get("max_values", 2), 3)
    if kind == "multi" and 6 <= n <= 8:
        kw["max_values"] = min(kw.get("max_values", 2), 2)
    op = dict(op=r.choice(["generate", "generate", "generate", "file"]), n=n, kind=kind, kw=kw, seed=r.randrange(2 ** 31))
    if op["op"] == "file":
        op.update(ext=r.choice(["json", "csv"]), name=r.random() < 0.5)
    return op


def large_generated_op(r):
    kind = r.choice(["singly", "singly", "multi"])
    n = r.randint(20, 60) if kind == "singly" else r.randint(15, 25)
    kw = dict(max_iter=r.choice([0, 5, 20, 60]) if kind == "singly" else r.choice([0, 1, 3]), max_values=2)
    return dict(op="generate", n=n, kind=kind, kw=kw, seed=r.randrange(2 ** 31))


@check("C22")
def c22(ck):
    ck.model("MCGenerate", env={"NODES": "5"}, what="every reachable structure is connected and acyclic")
    ck.witness("MCGenerate", env={"NODES": "4", "CARELESS": "1"}, what="swaps without the test for connectedness")
    r = ck.rnd
    for what, n, f in (("small", scale(ck, 500, 6000), lambda: generated_op(r, 6)),
                       ("larger", scale(ck, 150, 1500), lambda: generated_op(r, 14)),
                       ("dozens of variables", scale(ck, 12, 120), lambda: large_generated_op(r))):
        scs = pack([f() for _ in range(n)])
        tr = ck.drive("drv_nets", scs)
        ck.judge("TraceNets", tr, scs, what="generated: " + what)


# ---------------------------------------------------------------- tables
class TableGen:
    """Sequences of table operations, simulated so that everything stays within TLC's integers."""

    def __init__(self, r, big=False):
        self.r = r
        self.nv = r.randint(5, 7) if big else r.randint(2, 6)
        self.card = [r.choice([1, 2, 2, 2] if big else [1, 2, 2, 2, 3, 3, 4]) for _ in range(self.nv)]
        self.most = min(6, self.nv) if big else min(4, self.nv)
        ids = r.choice([list(range(self.nv)), r.sample(range(-50, 50), self.nv), r.sample(range(10 ** 6), self.nv)])
        r.shuffle(ids)
        pool = ["on", "off", "x", "y", "0", "1", "T", "true", "a b", "ö"]
        self.sc = dict(ids=ids, values=[r.sample(pool, c) for c in self.card], ops=[])
        self.tabs, self.n = {}, 0
        self.pairs = {}

    @staticmethod
    def fits(t):
        lcm = 1
        for x in t[1].values():
            if x > 10:
                return False
            lcm = lcm * x.denominator // math.gcd(lcm, x.denominator)
            if lcm > 4000:
                return False
        return sum(t[1].values()) * lcm < 10 ** 5

    def rows(self, vs):
        return list(itertools.product(*[range(1, self.card[v - 1] + 1) for v in vs]))

    def name(self):
        self.n += 1
        return f"t{self.n}"

    def put(self, op, *new):
        for k, t in new:
            if not self.fits(t):
                return False
        for k, t in new:
            self.tabs[k] = t
        self.sc["ops"].append(op)
        return True

    def marg(self, t, us):
        out = {b: Fraction(0) for b in self.rows(us)}
        for a, x in t[1].items():
            out[tuple(a[t[0].index(u)] for u in us)] += x
        return (us, out)

    def times(self, t, u):
        return (t[0], {a: x * u[1][tuple(a[t[0].index(v)] for v in u[0])] for a, x in t[1].items()})

    @staticmethod
    def over(t, u):
        return (t[0], {a: x / u[1][a] if u[1][a] else Fraction(0) for a, x in t[1].items()})

    def some(self, vs, lo=1):
        r = self.r
        us = r.sample(vs, r.randint(min(lo, len(vs)), len(vs)))
        return us if r.random() < 0.6 else [v for v in vs if v in us]

    def build(self, vs, k=None):
        r = self.r
        k = k or self.name()
        den = r.choice([1, 2, 4, 5, 10])
        zero = r.choice([0, 0.2, 0.6, 1])
        rows = self.rows(vs)
        vals = [(0 if r.random() < zero else r.randint(0, den), den) for _ in rows]
        how = "node" if r.random() < 0.5 else "by hand"
        op = dict(op="build", k=k, vs=vs, card=[self.card[v - 1] for v in vs], vals=[list(v) for v in vals], how=how)
        return self.put(op, (k, (vs, {a: Fraction(*v) for a, v in zip(rows, vals)}))) and k

    def step(self):
        r = self.r
        every = list(range(1, self.nv + 1))
        ks = sorted(self.tabs)
        what = r.choice(["build", "ones", "margin", "margin", "times", "times", "over", "over", "norm", "norm", "pair", "pass", "pass",
                         "pass", "entry", "dup", "match", "match", "dict"])
        if len(ks) > 7 and what in ("build", "ones", "margin", "over", "dup", "pair"):
            what = "pass"
        if not ks or what == "build":
            vs = r.sample(every, r.randint(1, self.most))
            return self.build(vs)
        k = r.choice(ks)
        t = self.tabs[k]
        if what == "ones":
            vs = r.sample(every, r.randint(1, self.most))
            k = self.name()
            return self.put(dict(op="ones", k=k, vs=vs, card=[self.card[v - 1] for v in vs]),
                            (k, (vs, {a: Fraction(1) for a in self.rows(vs)})))
        if what == "margin":
            us, k2 = self.some(t[0]), self.name()
            return self.put(dict(op="margin", k=k, k2=k2, us=us), (k2, self.marg(t, us)))
        if what == "times":
            fit = [j for j in ks if j != k and set(self.tabs[j][0]) <= set(t[0])]
            if not fit:
                return False
            j = r.choice(fit)
            return self.put(dict(op="times", k=k, k2=j), (k, self.times(t, self.tabs[j])))
        if what == "over":
            fit = [j for j in ks if self.tabs[j][0] == t[0]]
            if len(fit) < 2:
                us = list(t[0])
                j = self.build(us)
                if not j:
                    return False
                fit.append(j)
            j, k3 = r.choice(fit), self.name()
            return self.put(dict(op="over", k=k, k2=j, k3=k3), (k3, self.over(t, self.tabs[j])))
        if what == "norm":
            z = sum(t[1].values())
            return self.put(dict(op="norm", k=k), (k, (t[0], {a: x / z for a, x in t[1].items()} if z else t[1])))
        if what == "pair":
            fit = [j for j in ks if set(self.tabs[j][0]) != set(t[0]) and set(self.tabs[j][0]) & set(t[0])]
            if not fit:
                return False
            j, s = r.choice(fit), self.name()
            vs = [v for v in t[0] if v in self.tabs[j][0]]
            if self.put(dict(op="ones", k=s, vs=vs, card=[self.card[v - 1] for v in vs]),
                        (s, (vs, {a: Fraction(1) for a in self.rows(vs)}))):
                self.pairs[s] = (k, j)
                return True
            return False
        if what == "pass":
            fit = [s for s in self.pairs if s in self.tabs]
            if not fit:
                return False
            s = r.choice(fit)
            left = self.pairs[s][0]
            x, y = self.pairs[s] if r.random() < 0.5 else self.pairs[s][::-1]
            new = self.marg(self.tabs[x], self.tabs[s][0])
            return self.put(dict(op="pass", x=x, s=s, y=y, flip=x != left),
                            (s, new), (y, self.times(self.tabs[y], self.over(new, self.tabs[s]))))
        if what == "entry":
            a = r.choice(sorted(t[1]))
            v = (r.randint(0, 4), 4)
            return self.put(dict(op="entry", k=k, a=list(a), v=list(v)), (k, (t[0], {**t[1], a: Fraction(*v)})))
        if what == "dup":
            k2 = self.name()
            return self.put(dict(op="dup", k=k, k2=k2), (k2, (t[0], dict(t[1]))))
        if what == "match":
            us = r.sample(every, r.randint(0, min(3, self.nv))) if r.random() < 0.3 else self.some(t[0], 0)
            return self.put(dict(op="match", k=k, part=[[v, r.randint(1, self.card[v - 1])] for v in us]))
        return self.put(dict(op="dict", k=k))


def table_history(r, k, big=False):
    g = TableGen(r, big)
    for _ in range(2):
        while not g.build(r.sample(range(1, g.nv + 1), r.randint(2, g.most))):
            pass
    for _ in range(4 * k):
        g.step()
        if len(g.sc["ops"]) >= k:
            break
    return g.sc


@check("C26")
def c26(ck):
    ck.model("MCPotentials", env={"WIDE": "1"} if ck.thorough else {}, what="messages in any order keep the joint and end calibrated; laws of the table operations")
    ck.witness("MCPotentials", env={"CARELESS": "1"}, what="messages without dividing by what was sent before")
    scs = [table_history(ck.rnd, 24) for _ in range(scale(ck, 300, 5000))]
    scs += [table_history(ck.rnd, 16, True) for _ in range(scale(ck, 60, 600))]
    tr = ck.drive("drv_potential", scs)
    ck.judge("TracePotentials", tr, scs, what="random sequences of table operations, all tables observed after each")
