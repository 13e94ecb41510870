"""Runs session scenarios on the real library and logs what it shows.  Public API only."""
import copy
import json
import math
import os

import numpy

from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType, JoinTree
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable
from pybbn.pptc.inferencecontroller import InferenceController

ET = {"V": EvidenceType.VIRTUAL, "F": EvidenceType.FINDING, "O": EvidenceType.OBSERVATION,
      "U": EvidenceType.UNOBSERVE}


def e8(x):
    """A probability in units of 1e-8, or -1 if it is not a finite number in range."""
    try:
        x = float(x)
    except Exception:
        return -1
    if not math.isfinite(x) or abs(x) > 20:
        return -1
    return int(round(x * 1e8))


EPS = 1e-20        # as in gen.py


def flat(net, i):
    if "ord" not in net:
        return [w / net["den"][i - 1] for row in net["cpt"][i - 1] for w in row]
    return [w / net["den"][i - 1] * EPS ** o for row, od in zip(net["cpt"][i - 1], net["ord"][i - 1])
            for w, o in zip(row, od)]


def make_node(net, i):
    p, vs = flat(net, i), list(net["vals"][i - 1])
    if net.get("form") == 1:        # tables need not be lists
        p = numpy.array(p)
    elif net.get("form") == 2:
        p, vs = tuple(p), tuple(vs)
    return BbnNode(Variable(net["ids"][i - 1], net["names"][i - 1], vs), p)


def build(net):
    """Nodes in net['norder'], edges in net['eorder']."""
    nodes = {i: make_node(net, i) for i in range(1, net["n"] + 1)}
    bbn = Bbn()
    for i in net["norder"]:
        bbn.add_node(nodes[i])
    for p, c in net["eorder"]:
        bbn.add_edge(Edge(nodes[p], nodes[c], EdgeType.DIRECTED))
    return bbn


def see(bbn, net):
    """The network as its dictionary form and accessors show it, projected to positions."""
    pos = {net["ids"][i]: i + 1 for i in range(net["n"])}
    d = Bbn.to_dict(bbn)
    nodes = {int(k): v for k, v in d["nodes"].items()}
    if sorted(nodes) != sorted(pos) or sorted(n.id for n in bbn.get_nodes()) != sorted(pos):
        return dict(ok=False)
    for i, p in pos.items():
        v = nodes[i]["variable"]
        if v["id"] != i or v["name"] != net["names"][p - 1] or list(v["values"]) != list(net["vals"][p - 1]):
            return dict(ok=False)
        w = bbn.get_node(i).variable
        if w.id != i or w.name != net["names"][p - 1] or list(w.values) != list(net["vals"][p - 1]):
            return dict(ok=False)
        if [float(x) for x in bbn.get_node(i).probs] != [float(x) for x in nodes[i]["probs"]]:
            return dict(ok=False)
    par = [[] for _ in range(net["n"])]
    for e in d["edges"]:
        if e["pa"] not in pos or e["ch"] not in pos:
            return dict(ok=False)
        par[pos[e["ch"]] - 1].append(pos[e["pa"]])
    es = sorted((e.i.id, e.j.id) for e in bbn.get_edges())
    if es != sorted((e["pa"], e["ch"]) for e in d["edges"]):
        return dict(ok=False)
    for i, p in pos.items():
        if sorted(bbn.get_parents(i)) != sorted(net["ids"][q - 1] for q in par[p - 1]):
            return dict(ok=False)
    cpt = []
    for p in range(1, net["n"] + 1):
        probs = [e8(x) for x in nodes[net["ids"][p - 1]]["probs"]]
        c = net["card"][p - 1]
        cpt.append([probs[k:k + c] for k in range(0, len(probs), c)])
    return dict(ok=True, net=dict(n=len(nodes), card=[len(nodes[i]["variable"]["values"]) for i in net["ids"]],
                                  par=par, cpt=cpt))


def resave(bbn, how):
    if how == "dict":
        return Bbn.from_dict(Bbn.to_dict(bbn))
    if how == "text":
        return Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(bbn))))
    f = os.path.join(os.getcwd(), f"resave-{os.getpid()}.tmp")
    try:
        if how == "json":
            Bbn.to_json(bbn, f)
            return Bbn.from_json(f)
        Bbn.to_csv(bbn, f)
        return Bbn.from_csv(f)
    finally:
        if os.path.exists(f):
            os.unlink(f)


def magnitude(x):
    """[m, k] with x = m * 10^-8 * 10^-k and, unless x is 0, m of the order of 10^8"""
    x = float(x)
    if x == 0:
        return [0, 0]
    if not 0 < x <= 3:
        return [-1, 0]
    k = max(0, math.floor(0.5 - math.log10(x)))
    return [e8(x * 10.0 ** min(k, 300) * 10.0 ** (k - min(k, 300))), k]


class Session:
    def __init__(self, one=4):
        self.one = one           # the integer that stands for certainty in evidence
        self.bbns, self.nets = {}, {}
        self.trees = {}          # slot -> (jt, net, src)
        self.builders, self.objects = {}, {}

    # ---- reading
    def read(self, t, tabs=False, liks=False):
        jt, net, _ = self.trees[t]
        posts = jt.get_posteriors()
        p, q = [], []
        for i in range(net["n"]):
            m = posts.get(net["names"][i], {})
            row = [e8(m.get(str(v), -1)) if v in m or str(v) in m else -1 for v in net["vals"][i]]
            if len(m) != net["card"][i]:
                row = row + [-1]
            p.append(row)
            node = jt.get_bbn_node(net["ids"][i])
            pot = jt.get_bbn_potential(node)
            got = {}
            for e in pot.entries:
                got[e.entries.get(net["ids"][i])] = e.value
            q.append([e8(got.get(v, -1)) for v in net["vals"][i]] + ([-1] if len(pot.entries) != net["card"][i] else []))
        if len(posts) != net["n"]:
            p.append([-1])
        o = dict(t=t, p=p, q=q)
        if liks:
            o["lik"] = [[self.units(sum(e.value for e in jt.get_evidence(jt.get_bbn_node(net["ids"][i]), v).entries))
                         for v in net["vals"][i]] for i in range(net["n"])]
        if tabs:
            pos = {net["ids"][i]: i for i in range(net["n"])}
            o["tabs"] = []
            for c in jt.get_nodes():
                vs = [pos[x.id] + 1 for x in c.nodes]
                ents = []
                total = sum(e.value for e in jt.potentials[c.id].entries)
                for e in jt.potentials[c.id].entries:
                    key = [net["vals"][v - 1].index(e.entries[net["ids"][v - 1]]) + 1 for v in vs]
                    ents.append([key, e8(e.value / total if total else e.value and -1)])
                o["tabs"].append(dict(vs=vs, tot=magnitude(total), e=ents))
        return o

    def node(self, t, i):
        jt, net, _ = self.trees[t]
        if i == 0:
            return BbnNode(Variable(100000, "stranger", ["on", "off"]), [0.5, 0.5])
        if (i + len(self.trees)) % 2:
            return jt.get_bbn_node(net["ids"][i - 1])
        return jt.get_bbn_node_by_name(net["names"][i - 1])

    def evidence(self, t, ev):
        """Supplied through a new builder, a builder used before, the Evidence class itself, or as an object
        that was entered before ("how", with the key of the builder or object)."""
        net = self.trees[t][1]
        how, key = ev.get("how", "new"), ev.get("key")
        if how == "same":
            return self.objects[key]
        node, typ = self.node(t, ev["node"]), ET[ev["type"]]
        unit = ev.get("scale", 1.0) / self.one
        vals = [("no such value" if v == 0 or ev["node"] == 0 else net["vals"][ev["node"] - 1][v - 1], q * unit)
                for v, q in ev.get("put", ev["vals"])]
        if how == "direct":
            out = Evidence(node, typ)
            for lab, x in vals:
                out.add_value(lab, x)
        else:
            b = self.builders.setdefault(ev["b"], EvidenceBuilder()) if how == "builder" else EvidenceBuilder()
            b = b.with_node(node).with_type(typ)
            for lab, x in vals:
                b = b.with_evidence(lab, x)
            out = b.build()
            if how == "builder":
                self.builders[ev["b"]] = b
        if key is not None:
            self.objects[key] = out
        return out

    def units(self, x):
        x = float(x) * self.one
        return round(x) if math.isfinite(x) and abs(x - round(x)) < 1e-9 else -999

    def norm(self, t, ev, e):
        net = self.trees[t][1]
        out = []
        for v in net["vals"][ev["node"] - 1]:
            x = e.values.get(v)
            if x is not None:
                x = float(x) * self.one / (ev.get("scale", 1.0) if ev["type"] == "V" else 1.0)
            out.append(round(x) if x is not None and abs(x - round(x)) < 1e-9 else -999)
        return out

    # ---- operations
    def do(self, op, e):
        k = op["op"]
        if k == "net":
            self.nets[op["s"]] = op["net"]
            self.bbns[op["s"]] = build(op["net"])
        elif k == "compile":
            self.trees[op["t"]] = (InferenceController.apply(self.bbns[op["s"]]), self.nets[op["s"]], op["s"])
        elif k == "update":
            evs = [self.evidence(op["t"], x) for x in op["evs"]]
            self.trees[op["t"]][0].update_evidences(evs)
            e["norm"] = [self.norm(op["t"], x, y) for x, y in zip(op["evs"], evs)]
        elif k == "toggle":
            ev = self.evidence(op["t"], op["evs"][0])
            self.trees[op["t"]][0].set_observation(ev)
        elif k == "retract":
            self.trees[op["t"]][0].unobserve([self.node(op["t"], i) for i in op["nodes"]])
        elif k == "clear":
            self.trees[op["t"]][0].unobserve_all()
        elif k == "copy":
            jt, net, _ = self.trees[op["t"]]
            self.trees[op["t2"]] = (copy.deepcopy(jt), net, 0)
        elif k == "reapply":
            jt, net, _ = self.trees[op["t"]]
            new = dict(net)
            new["cpt"] = [u if u else net["cpt"][i] for i, u in enumerate(op["upd"])]
            cpts = {net["ids"][i]: flat(new, i + 1) for i, u in enumerate(op["upd"]) if u}
            self.trees[op["t2"]] = (InferenceController.reapply(jt, cpts), new, 0)
        elif k == "reload":
            jt, net, _ = self.trees[op["t"]]
            bbn = self.bbns[op["s"]]
            d = JoinTree.to_dict(jt, bbn)
            if op.get("json"):
                d = json.loads(json.dumps(d))
            self.trees[op["t2"]] = (InferenceController.apply_from_serde(JoinTree.from_dict(d)), net, 0)
        elif k == "change":
            self.change(op)
        elif k == "resave":
            # the network is saved, loaded, and the loaded one takes its place
            self.bbns[op["s2"]] = resave(self.bbns[op["s"]], op["how"])
            self.nets[op["s2"]] = self.nets[op["s"]]
            e["net"] = strip(dict(net=self.nets[op["s"]]))["net"]
        elif k == "query":
            for t, (jt, net, _) in self.trees.items():
                for m in jt.get_posteriors().values():
                    for x in list(m):
                        m[x] = -7.0
                    m["junk"] = 1.0
                for n in jt.get_bbn_nodes():
                    pot = jt.get_bbn_potential(n)
                    for x in pot.entries:
                        x.value = 5.0
                    pot.entries.clear()
        else:
            raise ValueError(k)

    def change(self, op):
        """In-place change of a network: replaced tables, added leaf nodes, added edges."""
        s, new, old = op["s"], op["net"], self.nets[op["s"]]
        bbn = self.bbns[s]
        for i in op.get("remove", []):
            bbn.remove_node(i)
        oldids = set(old["ids"])
        for i in new["norder"]:
            if new["ids"][i - 1] not in oldids:
                bbn.add_node(make_node(new, i))
        have = {(e.i.id, e.j.id) for e in bbn.get_edges()}
        for p, c in new["eorder"]:
            a, b = new["ids"][p - 1], new["ids"][c - 1]
            if (a, b) not in have:
                bbn.add_edge(Edge(bbn.get_node(a), bbn.get_node(b), EdgeType.DIRECTED))
        for i in range(1, new["n"] + 1):
            bbn.get_node(new["ids"][i - 1]).probs = flat(new, i)
        self.nets[s] = new
        self.trees = {t: x for t, x in self.trees.items() if x[2] != s}


def strip(op):
    out = {k: v for k, v in op.items()}
    if "evs" in out:
        out["evs"] = [{k: x[k] for k in ("node", "type", "vals")} for x in out["evs"]]
    if "net" in out:
        n = out["net"]
        out["net"] = {k: n[k] for k in ("n", "card", "par", "den", "cpt", "top", "ord") if k in n}
    return out


def run(sc):
    """One scenario -> list of events (a generator, so that a hang keeps the prefix)."""
    s = Session(sc.get("one", 4))
    tabs = sc.get("tabs", False)
    seen = sc.get("seen", False)
    # likelihoods as the tree reports them, unless evidence comes in other units
    liks = not any("scale" in x and x["type"] == "V" for op in sc["ops"] for x in op.get("evs", []))
    for op in sc["ops"]:
        e = strip(op)
        e["err"] = ""
        e["obs"] = []
        try:
            s.do(op, e)
        except Exception as x:  # an observation, judged by the specification
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        stop = e["err"] != "" and not op.get("bad_ok")
        if not stop:
            try:
                e["obs"] = [s.read(t, tabs, liks) for t in sorted(s.trees)]
                if seen:
                    e["seen"] = [dict(s=k, **see(s.bbns[k], s.nets[k])) for k in sorted(s.bbns)]
            except Exception as x:
                e["err"] = f"reading: {type(x).__name__}: {x}"[:200]
                e["obs"] = []
                stop = True
        yield e
        if stop:
            return
