"""Sequences of operations on tables (potentials), all tables observed after each."""
from pybbn.graph.jointree import JoinTree
from pybbn.graph.node import BbnNode, Clique
from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil
from pybbn.graph.variable import Variable


def u8(x):
    try:
        x = float(x)
        return round(x * 1e8) if abs(x) < 20 else -(10 ** 9)
    except (ValueError, TypeError, OverflowError):
        return -(10 ** 9)


class Tables:
    def __init__(self, sc):
        self.var = {v + 1: Variable(i, f"n{v + 1}", vals) for v, (i, vals) in enumerate(zip(sc["ids"], sc["values"]))}
        self.node = {v: BbnNode(x, []) for v, x in self.var.items()}
        self.tab = {}          # k -> (Potential, variables)

    def nodes(self, vs):
        return [self.node[v] for v in vs]

    def key(self, entry, vs):
        out = []
        for v in vs:
            x = entry.entries.get(self.var[v].id)
            out.append(self.var[v].values.index(x) + 1 if x in self.var[v].values else 0)
        return out

    def listed(self, k):
        p, vs = self.tab[k]
        return [dict(a=self.key(e, vs), x=u8(e.value), w=len(e.entries)) for e in p.entries]

    def partial(self, part):
        e = PotentialEntry()
        for v, p in part:
            e.add(self.var[v].id, self.var[v].values[p - 1])
        return e

    def tree(self, k):
        p, vs = self.tab[k]
        jt, c = JoinTree(), Clique(self.nodes(vs))
        jt.add_potential(c, p)
        return jt, c

    def do(self, op, e):
        name = op["op"]
        if name == "build":
            vals = [n / d for n, d in op["vals"]]
            vs = op["vs"]
            if op["how"] == "node":
                node = self.node[vs[-1]]
                node.probs = vals
                p = PotentialUtil.get_potential(node, self.nodes(vs[:-1]))
            else:
                p = Potential()
                for k, x in enumerate(vals):
                    a, r = [], k
                    for c in reversed(op["card"]):
                        a.append(r % c + 1)
                        r //= c
                    t = self.partial(list(zip(vs, reversed(a))))
                    t.value = x
                    p.add_entry(t)
            self.tab[op["k"]] = (p, vs)
        elif name == "ones":
            self.tab[op["k"]] = (PotentialUtil.get_potential_from_nodes(self.nodes(op["vs"])), op["vs"])
        elif name == "margin":
            jt, c = self.tree(op["k"])
            self.tab[op["k2"]] = (PotentialUtil.marginalize_for(jt, c, self.nodes(op["us"])), op["us"])
        elif name == "times":
            PotentialUtil.multiply(self.tab[op["k"]][0], self.tab[op["k2"]][0])
        elif name == "over":
            self.tab[op["k3"]] = (PotentialUtil.divide(self.tab[op["k"]][0], self.tab[op["k2"]][0]), self.tab[op["k"]][1])
        elif name == "norm":
            self.tab[op["k"]] = (PotentialUtil.normalize(self.tab[op["k"]][0]), self.tab[op["k"]][1])
        elif name == "pass":
            (px, vx), (ps, vsep), (py, vy) = (self.tab[op[f]] for f in "xsy")
            jt = JoinTree()
            x, y = Clique(self.nodes(vx)), Clique(self.nodes(vy))
            # the separator belongs to the pair, whichever way a message goes
            s = y.get_sep_set(x) if op["flip"] else x.get_sep_set(y)
            if [n.id for n in s.nodes] != [self.var[v].id for v in vsep]:
                raise RuntimeError("separator variables in an unexpected order")
            for c, p in ((x, px), (s, ps), (y, py)):
                jt.add_potential(c, p)
            PotentialUtil.pass_single_message(jt, x, s, y)
            for f, c in (("x", x), ("s", s), ("y", y)):
                self.tab[op[f]] = (jt.potentials[c.id], self.tab[op[f]][1])
        elif name == "entry":
            for t in self.tab[op["k"]][0].get_matching_entries(self.partial(list(zip(self.tab[op["k"]][1], op["a"])))):
                t.value = op["v"][0] / op["v"][1]
        elif name == "dup":
            p = Potential()
            for t in self.tab[op["k"]][0].entries:
                p.add_entry(t.duplicate())
            self.tab[op["k2"]] = (p, self.tab[op["k"]][1])
        elif name == "match":
            p, vs = self.tab[op["k"]]
            part = self.partial(op["part"])
            got = p.get_matching_entries(part)
            if [id(t) for t in p.entries if t.matches(part)] != [id(t) for t in got]:
                raise RuntimeError("matches and get_matching_entries disagree")
            e["got"] = [self.key(t, vs) for t in got]
        elif name == "dict":
            p, vs = self.tab[op["k"]]
            names = {}
            for t in PotentialUtil.get_potential_from_nodes(self.nodes(vs)).entries:
                pairs = sorted((self.var[v].id, self.var[v].values[i - 1]) for v, i in zip(vs, self.key(t, vs)))
                names["|".join(f"{i}={x}" for i, x in pairs)] = self.key(t, vs)
            e["got"] = [dict(a=names.get(n, [0]), x=u8(x)) for n, x in Potential.to_dict([p]).items()]


def run(sc):
    t = Tables(sc)
    for op in sc["ops"]:
        e = {k: v for k, v in op.items() if k not in ("how", "flip")}
        e.update(err="", obs=[])
        if op["op"] in ("match", "dict"):
            e["got"] = []
        try:
            t.do(op, e)
            e["obs"] = [dict(k=k, ent=t.listed(k)) for k in sorted(t.tab)]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        yield e
        if e["err"]:
            return
