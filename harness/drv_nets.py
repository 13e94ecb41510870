"""Networks built from data, libpgm sources and the generator."""
import copy
import json
import os
import random
import shutil
import tempfile

import numpy as np
from pybbn.graph.dag import Bbn
from pybbn.graph.factory import Factory
from pybbn.pptc.inferencecontroller import InferenceController

from drv_session import e8


def chunk(xs, k):
    return [xs[j:j + k] for j in range(0, len(xs), k)] if k else [xs]


def view(bbn, vals=lambda node: [v if isinstance(v, str) else repr(v) for v in node.variable.values]):
    """Variables, table parents (in the order in which edges were added) and tables."""
    name = {n.id: n.variable.name for n in bbn.get_nodes()}
    if sorted(bbn.nodes) != sorted(name):
        raise RuntimeError("node index and nodes disagree")
    edges = [[name[e.i.id], name[e.j.id]] for e in bbn.get_edges()]
    for n in bbn.get_nodes():
        if n.id != n.variable.id:
            raise RuntimeError("node identifiers disagree")
        if sorted(name[p] for p in bbn.get_parents(n.id)) != sorted(p for p, c in edges if c == n.variable.name):
            raise RuntimeError("parent lists disagree")
    out = []
    for n in bbn.get_nodes():
        x = n.variable.name
        out.append(dict(name=x, id=n.id, vals=vals(n), par=[p for p, c in edges if c == x],
                        rows=chunk([e8(p) for p in n.probs], len(n.variable.values))))
    return dict(vars=out, edges=edges)


def posteriors(bbn, names, vals):
    jt = InferenceController.apply(bbn)
    P = jt.get_posteriors()
    out = []
    for x, vs in zip(names, vals):
        if set(P[x]) != {str(v) for v in vs} or len(P[x]) != len(vs):
            raise RuntimeError("posterior values differ")
        out.append([e8(P[x][str(v)]) for v in vs])
    return out


def run(sc):
    tmp = tempfile.mkdtemp(prefix="nets-", dir=os.getcwd())
    try:
        for op in sc["ops"]:
            e = dict(op=op["op"], err="")
            try:
                globals()["do_" + op["op"]](op, e, tmp)
            except Exception as z:
                e["err"] = f"{type(z).__name__}: {z}"[:200]
            yield e
            if e["err"]:
                return
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ learn
def do_learn(op, e, tmp):
    import pandas as pd
    names, vals, data = op["names"], op["vals"], op["data"]
    n = len(names)
    for k in ("data", "card", "par", "top", "names"):
        e[k] = op[k]
    cols = {names[c]: [vals[c][r[c] - 1] for r in data] for c in op["colorder"]}
    df = pd.DataFrame(cols)
    for name, t in op.get("dtypes", {}).items():
        df[name] = df[name].astype(t)
    if op.get("index") == "shuffled":
        df.index = op["idx"]
    elif op.get("index") == "same":
        df.index = [7] * len(data)
    st = {names[c]: [names[p - 1] for p in op["listed"][c]] for c in op["order"]}
    before, st0 = df.copy(deep=True), copy.deepcopy(st)
    bbn = Factory.from_data(st, df)
    e["same"] = st == st0 and before.equals(df) and list(before.columns) == list(df.columns) and list(st) == list(st0)
    rank = {names[c]: {repr(v): k + 1 for k, v in enumerate(vals[c])} for c in range(n)}

    def ranks(node):
        out = []
        for v in node.variable.values:
            v = v.item() if hasattr(v, "item") else v
            out.append(rank.get(node.variable.name, {}).get(repr(v), 0))
        return out
    e["got"] = view(bbn, ranks)
    e["post"] = posteriors(bbn, names, vals) if op["post"] else []


# ----------------------------------------------------------------- import
class Source(object):
    def __init__(self, V, E, Vdata):
        self.V, self.E, self.Vdata = V, E, Vdata


def do_import(op, e, tmp):
    d = op["doc"]
    e["net"], e["src"] = op["abs"], op["src"]
    if op["how"] == "json":
        s = json.dumps(d, indent=op.get("indent"))
        bbn = Factory.from_libpgm_discrete_json(s)
        e["same"] = True
    elif op["how"] == "dict":
        before = copy.deepcopy(d)
        bbn = Factory.from_libpgm_discrete_dictionary(d)
        e["same"] = json.dumps(before) == json.dumps(d)
    else:
        o = Source(d["V"], d["E"], d["Vdata"])
        before = copy.deepcopy(d)
        bbn = Factory.from_libpgm_discrete_object(o)
        e["same"] = json.dumps(before) == json.dumps(dict(V=o.V, E=o.E, Vdata=o.Vdata)) and \
            sorted(vars(o)) == ["E", "V", "Vdata"]
    e["got"] = view(bbn)
    e["post"] = posteriors(bbn, op["names"], op["vals"]) if op["post"] else []
    if op.get("again"):
        # what was imported is the importer's own: changing it must not reach the source
        before = json.dumps(d)
        for nd in bbn.get_nodes():
            nd.variable.values.append("extra")
            nd.probs.append(0.5)
        e["same"] = e["same"] and json.dumps(d) == before


# --------------------------------------------------------------- generate
def source_view(g, p):
    out, edges = [], []
    for i in g.nodes:
        q = p[i]
        rows = np.asarray(q["params"])
        par = [str(x) for x in q["parents"]]
        if list(q["shape"]) != list(rows.shape):
            raise RuntimeError("declared shape differs from the table's")
        out.append(dict(name=str(i), id=int(i), vals=[f"state{k}" for k in range(rows.shape[1])], par=par,
                        rows=[[e8(x) for x in r] for r in rows.tolist()]))
    edges = [[str(a), str(b)] for a, b in g.edges]
    return dict(vars=out, edges=edges)


def seed(s):
    random.seed(s)
    np.random.seed(s)


def do_generate(op, e, tmp):
    from pybbn.generator import bbngenerator as G
    e.update(n=op["n"], kind=op["kind"], maxv=op["kw"].get("max_values", 2))
    seed(op["seed"])
    g, p = (G.generate_singly_bbn if op["kind"] == "singly" else G.generate_multi_bbn)(op["n"], **op["kw"])
    e["g"] = dict(nodes=[int(x) for x in g.nodes], edges=[[int(a), int(b)] for a, b in g.edges])
    e["src"] = source_view(g, p)
    bbn = G.convert_for_exact_inference(g, p)
    e["bbn"] = view(bbn)
    d = G.convert_for_drawing(bbn)
    e["draw"] = dict(nodes=[int(x) for x in d.nodes], edges=[[int(a), int(b)] for a, b in d.edges])
    e["texts"] = []
    for t in (G.to_json(g, p), G.to_json(g, p, pretty=True)):
        j = json.loads(t)
        e["texts"].append(dict(nodes=j["nodes"], edges=[[x["pa"], x["ch"]] for x in j["edges"]],
                               tab=[dict(node=x["node"], shape=x["shape"], flat=[e8(q) for q in x["params"]])
                                    for x in j["parameters"]]))
    e["same"] = e["src"] == source_view(g, p) and e["bbn"] == view(bbn) and \
        e["g"] == dict(nodes=[int(x) for x in g.nodes], edges=[[int(a), int(b)] for a, b in g.edges])


def do_file(op, e, tmp):
    from pybbn.generator import bbngenerator as G
    e.update(n=op["n"], kind=op["kind"], maxv=op["kw"].get("max_values", 2))
    seed(op["seed"])
    g, p = (G.generate_singly_bbn if op["kind"] == "singly" else G.generate_multi_bbn)(op["n"], **op["kw"])
    e["src"] = source_view(g, p)
    path = os.path.join(tmp, "net." + op["ext"])
    seed(op["seed"])
    kw = dict(op["kw"])
    if op["kind"] != "singly" or op.get("name"):
        kw["bbn_type"] = op["kind"]
    G.generate_bbn_to_file(op["n"], path, **kw)
    e["got"] = view(Bbn.from_csv(path) if op["ext"] == "csv" else Bbn.from_json(path))
