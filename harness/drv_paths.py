"""Path queries on DAGs: every fact the library reports about pairs, paths and observed sets."""
import networkx as nx
from pybbn.causality import do
from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.node import BbnNode
from pybbn.graph.variable import Variable


def run(sc):
    for d in sc["dags"]:
        yield one(d)


def one(d):
    e = dict(op="dag", arcs=d["arcs"], trip=[], pairs=[], same=True, err="")
    lab = d["labels"]                       # v -> label (v is 1-based)
    back = {x: v + 1 for v, x in enumerate(lab)}
    try:
        if d.get("via") == "bbn":
            b = Bbn()
            nodes = {v: BbnNode(Variable(lab[v - 1], f"n{v}", ["t", "f"]), [0.5, 0.5]) for v in d["order"]}
            for v in d["order"]:
                b.add_node(nodes[v])
            for i, j in d["arcs"]:
                b.add_edge(Edge(nodes[i], nodes[j], EdgeType.DIRECTED))
            dg, _ = b.to_nx_graph()
        else:
            dg = nx.DiGraph()
            dg.add_nodes_from(lab[v - 1] for v in d["order"])
            dg.add_edges_from((lab[i - 1], lab[j - 1]) for i, j in d["arcs"])
        g = do.get_graph(dg)
        n0, e0 = sorted(map(str, dg.nodes)), sorted((str(a), str(b)) for a, b in dg.edges)

        def to(seq):
            return [back.get(x, 0) for x in seq]
        arcs = {tuple(a) for a in d["arcs"]}
        adj = arcs | {(b, a) for a, b in arcs}
        n = len(lab)
        for x in range(1, n + 1):
            for z in range(1, n + 1):
                for y in range(1, n + 1):
                    if x != y and (x, z) in adj and (z, y) in adj and (x, y, z)[:1] and d.get("trip", True):
                        e["trip"].append(dict(x=x, z=z, y=y, t=str(do.get_triplet_type(g, lab[x - 1], lab[z - 1], lab[y - 1]))))
        for q in d["pairs"]:
            x, y = lab[q["x"] - 1], lab[q["y"] - 1]
            o = dict(x=q["x"], y=q["y"], paths=[], sets=[])
            for p in do.get_paths(g, x, y):
                o["paths"].append(dict(p=to(p["path"]), act=bool(p["is_active"]), col=to(p["colliders"]), z=to(p["z"]),
                                       back=bool(p["backdoor"]), front=bool(p["frontdoor"]), x=back.get(p["x"], 0),
                                       y=back.get(p["y"], 0)))
            for s in q["sets"]:
                ev = {lab[v - 1] for v in s}
                o["sets"].append(dict(s=s, act=[dict(p=to(p), a=bool(do.is_active_path(g, p, ev)))
                                                for p in do.get_all_paths(g, x, y)]))
            o["conf"] = to(do.get_minimal_confounders(g, x, y))
            o["all"] = to(do.get_all_confounders(g, x, y))
            o["med"] = to(do.get_minimal_mediators(g, x, y))
            e["pairs"].append(o)
        e["same"] = (n0, e0) == (sorted(map(str, dg.nodes)), sorted((str(a), str(b)) for a, b in dg.edges))
    except Exception as z:
        e["err"] = f"{type(z).__name__}: {z}"[:200]
    return e
