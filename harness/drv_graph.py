"""Runs graph histories on real graph objects."""
import copy

from pybbn.generator.bbngenerator import convert_for_drawing
from pybbn.graph.dag import Bbn, Dag
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.graph import Graph, Ug
from pybbn.graph.node import BbnNode, Node
from pybbn.graph.pdag import Pdag
from pybbn.graph.variable import Variable

KINDS = dict(graph=Graph, ug=Ug, dag=Dag, bbn=Bbn, pdag=Pdag)
T = dict(D=EdgeType.DIRECTED, U=EdgeType.UNDIRECTED)


class W:
    def __init__(self, ids, plain):
        self.ids = ids                       # abstract v -> real id
        self.back = {i: int(v) for v, i in ids.items()}
        self.g, self.kind = {}, {}
        self.plain = plain

    def mk(self, v):
        i = self.ids[str(v)]
        if self.plain:
            return Node(i)
        return BbnNode(Variable(i, f"n{i}", ["on", "off"]), [0.5, 0.5])

    def get(self, s, v):
        g, i = self.g[s], self.ids[str(v)]
        return g.nodes[i] if i in g.nodes else self.mk(v)

    def show(self, s):
        g, k = self.g[s], self.kind[s]
        b = self.back.get
        ids = [n.id for n in g.get_nodes()]
        o = dict(s=s, nodes=[b(i, 0) for i in ids])
        o["edges"] = [dict(i=b(e.i.id, 0), j=b(e.j.id, 0), t="D" if e.type == EdgeType.DIRECTED else "U")
                      for e in g.get_edges()]
        o["nb"] = [[b(x, 0) for x in g.get_neighbors(i)] for i in ids]
        o["pa"] = [[b(x, 0) for x in g.get_parents(i)] for i in ids] if k in ("dag", "bbn", "pdag") else [[] for _ in ids]
        o["ch"] = [[b(x, 0) for x in g.get_children(i)] for i in ids] if k in ("dag", "bbn") else [[] for _ in ids]
        o["out"] = [[b(x, 0) for x in g.get_out_nodes(i)] for i in ids] if k == "pdag" else [[] for _ in ids]
        al = sorted(self.back)
        o["ex"] = [[b(x), b(y), int(bool(g.edge_exists(x, y)))] for x in al for y in al if x != y]
        o["dx"] = [[b(x), b(y), int(bool(g.directed_edge_exists(x, y)))] for x in al for y in al if x != y] \
            if k == "pdag" else []
        o["ord"] = [[] for _ in ids]
        o["doc"] = dict(n=[], e=[])
        o["nx"] = dict(n=[], e=[], lab=True)
        if k == "bbn":
            d = Bbn.to_dict(g)
            o["doc"] = dict(n=[b(int(x), 0) for x in d["nodes"]],
                            e=[[b(e["pa"], 0), b(e["ch"], 0)] for e in d["edges"]])
            o["ord"] = [[b(e["pa"], 0) for e in d["edges"] if e["ch"] == i] for i in ids]
            for i in ids:
                if g.get_parents_ordered(i) != sorted(e["pa"] for e in d["edges"] if e["ch"] == i):
                    o["ord"] = [[0] for _ in ids]
        if k in ("dag", "bbn"):
            if self.plain:
                n, lab = convert_for_plain(g), True
            else:
                n, labels = g.to_nx_graph()
                lab = labels == {i: f"n{i}" for i in ids} and g.get_n2i() == {f"n{i}": i for i in ids} \
                    and g.get_i2n() == {i: f"n{i}" for i in ids}
                m = convert_for_drawing(g)
                lab = lab and set(m.nodes) == set(n.nodes) and set(m.edges) == set(n.edges)
            o["nx"] = dict(n=[b(x, 0) for x in n.nodes], e=[[b(x, 0), b(y, 0)] for x, y in n.edges], lab=bool(lab))
        return o

    def do(self, op):
        k, s = op["op"], op.get("s")
        if k == "new":
            self.g[s], self.kind[s] = KINDS[op["kind"]](), op["kind"]
        elif k == "node":
            self.g[s].add_node(self.get(s, op["v"]))
        elif k == "edge":
            i = self.get(s, op["i"])
            j = i if op["i"] == op["j"] else self.get(s, op["j"])
            self.g[s].add_edge(Edge(i, j, T[op["t"]]))
        elif k == "remove":
            self.g[s].remove_node(self.ids[str(op["v"])])
        elif k == "copy":
            self.g[op["s2"]], self.kind[op["s2"]] = copy.deepcopy(self.g[s]), self.kind[s]
        elif k == "query":
            pass


def convert_for_plain(g):
    import networkx as nx
    n = nx.DiGraph()
    n.add_nodes_from(x.id for x in g.get_nodes())
    n.add_edges_from((e.i.id, e.j.id) for e in g.get_edges())
    return n


def run(sc):
    w = W(sc["ids"], sc.get("plain", False))
    for op in sc["ops"]:
        e = dict(op, err="", obs=[])
        try:
            w.do(op)
            e["obs"] = [w.show(s) for s in sorted(w.g)]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
            e["obs"] = []
        yield e
        if e["err"]:
            return
