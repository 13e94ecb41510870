"""Saves and loads networks, descriptions and trees; records what is in memory and on disk."""
import copy
import json
import os
import re
import shutil
import tempfile

from pybbn.graph.dag import Bbn
from pybbn.graph.edge import Edge, EdgeType
from pybbn.graph.jointree import EvidenceBuilder, EvidenceType, JoinTree
from pybbn.pptc.inferencecontroller import InferenceController

from drv_session import build, e8, flat, make_node


def var(n):
    v = n.variable
    return dict(id=v.id, name=v.name, vals=[str(x) if isinstance(x, str) else repr(x) for x in v.values],
                probs=[e8(p) for p in n.probs], exact=[digits(p) for p in n.probs])


def digits(p):
    """Every bit of a table entry."""
    try:
        return float(p).hex()
    except (TypeError, ValueError):
        return repr(p)


def look(bbn):
    """The network through its nodes, edges and parent lists."""
    if sorted(bbn.nodes) != sorted(n.id for n in bbn.get_nodes()):
        raise RuntimeError("node index and nodes disagree")
    for n in bbn.get_nodes():
        if n.id != n.variable.id or bbn.get_node(n.id) is not n:
            raise RuntimeError("node identifiers disagree")
    edges = [[e.i.id, e.j.id] for e in bbn.get_edges()]
    par = []
    for n in bbn.get_nodes():
        po = [a for a, c in edges if c == n.id]
        if sorted(po) != sorted(bbn.get_parents(n.id)):
            raise RuntimeError("parent lists disagree")
        par.append([n.id, po])
    return dict(vars=[var(n) for n in bbn.get_nodes()], edges=edges, par=par)


def intent(net):
    """What the network was meant to be."""
    ids = net["ids"]
    return dict(vars=[dict(id=ids[i - 1], name=net["names"][i - 1], vals=list(net["vals"][i - 1]),
                           probs=[e8(p) for p in flat(net, i)], exact=[digits(p) for p in flat(net, i)])
                      for i in range(1, net["n"] + 1)],
                edges=[[ids[p - 1], ids[i - 1]] for i in range(1, net["n"] + 1) for p in net["par"][i - 1]],
                par=[[ids[i - 1], [ids[p - 1] for p in net["par"][i - 1]]] for i in range(1, net["n"] + 1)])


def tree(jt):
    def ids(c):
        return [x.id for x in c.nodes]
    return dict(cl=[ids(c) for c in jt.get_cliques()],
                sp=[dict(vs=ids(x), l=ids(x.left), r=ids(x.right)) for x in jt.get_sep_sets()],
                ed=[dict(vs=ids(e.sep_set), l=ids(e.i), r=ids(e.j)) for e in jt.get_edges()],
                vars=[var(n) for n in jt.get_bbn_nodes()])


NODE = re.compile(r"node\s+(.+?)\s*\{(.*?)\};", re.S)


def parse_dne(text):
    out = []
    body = text[text.index("bnet"):]
    body = body[body.index("{") + 1:]
    for m in NODE.finditer(body):
        f = {}
        for line in m.group(2).split(";"):
            if "=" in line:
                k, v = line.split("=", 1)
                f[k.strip()] = v.strip()

        def seq(s):
            s = s.replace("(", "").replace(")", "").strip()
            return [x.strip() for x in s.split(",")] if s else []
        out.append(dict(name=m.group(1).strip(), states=seq(f["states"]), parents=seq(f["parents"]),
                        probs=[e8(float(x)) for x in seq(f["probs"])]))
    return out


def run(sc):
    tmp = tempfile.mkdtemp(prefix="codec-", dir=os.getcwd())
    try:
        yield from steps(sc, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def steps(sc, tmp):
    bbns, files, nets = {}, {}, {}
    for op in sc["ops"]:
        e = {k: v for k, v in op.items() if k != "net"}
        e["err"] = ""
        k = op["op"]
        try:
            if k == "net":
                nets[op["s"]] = op["net"]
                bbns[op["s"]] = build(op["net"])
                e["intent"] = intent(op["net"])
            elif k == "change":
                # an edge order the saved forms must keep: extend the network, then drop a leaf again
                net, b = nets[op["s"]], bbns[op["s"]]
                for x in op["remove"]:
                    b.remove_node(x)
                for i in op["add"]:
                    b.add_node(make_node(op["net"], i))
                for p, c in op["edges"]:
                    b.add_edge(Edge(b.get_node(p), b.get_node(c), EdgeType.DIRECTED))
                nets[op["s"]] = op["net"]
                e["intent"] = intent(op["net"])
            elif k == "save":
                b, how, p = bbns[op["s"]], op["how"], os.path.join(tmp, f"f{op['d']}")
                if how == "dict":
                    d = Bbn.to_dict(b)
                    e["doc"] = json.dumps(d, sort_keys=True)
                    files[op["d"]] = copy.deepcopy(d)
                elif how == "text":
                    files[op["d"]] = json.dumps(Bbn.to_dict(b))
                    e["doc"] = json.dumps(json.loads(files[op["d"]]), sort_keys=True)
                elif how == "json":
                    Bbn.to_json(b, p)
                    e["doc"] = json.dumps(json.load(open(p)), sort_keys=True)
                    files[op["d"]] = p
                else:
                    Bbn.to_csv(b, p)
                    e["doc"] = "\n".join(sorted(open(p).read().split("\n")))
                    files[op["d"]] = p
            elif k == "load":
                how, f = op["how"], files[op["d"]]
                bbns[op["s"]] = (Bbn.from_dict(copy.deepcopy(f)) if how == "dict" else
                                 Bbn.from_dict(json.loads(f)) if how == "text" else
                                 Bbn.from_json(f) if how == "json" else Bbn.from_csv(f))
            elif k == "describe":
                e["desc"] = parse_dne(Bbn.to_dne(bbns[op["s"]], "net1") if op.get("named") else
                                      Bbn.to_dne(bbns[op["s"]]))
            elif k == "tree":
                b = bbns[op["s"]]
                jt = InferenceController.apply(b)
                for i, v in op.get("evs", []):
                    node = jt.get_bbn_node(nets[op["s"]]["ids"][i - 1])
                    jt.set_observation(EvidenceBuilder().with_node(node).with_type(EvidenceType.OBSERVATION)
                                       .with_evidence(nets[op["s"]]["vals"][i - 1][v - 1], 1.0).build())
                e["before"] = tree(jt)
                d = JoinTree.to_dict(jt, b)
                if op["how"] == "text":
                    d = json.loads(json.dumps(d))
                jt2 = JoinTree.from_dict(d)
                e["after"] = tree(jt2)
                if op.get("twice"):
                    jt2 = InferenceController.apply_from_serde(jt2)
                    d2 = JoinTree.to_dict(jt2, b)
                    d2 = json.loads(json.dumps(d2))
                    e["after"] = tree(JoinTree.from_dict(d2))
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        if not e["err"]:
            try:
                e["seen"] = [dict(s=s, net=look(bbns[s])) for s in sorted(bbns)]
            except Exception as x:
                e["err"] = f"reading: {type(x).__name__}: {x}"[:200]
        yield e
        if e["err"]:
            return
