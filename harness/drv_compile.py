"""Records the structure of compiled trees (clusters, separators, edges)."""
from drv_session import Session, strip


def struct(jt, net, t, s):
    pos = {net["ids"][i]: i + 1 for i in range(net["n"])}

    def ps(c):
        return [pos.get(x.id, 0) for x in c.nodes]
    o = dict(t=t, s=s, cl=[ps(c) for c in jt.get_cliques()], sp=[], edges=[])
    for x in jt.get_sep_sets():
        o["sp"].append(dict(vs=ps(x), nb=[ps(jt.get_node(k)) for k in jt.get_neighbors(x.id)],
                            lr=[ps(x.left), ps(x.right)]))
    for e in jt.get_edges():
        o["edges"].append(dict(l=ps(e.i), r=ps(e.j), vs=ps(e.sep_set)))
    flat = sorted(tuple(sorted((str(e.i.id), str(e.j.id)))) for e in jt.get_flattened_edges())
    nbs = sorted(tuple(sorted((str(x.id), str(k)))) for x in jt.get_sep_sets() for k in jt.get_neighbors(x.id))
    back = sorted(tuple(sorted((str(c.id), str(k)))) for c in jt.get_cliques() for k in jt.get_neighbors(c.id))
    if flat != nbs or back != nbs:
        raise RuntimeError("edges, flattened edges and neighbours disagree")
    return o


def run(sc):
    s = Session()
    src = {}
    for op in sc["ops"]:
        e = strip(op)
        if "net" in e:
            e["net"] = dict(n=op["net"]["n"], par=op["net"]["par"], card=op["net"]["card"])
        e.update(err="", obs=[])
        try:
            s.do(op, e)
            if op["op"] in ("compile",):
                src[op["t"]] = op["s"]
            elif "t2" in op:
                src[op["t2"]] = src[op["t"]]
            e["obs"] = [struct(jt, net, t, src[t]) for t, (jt, net, _) in sorted(s.trees.items())]
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
            e["obs"] = []
        for k in ("evs", "upd", "norm"):
            e.pop(k, None)
        yield e
        if e["err"]:
            return
