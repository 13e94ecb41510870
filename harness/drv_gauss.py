"""Gaussian inference: branching histories of observations on one normal."""
import math

import numpy as np
from pybbn.gaussian.inference import GaussianInference


def u6(x):
    x = float(x)
    if x != x or abs(x) > 2000:
        return 2 * 10 ** 9
    return int(round(x * 10 ** 6))


def milli(x):
    x = float(x)
    if x != x or abs(x) > 10 ** 5:
        return 10 ** 8
    return int(round(x * 1000))


def run(sc):
    n, names = sc["n"], sc["names"]
    # the unit each variable is measured in: model numbers are k[v] times the library's
    k = [0] + [sc["scale"] * u for u in sc.get("units", [1] * n)]
    K = {x: k[v + 1] for v, x in enumerate(names)}
    order = sc["order"]
    pos = {x: v + 1 for v, x in enumerate(names)}
    H = [names[v - 1] for v in order]

    def snap(g):
        return repr((list(g.H), np.asarray(g.M).tolist(), np.asarray(g.E).tolist(), sorted(g.meta.items()), sorted(g.P.items())))

    def report(g, e):
        e["order"] = order
        e["head"] = [pos.get(x, 0) for x in g.H]
        e["cov"] = [[u6(c * K.get(x, 1) * K.get(y, 1)) for y, c in zip(g.H, r)] for x, r in zip(g.H, np.asarray(g.E).tolist())]
        P = g.P
        e["rep"] = [[pos.get(x, 0), u6(m * K.get(x, 1)), u6(v * K.get(x, 1) ** 2)] for x, (m, v) in P.items()]
        mg = g.marginals
        e["marg"] = {(d["name"], float(d["mean"]), float(d["var"])) for d in mg} == {(x, float(m), float(v)) for x, (m, v) in P.items()} \
            and len(mg) == len(P)

    hs = {}
    for op in sc["ops"]:
        e = dict(op=op["op"], err="", same=True, h=op["h"])
        try:
            if op["op"] == "normal":
                M = [sc["m"][v - 1] / k[v] for v in order]
                E = np.array([[sc["s"][a - 1][b - 1] / (k[a] * k[b]) for b in order] for a in order])
                g = GaussianInference(list(H) if sc.get("list") else H, M if sc.get("list") else np.array(M), E)
                hs[op["h"]] = g
                e.update(m=sc["m"], s=sc["s"])
                report(g, e)
            elif op["op"] == "observe":
                g = hs[op["h"]]
                before = {h: snap(x) for h, x in hs.items()}
                obs = [(names[i - 1], z / k[i]) for i, z in op["obs"]]
                r = g.do_inference(*obs[0]) if op.get("single") else g.do_inferences(obs)
                e.update(dst=op["dst"], obs=op["obs"])
                report(r, e)
                e["same"] = before == {h: snap(x) for h, x in hs.items()}
                hs[op["dst"]] = r
            else:
                g = hs[op["h"]]
                before = snap(g)
                np.random.seed(op["seed"])
                s = g.sample_marginals(op["size"]) if op["size"] != 1000 else g.sample_marginals()
                P = g.P
                e["size"] = op["size"]
                e["smp"] = [dict(v=pos.get(x, 0), size=len(d), k=int(math.ceil(K.get(x, 1))),
                                 mean=milli(d.mean() * K.get(x, 1)), rep=milli(P[x][0] * K.get(x, 1)),
                                 var=milli(np.asarray(d).var() * K.get(x, 1) ** 2)) for x, d in s.items()]
                e["same"] = before == snap(g)
        except Exception as z:
            e["err"] = f"{type(z).__name__}: {z}"[:200]
            if op["op"] == "observe":
                e.update(dst=op["dst"], obs=op["obs"])
        yield e
        if e["err"]:
            return
