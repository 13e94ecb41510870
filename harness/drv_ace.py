"""Average causal effects of pairs of variables."""
import json

from pybbn.causality.ace import Ace
from pybbn.graph.dag import Bbn

from drv_session import build, e8, strip


def run(sc):
    net = sc["net"]
    bbn = build(net)
    ace = None
    yield dict(op="net", err="", **strip(dict(net=net)))
    for x, y, w, fresh in sc["pairs"]:
        e = dict(op="ace", x=x, y=y, w=w, err="")
        try:
            e["before"] = json.dumps(Bbn.to_dict(bbn))
            if ace is None or fresh:
                ace = Ace(bbn)
            r = ace.get_ace(net["names"][x - 1], net["names"][y - 1], net["vals"][y - 1][w - 1])
            vs = net["vals"][x - 1]
            e["eff"] = [[vs.index(k) + 1 if k in vs else 0, e8(p)] for k, p in r.items()]
            e["after"] = json.dumps(Bbn.to_dict(bbn))
        except Exception as z:
            e["err"] = f"{type(z).__name__}: {z}"[:200]
        yield e
        if e["err"]:
            return
