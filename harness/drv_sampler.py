"""Draws samples and records them, or their exact counts."""
import collections
import json

import numpy as np
from pybbn.graph.dag import Bbn
from pybbn.sampling.sampling import LogicSampler

from drv_session import build, strip


def abstract(net, s):
    """A sample as value positions per variable; 0 for a missing or unknown value, extra keys make it too long."""
    out = [net["vals"][i].index(s[net["ids"][i]]) + 1 if s.get(net["ids"][i]) in net["vals"][i] else 0
           for i in range(net["n"])]
    return out + [0] * (len(s) - sum(1 for i in net["ids"] if i in s))


def run(sc):
    net = sc["net"]
    bbn = build(net)
    sampler = None
    for op in sc["ops"]:
        e = dict(op=op["op"], n=op["n"], ev=op["ev"], net=strip(dict(net=net))["net"], err="")
        given = {net["ids"][i - 1]: net["vals"][i - 1][v - 1] for i, v in op["ev"]}
        try:
            before = json.dumps(Bbn.to_dict(bbn))
            if sampler is None or op.get("fresh"):
                sampler = LogicSampler(bbn)
            evd = dict(given)
            kw = dict(n_samples=op["n"])
            if op.get("seed") is not None:
                kw["seed"] = op["seed"]
            if op["op"] == "count":
                ss = sampler.get_samples(evidence=evd, **kw)
                ab = [abstract(net, s) for s in ss]
                e["cnt"] = [[list(k), c] for k, c in sorted(collections.Counter(map(tuple, ab)).items())]
                lag = []
                for i in range(net["n"]):
                    c = collections.Counter((a[i], b[i]) for a, b in zip(ab, ab[1:]))
                    lag.append([[v, w, k] for (v, w), k in sorted(c.items())])
                e["lag"] = lag
            else:
                def draw(s):
                    return [abstract(net, x) for x in (s.get_samples(evidence=evd, **kw) if given or op.get("explicit")
                                                      else s.get_samples(**kw))]
                runs = [draw(sampler)]
                np.random.uniform(size=3)
                runs.append(draw(sampler))
                runs.append(draw(LogicSampler(bbn)))
                runs.append(draw(LogicSampler(build(net))))
                e["runs"] = runs
                e["evb"] = sorted([k, v] for k, v in given.items())
                e["eva"] = sorted([k, v] for k, v in evd.items())
                e["before"], e["after"] = before, json.dumps(Bbn.to_dict(bbn))
        except Exception as x:
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        yield e
        if e["err"]:
            return
