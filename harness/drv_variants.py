"""One way of telling a network: an evidence history and the posteriors after each step."""
from drv_session import Session, strip


def run(sc):
    s = Session()
    reads, err = [], ""
    try:
        for op in sc["ops"]:
            s.do(op, {})
            for t in sorted(s.trees):
                o = s.read(t)
                if len(o["p"]) != sc["net"]["n"]:
                    raise RuntimeError("posteriors missing")
                reads.append(o["p"])
    except Exception as x:
        err = f"{type(x).__name__}: {x}"[:200]
        reads = []
    yield dict(op="variant", what=sc["what"], net=strip(dict(net=sc["net"]))["net"], vp=sc["vp"], reads=reads, err=err)
