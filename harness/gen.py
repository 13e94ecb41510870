"""Seeded scenario generation (no pybbn imports).

A network definition ("netdef") is abstract structure plus the labels and the
construction order a driver uses:
  n, card, par, den, cpt, top   as in spec/BBN.tla (positions are 1-based)
  ids, names, vals              labels per position
  norder                        node insertion order (positions)
  eorder                        edge insertion order ((parent, child)), consistent with par
"""
import math
import random

NAMEPOOLS = [
    list("abcdefghijklmnopqrstuvwxyz"),
    [f"n{i}" for i in range(30)],
    [f"X{i}" for i in range(30)],
    ["rain", "Sprinkler", "wet grass", "season", "Zoo", "alpha", "Beta", "gamma ray", "été", "delta-1",
     "eta.2", "the ta", "io_ta", "kappa", "LAMBDA", "mu", "nu2", "xi", "pi'", "rho", "sigma", "tau", "phi", "chi"],
    ["directed", "undirected", "nodes", "edges", "variable", "probs", "name", "values", "0", "1", "2", "10", "DIRECTED",
     "True", "None", "a.b", "[x]", "{y}", "#z", "p(w)", "q=r", "s;t", "u/v", "w,x"],
]
VALPOOLS = [
    ["on", "off", "maybe", "never", "x", "y", "z"],
    ["0", "1", "2", "3", "4", "5", "6"],
    ["true", "false", "unknown", "n/a", "err", "q", "r"],
    ["b", "a", "aa", "ab", "ba", "c", "d"],
    ["low risk", "high risk", "mid", "très haut", "5%", "-1", "+"],
    ["directed", "undirected", "nodes", "edges", "|", "id", "None"],
    ["a,b", "a", "b|c", "say \"x\"", "it's", "|", "l1\nl2"],
]
PLAIN_NAMES = NAMEPOOLS[:3]
PLAIN_VALS = VALPOOLS[:2] + [VALPOOLS[3]]


def composition(r, total, k, mode):
    """A row of k non-negative integers summing to total."""
    if mode == "det":
        w = [0] * k
        w[r.randrange(k)] = total
        return w
    if mode == "pos" and total >= k:
        w = [1] * k
        for _ in range(total - k):
            w[r.randrange(k)] += 1
        r.shuffle(w)
        return w
    if mode == "edge" and total >= 100:
        # small but not negligible shares for all values but one
        w = [r.choice([0, r.randint(total // 250, total // 60 + 1)]) for _ in range(k - 1)]
        w.insert(r.choice([0, k - 1, r.randrange(k)]), total - sum(w))
        return w
    cuts = sorted(r.randint(0, total) for _ in range(k - 1))
    return [b - a for a, b in zip([0] + cuts, cuts + [total])]


def dag(r, n, kind):
    """Parent lists over 0..n-1 in a topological numbering."""
    par = [[] for _ in range(n)]
    if kind == "chain":
        for i in range(1, n):
            par[i] = [i - 1]
    elif kind == "star":
        for i in range(1, n):
            par[i] = [0]
    elif kind == "collider":
        k = min(n - 1, 4)
        c = k
        par[c] = list(range(k))
        for i in range(k + 1, n):
            par[i] = [r.randrange(i)]
    elif kind == "fan":
        # a variable with more parents than anything else has
        k = min(n - 1, r.randint(5, 7))
        for i in range(1, k):
            if r.random() < 0.3:
                par[i] = [r.randrange(i)]
        par[k] = list(range(k))
        for i in range(k + 1, n):
            par[i] = [r.randrange(i)]
    elif kind == "complete":
        for i in range(n):
            par[i] = list(range(max(0, i - 4), i))
    elif kind == "tree":
        for i in range(1, n):
            par[i] = [r.randrange(i)]
    elif kind == "polytree":
        # undirected tree with random orientation respecting the numbering of a shuffled order
        und = [(r.randrange(i), i) for i in range(1, n)]
        perm = list(range(n))
        r.shuffle(perm)
        for a, b in und:
            a, b = perm[a], perm[b]
            if a > b:
                a, b = b, a
            par[b].append(a)
    elif kind == "ring":
        # one big loop: needs fill-in edges
        for i in range(1, n - 1):
            par[i] = [i - 1]
        if n >= 3:
            par[n - 1] = [0, n - 2]
    elif kind == "grid":
        w = 2 if n < 9 else 3
        for i in range(n):
            if i % w:
                par[i].append(i - 1)
            if i >= w:
                par[i].append(i - w)
    elif kind == "islands":
        k = r.randint(2, max(2, n // 2))
        comp = [r.randrange(k) for _ in range(n)]
        for i in range(n):
            c = [j for j in range(i) if comp[j] == comp[i]]
            if c:
                par[i] = r.sample(c, min(len(c), r.choice([1, 1, 2])))
    elif kind == "empty":
        pass
    else:
        p = r.choice([0.2, 0.35, 0.5, 0.7])
        for i in range(n):
            c = [j for j in range(i) if r.random() < p]
            if len(c) > 4:
                c = r.sample(c, 4)
            par[i] = c
    for q in par:
        if len(q) > 4 and kind != "fan":
            del q[4:]
        r.shuffle(q)
    return par


KINDS = ["random", "random", "random", "chain", "star", "collider", "complete", "tree", "polytree", "ring", "grid",
         "islands", "islands"]


def support_size(net, cap=10**9):
    """Number of assignments of positive probability (python mirror used only to bound scenario size)."""
    S = [tuple([0] * net["n"])]
    for i in net["top"]:
        T = []
        for a in S:
            row = net["cpt"][i - 1][row_index(net, i, a)]
            for v, w in enumerate(row):
                if w:
                    b = list(a)
                    b[i - 1] = v + 1
                    T.append(tuple(b))
            if len(T) > cap:
                return len(T)
        S = T
    return len(S)


def row_index(net, i, a):
    k = 0
    for p in net["par"][i - 1]:
        k = k * net["card"][p - 1] + (a[p - 1] - 1)
    return k


def labels(r, n, card, plain=False, numeric=False):
    style = r.randrange(7)
    if style == 5:
        ids = r.sample(range(-12, 12), n)
    elif style == 6:
        ids = r.sample(range(10 ** 9 - 40, 10 ** 9 + 40), n)
    elif style == 0:
        ids = list(range(n))
    elif style == 1:
        ids = list(range(n))
        r.shuffle(ids)
    elif style == 2:
        ids = r.sample(range(0, 130), n)
    elif style == 3:
        ids = [n - 1 - i for i in range(n)]
    else:
        ids = r.sample(range(8, 8 + n + 4), n)      # straddles one and two digits
    pool = r.choice(PLAIN_NAMES if plain else NAMEPOOLS)
    names = r.sample(pool, n) if n <= len(pool) else [f"v{i}" for i in range(n)]
    if r.random() < 0.4:
        names = sorted(names)
    vals = []
    alike = None
    if not plain and r.random() < 0.12:
        # values which, written "id=value,id=value", read alike for different pairs of values
        j, sep = r.choice(ids), r.choice(",|")
        alike = ["b", f"b{sep}{j}=b", "a", f"a{sep}{j}=b", f"b{sep}{j}=a", f"b{sep}{j}=b{sep}{j}=b"]
    number = None
    if numeric and not plain and alike is None and r.random() < 0.12:
        # values need not be text
        number = r.choice([list(range(14)), list(range(-3, 12)), [i / 4 for i in range(14)]])
    for i in range(n):
        vp = (alike or number or r.choice(PLAIN_VALS if plain else VALPOOLS))[:]
        if r.random() < 0.5:
            r.shuffle(vp)
        if card[i] > len(vp):
            vp = [r.choice(["", "s", "v-"]) + str(k) for k in range(card[i])]
            vp = vp if len(set(vp)) == len(vp) else [str(k) for k in range(card[i])]
            if r.random() < 0.5:
                r.shuffle(vp)
        vals.append(vp[:card[i]])
    return ids, names, vals


def edge_order(r, net):
    """Edges in an insertion order that keeps, per child, the order of par."""
    lanes = [[(p, i) for p in net["par"][i - 1]] for i in range(1, net["n"] + 1)]
    lanes = [x for x in lanes if x]
    out = []
    if r.random() < 0.3:
        for x in lanes:
            out += x
        return out
    while lanes:
        x = r.choice(lanes)
        out.append(x.pop(0))
        if not x:
            lanes.remove(x)
    return out


def topo(par):
    n = len(par)
    out, left = [], set(range(n))
    while left:
        for i in sorted(left):
            if all(p not in left for p in par[i]):
                out.append(i)
                left.discard(i)
                break
        else:
            raise ValueError("cycle")
    return out


def assemble(r, par0, card, dens, cpts, plain=False, lab=None, numeric=False):
    n = len(par0)
    net = dict(n=n, card=list(card), par=[[p + 1 for p in q] for q in par0], den=list(dens), cpt=cpts,
               top=[i + 1 for i in topo(par0)])
    ids, names, vals = lab or labels(r, n, card, plain, numeric)
    no = list(range(1, n + 1))
    if r.random() < 0.6:
        r.shuffle(no)
    net.update(form=0 if plain else r.choice([0] * 8 + [1, 2]), ids=ids, names=names, vals=vals, norder=no, eorder=edge_order(r, net))
    return net


def gen_cpt(r, par0, card, i, D, mode):
    rows = 1
    for p in par0[i]:
        rows *= card[p]
    out = []
    for _ in range(rows):
        m = mode
        if mode == "mixed":
            m = r.choice(["pos", "any", "any", "det"])
        out.append(composition(r, D, card[i], m))
    return out


def network(r, nmax=7, nmin=1, bound=2 * 10**7, supmax=1500, kind=None, mode=None, cards=(2, 2, 2, 3), plain=False,
            relabel=True, rare=False, dens_of=(2, 3, 4, 5, 7, 8, 10), numeric=False):
    while True:
        n = r.randint(nmin, nmax)
        k = kind or r.choice(KINDS)
        if k == "complete":
            n = min(n, 5)
        par0 = dag(r, n, k)
        # shuffle positions so that position order is not topological
        perm = list(range(n))
        if r.random() < 0.7:
            r.shuffle(perm)
        par = [None] * n
        for i in range(n):
            par[perm[i]] = [perm[p] for p in par0[i]]
        card = [r.choice(cards) for _ in range(n)]
        md = mode or r.choice(["pos", "pos", "any", "mixed", "mixed"])
        dens, cpts, total, ok = [], [], 1, True
        for i in range(n):
            choices = [d for d in dens_of if total * d <= bound]
            if not choices:
                ok = False
                break
            D = r.choice(choices)
            if md == "pos" and D < card[i]:
                D = max(choices)
            m = md
            if md == "det" or (md == "mixed" and r.random() < 0.25):
                m, D = "det", 1
            dens.append(D)
            total *= D
            cpts.append(gen_cpt(r, par, card, i, D, m))
        if not ok:
            continue
        net = assemble(r, par, card, dens, cpts, plain, numeric=numeric)
        if support_size(net, supmax) > supmax:
            continue
        if rare:
            net = rarefy(r, net, supmax=supmax)
            if net is None:
                continue
        return net


def long_network(r, n, noisy=3):
    """Hundreds of variables with few possible assignments: a long path with side branches."""
    par = [[] for _ in range(n)]
    for i in range(1, n):
        par[i] = [i - 1] if r.random() < 0.95 else [max(0, i - r.randint(1, 4))]
        if r.random() < 0.05 and i > 3:
            q = i - r.randint(1, 3)
            if q not in par[i]:
                par[i].append(q)
    card = [2] * n
    loud = set(r.sample(range(1, n), noisy))
    dens, cpts = [], []
    for i in range(n):
        D = 4 if i in loud or i == 0 else 1
        dens.append(D)
        rows = 2 ** len(par[i])
        t = [composition(r, D, 2, "pos" if D > 1 else "det") for _ in range(rows)]
        if D == 1:
            while all(x == t[0] for x in t[1:]) and rows > 1:
                t = [composition(r, D, 2, "det") for _ in range(rows)]
        cpts.append(t)
    names = [f"v{i}" for i in range(n)]
    ids = list(range(n)) if r.random() < 0.5 else r.sample(range(3 * n), n)
    net = assemble(r, par, card, dens, cpts, lab=(ids, names, [["on", "off"]] * n))
    if r.random() < 0.5:
        net["eorder"] = net["eorder"][::-1] if all(len(q) < 2 for q in par) else net["eorder"]
    return net


EPS = 1e-20


def rarefy(r, net, share=0.5, supmax=1500):
    """Give some entries probabilities of the order EPS^k, keeping every row (all but) normalised."""
    for share in (share, share / 3, 0.0):
        new = dict(net, cpt=[[row[:] for row in t] for t in net["cpt"]],
                   ord=[[[0] * len(row) for row in t] for t in net["cpt"]])
        budget = 12
        for i in r.sample(range(net["n"]), net["n"]):
            if budget <= 0 or net["card"][i] < 2:
                continue
            top = r.choice([1, 1, 2]) if budget > 1 else 1
            hit = False
            for row, od in zip(new["cpt"][i], new["ord"][i]):
                if r.random() > share:
                    continue
                for v in r.sample(range(len(row)), len(row)):
                    left = [u for u in range(len(row)) if u != v and row[u] and od[u] == 0]
                    if not left or od[v] or r.random() < 0.3:
                        continue
                    row[r.choice(left)] += row[v]
                    row[v] = r.randint(1, min(3, net["den"][i]))
                    od[v] = r.randint(1, top)
                    hit = True
            budget -= top if hit else 0
        if support_size(new, supmax) <= supmax:
            return new


def strip_net(net):
    return {k: net[k] for k in ("n", "card", "par", "den", "cpt", "top", "ord") if k in net}


def abstract(net):
    return strip_net(net)


def den_total(net):
    t = 1
    for d in net["den"]:
        t *= d
    return t


# ---------------------------------------------------------------- evidence
FINE = [1, 2, 5, 10, 50, 100, 333, 500, 900, 990, 995, 998, 999, 1000]


def fine(r, vals):
    """Quarters turned into thousandths, and some of them moved to less regular numbers."""
    out = []
    for v, q in vals:
        x = q * 250
        if q > 4:
            x = r.choice([x, 1001])
        elif q < 0:
            x = r.choice([x, -1])
        elif q > 0 and r.random() < 0.5:
            x = r.choice(FINE)
        out.append([v, x])
    return out


def evidence(r, net, node=None, types="VVFOOO", weird=True, soft_ok=True, one=4):
    i = node or r.randint(1, net["n"])
    c = net["card"][i - 1]
    t = r.choice(types)
    if t == "V" and not soft_ok:
        t = "O"
    order = list(range(1, c + 1))
    r.shuffle(order)
    if r.random() < 0.3:
        order = order[: r.randint(0 if t == "U" else 1, c)]
    style = r.randrange(4)
    vals = []
    for v in order:
        if t == "V":
            q = r.choice([0, 1, 2, 3, 4]) if style else r.choice([2, 4])
            if weird and r.random() < 0.08:
                q = r.choice([-3, 6, 9])
        elif t == "F":
            q = r.choice([0, 4, 4]) if style else r.choice([-1, 0, 1, 4, 6])
        elif t == "O":
            q = r.choice([0, 4]) if style < 2 else r.choice([0, 1, 2, 3, 4]) if style == 2 else r.choice([-2, 0, 3, 5])
        else:
            q = r.choice([0, 2, 4])
        vals.append([v, q])
    if t == "O" and style < 3 and r.random() < 0.6:
        vals = [[r.randint(1, c), 4]]
    if one != 4:
        vals = fine(r, vals)
    return dict(node=i, type=t, vals=vals)


def soft_cost(liks, one=4):
    """The factor by which likelihoods multiply the common denominator."""
    t = 1
    for x in liks:
        g = one
        for q in x:
            g = math.gcd(g, q)
        t *= one // g
    return t


# ------------------------------------------------- evidence bookkeeping mirror
def normalise(net, ev, one=4):
    """Python mirror of Evidence!Normalise, used only to keep generated scenarios in bounds/possible."""
    c = net["card"][ev["node"] - 1]
    raw, place = {}, {}
    for k, (v, q) in enumerate(ev["vals"]):
        raw[v] = q
        place.setdefault(v, k)
    L = [raw.get(v, 0) for v in range(1, c + 1)]
    if ev["type"] == "V":
        return [max(0, min(one, q)) for q in L]
    if ev["type"] == "F":
        f = [one if q > 0 else 0 for q in L]
        return f if any(f) else [one] * c
    if ev["type"] == "O":
        best = min(range(1, c + 1), key=lambda v: (-L[v - 1], place.get(v, 100 + v)))
        return [one if v == best else 0 for v in range(1, c + 1)]
    return [one] * c


def possible(net, liks, sup):
    return any(all(liks[i][a[i] - 1] > 0 for i in range(net["n"])) for a in sup)


def support(net):
    S = [tuple([0] * net["n"])]
    for i in net["top"]:
        T = []
        for a in S:
            row = net["cpt"][i - 1][row_index(net, i, a)]
            for v, w in enumerate(row):
                if w:
                    b = list(a)
                    b[i - 1] = v + 1
                    T.append(tuple(b))
        S = T
    return S
