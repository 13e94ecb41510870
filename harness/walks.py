"""Covering walks over a labelled transition graph printed by TLC (@EDGE lines)."""
import collections
import json


def edges(out):
    es = []
    for line in out.splitlines():
        if line.startswith('"@EDGE '):
            es.append(json.loads(json.loads(line)[6:]))
    return es


def covering_walks(es, r, maxlen=150, limit=None):
    """Walks from the initial state (the one never entered / first op from it) that take every transition.
    Returns list of op lists. limit: cover only that many randomly chosen transitions."""
    adj = collections.defaultdict(list)
    for k, e in enumerate(es):
        adj[e["f"]].append((k, e["g"], e["o"]))
    targets = {e["g"] for e in es}
    inits = [s for s in adj if s not in targets] or [es[0]["f"]]
    init = inits[0]
    todo = set(range(len(es)))
    if limit and len(todo) > limit:
        todo = set(r.sample(sorted(todo), limit))
    total = len(todo)
    left = collections.Counter(es[k]["f"] for k in todo)
    # randomise the order in which alternatives are taken
    for s in adj:
        r.shuffle(adj[s])
    walks = []
    cur, walk = init, []
    stalled = 0
    while todo:
        # BFS to the nearest state with an untaken transition
        prev = {cur: None}
        dq = collections.deque([cur])
        goal = None
        while dq:
            s = dq.popleft()
            if left[s] > 0:
                goal = s
                break
            for k, g, o in adj[s]:
                if g not in prev:
                    prev[g] = (s, o)
                    dq.append(g)
        if goal is None:
            if cur == init and not walk:
                raise RuntimeError("unreachable transitions")
            walks.append(walk)
            cur, walk = init, []
            continue
        path = []
        s = goal
        while prev[s] is not None:
            path.append(prev[s][1])
            s = prev[s][0]
        walk += path[::-1]
        cur = goal
        for k, g, o in adj[cur]:
            if k in todo:
                todo.discard(k)
                left[cur] -= 1
                walk.append(o)
                cur = g
                break
        if len(walk) >= maxlen:
            walks.append(walk)
            cur, walk = init, []
    if walk:
        walks.append(walk)
    return walks, total
