"""Turn the labelled state graph of a bounded model into operation sequences covering every transition."""
import json
from collections import defaultdict, deque


def key(x):
    return json.dumps(x, sort_keys=True)


def tours(edges, init, max_len=60, limit=None, rng=None):
    """edges: list of [src, op, dst].  Returns lists of ops, each starting at init."""
    adj = defaultdict(list)
    for i, (s, o, d) in enumerate(edges):
        adj[key(s)].append((i, o, key(d)))
    init = key(init)
    # BFS tree from init
    par = {init: None}
    q = deque([init])
    while q:
        u = q.popleft()
        for i, o, v in adj[u]:
            if v not in par:
                par[v] = (u, i, o)
                q.append(v)
    todo = set(i for i in range(len(edges)) if key(edges[i][0]) in par)
    rem = {u: [e for e in l] for u, l in adj.items()}
    if rng:
        for l in rem.values():
            rng.shuffle(l)

    def path_to(u):
        p = []
        while par[u] is not None:
            u, i, o = par[u]
            p.append((i, o))
        return p[::-1]

    def next_uncovered(u, depth):
        seen = {u: None}
        dq = deque([(u, 0)])
        while dq:
            x, dd = dq.popleft()
            l = rem.get(x)
            while l and l[-1][0] not in todo:
                l.pop()
            if l:
                p = []
                y = x
                while seen[y] is not None:
                    y, i, o = seen[y]
                    p.append((i, o))
                return x, p[::-1]
            if dd < depth:
                for i, o, v in adj[x]:
                    if v not in seen:
                        seen[v] = (x, i, o)
                        dq.append((v, dd + 1))
        return None, None

    out = []
    order = list(todo)
    if rng:
        rng.shuffle(order)
    for e in order:
        if e not in todo:
            continue
        u = key(edges[e][0])
        seq = path_to(u)
        seq = seq + [(e, edges[e][1])]
        for i, _ in seq:
            todo.discard(i)
        cur = key(edges[e][2])
        while len(seq) < max_len:
            x, p = next_uncovered(cur, 3)
            if x is None:
                break
            for i, o in p:
                seq.append((i, o))
                todo.discard(i)
            i, o, v = rem[x][-1]
            seq.append((i, o))
            todo.discard(i)
            cur = v
        out.append([o for _, o in seq])
        if limit and len(out) >= limit:
            break
    return out, len(edges) - len(todo)
