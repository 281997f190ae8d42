"""Independent oracles: nothing here calls the code under test."""


def adjacency(edges, nodes=()):
    adj = {v: set() for v in nodes}
    for a, b in edges:
        adj.setdefault(a, set())
        adj.setdefault(b, set())
        if a != b:
            adj[a].add(b)
            adj[b].add(a)
    return adj


def connected(nodes, adj):
    nodes = set(nodes)
    if not nodes:
        return False
    seen, stack = set(), [next(iter(nodes))]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(y for y in adj[x] if y in nodes and y not in seen)
    return seen == nodes


def embedding_faults(emb, sadj, tadj, overlap_ok=False, need_all=True, limit=4):
    """Every way in which emb is not a minor embedding of sadj in tadj."""
    bad = []
    used = {}
    if need_all:
        for v in sadj:
            if v not in emb:
                bad.append(("missing-variable", v))
    for v in emb:
        if v not in sadj:
            bad.append(("unknown-variable", v))
            continue
        c = list(emb[v])
        if not c:
            bad.append(("empty-chain", v))
            continue
        if len(set(c)) != len(c):
            bad.append(("repeated-qubit", v, c))
        out = [q for q in c if q not in tadj]
        if out:
            bad.append(("unknown-qubit", v, out))
            continue
        if not connected(c, tadj):
            bad.append(("disconnected-chain", v, c))
        for q in set(c):
            if q in used and not overlap_ok:
                bad.append(("overlap", v, used[q], q))
            used[q] = v
    for u in sadj:
        for v in sadj[u]:
            if u in emb and v in emb and repr(u) <= repr(v):
                cu, cv = set(emb[u]), set(emb[v])
                if overlap_ok and cu & cv:
                    continue
                if not any(y in cv for x in cu if x in tadj for y in tadj[x]):
                    bad.append(("missing-edge", u, v))
    return bad[:limit]


def components(adj):
    seen, out = set(), []
    for v in adj:
        if v in seen:
            continue
        comp, stack = set(), [v]
        while stack:
            x = stack.pop()
            if x in comp:
                continue
            comp.add(x)
            stack.extend(adj[x] - comp)
        seen |= comp
        out.append(comp)
    return out
