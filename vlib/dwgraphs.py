"""Random D-Wave lattices with faults, in every labelling."""
import networkx as nx
import dwave.graphs as dg


def huge(rng, fam, slow):
    """the size of real processors, where counters of eight bits and the like run over"""
    lab = rng.choice(["int", "coordinate"])
    if fam == "pegasus" and not slow:
        fam = "zephyr"
    if fam == "chimera":
        t = rng.choice([1, 2, 4, 4, 4, 8])
        m, n = rng.choice([(16, 16), (rng.randint(6, 20), rng.randint(6, 20)), (rng.randint(20, 70), rng.randint(1, 3)), (rng.randint(1, 3), rng.randint(20, 70)), (2, 260), (260, 1)])
        return fam, (m, n, t, lab), dg.chimera_graph(m, n, t, coordinates=lab == "coordinate")
    if fam == "pegasus":
        m = rng.randint(5, 6)
        return fam, (m, lab, ()), dg.pegasus_graph(m, coordinates=lab == "coordinate")
    m, t = rng.choice([(rng.randint(4, 8), 4), (rng.randint(6, 12), rng.randint(1, 2)), (16, 1)])
    return fam, (m, t, lab), dg.zephyr_graph(m, t, coordinates=lab == "coordinate")


def perfect(rng, big=1.0, family=None, vast=0., slow=True):
    """(family, parameters, graph) -- fault free, integer or coordinate labels."""
    fam = family or rng.choice(["chimera", "pegasus", "zephyr"])
    if vast and rng.random() < vast:
        return huge(rng, fam, slow)
    if rng.random() < .04:
        m = rng.randint(3, 4)
        f = {"chimera": dg.chimera_torus, "pegasus": dg.pegasus_torus, "zephyr": dg.zephyr_torus}[fam]
        return fam, (m, "int", "torus"), f(m)
    if fam == "chimera":
        t = rng.choice([1, 2, 3, 4, 4, 4, 5, 6, 8])
        lim = max(1, int((5 if t <= 4 else 3) * big))
        m = rng.randint(1, lim)
        n = m if rng.random() < .4 else rng.randint(1, lim)
        lab = rng.choice(["int", "coordinate"])
        return fam, (m, n, t, lab), dg.chimera_graph(m, n, t, coordinates=lab == "coordinate")
    if fam == "pegasus":
        m = rng.choice([2, 2, 3, 3, 4] if big >= 1 else [2, 2, 3])
        kw = {}
        if rng.random() < .3:
            kw["fabric_only"] = False
        if rng.random() < .3:
            kw["offsets_index"] = rng.randint(0, 7)
        lab = rng.choice(["int", "coordinate", "nice"])
        if lab == "nice":
            # nice coordinates exist for the standard fabric only
            return fam, (m, lab), dg.pegasus_graph(m, nice_coordinates=True)
        return fam, (m, lab, tuple(sorted(kw.items()))), dg.pegasus_graph(m, coordinates=lab == "coordinate", **kw)
    t = rng.choice([1, 2, 3, 4, 4])
    m = rng.randint(1, max(1, int(3 * big)))
    lab = rng.choice(["int", "coordinate"])
    return fam, (m, t, lab), dg.zephyr_graph(m, t, coordinates=lab == "coordinate")


def damage(rng, g, level=None):
    """A copy with missing nodes and couplers; keeps the graph attributes."""
    h = nx.Graph(**g.graph)
    nodes = list(g)
    edges = [tuple(e) for e in g.edges]
    level = level or rng.choice(["none", "few", "few", "some", "edges", "edges", "heavy", "region", "odd"])
    if level == "few":
        drop = set(rng.sample(nodes, min(len(nodes), rng.randint(0, 3))))
        dedge = set(rng.sample(edges, min(len(edges), rng.randint(0, 4))))
    elif level == "some":
        p, q = rng.uniform(0, .1), rng.uniform(0, .05)
        drop = {v for v in nodes if rng.random() < p}
        dedge = {e for e in edges if rng.random() < q}
    elif level == "edges":
        drop, p = set(), rng.choice([.002, .01, .05, .2])
        dedge = {e for e in edges if rng.random() < p}
    elif level == "heavy":
        p, q = rng.uniform(.1, .95), rng.uniform(0, .9)
        drop = {v for v in nodes if rng.random() < p}
        dedge = {e for e in edges if rng.random() < q}
    elif level == "region":
        c = rng.choice(nodes)
        drop = set(nx.single_source_shortest_path_length(g, c, rng.randint(0, 3)))
        dedge = set()
    elif level == "odd":
        drop = set()
        k = rng.choice([0, .5, 1])
        dedge = {e for e in edges if rng.random() < k and nx.common_neighbors(g, *e)}
    else:
        drop, dedge = set(), set()
    nodes = [v for v in nodes if v not in drop]
    edges = [e for e in edges if e not in dedge and e[0] not in drop and e[1] not in drop]
    if rng.random() < .3:
        rng.shuffle(nodes)
        rng.shuffle(edges)
        edges = [e if rng.random() < .5 else e[::-1] for e in edges]
    h.add_nodes_from((v, g.nodes[v]) for v in nodes)
    h.add_edges_from(edges)
    return level, h


def random_graph(rng, big=1.0, family=None, vast=0., slow=True):
    fam, par, g = perfect(rng, big, family, vast, slow)
    level, h = damage(rng, g)
    return [fam, list(par), level, h.number_of_nodes(), h.number_of_edges()], h


def adj(g):
    return {v: set(g[v]) - {v} for v in g}


def labels(rng, n, allow_int=True):
    """(argument, labels it stands for) for a clique or biclique side of n nodes"""
    k = rng.randint(0, 6)
    if k < 3 and allow_int:
        return n, list(range(n))
    if k == 3:
        ls = ["v%d" % i for i in range(n)]
        rng.shuffle(ls)
    elif k == 4:
        ls = [(i, "x") for i in range(n)]
    elif k == 5:
        ls = rng.sample(range(1000), n)
        return set(ls), list(set(ls))
    else:
        ls = [i * 2.5 for i in range(n)]
        return iter(list(ls)), ls
    return ls, list(ls)
