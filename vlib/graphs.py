"""Random source and target graphs, label schemes and minorminer parameters."""
import networkx as nx
import dwave.graphs as dg
from . import oracle


def relabel_scheme(rng):
    k = rng.choice(["int", "int", "int", "str", "tuple", "mixed", "float", "neg", "big", "frozen"])
    if k == "int":
        return k, lambda i: i
    if k == "str":
        return k, lambda i: "v%d" % i
    if k == "tuple":
        return k, lambda i: (i // 3, "x", i % 3)
    if k == "mixed":
        return k, lambda i: [i, "s%d" % i, (i, i), float(i) + .5, frozenset([i, -1])][i % 5]
    if k == "float":
        return k, lambda i: i + .25
    if k == "neg":
        return k, lambda i: -7 * i - 1
    if k == "big":
        return k, lambda i: (1 << 70) + i
    return k, lambda i: frozenset([i, "f"])


def source(rng, big=1.0):
    """(name, nx.Graph on 0..n-1)"""
    k = rng.choice(["clique", "cycle", "path", "grid", "gnp", "gnp", "tree", "star", "multi", "isolated", "biclique",
                    "regular", "wheel", "single", "edge", "hyper", "gnpsparse"])
    s = lambda a, b: rng.randint(a, max(a, int(b * big)))
    sd = rng.getrandbits(31)
    if k == "clique":
        g = nx.complete_graph(s(2, 8))
    elif k == "cycle":
        g = nx.cycle_graph(s(3, 16))
    elif k == "path":
        g = nx.path_graph(s(2, 16))
    elif k == "grid":
        g = nx.grid_2d_graph(s(2, 4), s(2, 4))
    elif k == "gnp":
        g = nx.gnp_random_graph(s(3, 12), rng.choice([.2, .4, .6]), seed=sd)
    elif k == "gnpsparse":
        g = nx.gnp_random_graph(s(4, 20), .15, seed=sd)
    elif k == "tree":
        n = s(2, 16)
        g = nx.Graph([(i, rng.randrange(i)) for i in range(1, n)])
    elif k == "star":
        g = nx.star_graph(s(2, 12))
    elif k == "multi":
        g = nx.disjoint_union_all([nx.complete_graph(rng.randint(1, 4)) for _ in range(s(2, 4))])
    elif k == "isolated":
        g = nx.gnp_random_graph(s(3, 8), .3, seed=sd)
        g.add_nodes_from(range(100, 100 + rng.randint(1, 4)))
    elif k == "biclique":
        g = nx.complete_bipartite_graph(s(1, 5), s(1, 6))
    elif k == "regular":
        g = nx.random_regular_graph(3, 2 * s(2, 6), seed=sd)
    elif k == "wheel":
        g = nx.wheel_graph(s(4, 9))
    elif k == "single":
        g = nx.empty_graph(1)
    elif k == "edge":
        g = nx.path_graph(2)
    else:
        g = nx.hypercube_graph(rng.randint(2, 3))
    return k, nx.convert_node_labels_to_integers(g)


def faults(rng, g, p=None):
    g = nx.Graph(g)
    p = rng.choice([0, 0, .03, .1, .25]) if p is None else p
    if p:
        g.remove_nodes_from([v for v in list(g) if rng.random() < p])
        g.remove_edges_from([e for e in list(g.edges) if rng.random() < p / 2])
    return g


def target(rng, big=1.0):
    k = rng.choice(["chimera", "chimera", "pegasus", "zephyr", "grid", "clique", "gnp", "regular", "multi", "king",
                    "path", "cycle", "tiny", "gridfaults", "tree"])
    sd = rng.getrandbits(31)
    if k == "chimera":
        g = dg.chimera_graph(rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4))
    elif k == "pegasus":
        g = dg.pegasus_graph(rng.choice([2, 2, 3]), fabric_only=rng.random() < .5)
    elif k == "zephyr":
        g = dg.zephyr_graph(rng.choice([1, 1, 2]), rng.choice([2, 4]))
    elif k in ("grid", "gridfaults"):
        g = nx.grid_2d_graph(rng.randint(2, 9), rng.randint(2, 9))
    elif k == "clique":
        g = nx.complete_graph(rng.randint(1, 14))
    elif k == "gnp":
        g = nx.gnp_random_graph(rng.randint(4, 40), rng.choice([.1, .2, .4]), seed=sd)
    elif k == "regular":
        g = nx.random_regular_graph(rng.choice([3, 4, 5]), 2 * rng.randint(4, 20), seed=sd)
    elif k == "multi":
        g = nx.disjoint_union_all([nx.grid_2d_graph(rng.randint(1, 5), rng.randint(1, 5)) for _ in range(rng.randint(2, 4))])
    elif k == "king":
        a, b = rng.randint(3, 7), rng.randint(3, 7)
        g = nx.strong_product(nx.path_graph(a), nx.path_graph(b))
    elif k == "path":
        g = nx.path_graph(rng.randint(2, 20))
    elif k == "cycle":
        g = nx.cycle_graph(rng.randint(3, 30))
    elif k == "tiny":
        g = nx.path_graph(rng.randint(1, 3))
    else:
        n = rng.randint(2, 30)
        g = nx.Graph([(i, rng.randrange(i)) for i in range(1, n)])
    g = nx.convert_node_labels_to_integers(nx.Graph(g))
    g = faults(rng, g)
    if k == "gridfaults":
        g = faults(rng, g, .2)
    if len(g) == 0:
        g.add_node(0)
    return k, g


def vast(rng):
    """A problem of the size people have: (kind, source, kind, target), hundreds of variables or thousands of qubits"""
    k = rng.choice(["clique", "cycle", "path", "star", "isolated", "tree", "grid", "components"])
    if k == "clique":
        s = nx.complete_graph(rng.randint(3, 12))
    elif k == "cycle":
        s = nx.cycle_graph(rng.randint(30, 300))
    elif k == "path":
        s = nx.path_graph(rng.randint(30, 300))
    elif k == "star":
        s = nx.star_graph(rng.randint(20, 150))
    elif k == "isolated":
        s = nx.empty_graph(rng.randint(100, 400))
        s.add_edges_from((2 * i, 2 * i + 1) for i in range(rng.randint(0, 20)))
    elif k == "tree":
        s = nx.Graph([(i, rng.randrange(i)) for i in range(1, rng.randint(30, 150))])
    elif k == "grid":
        s = nx.grid_2d_graph(rng.randint(2, 6), rng.randint(5, 12))
    else:
        s = nx.disjoint_union_all([nx.cycle_graph(rng.randint(3, 5)) for _ in range(rng.randint(10, 60))])
    l = rng.choice(["chimera", "pegasus", "zephyr", "clique", "star", "king", "grid"])
    if l == "chimera":
        t = dg.chimera_graph(rng.randint(6, 16), rng.randint(6, 16), 4)
    elif l == "pegasus":
        t = dg.pegasus_graph(rng.randint(4, 8))
    elif l == "zephyr":
        t = dg.zephyr_graph(rng.randint(3, 6))
    elif l == "clique":
        t = nx.complete_graph(rng.randint(65, 320))
    elif l == "star":
        t = nx.star_graph(rng.randint(200, 500))
    elif l == "king":
        n = rng.randint(15, 25)
        t = nx.strong_product(nx.path_graph(n), nx.path_graph(n))
    else:
        t = nx.grid_2d_graph(rng.randint(20, 40), rng.randint(20, 40))
    t = faults(rng, nx.convert_node_labels_to_integers(t), rng.choice([0, 0, .01, .03]))
    return "vast-" + k, nx.convert_node_labels_to_integers(s), "vast-" + l, nx.convert_node_labels_to_integers(t)


def present(rng, g, f):
    """A way of handing the graph over: (kind, factory of the object, edges, nodes as given)."""
    edges = [(f(a), f(b)) if rng.random() < .5 else (f(b), f(a)) for a, b in g.edges]
    rng.shuffle(edges)
    iso = [v for v in g if g.degree(v) == 0]
    kind = rng.choice(["nx", "list", "list", "dup", "tuple", "gen"])
    if kind == "nx":
        h = nx.Graph()
        nodes = [f(v) for v in g]
        rng.shuffle(nodes)
        if rng.random() < .5:
            h.add_nodes_from(nodes)
        h.add_edges_from(edges)
        h.add_nodes_from(nodes)
        if rng.random() < .2:
            h.add_edge(nodes[0], nodes[0])
        return kind, (lambda: h), list(h.edges), list(h.nodes)
    loops = [(f(v), f(v)) for v in iso]
    if kind == "dup":
        edges = edges + [rng.choice(edges)[::-1] for _ in range(3) if edges] + [(f(v), f(v)) for v in list(g)[:2]]
    edges = edges + loops
    rng.shuffle(edges)
    if kind == "tuple":
        return kind, (lambda: tuple(edges)), edges, []
    if kind == "gen":
        return kind, (lambda: (e for e in edges)), edges, []
    return kind, (lambda: list(edges)), edges, []


def search_params(rng, light=True):
    p = {"random_seed": rng.getrandbits(32)}
    if rng.random() < .5:
        p["tries"] = rng.choice([0, 1, 1, 2, 3, 5])
    else:
        p["tries"] = 3
    if rng.random() < .4:
        p["max_no_improvement"] = rng.choice([0, 1, 2, 5, 10])
    else:
        p["max_no_improvement"] = 5
    if rng.random() < .4:
        p["chainlength_patience"] = rng.choice([0, 1, 2, 5, 10])
    if rng.random() < .3:
        p["inner_rounds"] = rng.choice([1, 2, 5, 30])
    if rng.random() < .2:
        p["max_beta"] = rng.choice([1.0001, 1.5, 2, 4.0, 1e6])
    if rng.random() < .2:
        p["max_fill"] = rng.choice([1, 2, 3, 10, 63, 64, 1000])
    if rng.random() < .25:
        p["threads"] = rng.choice([2, 3, 4])
    if rng.random() < .1:
        p["verbose"] = rng.choice([1, 2, 3])
    p["timeout"] = 30
    return p
