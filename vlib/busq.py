"""Lattices for harness/busq.cpp, taken from dwave.graphs and not from the library."""
import os, subprocess, sys
from vlib import build


def bases(ctx):
    path = os.path.join(ctx.sub("busq"), "bases")
    if not os.path.exists(path):
        env = build.worker_env(build.REPO, ctx.sub("busq"))
        subprocess.run([build.PYTHON, "-c", "from vlib import busq; busq.write(%r)" % path], check=True, env=env, cwd=build.VERIF)
    return path


def write(path):
    import dwave.graphs as dg
    out = []

    def add(fam, m, n, t, g, voff=(), hoff=()):
        ns = sorted(g)
        es = sorted(tuple(sorted(e)) for e in g.edges)
        row = [fam, m, n, t, len(voff), *voff, len(hoff), *hoff, len(ns), *ns, len(es), *(q for e in es for q in e)]
        out.append(" ".join(map(str, row)))
    for m, n, t in [(1, 1, 1), (1, 1, 4), (1, 1, 8), (2, 2, 1), (2, 2, 4), (1, 3, 4), (3, 1, 2), (2, 3, 3), (3, 3, 4), (4, 2, 5), (3, 4, 2), (4, 4, 4), (2, 2, 8), (5, 5, 2),
                    (6, 2, 4), (2, 6, 3), (3, 3, 7), (2, 5, 6)]:
        add("c", m, n, t, dg.chimera_graph(m, n, t))
    for kw in [dict(m=2), dict(m=3), dict(m=2, fabric_only=False), dict(m=4), dict(m=3, offsets_index=1), dict(m=2, offsets_index=4), dict(m=3, offsets_index=7), dict(m=2, offsets_index=6, fabric_only=False)]:
        g = dg.pegasus_graph(**kw)
        add("p", kw["m"], kw["m"], 0, g, [o // 2 for o in g.graph["vertical_offsets"][::2]], [o // 2 for o in g.graph["horizontal_offsets"][::2]])
    for m, t in [(1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 4)]:
        add("z", m, m, t, dg.zephyr_graph(m, t))
    with open(path + ".tmp", "w") as f:
        f.write("\n".join(out) + "\n")
    os.rename(path + ".tmp", path)
