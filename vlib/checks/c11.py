from vlib import build
from vlib.checks.c10 import SAN, ENV


def body(ctx):
    ctx.rules.append("Random operation histories and graphs driven through the C++ building blocks (pairing queue and heap orders, component splitting, adjacency "
                     "with sources/sinks/relabelling/masks, parameter translation, variable orders, weight table, minima) and compared with std:: reference "
                     "models. Evaluations are compared operations or structures; distinct by generator state and amount of work.")
    try:
        exe = build.harness("blocks", ["blocks.cpp"], SAN)
    except build.BuildError as e:
        # some class looks different now: the parts that do not use it
        print("NOTE: the C++ workload does not compile against this tree: %s" % str(e)[-600:])
        parts = 0
        for k in (1, 2, 4, 8, 16):
            try:
                build.harness("blocks", ["blocks.cpp"], SAN + ["-DPARTS=%d" % k])
                parts += k
            except build.BuildError:
                ctx.stat("cpp_part_left_out_%d" % k, 1)
        if not parts:
            raise
        exe = build.harness("blocks", ["blocks.cpp"], SAN + ["-DPARTS=%d" % parts])
    ctx.run_exe("blocks", exe, ctx.n(60000, 6000000), env=ENV, timeout=60)
    ctx.floor = 1000
