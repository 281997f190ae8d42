from vlib import busq


def body(ctx):
    ctx.rules.append("Random Chimera, Pegasus and Zephyr graphs of many shapes, offsets and labellings, from perfect to almost destroyed; clique requests of many "
                     "sizes and label kinds, one-shot, cached and through busgraph_cache. Every embedding is validated against the raw edges. "
                     "A second workload drives the C++ core directly: requests on one object in any order must equal those on a new one. Evaluations are requests; distinct by graph description and answers.")
    ctx.run_cases("cliques", ctx.n(6000, 200000), mods=("mm0", "bq"), timeout=60, hang_is_violation=True)
    # the C++ core alone: many requests on one object in any order, every bound on the masks tried for missing couplers
    ctx.run_harness("busq", ["-O2", "-w", "-DNDEBUG"], ctx.n(4000, 400000), args=(busq.bases(ctx), "cliques"), timeout=120)
    ctx.floor = 500
