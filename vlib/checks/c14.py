from vlib import busq


def body(ctx):
    ctx.rules.append("Random faulty lattices as in C13; balanced, unbalanced, one-sided and too large biclique requests with many label kinds. Every embedding is "
                     "validated against the raw edges; answers must be symmetric in the two sides and monotone in size. "
                     "A second workload drives the C++ core directly: requests on one object in any order must equal those on a new one. Evaluations are requests; distinct by graph description and answers.")
    ctx.run_cases("bicliques", ctx.n(4000, 150000), mods=("mm0", "bq"), timeout=60, hang_is_violation=True)
    # the C++ core alone: many requests on one object in any order, every bound on the masks tried for missing couplers
    ctx.run_harness("busq", ["-O2", "-w", "-DNDEBUG"], ctx.n(3000, 300000), args=(busq.bases(ctx), "bicliques"), timeout=120)
    ctx.floor = 500
