def body(ctx):
    ctx.rules.append("Histories of queries to busgraph_cache over families of almost equal graphs (one coupler or node apart, relabelled, reordered, other "
                     "seeds) through one cache directory, from fresh objects, old objects and other processes, with cache files damaged, swapped, deleted or cleared "
                     "in between. Every answer is compared with the one from a private, empty cache directory, and validated. "
                     "Evaluations are queries; distinct by graph and history.")
    ctx.run_cases("cachetrans", ctx.n(1100, 60000), mods=("mm0", "bq"), timeout=60, hang_is_violation=True)
    ctx.floor = 400
