def body(ctx):
    ctx.rules.append("Histories of 130-190 queries over more than 100 distinct graphs, biased to files about to be evicted, against a model of the least-recently-used "
                     "list; an audit hook checks that every file operation stays in the cache directory. Histories of clear_all_caches with old "
                     "versions, decoys beside the cache and links inside it. All in a scratch directory. Evaluations are queries and clears; distinct by history.")
    ctx.run_cases("cachelru", ctx.n(1200, 40000), mods=("mm0", "bq"), timeout=120, hang_is_violation=True)
    ctx.floor = 100
