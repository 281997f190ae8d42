def body(ctx):
    ctx.rules.append("Clique, biclique and grid requests with every kind of label, on targets given by size, edges (Chimera) or as faulty graphs in every labelling; judged by the embedding "
                     "oracle in the graph given, with known sizes of perfect lattices and with the clique cache. Distinct by request and target.")
    ctx.run_cases("wrappers", ctx.n(7200, 120000), mods=("mm0", "rp", "bq"), variant="o1", timeout=120)
    ctx.floor = 1800
