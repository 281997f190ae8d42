def body(ctx):
    ctx.rules.append("Both searches on small sources and on grids, random graphs and faulty D-Wave lattices in every labelling, with recording embedders (complete, random, failing, slow, "
                     "find_embedding; one-to-one or chains of every type); every search asked for is checked (source, target free of used nodes, arguments, clock under control), and "
                     "every answer for validity, disjointness, number, nothing left to find, unchanged inputs and repeatability. Distinct by target, arguments and number of embeddings.")
    ctx.run_cases("parallel", ctx.n(18000, 300000), mods=("mm0", "rp", "bq"), variant="o1", timeout=120)
    ctx.floor = 4500
