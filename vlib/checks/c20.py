def body(ctx):
    ctx.rules.append("Layout objects over random graphs, algorithms, dimensions, centers, scales and later edits; p_norm against its own objective; graph_layout on faulty lattices; "
                     "closest placements against a brute-force nearest connected subset; intersection placements against qubit coordinates; and layout.find_embedding with every kind of layout, "
                     "placement and hint, judged by the embedding oracle.")
    ctx.run_cases("layouts", ctx.n(8400, 90000), mods=("mm0", "rp", "bq"), variant="o0", timeout=120)
    ctx.floor = 2000
