def body(ctx):
    ctx.rules.append("Random histories of 1-6 miner calls (find_embedding, find_embeddings, quickpass with every strategy and bound, "
                     "improve_embeddings, set_initial_chains, quality_key) on random problems, some with fixed or initial chains; each "
                     "answer judged from the raw edges. Evaluations are calls; non-trivial when chains came back, distinct by answers.")
    ctx.run_cases("miners", ctx.n(8000, 250000), timeout=60)
    ctx.floor = 500
