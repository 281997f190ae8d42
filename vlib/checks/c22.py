def body(ctx):
    ctx.rules.append("Valid embeddings built from random connected chains and up to six mutations of the embedding, the source or the target (lost or empty chains, unknown, shared or stray "
                     "nodes, cut chains, added source edges, removed target nodes and couplers), in every presentation and labelling; the reports are compared as sets with those of an "
                     "independent fault finder, and is_valid_embedding and verify_embedding (with ignored errors) with the reports.")
    ctx.run_cases("diagnose", ctx.n(64000, 1500000), mods=("mm0", "rp", "bq"), variant="o0", timeout=60)
    ctx.floor = 12000
