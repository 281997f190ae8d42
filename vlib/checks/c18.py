def body(ctx):
    ctx.rules.append("Histories of insert, direct insert, merge, export, update and mining calls on three caches of a random faulty lattice, with and without storing. "
                     "After each, every cached clique of every size is validated and its chain length or quality compared with what the call promises; the disk is "
                     "compared byte for byte or reloaded. Evaluations are editing calls; distinct by graph and history.")
    ctx.run_cases("cacheedit", ctx.n(1000, 40000), mods=("mm0", "bq"), timeout=120, hang_is_violation=True)
    ctx.floor = 300
