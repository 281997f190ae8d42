def body(ctx):
    ctx.rules.append("Each random problem is solved 6 to 10 times in one process (immediately again, after unrelated searches, at "
                     "other verbosity, interactively, with several threads repeatedly) and again in two other processes with "
                     "differently perturbed memory, other hash randomisation, and another history of calls; evaluations are calls, "
                     "non-trivial when the answer has chains, distinct by the answer.")
    n = ctx.n(1000, 60000)
    runs = []
    for name, env in (("plain", {}), ("perturb", {"MALLOC_PERTURB_": "165", "PYTHONMALLOC": "malloc"}),
                      ("hash", {"MALLOC_PERTURB_": "90", "MALLOC_ARENA_MAX": "1", "PYTHONHASHSEED": "77"})):
        got = {}
        ctx.run_cases("determ", n, timeout=60, collect=got, env=env, nproc=8 if name != "hash" else 7)
        runs.append((name, got))
    for name, got in runs[1:]:
        both = set(got) & set(runs[0][1])
        same = sorted(i for i in both if got[i][0] == runs[0][1][i][0])
        ctx.stat("compared_across_processes", len(same))
        # hash randomisation changed the order of the problem itself (a set given as an argument)
        ctx.stat("another_problem", len(both) - len(same))
        for i in same:
            if got[i] != runs[0][1][i]:
                ctx.violation("differs:process", "case determ/%d gave another answer in a process with %s" % (i, name),
                              {"property": "C04", "module": "determ", "index": i, "seed": ctx.seed, "tier": ctx.tier})
    ctx.floor = 200
