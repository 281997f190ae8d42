from vlib import build


def body(ctx):
    ctx.rules.append("Cases of the other properties' workloads (searches, failing and invalid calls, miner histories, clique and biclique caches and their editing, packing, "
                     "layouts, diagnostics, filters, parallel embeddings), each repeated 24 to 400 times in one process after a warm-up. The blocks the allocator has handed out and not "
                     "got back, open descriptors and threads are counted after every round; growth in every one of four rounds, and again in four longer rounds, is a leak. "
                     "Evaluations are requests; distinct by case.")
    so = build.harness("livecount.so", ["livecount.c"], ["-O2", "-shared", "-fPIC"], compiler="gcc")
    env = {"PYTHONMALLOC": "malloc", "LD_PRELOAD": so}
    ctx.run_cases("leaks", ctx.n(400, 40000), mods=("mm", "rp", "bq"), variant="o1", env=env, timeout=200)
    ctx.floor = 100
