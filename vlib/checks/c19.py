def body(ctx):
    ctx.rules.append("Fault-free lattices of 80 shapes: every clique size against the known optimum. Random faulty lattices: every clique size and a grid of biclique sizes, "
                     "largest_clique, largest_clique_by_chainlength, one-shot and cached searches against each other and against the graph's own clique number. Lattices missing only "
                     "nodes: yields are equal in symmetric lattices and survive the loss of unused qubits. Evaluations are clique sizes; distinct by graph and chain lengths.")
    ctx.run_cases("yields", ctx.n(4500, 150000), mods=("mm0", "bq"), timeout=120)
    ctx.floor = 300
