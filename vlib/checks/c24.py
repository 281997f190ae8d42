def body(ctx):
    ctx.rules.append("Chimera processors C(M,N,L), M,N<=5, L<=5, with missing qubits and couplers inside and between cells: every clique and biclique answer is judged edge by edge in the graph given; "
                     "sizes and chain lengths are compared between the calls, with rectangles counted from scratch and with busclique. Distinct by graph and options.")
    ctx.run_cases("poly", ctx.n(4000, 90000), mods=("mm0", "rp", "bq"), variant="o0", timeout=120)
    ctx.floor = 800
