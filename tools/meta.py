"""The properties and the checks that decide them; writes properties.jsonl and MANIFEST.json."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, state=state, observe=observe, na=na))


MM = "minorminer/_minorminer.pyx"
FE = "include/find_embedding/"
BQ = "minorminer/busclique.pyx"
BI = "include/busclique/"

prop("C01", "Every embedding the search reports as found is a valid minor embedding",
     "Whenever find_embedding returns a non-empty embedding (or a success flag that is true), every source variable, "
     "including isolated ones and ones that appear only in self-loops, has a non-empty chain of distinct target nodes; "
     "chains are connected in the target graph and pairwise disjoint; and every source edge is realised by a target edge "
     "between the two chains. This holds for every source and target graph, every label type and presentation of the "
     "graphs, every parameter setting, number of threads and hint.",
     ["inputs", "configurations"], "all source/target graph pairs, label types, parameters, hints and seeds",
     "The tests validate a few dozen fixed problems; the claim is over all graphs, labels, parameters and hints, with "
     "incremental reference-counted data structures whose errors show only in rare search states.",
     [FE + "pathfinder.hpp", FE + "embedding.hpp", FE + "chain.hpp", FE + "graph.hpp", FE + "find_embedding.hpp", MM],
     [("chains carry links and refcounts; statistics() accepts only weight<=1 everywhere", FE + "embedding.hpp"),
      ("labels and components mapped to internal indices and back", FE + "graph.hpp")],
     "randomized runtime monitoring with an independent minor-embedding oracle",
     "Exploration: thousands of seeded random problems per run, each answer re-validated from the raw edges by code that "
     "shares nothing with the library. Trusts the 80-line oracle.",
     observe=["return value of find_embedding"])

prop("C02", "Fixed, suspended and restricted chains are honoured",
     "In every answer, a variable with a non-empty fixed chain has exactly that chain and no other variable's chain "
     "uses any of its qubits; in every successful answer a suspended variable's chain contains at least one qubit of "
     "every non-empty blob, and no auxiliary node of the suspension machinery ever appears. Without initial_chains, "
     "a restricted chain contains a qubit of its domain and leaves the domain only into domains of "
     "variables adjacent to it (so if all variables share one domain, every chain stays inside it).",
     ["inputs", "configurations"], "all problems with any combination of constraints consistent with one another",
     "Tests use single hand-made constraints on small graphs; combinations interact with the search in ways that need "
     "many random problems to reach.",
     [MM, FE + "embedding_problem.hpp", FE + "pathfinder.hpp", FE + "embedding.hpp", FE + "chain.hpp"],
     [("fixed_handler_hival, domain_handler_masked", FE + "embedding_problem.hpp"),
      ("suspension rewritten to pins in both graphs", MM), ("chain::steal respects accepts_qubit", FE + "chain.hpp")],
     "randomized runtime monitoring of constrained searches with constraint oracles",
     "Exploration. restrict_chains is documented both as guaranteed and as soft; only what the search mechanism can "
     "promise (see DESIGN.md) is checked.")

prop("C03", "The search's return contract: flag, shape, failure value, untouched inputs",
     "Without return_overlap the result is a dict, empty on failure, otherwise keyed by exactly the source variables, "
     "each value a list of target labels. With return_overlap it is a pair whose flag is true exactly if the dict is a valid "
     "embedding; when the flag is false and chains were found, every variable has a non-empty connected chain, every edge "
     "is realised or the chains overlap, and no qubit is in more than max_fill chains (unless initial_chains put it there). The empty source graph has the empty embedding, which is valid. Arguments (graphs, hints, their containers) are never modified and failures "
     "come as documented results or exceptions, not as partial embeddings.",
     ["inputs", "configurations"], "all problems, feasible or not, with every presentation of graphs and hints",
     "The tests look at the shape of a handful of results, almost all successful.",
     [MM, "minorminer/minorminer.py", FE + "find_embedding.hpp"],
     [("result copied from bestEmbedding, flag from statistics()", FE + "pathfinder.hpp"), ("collection and relabelling", MM)],
     "randomized runtime monitoring with an API-contract oracle",
     "Exploration over feasible and infeasible problems; hints are deep-compared before and after each call.")

prop("C04", "A random seed makes the search reproducible",
     "Two calls of find_embedding with equal graphs, presented alike, equal parameters and the same random_seed return "
     "the same chains, in whatever process, after whatever earlier calls, at whatever verbosity and with "
     "interactive on or off. With more than one thread, two such calls also return the same chains.",
     ["inputs", "schedules", "configurations"], "all problems, seeds, thread counts, schedules, histories of earlier calls",
     "The tests compare two consecutive calls on one small problem in one process.",
     ["include/fastrng.hpp", FE + "embedding_problem.hpp", FE + "pathfinder.hpp", MM],
     [("one generator per problem, seeded from the parameter; threads only write disjoint ranges", FE + "pathfinder.hpp")],
     "differential runtime monitoring: repeated runs across processes, threads, verbosity and perturbed memory",
     "Exploration: compares recorded results of the same case under 4+ different circumstances, including junk-filled "
     "heap memory so that uninitialised reads matter.")

prop("C05", "The search is memory safe and free of undefined behaviour for every input",
     "No call of find_embedding, miner or their helpers reads or writes out of bounds, uses freed or uninitialised "
     "objects, overflows, or otherwise executes undefined behaviour, and none of the library's own internal "
     "self-checks fails or crashes the process, whatever graphs, labels, hints and parameters are given.",
     ["inputs", "configurations"], "all graphs, hints and parameters, including empty, degenerate, disconnected and inconsistent ones",
     "The tests run without sanitizers on benign inputs; memory errors in the C++ core usually leave results intact.",
     [FE + "pathfinder.hpp", FE + "chain.hpp", FE + "embedding.hpp", FE + "pairing_queue.hpp", FE + "graph.hpp", MM],
     [("indices produced by label translation; vectors sized by num_vars+num_fixed, num_qubits+num_reserved", FE + "embedding.hpp")],
     "AddressSanitizer + UBSan build with the library's internal diagnostics switched on, under hostile workloads; valgrind for uninitialised reads",
     "Exploration with clang ASan/UBSan, -DCPPDEBUG and valgrind memcheck; red-zone detection only, no proof of absence.")

prop("C06", "Parallel searches are free of data races",
     "With any number of threads, the parallel search executes without data races or deadlocks, and concurrent "
     "searches in different threads of one process do not share mutable state: each returns what it would return alone.",
     ["schedules", "inputs"], "all schedules of the worker threads of one search and of several concurrent searches",
     "The tests call the parallel search a handful of times and cannot see races.",
     [FE + "pathfinder.hpp", FE + "find_embedding.hpp", FE + "embedding_problem.hpp", MM],
     [("nextvar handed out under a mutex; futures joined before distances are read", FE + "pathfinder.hpp")],
     "ThreadSanitizer build of the search core with injected scheduling noise; serial re-run as oracle",
     "Exploration: TSan's happens-before detection over thousands of parallel rounds, plus result comparison.")

prop("C07", "Invalid arguments raise Python exceptions and leave the library usable",
     "Whatever Python objects are passed as graphs, hints or parameters, find_embedding and miner either "
     "run or raise an ordinary Python exception: unknown parameters, unparsable edges, unknown labels, wrong types, "
     "unembeddable or empty problems, or the lack of room for threads never crash, hang or terminate the interpreter. Unknown parameter names and hints "
     "that mention labels of neither graph are always rejected. After the exception, valid "
     "calls in the same process give the same results as before.",
     ["inputs", "histories"], "all argument values and all sequences of failing and succeeding calls",
     "The tests try a few malformed inputs, one call each.",
     [MM, "minorminer/_minorminer_h.pxi", "minorminer/src/pyutil.hpp", FE + "find_embedding.hpp"],
     [("every wrapper call translates C++ exceptions", "minorminer/src/pyutil.hpp"), ("option parsing", MM)],
     "fault injection through hostile Python arguments with a liveness and equivalence monitor",
     "Exploration with generated malformed arguments; a watchdog turns hangs into violations.")

prop("C08", "Timeouts, patience and interrupts end a search promptly and cleanly",
     "find_embedding returns within a small margin of its timeout, for every problem it can start; an expired or zero timeout yields an "
     "empty or a still correctly flagged result, never an invalid one reported as valid. A keyboard interrupt during a "
     "search ends it promptly, in interactive mode with a correctly flagged best-so-far result, otherwise with the "
     "documented exception, and the signal disposition in force before the call is restored.",
     ["inputs", "schedules", "fault_sequences"], "all timeouts, instants of interruption and problems",
     "Tests use one timeout and never interrupt.",
     [FE + "pathfinder.hpp", MM, FE + "find_embedding.hpp"],
     [("check_stops polls clock and interrupt callback between passes", FE + "pathfinder.hpp")],
     "fault injection (signals at random instants, short timeouts) with timing and validity monitors",
     "Exploration; time limits include a generous margin measured on the same machine to stay quiet under load.")

prop("C09", "The low-level miner API keeps its documented bounds and never returns junk",
     "miner.find_embedding/find_embeddings return only valid embeddings (with return_overlap, the flag is true exactly for those), at most the requested number, and "
     "improve_embeddings returns, for each valid input and unless time runs out, a valid embedding whose quality key is no worse. An untouched miner finds what find_embedding finds. quickpass gives chains only to the variables asked for, never touches fixed chains, and keeps the given "
     "overlap bound and chain-length bound for every chain it reports, and quality_key ranks embeddings by (overlap histogram or chain-length "
     "histogram) consistently with the chains themselves.",
     ["inputs", "histories"], "all problems, hints, call sequences and bounds",
     "The tests run each method once or twice on one problem.",
     [MM, FE + "pathfinder.hpp"],
     [("quickPass tears out chains beyond the bound", FE + "pathfinder.hpp"), ("quality_key", MM)],
     "model-based runtime monitoring of miner call sequences",
     "Exploration: random histories of miner calls, each answer judged by the oracle and by a recomputed quality key.")

prop("C10", "The incremental embedding state stays consistent after every operation",
     "After every operation on a partial embedding (placing, linking, stealing, tearing out, freezing and thawing chains) each "
     "qubit's recorded usage equals the number of chains containing it, each chain is a tree rooted at one qubit with reference "
     "counts equal to children plus links, and links between two chains are symmetric adjacent qubits "
     "inside their chains. Freezing then thawing a chain restores it exactly, and trimming never removes a qubit that is still needed.",
     ["histories", "inputs"], "all sequences of chain operations the search can perform",
     "Unit tests exercise each chain operation once on a toy chain.",
     [FE + "chain.hpp", FE + "embedding.hpp"],
     [("chain refcounts", FE + "chain.hpp"), ("qub_weight", FE + "embedding.hpp")],
     "online invariant monitor over operation histories of the real classes (ASan build)",
     "Exploration: a C++ driver applies random legal operation sequences and recomputes every invariant from scratch after each.")

prop("C11", "Search building blocks agree with their reference models",
     "The priority queues return elements in key order exactly as a reference heap does; splitting a problem into connected "
     "components (largest first, reserved nodes last) loses and invents no node or edge and translates labels back and forth without loss; the target-graph "
     "and source-graph adjacency seen by the search equals the given edges, without self-loops and duplicates; every hint is translated to the "
     "variables and qubits it names; each variable order is a permutation of the free variables; and minima are collected exactly.",
     ["inputs", "histories"], "all operation sequences and graphs",
     "Unit tests use a few fixed sequences and graphs.",
     [FE + "pairing_queue.hpp", FE + "graph.hpp", FE + "find_embedding.hpp", FE + "embedding_problem.hpp", FE + "util.hpp"],
     [("pairing heap merge", FE + "pairing_queue.hpp"), ("components index translation", FE + "graph.hpp")],
     "model-based runtime monitoring of the C++ building blocks (ASan build)",
     "Exploration against std:: reference structures.")

prop("C12", "More effort never makes a valid embedding worse",
     "Given a valid embedding as initial_chains (with or without skip_initialization), or through miner.set_initial_chains or miner.improve_embeddings, the answer is a "
     "valid embedding whose chain-length profile (largest first) is no worse; the same problem and seed run with a larger chainlength_patience "
     "also gives a profile no worse than with a smaller one.",
     ["inputs", "histories"], "all valid starting embeddings and parameters",
     "Tests check one improvement on one graph.",
     [FE + "pathfinder.hpp", MM],
     [("check_improvement keeps bestEmbedding by lexicographic statistics", FE + "pathfinder.hpp")],
     "metamorphic runtime monitoring of search quality",
     "Exploration.")

prop("C13", "Clique embeddings are valid on every Chimera, Pegasus and Zephyr graph",
     "find_clique_embedding and the clique caches return either an empty dict or an embedding of the requested complete graph "
     "with exactly the requested labels that is valid in the graph given, for every topology, size, shape and "
     "any set of missing nodes and couplers, in integer or coordinate labels, with and without a cache; equal seeds give equal results.",
     ["inputs", "configurations"], "all topology parameters, faults, labelings, clique sizes and seeds",
     "Tests use a few sizes and random drops on one seed.",
     [BQ, BI + "clique_cache.hpp", BI + "cell_cache.hpp", BI + "bundle_cache.hpp", BI + "find_clique.hpp", BI + "small_cliques.hpp", BI + "topo_cache.hpp", BI + "util.hpp"],
     [("bundles scored from surviving lines and couplers", BI + "bundle_cache.hpp")],
     "randomized runtime monitoring with the minor-embedding oracle over faulty D-Wave graphs",
     "Exploration.")

prop("C14", "Biclique embeddings are valid and complete bipartite",
     "busgraph_cache.find_biclique_embedding and largest_balanced_biclique return either an empty dict or a valid embedding of the requested "
     "complete bipartite graph in the graph given, with exactly the requested labels, on every topology with any faults, for balanced, unbalanced and "
     "one-sided requests; the answer does not depend on which side is named first, a request that fits inside a biclique already found is found, and so is "
     "one that fits the largest balanced biclique reported for the same graph.",
     ["inputs", "configurations"], "all topology parameters, faults, labelings and biclique sizes",
     "Tests use one or two small graphs.",
     [BQ, BI + "biclique_cache.hpp", BI + "find_biclique.hpp", BI + "bundle_cache.hpp"],
     [("biclique_yield_cache", BI + "biclique_cache.hpp")],
     "randomized runtime monitoring with the minor-embedding oracle over faulty D-Wave graphs",
     "Exploration.")

prop("C15", "The clique cache is transparent and identifies graphs exactly",
     "busgraph_cache answers the same whether its results were just computed, read back from disk by "
     "another object or process, or recomputed after the cache was deleted or its files were damaged; two graphs "
     "that differ in any node, coupler or topology parameter never share cached answers, and relabelling a graph never changes them.",
     ["histories", "inputs", "fault_sequences"], "all graphs, histories of cache use, and damaged cache files",
     "Tests reuse one cache in one process.",
     [BQ], [("hash identifier of nodes and edges", BQ), ("serialisation of caches", BQ)],
     "differential runtime monitoring across cold, warm, cross-process, damaged and relabelled caches",
     "Exploration.")

prop("C16", "The clique cache survives concurrent use and crashes",
     "Any number of processes and threads may use the cache of the same or different graphs at the same time, and any of them may be killed "
     "at any moment: no surviving or later user ever gets an exception, a hang or an answer other than the one a private cache gives, "
     "and an interrupted write never leaves a partial file that is later believed.",
     ["schedules", "crash_points"], "all interleavings of processes/threads and kill points",
     "Tests are single-process and never crash.",
     [BQ], [("lock file, write to temporary and rename", BQ)],
     "concurrency stress and crash injection at cache file operations, with an answer oracle",
     "Fault-injecting exploration: delays and SIGKILL at each file-system operation of the cache code.")

prop("C17", "The clique cache stays bounded and contained",
     "The disk cache never keeps more than its documented number of files per kind, evicting the least recently used, "
     "writes nothing outside its own directory, and clear_all_caches removes every cache file and nothing else.",
     ["histories", "inputs"], "all histories of cache use and clearing",
     "Tests never fill the cache.",
     [BQ], [("_fetch_cache eviction", BQ), ("clear_all_caches", BQ)],
     "runtime monitoring of the cache directory over random histories (audit hook on file operations)",
     "Exploration inside a scratch directory.")

prop("C18", "The clique-cache editing API round-trips and mining only improves",
     "insert_clique_embedding, merge_clique_cache, update_clique_cache, get_clique_cache and mine_clique_embeddings keep every cached embedding a valid clique of "
     "its size; inserting or merging makes largest cliques no smaller and quality no worse; setting another cache "
     "of the same graph from what get_clique_cache exports gives the same clique of every size; direct insertion changes only its own size; mining never worsens the stored cache; "
     "with write_to_disk a new object sees the result, without it the disk is not changed.",
     ["histories", "inputs"], "all sequences of cache-editing calls on all graphs",
     "Tests call each method once.",
     [BQ], [("_keep_best, merge", BQ)],
     "model-based runtime monitoring of cache-editing histories",
     "Exploration.")

prop("C19", "Clique yields are complete: no smaller answers, promised sizes on perfect graphs",
     "For one graph and cache, whenever a clique of some size is available then every smaller size is too and chain lengths do not "
     "grow as the clique shrinks; largest_clique, largest_clique_by_chainlength and find_clique_embedding agree with each other; and on fault-free graphs the "
     "sizes and chain lengths reach the known optimum of the topology.",
     ["inputs", "configurations"], "all topology sizes, faults and clique sizes",
     "Tests check a couple of sizes.",
     [BQ, BI + "clique_cache.hpp", BI + "find_clique.hpp"],
     [("clique_cache dynamic program", BI + "clique_cache.hpp")],
     "metamorphic runtime monitoring of clique yields",
     "Exploration; exhaustive over clique sizes for each graph explored.")

prop("C20", "Layouts and placements are complete and inside their target",
     "A Layout assigns every node exactly one finite point of the requested dimension, with center and scale honoured when given; a Placement maps every source "
     "node to a non-empty chain of target nodes (disjoint single nodes for intersection-free placements where documented); and layout.find_embedding returns "
     "only valid embeddings, whatever layouts, placements and parameters are used.",
     ["inputs", "configurations"], "all graphs, dimensions, centers, scales, layout and placement algorithms",
     "Tests use fixed small graphs.",
     ["minorminer/layout/layout.py", "minorminer/layout/placement.py", "minorminer/layout/__init__.py"],
     [("Layout/Placement are mappings with dual arrays", "minorminer/layout/layout.py")],
     "randomized runtime monitoring with layout/placement invariants and the embedding oracle",
     "Exploration.")

prop("C21", "Rectangle packing never overlaps and fits what it reports",
     "For any list of rectangle sizes, rpack.pack returns one non-negative integer position per rectangle, in input order, such that no two rectangles overlap, "
     "within the width and height limits if given, raising the documented exception when that is impossible; bbox_size, packing_density and overlapping agree with a direct recomputation.",
     ["inputs"], "all lists of rectangles and limits",
     "The repository does not test its packing code directly.",
     ["minorminer/_extern/rpack/__init__.py", "minorminer/_extern/rpack/_core.pyx", "minorminer/_extern/rpack/src/rpackcore.c"],
     [("cell grid search", "minorminer/_extern/rpack/src/rpackcore.c")],
     "randomized runtime monitoring of the ASan build with a geometric oracle",
     "Exploration with sanitizers and a brute-force overlap test.")

prop("C22", "Embedding diagnostics are sound and complete",
     "diagnose_embedding reports exactly the faults an embedding has (missing or empty chains, unknown nodes, overlaps, broken chains, missing edges) and nothing on a valid one; is_valid_embedding and verify_embedding agree with it, for all graph presentations.",
     ["inputs"], "all embeddings, valid or not, of all graphs",
     "Tests try one example per fault.",
     ["minorminer/utils/diagnostic.py", "minorminer/utils/exceptions.py"],
     [("diagnose_embedding generator", "minorminer/utils/diagnostic.py")],
     "differential runtime monitoring of mutated embeddings against an independent oracle",
     "Exploration.")

prop("C23", "Feasibility filters never reject an embeddable problem",
     "embedding_feasibility_filter returns False only when no embedding (or, with one_to_one, no injective subgraph embedding) exists, and lattice_size_lower_bound never exceeds the size of a lattice in which an embedding exists.",
     ["inputs"], "all source/target pairs",
     "Tests use a few pairs.",
     ["minorminer/utils/feasibility.py"],
     [("degree sequence and size bounds", "minorminer/utils/feasibility.py")],
     "runtime monitoring against constructed-feasible problems",
     "Exploration over problems feasible by construction or by an exact search.")

prop("C24", "The polynomial embedder returns only valid native embeddings",
     "The polynomial-time clique and biclique embedding processor returns only valid embeddings in the faulty Chimera graph it was given, of the requested size and labels, never smaller than it reports possible, and reproducibly for a given seed.",
     ["inputs", "configurations"], "all Chimera sizes, faults and requested sizes",
     "Tests use a few graphs.",
     ["minorminer/utils/polynomialembedder.py"],
     [("eden_processor", "minorminer/utils/polynomialembedder.py")],
     "randomized runtime monitoring with the minor-embedding oracle",
     "Exploration.")

prop("C25", "Topology utilities give valid embeddings in the graph actually given",
     "minorminer.utils' Chimera, Pegasus and Zephyr clique/biclique/grid functions return an embedding that is valid in the given (or default) target graph, with the labels asked for, or raise ValueError.",
     ["inputs", "configurations"], "all sizes, targets, faults and labels",
     "Tests use a few fixed sizes.",
     ["minorminer/utils/chimera.py", "minorminer/utils/pegasus.py", "minorminer/utils/zephyr.py"],
     [("wrappers over busclique and closed-form constructions", "minorminer/utils/chimera.py")],
     "randomized runtime monitoring with the minor-embedding oracle",
     "Exploration.")

prop("C26", "Parallel embeddings are disjoint, valid and within their limits",
     "find_multiple_embeddings and find_sublattice_embeddings return at most the requested number of embeddings, each valid and of the form the embedder gives, all of them using "
     "pairwise disjoint target nodes; with an embedder that misses nothing they stop early only when the rest of the target (of every sublattice) admits no further one; the embedder "
     "only ever sees the source and unused parts of the target, with its arguments, shuffled if asked for, and never after the timeout; graphs and embeddings given are not changed. "
     "Arrays of embeddings convert back to the same embeddings.",
     ["inputs", "configurations"], "all sources, targets, tilings and embedder functions",
     "Tests of this module need the subgraph solver, which is not part of this build, so none of them runs.",
     ["minorminer/utils/parallel_embeddings.py"],
     [("used target nodes removed between searches", "minorminer/utils/parallel_embeddings.py")],
     "runtime monitoring of every embedder call and answer under randomized workloads",
     "Exploration with recording embedders (a complete search standing in for the subgraph solver, which is not built here, failing, slow and random ones, and find_embedding) and a clock under control.")

prop("C28", "The clique and biclique code is memory safe",
     "No public call of the busclique module (clique and biclique search, caches, mining, exports) on any Chimera, Pegasus or Zephyr graph with any "
     "faults, labelling and request performs an out-of-bounds or freed access, a read of uninitialised memory, undefined behaviour, a failed internal assertion or a crash.",
     ["inputs", "configurations"], "all topology parameters, faults and requests",
     "Out-of-bounds reads in bit-mask tables rarely change an answer, so tests pass over them.",
     [BQ, BI + "cell_cache.hpp", BI + "bundle_cache.hpp", BI + "biclique_cache.hpp", BI + "clique_cache.hpp", BI + "topo_cache.hpp", BI + "util.hpp"],
     [("fat_pointer and chunk arrays indexed by cell", BI + "util.hpp")],
     "AddressSanitizer and UndefinedBehaviorSanitizer with internal assertions enabled, and valgrind, over generated faulty lattices",
     "Exploration; sanitizer red zones miss some intra-object overflows.")

prop("C29", "Repeated use leaks neither memory nor files nor threads",
     "Any call of the library (find_embedding and its hints and constraints, the miner, the layout and packing code, the clique and biclique caches, "
     "their construction, editing, export and loading, parallel embeddings), whether it succeeds, finds nothing or raises, can be repeated without end in one "
     "process: once warm, equal calls leave behind no allocated block, open file descriptor or running thread.",
     ["inputs", "histories"], "all calls, with all results and all failures, in histories of any length",
     "A test calls everything once and exits; a leak on an error path or in one cache's destructor changes no answer.",
     [BQ, MM, BI + "topo_cache.hpp", BI + "bundle_cache.hpp", BI + "cell_cache.hpp", BI + "clique_cache.hpp", BI + "biclique_cache.hpp", BI + "biclique_result_cache.hpp", FE + "find_embedding.hpp", FE + "pathfinder.hpp",
      FE + "pairing_queue.hpp"],
     [("arrays allocated with new[] and released in destructors", BI + "topo_cache.hpp"), ("C++ objects owned by extension types through raw pointers", BQ),
      ("file handles of the cache held by weak references", BQ), ("parallel pathfinder's workers joined or waited for", FE + "pathfinder.hpp")],
     "runtime monitoring of the allocator (an interposed malloc counting live blocks), descriptors and threads over repeated requests",
     "Exploration: each request is repeated 24 to 400 times; a leak must show as growth in eight rounds out of eight. Leaks of less than one block per call are not seen.",
     observe=["blocks the allocator handed out and did not get back", "/proc/self/fd", "/proc/self/task"])

prop("C30", "Names, containers and repeated edges make no difference to the search",
     "find_embedding sees only the two graphs: with the same random_seed and parameters, giving the nodes of either graph other labels of any hashable type "
     "(and translating the hints) gives the same chains, in the same order, under the other labels, or the same kind of refusal. So does passing the edges in another "
     "container, and, where both graphs are connected and nodes appear for the first time in the same order, turning edges around, repeating them, adding self-loops, "
     "or listing initial_chains, fixed_chains and restrict_chains in another order.",
     ["inputs"], "all problems, all labels of all types, all equivalent edge lists and hint mappings",
     "The tests use integers and a few strings; nothing compares a problem with its relabelled copy.",
     [MM, FE + "graph.hpp", FE + "util.hpp"],
     [("labels translated to consecutive integers at the border", MM), ("neighbours collected in ordered sets", FE + "graph.hpp"), ("hints kept in ordered maps", FE + "util.hpp")],
     "metamorphic runtime monitoring: the same search observed under renamed and rewritten inputs",
     "Exploration: compares five answers per problem. Trusts nothing but equality; the order in which equally large components are tried does follow the order of edges and is not judged.",
     observe=["return values and exceptions of find_embedding"])

prop("C27", "The subgraph solver returns only injective edge-preserving maps",
     "minorminer.subgraph.find_subgraph returns an empty dict or an injective map of source nodes to target nodes that preserves every edge and every label constraint given.",
     ["inputs"], "all graph pairs and constraints",
     "Its tests need the external solver sources.",
     ["minorminer/subgraph.pyx"], [("glasgow subgraph solver", "external/glasgow-subgraph-solver")], "", "",
     na="The Glasgow subgraph solver is a git submodule that is absent from this tree, so the module cannot be built or run here.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": list(p["observe"]) or ["the values, exceptions and side effects of the public calls"],
                            "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(HERE, "vlib/checks/%s.py" % p["id"].lower())):
            na.append({"property": p["id"], "reason": "No check has been built for it yet."})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                           "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every monitor observes the public API, the unmodified headers, or the library's own CPPDEBUG diagnostics."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
