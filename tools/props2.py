BQX = "minorminer/busclique.pyx"
BI = "include/busclique/"

prop("C11", "Every clique and biclique embedding of busclique is valid in the given graph",
     "For every Chimera, Pegasus or Zephyr graph with any qubits and couplers missing, in every labelling, every embedding returned by "
     "busclique (cached, one-shot, by chain length, balanced or unbalanced bicliques) is a valid embedding of the complete or complete "
     "bipartite graph asked for, on the requested node labels, using only qubits and couplers of that graph, or it is empty. The same "
     "graph in another labelling has the translated answers.",
     ["inputs", "configurations"], "all topologies and sizes, all sets of missing qubits and couplers, labels, seeds, sizes asked for",
     "Tests use one or two random yield patterns per family; defects show up for particular combinations of missing couplers.",
     [BQX, BI + "topo_cache.hpp", BI + "cell_cache.hpp", BI + "bundle_cache.hpp", BI + "clique_cache.hpp", BI + "util.hpp",
      BI + "small_cliques.hpp"],
     [{"name": "node, edge and badmask processing per topology", "where": BI + "util.hpp"},
      {"name": "inflate: ells to chains", "where": BI + "bundle_cache.hpp"},
      {"name": "label translation", "where": BQX}],
     "property-based testing (Hypothesis) of damaged topologies against a reference validity predicate",
     "Graphs up to pegasus 4, zephyr(3,4), chimera 6x6.")

prop("C12", "Clique embeddings are as large and as short-chained as the construction allows",
     "On every graph whose cells miss few internal couplers, the largest clique and the chain length of every smaller clique "
     "are those of the exhaustive reference construction (staircases of line segments over every way of avoiding missing couplers), "
     "and perfect graphs reach the documented sizes. A clique of size n exists for every n up to the largest, chain lengths do not "
     "decrease with n, and one-shot, by-length and cached answers agree.",
     ["inputs", "configurations"], "all families, sizes and damage patterns",
     "Optimality over all masks and rectangles cannot be read off a few fixed yields.",
     [BI + "clique_cache.hpp", BI + "find_clique.hpp", BI + "topo_cache.hpp", BI + "bundle_cache.hpp", BQX],
     [{"name": "clique dynamic program", "where": BI + "clique_cache.hpp"},
      {"name": "mask enumeration", "where": BI + "topo_cache.hpp"},
      {"name": "size and length index of the cache", "where": BQX}],
     "property-based testing (Hypothesis), differential against a reference dynamic program",
     "Exact comparison where at most 6 couplers inside cells are missing (beyond that the code samples masks).")

prop("C13", "Biclique embeddings have the best chain length, for either order of the sides",
     "find_biclique_embedding(n, m) answers exactly when a biclique with sides at least n and m exists in the construction, with the "
     "shortest possible longest chain, assigns the requested labels to the right sides in either order, and "
     "largest_balanced_biclique has the largest smaller side.",
     ["inputs", "configurations"], "all families, damage patterns, sizes (zero included) and label lists",
     "Tests ask for a few bicliques of undamaged graphs.",
     [BI + "find_biclique.hpp", BI + "biclique_cache.hpp", BQX],
     [{"name": "best_bicliques", "where": BI + "find_biclique.hpp"}, {"name": "biclique yield cache", "where": BI + "biclique_cache.hpp"},
      {"name": "lookup by side", "where": BQX}],
     "property-based testing (Hypothesis), differential against an exhaustive reference",
     "Same bounds as C12.")

prop("C14", "The file cache never changes an answer, whatever happened to it",
     "Over every history of uses on different graphs and seeds, reopenings, removals of cache files, crashes at any file "
     "operation and concurrent threads and processes, answers served through the disk cache equal a fresh computation (or "
     "what was stored on purpose for exactly that graph). At most 100 files are kept, the most recently used ones, and "
     "no user fails because another one evicts, writes or dies.",
     ["histories", "crash_points", "schedules"], "sequences of up to dozens of operations on a pool of near-identical graphs, a crash "
     "before, after or in the middle of each file operation, 2-4 processes of 1-3 threads",
     "The tests use one cache directory in one process, in order.",
     [BQX], [{"name": "_fetch_cache with locks, LRU list and copy on close", "where": BQX},
             {"name": "cache keys", "where": BQX}],
     "stateful property-based testing (Hypothesis) with fault injection and real concurrency",
     "Crashes are injected at os.replace, os.remove and pickle calls; thread schedules are the operating system's.")

prop("C15", "A clique cache behaves like a map from sizes to best cliques",
     "Inserting, merging, updating and reading clique caches follows a simple model: each size holds one clique; direct insertion "
     "replaces it, other insertions and merges replace it (and the sizes below) only if the quality improves, updates replace "
     "everything, and cache objects of every format round-trip in every labelling. Memory and disk change exactly when asked to.",
     ["histories", "inputs"], "every sequence of operations on several cache objects of one graph, quality functions, formats",
     "Tests make single calls and compare sizes.",
     [BQX], [{"name": "insert_clique_embedding / merge_clique_cache / update_clique_cache / get_clique_cache", "where": BQX}],
     "stateful property-based testing (Hypothesis) against a reference model",
     "The embeddings inserted are valid ones.")

prop("C16", "Topology identifiers and drawn fragments describe exactly the graph",
     "Two graphs of a family have the same topology identifier exactly when they have the same dimensions, offsets, qubits and "
     "(non-odd) couplers, independent of labelling, ordering and direction of the couplers. The fragment graph and chains drawn by "
     "draw_fragment_embedding are those of the graph and the embedding.",
     ["inputs"], "all pairs of graphs one change apart or presented differently",
     "Tests compare a handful of graphs.",
     [BQX, BI + "util.hpp", BI + "topo_cache.hpp"],
     [{"name": "serialization of masks", "where": BI + "util.hpp"}, {"name": "fragment_nodes / fragment_edges", "where": BI + "topo_cache.hpp"}],
     "property-based testing (Hypothesis): metamorphic pairs, and a reference fragment graph",
     "Graphs of different families are not compared.")

prop("C17", "Mining cliques only ever improves the cache",
     "After mine_clique_embeddings, whatever its parameters, every size cached before is still there with a quality at least as "
     "good, every cached clique is valid, and the disk holds the returned cache; repeated calls never lose anything.",
     ["histories", "configurations", "inputs"], "all graphs, labels, seeds, quality functions, bounds, and sequences of calls",
     "The test is a smoke test of one call.",
     [BQX], [{"name": "mine_clique_embeddings, _regularize_embedding", "where": BQX}],
     "stateful property-based testing (Hypothesis) with validity and monotonicity oracles",
     "Heuristic runs are kept short; sizes up to 6.")

prop("C24", "Embedding diagnosis reports exactly the faults that are there",
     "diagnose_embedding yields a missing-chain, invalid-node, chain-overlap, disconnected-chain or missing-edge problem for each such "
     "fault of the assignment and for nothing else; is_valid_embedding and verify_embedding accept exactly the minor embeddings, for graphs "
     "and edge lists alike.",
     ["inputs"], "all sources, targets and assignments, valid or damaged in any way, labels and container types",
     "Tests show one hand-made example of each fault; combinations (an overlap inside a disconnected chain with a missing edge) are open.",
     ["minorminer/utils/diagnostic.py", "minorminer/utils/exceptions.py"],
     [{"name": "diagnose_embedding", "where": "minorminer/utils/diagnostic.py"}],
     "property-based testing (Hypothesis) against the definition of a minor embedding", "Up to 6 source and 20 target nodes.")

prop("C25", "The feasibility filter rejects nothing that can be embedded",
     "embedding_feasibility_filter returns True whenever an embedding (one to one, or by chains) exists, and lattice_size_lower_bound "
     "never exceeds the size of a lattice the source embeds in, nor lattice_size fall below it; they return the documented types and errors.",
     ["inputs", "configurations"], "all sources and targets in which they are planted, all lattices and damage",
     "A necessary condition that is slightly too strong only shows on graphs built to sit at the boundary.",
     ["minorminer/utils/feasibility.py"],
     [{"name": "embedding_feasibility_filter", "where": "minorminer/utils/feasibility.py"},
      {"name": "lattice_size_lower_bound", "where": "minorminer/utils/feasibility.py"}],
     "property-based testing (Hypothesis) with planted minors as witnesses",
     "Soundness only, with witnesses by construction; sharpness is not claimed.")

prop("C26", "The lattice helpers give valid embeddings on the requested labels, or refuse",
     "The clique, biclique and grid functions of the chimera, pegasus and zephyr helpers return a valid embedding of exactly the labels "
     "or graphs asked for into the lattice (perfect, damaged or given as edges), and raise ValueError exactly when none of that "
     "size exists.",
     ["inputs", "configurations"], "all lattice sizes, damage, sizes, label lists, graphs and grids",
     "Tests check a few sizes on perfect lattices with integer labels.",
     ["minorminer/utils/chimera.py", "minorminer/utils/pegasus.py", "minorminer/utils/zephyr.py", BQX],
     [{"name": "find_clique_embedding / find_biclique_embedding / find_grid_embedding", "where": "minorminer/utils/chimera.py"}],
     "property-based testing (Hypothesis) against the validity predicate and busclique's largest sizes",
     "Largest sizes are busclique's, which C12 and C13 decide.")

prop("C28", "Parallel embeddings are disjoint, valid and stay in their tiles",
     "find_multiple_embeddings and find_sublattice_embeddings return pairwise disjoint valid embeddings inside the target (and inside one "
     "displaced tile each), at most as many as asked for, as many as fit for a search that gives up only when there is no further "
     "embedding, repeatably for a seed, without changing the caller's graphs; embeddings_to_array and array_to_embeddings invert each other.",
     ["inputs", "configurations"], "all sources, targets, tiles, embedders, filters, seeds and limits",
     "Tests use small squares in perfect lattices.",
     ["minorminer/utils/parallel_embeddings.py"],
     [{"name": "find_multiple_embeddings", "where": "minorminer/utils/parallel_embeddings.py"},
      {"name": "find_sublattice_embeddings", "where": "minorminer/utils/parallel_embeddings.py"},
      {"name": "embeddings_to_array / array_to_embeddings", "where": "minorminer/utils/parallel_embeddings.py"}],
     "property-based testing (Hypothesis) with a replayed greedy search as the reference",
     "minorminer.subgraph cannot be built here and is replaced by an exact matcher.")

LY = "minorminer/layout/layout.py"
PL = "minorminer/layout/placement.py"
LI = "minorminer/layout/__init__.py"
RP = "minorminer/_extern/rpack/"

prop("C20", "layout.find_embedding is find_embedding started from the given placement",
     "layout.find_embedding computes the source and target layouts asked for (function, pair, dictionaries, Layout objects or the documented "
     "defaults, with dim, center and scale), places one on the other with the placement asked for and its keywords, and returns exactly what "
     "minorminer.find_embedding returns with that placement as initial_chains or suspend_chains and all other parameters passed through; "
     "return_layouts gives those layouts; graphs, edge lists and dictionaries are equivalent; arguments are left unchanged.",
     ["inputs", "configurations"], "all sources, targets, forms of layouts, placements, hint types and parameters",
     "Tests only check that the calls return.",
     [LI, LY, PL], [{"name": "find_embedding", "where": LI}, {"name": "_parse_layout_parameter", "where": LI}],
     "property-based testing (Hypothesis): differential against the composition of the public parts",
     "find_embedding itself is judged by C01-C07, the parts by C21-C23.")

prop("C21", "A Layout is one consistent object through any history of changes",
     "After any sequence of setting dim, center, scale, layout, layout_array or vertices, a Layout's mapping, array (in sorted vertex order), "
     "dim, center and scale describe the same points, which are those the operations ask for: center moves, scale stretches about the center, "
     "dim adds zero coordinates and nothing else changes; the constructor accepts functions and dictionaries and refuses "
     "contradicting arguments.",
     ["histories", "inputs"], "all graphs, starting positions, dimensions and sequences of changes",
     "Tests read each attribute once after construction.",
     [LY], [{"name": "Layout", "where": LY}, {"name": "setters of dim, center, scale, layout, layout_array", "where": LY}],
     "stateful property-based testing (Hypothesis) against a reference model of points",
     "Vertices that are not in the graph, and deletions, are excluded.")

prop("C22", "Layout functions draw what they promise",
     "p_norm returns finite points of the dimension asked for around the center, in which no descent step from its result, nor its start, has "
     "clearly less distortion of the given (or graph) distances, whatever the norm and node order; graph_layout is the lattice's own drawing, filling "
     "center and scale; the components of a disconnected graph keep their shapes and are packed without overlap; "
     "rpack places every rectangle without overlap inside the limits, or reports that it cannot.",
     ["inputs", "configurations"], "all graphs, orders, norms, dimensions, distances, lattices, damage and rectangles",
     "Tests only compare types and lengths.",
     [LY, RP],
     [{"name": "p_norm", "where": LY}, {"name": "graph_layout", "where": LY}, {"name": "_pack", "where": LY},
      {"name": "pack", "where": RP + "_core.pyx"}],
     "property-based testing (Hypothesis): numerical descent oracle, dwave.graphs' drawings and geometric invariants",
     "p_norm is judged as a local minimizer with tolerances; the quality of the packing is not judged.")

prop("C23", "Placements put each vertex where the documentation says",
     "closest maps each source vertex to a connected set of target nodes within subset_size that is among its num_neighbors nearest "
     "(preferring unused ones); intersection maps it to the qubits that cross at the nearest "
     "grid point; Placement scales the source as scale_ratio says, leaves its arguments alone, passes its keywords on and is a mutable mapping.",
     ["inputs", "configurations"], "all graphs, positions, dimensions, subset sizes, lattices and damage",
     "Tests check types and the length of one placement.",
     [PL], [{"name": "closest", "where": PL}, {"name": "intersection", "where": PL}, {"name": "Placement", "where": PL}],
     "property-based testing (Hypothesis) against brute force over subsets, and dwave.graphs' coordinates",
     "Zephyr's grid may be transposed as a whole; ties may go either way.")

PE = "minorminer/utils/polynomialembedder.py"

prop("C27", "The native Chimera embedder finds the largest and tightest cliques, bicliques",
     "processor's largest and tightest native cliques and bicliques are disjoint coupled paths of the Chimera graph, within the chain length "
     "and imbalance limits; their sizes are the largest (or exactly those asked for, whenever they exist) over all ways to give up "
     "qubits with missing couplers, and their chains the shortest for that size, in linear and Chimera coordinates.",
     ["inputs", "configurations"], "all damaged Chimera graphs, sizes, widths, limits and orders of the couplers",
     "Tests compare a few fixed seeds on whole processors.",
     [PE], [{"name": "processor, eden_processor", "where": PE}, {"name": "maxCliqueWithRectangle", "where": PE},
            {"name": "vline_score / hline_score", "where": PE}],
     "property-based testing (Hypothesis) against a reference search over staircases and rectangles",
     "Up to 5 x 5 cells; sizes claimed for at most 6 missing couplers inside cells, shortest chains when there are none.")

prop("C08", "Chains keep exact books under every history of embedding operations",
     "After any history of tearing out, freezing, thawing, building (plainly or by Steiner nodes), flipping back, stealing, copying and "
     "restoring chains, every chain is a tree of coupled qubits hanging from its root, reference counts and qubit weights equal the actual numbers "
     "of references and chains, links between interacting variables are mutual and name coupled or shared qubits, and linked() and statistics() "
     "report the actual state; thawing and restoring give back the exact former embedding; each operation changes only the chains it may, "
     "keeps within domains and target sizes, leaves fixed chains alone and no loose ends behind.",
     ["histories", "inputs"], "all problems, given chains, domains and sequences of operations as the search uses them",
     "The books are edited in place thousands of times per call, and an error shows only as a rare invalid or missing embedding.",
     [FE + "chain.hpp", FE + "embedding.hpp", FE + "embedding_problem.hpp"],
     [{"name": "chain: add_leaf, trim_branch, steal, link_path, freeze, thaw", "where": FE + "chain.hpp"},
      {"name": "embedding: construct_chain(_steiner), flip_back, steal_all, statistics", "where": FE + "embedding.hpp"}],
     "stateful property-based testing (Hypothesis) of the C++ classes under AddressSanitizer against an independent account",
     "Up to 8 variables, 20 qubits and 14 operations (each one to five calls).")

prop("C09", "The priority queue pops in priority order over any history",
     "A pairing_queue always shows an entry of least (or greatest, for the max tag) priority, ties broken by the given tie-break, among those put in since "
     "the last reset and not popped, with the data it was put in with; it is empty exactly when all were popped; moving it keeps its contents. "
     "collectMinima finds the positions of all least entries of a list.",
     ["histories", "inputs"], "all sequences of insertions, pops, resets and moves within the capacity, all priorities",
     "Shortest paths are only shortest when no history of the queue loses or misorders an entry.",
     [FE + "pairing_queue.hpp", FE + "util.hpp"],
     [{"name": "merge_pairs, merge_roots", "where": FE + "pairing_queue.hpp"}, {"name": "collectMinima", "where": FE + "util.hpp"}],
     "stateful property-based testing (Hypothesis) of the C++ class under AddressSanitizer against a sorted list",
     "Up to 400 entries.")

prop("C10", "Graphs and components translate between labels without loss",
     "For every edge list (loops, repeated edges and isolated nodes included), neighborhoods hold exactly the other ends of a node's "
     "edges, relabelled, masked, and with edges into sources and out of sinks left out as asked; the components partition the nodes, largest first, with "
     "the reserved nodes last, their sizes, graphs and neighborhoods are those of the induced subgraphs, and translating nodes into "
     "a component and back is the identity, refused exactly when a node is not in it.",
     ["inputs"], "all edge lists, reserved sets, relabellings, masks that are unions of components, and queries",
     "All of find_embedding's numbering passes through these classes; fixed chains and broken targets exercise the rare paths.",
     [FE + "graph.hpp"], [{"name": "input_graph::get_neighbors*", "where": FE + "graph.hpp"}, {"name": "components", "where": FE + "graph.hpp"}],
     "property-based testing (Hypothesis) of the C++ classes under AddressSanitizer against a reference",
     "Up to 30 nodes.")

prop("C18", "Variable orders visit every variable as promised; weights never overflow",
     "Every order of the free variables (shuffled, depth, breadth, priority and reverse priority first) is a permutation that "
     "finishes each connected component before the next, entering a variable only next to a visited one; breadth first visits by "
     "distance, priority first always takes a variable with the most visited or fixed neighbors, its reverse one with the fewest (when first seen, or now); keep repeats the last order. "
     "Qubit weights start at 1, grow with the overlap, never beyond max_beta per step, and no sum of them along the paths of one chain can overflow; "
     "the overlap limit is the largest for which this holds, up to max_fill.",
     ["inputs", "histories"], "all variable graphs, sequences of requests, max_fill, max_beta and problem sizes",
     "A variable missed by an order is never improved; an overflowing weight shows only on rare problems.",
     [FE + "embedding_problem.hpp"],
     [{"name": "var_order, pfs/bfs/dfs_component", "where": FE + "embedding_problem.hpp"},
      {"name": "compute_margin, reset_mood, populate_weight_table", "where": FE + "embedding_problem.hpp"}],
     "stateful property-based testing (Hypothesis) of the C++ class under AddressSanitizer against a reference",
     "Up to 28 variables; reverse priority order is only judged as a connected traversal.")

prop("C19", "A free variable among fixed chains gets a shortest chain; isolated, one qubit",
     "When every neighbor of a variable has a fixed chain, find_embedding, miner and quickpass find a chain for it exactly when a connected set of free "
     "qubits touches all those chains, with the fewest qubits possible for one or two neighbors and no more than the best meeting "
     "of shortest paths for more (within chainlength_bound in a quickpass); isolated variables fit whenever there are as many free qubits, on one qubit each.",
     ["inputs", "configurations"], "all targets, fixed chains, labels and search parameters",
     "Shortest path search is only ever tested through whole embeddings, whose chain lengths nobody predicts.",
     [FE + "pathfinder.hpp", FE + "embedding.hpp", FE + "chain.hpp", FE + "pairing_queue.hpp", MMX],
     [{"name": "compute_distances_from_chain, accumulate_distance", "where": FE + "pathfinder.hpp"},
      {"name": "construct_chain_steiner", "where": FE + "embedding.hpp"}, {"name": "quickPass, find_short_chain", "where": FE + "pathfinder.hpp"}],
     "property-based testing (Hypothesis) against breadth first search",
     "Up to six neighbors; local search with three or more neighbors, and hints without overlap improvement, are excluded.")

prop("C29", "minorminer.subgraph finds a subgraph isomorphism exactly when there is one",
     "find_subgraph(source, target) returns an injective map of source nodes to target nodes that keeps every edge (and the requested "
     "labels), exactly when there is one.",
     ["inputs", "configurations"], "all graphs, labels and solver options", "The solver explores a search tree that no sample of inputs covers.",
     ["minorminer/subgraph.pyx"], [{"name": "find_subgraph", "where": "minorminer/subgraph.pyx"}],
     "none", "",
     reason="the sources of the Glasgow solver (a git submodule) are absent from this tree and nothing can be fetched: the module can be neither built nor imported, so there is nothing to run generated inputs on")


prop("C30", "A search stops when told to, by an interrupt or its time limit, at any point",
     "Wherever in a find_embedding (function or miner) a keyboard interrupt arrives or the time limit expires, the search stops "
     "after at most one further pass of each kind. An interactive search then returns the best embedding found before (never "
     "losing or worsening it), or the declared failure; otherwise an interrupt reaches the caller as KeyboardInterrupt. A "
     "search past its time limit returns like an interactive one, however many tries were asked for, and a miner remains usable.",
     ["fault_sequences", "inputs", "configurations"], "every moment of every search, every problem and parameter setting",
     "Tests cannot place an interrupt at a chosen point of a search, and no test interrupts one.",
     [FE + "pathfinder.hpp", FE + "util.hpp", "minorminer/src/pyutil.hpp", MMX],
     [{"name": "check_stops", "where": FE + "pathfinder.hpp"}, {"name": "cancelled", "where": FE + "util.hpp"},
      {"name": "exception translation", "where": "minorminer/src/pyutil.hpp"}],
     "fault injection at generated points (interrupts and expiries placed at log messages), Hypothesis shrinking",
     "Stops are placed at log messages; the search notices them once per pass.")

prop("C31", "The search log is complete for its verbosity and reports the truth",
     "With verbose=0 nothing is logged; each higher verbosity only adds messages and never changes the answer. Messages go to stdout "
     "if interactive and to the logger at the info level otherwise. Reported qubit fills and chain lengths are those of the best "
     "state so far: each report of an improvement is one, and the last agrees with the chains returned; 'embedding found' is "
     "reported exactly once if an embedding is found, and never otherwise.",
     ["inputs", "configurations"], "every problem and parameter setting at every verbosity",
     "Tests never look at the messages.",
     [FE + "pathfinder.hpp", FE + "util.hpp", FE + "embedding_problem.hpp", FE + "embedding.hpp", MMX, "minorminer/src/pyutil.hpp"],
     [{"name": "check_improvement", "where": FE + "pathfinder.hpp"}, {"name": "output_handler", "where": FE + "embedding_problem.hpp"},
      {"name": "wrap_logger", "where": MMX}],
     "property-based testing (Hypothesis), log against answer and against lower verbosities",
     "Messages that do not parse are not judged; debug output is not compiled in.")

prop("C32", "Calls leave their arguments alone, and answers belong to the caller",
     "No public function, class or method of minorminer, minorminer.busclique, minorminer.layout or minorminer.utils changes the "
     "graphs, mappings, lists, arrays, Layout or Placement objects given to it, whether it returns or raises, down to the order of nodes "
     "and edges and their data (except where documented: the first layout of intersection, T_kwargs of "
     "find_sublattice_embeddings). Changing an answer of busclique, diagnosis or feasibility in place never changes a later answer.",
     ["inputs", "configurations", "histories"], "every public call with every kind of argument",
     "Tests build fresh arguments for each call and drop the answers.",
     [MMX, "minorminer/busclique.pyx", "minorminer/layout/layout.py", "minorminer/layout/placement.py",
      "minorminer/layout/__init__.py", "minorminer/utils/parallel_embeddings.py", "minorminer/utils/feasibility.py",
      "minorminer/utils/diagnostic.py", "minorminer/utils/polynomialembedder.py"],
     [{"name": "layout.find_embedding", "where": "minorminer/layout/__init__.py"},
      {"name": "find_multiple_embeddings", "where": "minorminer/utils/parallel_embeddings.py"},
      {"name": "busgraph_cache", "where": "minorminer/busclique.pyx"}],
     "property-based testing (Hypothesis): inputs of the other checks, every call compared before and after, answers destroyed and asked again",
     "Iterators are consumed by their nature and not compared.")
