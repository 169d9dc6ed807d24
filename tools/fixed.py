"""Writes the "fixed" records of known_findings.json from the fix: commits of /repo."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
    ("translate every exception thrown by the C++", "C05", "a C++ exception ended the interpreter"),
    ("ignore initial chains of fixed", "C02", "an initial chain of a fixed variable, or with a reserved qubit, shared a fixed chain's qubits or crashed"),
    ("count a qubit once", "C01", "a repeated qubit in an assigned chain left a negative or stale reference count"),
    ("make one qubit permutation", "C05", "out-of-bounds read with fixed variables"),
    ("do not follow a parent path", "C05", "endless loop / out-of-bounds from an unreached qubit"),
    ("translate C++ exceptions of the miner", "C05", "a C++ exception ended the interpreter"),
    ("map a quickpass variable order", "C02", "quickpass with an order embedded other variables than asked, fixed ones included"),
    ("honour return_overlap for an empty", "C01", "find_embedding([], T, return_overlap=True) returned no pair"),
    ("flip_back only trades", "C05", "out-of-bounds or corrupted links when trading with an unlinked chain"),
    ("give miner the documented default", "C06", "miner().find_embedding differed from find_embedding with default arguments"),
    ("respect the overlap bound", "C06", "quickpass exceeded overlap_bound next to a fixed chain"),
    ("cell_cache::inflate advances", "C11", "find_clique_embedding(n, g, use_cache=False) looped forever"),
    ("translate zephyr coordinates", "C11", "coordinate-labelled zephyr graphs with tile != 4 gave wrong chains"),
    ("best_bicliques remembers", "C13", "the last mask's biclique was kept, not the shortest"),
    ("find_biclique_embedding looks", "C13", "find_biclique_embedding(n, m) with n < m missed or lengthened bicliques"),
    ("K_{0, n} exists", "C13", "K_{0,n} refused when the graph has exactly n nodes"),
    ("a graph without bicliques", "C13", "ValueError on graphs without bicliques"),
    ("get_clique_cache(sparse=False)", "C15", "the dense cache object lacked the largest clique"),
    ("largest_clique_by_chainlength", "C12", "a longer chain length returned a smaller clique or none"),
    ("translate C++ exceptions of the clique", "C11", "a C++ exception ended the interpreter"),
    ("replace the cache files", "C14", "cache files were moved after the lock was released"),
    ("tolerate a missing file", "C14", "FileNotFoundError when evicting a file already gone"),
    ("mine_clique_embeddings computes the default", "C17", "KeyError on chimera graphs without heuristic_bound"),
    ("mine_clique_embeddings augments", "C17", "the existing cache on disk was overwritten by a smaller one"),
    ("no clique caches of width one", "C11", "out-of-bounds access for cliques of width one"),
    ("the clique cache minimizes", "C12", "smaller cliques had longer chains than cached ones"),
    ("update_clique_cache replaces", "C15", "the old cliques stayed in memory after an update"),
    ("key the caches by every edge", "C14", "graphs differing in odd couplers, or seeds, shared a cache entry (invalid embeddings)"),
    ("let several processes create", "C14", "FileExistsError when several processes use the cache for the first time"),
    ("update_clique_cache accepts", "C15", "TypeError when a coordinate-labelled graph reads its own cache object"),
    ("the largest degree of a chimera", "C25", "the filter and bound refused sources that fit because the largest degree was taken as t"),
    ("two-colorable graphs use", "C25", "bipartite lattices with a wrong color count were refused"),
    ("lattice_size_lower_bound restricts", "C25", "degrees and colors were required for chains too, so the bound exceeded the true size"),
    ("embedding_feasibility_filter returns", "C25", "a non-bool was returned"),
    ("lattice_size_lower_bound raises", "C25", "another error than documented for inconsistent T and t"),
    ("find_sublattice_embeddings searches", "C28", "one_to_iterable was ignored with a tile"),
    ("find_sublattice_embeddings without a tile passes", "C28", "the limits, seed and embedder were dropped without a tile"),
    ("find_sublattice_embeddings generates", "C28", "T=None without a tile failed"),
    ("array_to_embeddings inverts", "C28", "square arrays were transposed"),
    ("find_sublattice_embeddings shuffles", "C28", "shuffle_all_graphs did nothing inside the tiles"),
    ("p_norm uses the given distances", "C22", "G_distances was ignored or attributed to the wrong nodes"),
    ("p_norm minimizes the infinity norm", "C22", "the gradient of the infinity norm was wrong but in two dimensions"),
    ("scaling a layout that is a single point", "C21", "division by zero gave NaN positions"),
    ("components are packed in two dimensions", "C22", "disconnected graphs in other dimensions failed"),
    ("pack components that are laid out on a line", "C22", "division by zero / overlaps with degenerate bounding boxes"),
    ("graph_layout of nodes in a single row", "C22", "division by zero gave NaN positions"),
    ("setting the position of a vertex", "C21", "layout_array, center and scale kept the old position"),
    ("closest respects the lower bound", "C23", "subsets smaller than subset_size[0] were used"),
    ("closest with more neighbors than", "C23", "an index out of range with num_neighbors beyond the number of subsets"),
    ("intersection on grids with a single", "C23", "division by zero on 1 x n grids"),
    ("layout.find_embedding accepts edges", "C20", "edge lists, which are documented, failed"),
    ("layout.find_embedding uses an explicit", "C20", "the layout given for a lattice target was replaced"),
    ("layouts and placements of the empty", "C23", "the empty graph raised IndexError"),
    ("Placement scales the source to scale_ratio", "C23", "scale_ratio was ignored for sources larger than the target"),
    ("largestNativeClique accepts long", "C27", "TypeError for max_chain_length beyond M + N"),
    ("count the lines that start at", "C27", "lines of one qubit after a missing coupler were not counted, smaller cliques and bicliques were found"),
    ("quickpass with local_search", "C19", "variables without a chain were looked for within zero qubits and never embedded"),
    ("the parallel search weighs", "C19", "with threads, the first variable of a component was placed by stale weights"),
    ("a keyboard interrupt noticed by the logger", "C30", "an interrupt while a message was logged was swallowed"),
    ("an interrupt in interactive mode stops", "C30", "after an interrupt the search went on with the next try, or with shortening chains"),
    ("a pass that fails looks for interrupts", "C30", "an interrupt or time limit that came during a failing pass let two more tries begin"),
    ("resetting a topology restores", "C14", "with more than six internal couplers missing, the answers of one cache object depended on its history"),
    ("a component of one isolated node", "C10", "components::size() was 0 for it"),
]


def main():
    sys_log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"],
                                      text=True).splitlines()
    out = []
    for line in sys_log:
        h, s = line.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        m = [p for p in PROP if s[5:].startswith(p[0])]
        assert len(m) == 1, s
        out.append(f"fixed: property={m[0][1]} {h} {m[0][2]}")
    path = os.path.join(V, "known_findings.json")
    with open(path) as fh:
        k = json.load(fh)
    k["fixed"] = out
    with open(path, "w") as fh:
        json.dump(k, fh, indent=1)
        fh.write("\n")


main()
