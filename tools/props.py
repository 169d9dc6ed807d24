"""Writes properties.jsonl and MANIFEST.json.  A property with a module in checks/ is claimed; others need a reason."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, tech, note, module=None, reason=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                  tech=tech, note=note, module=module or id.lower(), reason=reason, observe=observe))


FE = "include/find_embedding/"
MMX = "minorminer/_minorminer.pyx"

prop("C01", "find_embedding returns a valid minor embedding or a declared failure",
     "For every source graph, target graph and parameter setting, a non-empty answer of find_embedding gives every source node "
     "one non-empty chain of distinct target nodes, the chains are connected and pairwise disjoint, and every source edge "
     "has a target edge between its chains. When no embedding was found the answer is an empty dictionary (or a documented "
     "initialization error). With return_overlap=True the answer is a pair whose flag is true exactly when the chains are "
     "a valid embedding.",
     ["inputs", "configurations"], "every pair of graphs (any labels, Graph or edge iterable, isolated nodes, self-loops, "
     "disconnected targets) and every combination of search parameters, fixed/initial/restricted/suspended chains and threads",
     "The tests embed a few families with fixed seeds; validity depends on the whole run of a randomized search whose chains "
     "are edited in place thousands of times.",
     [FE + "pathfinder.hpp", FE + "embedding.hpp", FE + "chain.hpp", FE + "find_embedding.hpp", MMX],
     [{"name": "chain edits keep links and reference counts", "where": FE + "chain.hpp"},
      {"name": "construct_chain_steiner / flip_back / steal_all", "where": FE + "embedding.hpp"},
      {"name": "check_improvement, heuristicEmbedding", "where": FE + "pathfinder.hpp"},
      {"name": "label translation of the answer", "where": MMX}],
     "property-based testing (Hypothesis) against a reference validity predicate",
     "Random and structured problems up to K14 into chimera/pegasus/zephyr pieces, all parameters; the judge is an "
     "independent definition of a minor embedding. Larger graphs are not explored.")

prop("C02", "Fixed chains come back unchanged and no other chain uses their qubits",
     "Whatever else is asked for, the chain of a variable listed in fixed_chains is returned exactly as given, and no qubit of a "
     "fixed chain belongs to the chain of a variable that is not fixed. This holds for find_embedding, for a miner's "
     "find_embedding and after every quickpass.",
     ["inputs", "histories", "configurations"], "every choice of fixed chains (also together with initial, restricted and "
     "suspended chains), problem, parameters and miner history",
     "The tests fix a chain or two on cliques and check the result loosely; the variable renumbering that keeps fixed variables apart "
     "is exercised with few shapes.",
     [FE + "find_embedding.hpp", FE + "embedding_problem.hpp", FE + "embedding.hpp", MMX],
     [{"name": "renumbering of fixed variables and reserved qubits", "where": FE + "find_embedding.hpp"},
      {"name": "fixed_handler_hival", "where": FE + "embedding_problem.hpp"},
      {"name": "components with reserved qubits last", "where": FE + "graph.hpp"}],
     "property-based testing (Hypothesis), invariant over answers and quickpass histories",
     "Fixed chains are generated connected, disjoint and mutually adjacent (facet calls, quickpass) or arbitrary (inconsistent).")

prop("C03", "Suspension and restriction constraints are honoured",
     "In a successful answer the chain of a variable in suspend_chains contains a qubit of each of its non-empty blobs, and only "
     "source nodes appear in the answer. With restrict_chains, a chain never contains a qubit outside the union of the "
     "domains of its variable and that variable's neighbours; in particular, when all source nodes share one domain, every "
     "chain stays inside it. Domains that leave exactly one way to embed, along a tree of qubits, do not keep it from being found.",
     ["inputs", "configurations"], "every assignment of blobs and domains to variables (suspended variables not fixed, initial "
     "chains inside the domains), every problem and parameter setting",
     "Tests use one or two hand-made domains.",
     [MMX, FE + "embedding_problem.hpp", FE + "pathfinder.hpp", FE + "chain.hpp"],
     [{"name": "auxiliary pinned variables for blobs", "where": MMX},
      {"name": "domain_handler_masked", "where": FE + "embedding_problem.hpp"},
      {"name": "accepts_qubit while stealing", "where": FE + "chain.hpp"}],
     "property-based testing (Hypothesis), invariant over answers",
     "The stronger per-variable promise in one docstring (chain inside its own domain) is contradicted by the module's own "
     "text and by the algorithm, and is not claimed.")

prop("C04", "A seeded search is deterministic and blind to presentation",
     "With the same random_seed, graphs and parameters, find_embedding gives the same answer every time, in any process. "
     "Renaming nodes, giving edge lists or iterators instead of graphs, reordering the chain dictionaries, changing the "
     "verbosity or the number of threads does not change the answer (up to the renaming).",
     ["inputs", "configurations", "histories"], "every seeded problem and every presentation of it in the same node order",
     "Tests compare two runs of one problem.",
     [FE + "util.hpp", FE + "pathfinder.hpp", FE + "embedding_problem.hpp", MMX, "minorminer/_minorminer_h.pxi"],
     [{"name": "a private random generator seeded per problem", "where": FE + "util.hpp"},
      {"name": "labels are numbered by first appearance", "where": MMX}],
     "metamorphic property-based testing (Hypothesis), also across processes with different hash seeds",
     "Thread counts up to 5 are included; runs that would hit their timeout are not.")

prop("C05", "No input crashes, corrupts memory or hangs the embedder",
     "Any call of find_embedding or of a miner's methods, with well-formed or malformed graphs, chains and parameters, ends with an "
     "answer or a Python exception within its time limit; it never kills the process, reads or writes memory out of "
     "bounds, races between its threads, or runs forever.",
     ["inputs", "histories", "configurations"], "every argument, including inconsistent chains, chains outside the largest target "
     "component, and values of the wrong type or range; every order of miner calls",
     "Tests check a dozen bad inputs, without sanitizers.",
     ["minorminer/src/pyutil.hpp", "minorminer/_minorminer_h.pxi", MMX, FE + "embedding.hpp", FE + "chain.hpp",
      FE + "find_embedding.hpp", FE + "graph.hpp"],
     [{"name": "C++ exceptions translated to Python", "where": "minorminer/src/pyutil.hpp"},
      {"name": "input validation", "where": MMX}],
     "fuzzing with ASan/UBSan, ThreadSanitizer and container assertions, crash and hang isolation, Hypothesis shrinking",
     "Signed overflow of the heuristic's distance sums and misaligned loads are not counted as violations.")

prop("C06", "A miner's operations keep their contracts over every history",
     "Over any sequence of quickpass, find_embedding, find_embeddings, improve_embeddings and set_initial_chains, each complete result is "
     "a valid embedding (or flagged otherwise), each quickpass result consists of connected chains that respect its overlap and "
     "chain-length bounds, list results have the promised length, and improving a valid embedding never loses or worsens it. "
     "A new miner's first embedding equals the function's, the same history gives the same results, and quality_key orders "
     "embeddings by validity, then overlap, then chain lengths.",
     ["histories", "inputs", "configurations"], "every operation sequence on every problem and parameter setting",
     "Tests call each method once or twice on fixed problems.",
     [MMX, FE + "pathfinder.hpp", FE + "find_embedding.hpp"],
     [{"name": "quickPass", "where": FE + "pathfinder.hpp"}, {"name": "miner", "where": MMX}],
     "stateful model-based property testing (Hypothesis)",
     "Histories of up to 8 operations; find_embeddings(force=True) only where it can end.")

prop("C07", "Starting from given chains never loses or worsens a valid embedding",
     "Started from a complete valid embedding in initial_chains (with or without skip_initialization), find_embedding succeeds with chain "
     "lengths that are no worse (longest first), and with skip_initialization and no chain-length patience returns those "
     "chains. skip_initialization accepts exactly complete sets of connected chains linked across every source edge, overlapping or not, and "
     "refuses others with an error; missing or empty entries in the chain dictionaries are ignored.",
     ["inputs", "configurations"], "every starting point, valid, overlapping or broken, every problem and parameter setting",
     "Tests restart from a couple of embeddings.",
     [FE + "embedding.hpp", FE + "pathfinder.hpp", MMX],
     [{"name": "embedding constructor, linkup and linked", "where": FE + "embedding.hpp"},
      {"name": "check_improvement", "where": FE + "pathfinder.hpp"}],
     "property-based testing (Hypothesis) of restarts from found and mutated embeddings",
     "Without skip_initialization the claim is made when max_fill and max_beta are left at their defaults.")


def write():
    mods = {f[:-3] for f in os.listdir(os.path.join(V, "checks")) if f.endswith(".py")}
    with open(os.path.join(V, "properties.jsonl"), "w") as fh:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mechanism"]}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            fh.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                 "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 lib/build.py opt", "checks": [], "not_applicable": [],
           "notes": "Each check rebuilds what it needs from /repo into /verif/.build; see DESIGN.md. "
                    "Replay: python3 lib/harness.py replay <file>."}
    for p in P:
        if p["reason"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
        elif p["module"] in mods:
            cmd = "python3 lib/harness.py run " + p["module"]
            man["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                                  "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None
    write()
    import sys
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
