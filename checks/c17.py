"""busclique: mining cliques only improves the cache, and what it keeps is valid and on disk."""
import random
import shutil

import networkx as nx
from hypothesis import strategies as st

import buscase as b
import gen
from harness import BQ, Discard, Facet, Info, ensure

PROPERTY = "C17"
RULE = ("damaged graphs of the three families in their labellings, mined once or several times with random seeds, quality "
        "functions, mask bounds and heuristic sizes; non-trivial = the graph has a clique of size 3 and some mining step ran; "
        "distinct by the whole case")
ASSUMPTIONS = ["heuristic runs are short"]

QUALITY = {"none": None, "most": lambda e: sum(map(len, e)), "total": lambda e: -sum(map(len, e)), "longest": lambda e: max(map(len, e), default=0),
           "labels": lambda e: sum(sum(c) for c in e),
           "pair": lambda e: (-max(map(len, e), default=0), -sum(map(len, e)))}


@st.composite
def case(draw):
    t = draw(b.topology(big=False))
    if draw(st.booleans()):
        t["dn"], t["dl"] = t["dn"][:4], []
    call = st.fixed_dictionaries({
        "quality": st.sampled_from(sorted(QUALITY)), "regularize": st.booleans(), "seeds": st.integers(0, 3),
        "mask": st.sampled_from([1, 4, 64]), "bound": st.sampled_from([None, 0, 3, 4, 6]), "runs": st.sampled_from([1, 2]),
        "args": st.sampled_from([0, 1])})
    return {"t": t, "label": draw(st.integers(0, 1)), "calls": draw(st.lists(call, min_size=1, max_size=3)),
            "rnd": draw(st.integers(0, 10**6)), "own": draw(st.booleans())}


@st.composite
def reg_case(draw):
    """Heuristic cliques with room around them, whose chains are filled up to one length in several rounds."""
    fam, args = draw(st.sampled_from([("c", [3, 3, 4]), ("c", [4, 4, 2]), ("c", [5, 5, 2]), ("c", [4, 4, 4]), ("p", [2]), ("z", [2, 2]),
                                      ("z", [1, 4])]))
    t = {"fam": fam, "args": args, "dn": draw(st.lists(st.integers(0, 2999), max_size=3)), "de": [], "dl": [], "order": 0}
    call = st.fixed_dictionaries({
        "quality": st.sampled_from(["none", "most", "most", "longest"]), "regularize": st.just(True), "seeds": st.integers(0, 1),
        "mask": st.just(1), "bound": st.sampled_from([5, 6, 8, 10]), "runs": st.sampled_from([2, 4]), "args": st.just(1)})
    return {"t": t, "label": 0, "calls": draw(st.lists(call, min_size=1, max_size=2)), "rnd": draw(st.integers(0, 10**6)), "own": False}


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        label = b.LABELS[t["fam"]][c["label"]]
        g = b.graph(t, label)
        nodes, edges = b.damaged(t)
        f = b.translator(t, label)
        inv = {f(q): q for q in nodes}
        if not edges:
            raise Discard()
        random.seed(c["rnd"])

        def cliques(B):
            N = len(B.largest_clique())
            out = {}
            for n in range(N + 1):
                e = B.find_clique_embedding(n)
                errs = gen.emb_errors(e, nx.complete_graph(n), g)
                ensure(not errs, "invalid clique of size %d: %s\n%r", n, errs[:3], e)
                ensure(n == 0 or len(e) == n, "size %d is missing", n)
                out[n] = [tuple(inv[q] for q in e[i]) for i in range(n)]
            for l in range(1, 9):
                e = B.largest_clique_by_chainlength(l)
                errs = gen.emb_errors(e, nx.complete_graph(len(e)), g)
                ensure(not errs, "invalid clique for chain length %d: %s\n%r", l, errs[:3], e)
                ensure(all(len(x) <= l for x in e.values()), "chain length %d exceeded: %r", l, e)
            return out

        before = cliques(bc.busgraph_cache(g))
        if c["own"] and len(before) > 3:
            # a clique of the user's in the cache, with a needlessly long chain
            B = bc.busgraph_cache(g)
            e = B.find_clique_embedding(2)
            used = set(e[0]) | set(e[1])
            free = sorted(q for p in e[0] for q in g[p] if q not in used)
            if free:
                e[0] += (free[0], )
                B.insert_clique_embedding(e, direct=True)
                before = cliques(bc.busgraph_cache(g))
                ensure(sorted(map(len, before[2]))[-1] >= 2, "the inserted clique is not there: %r", before[2])
        worked = False
        for k in c["calls"]:
            q = QUALITY[k["quality"]]
            args = None if k["args"] == 0 else dict(tries=1, max_no_improvement=1, chainlength_patience=0, threads=2,
                                                            random_seed=c["rnd"])
            bound = k["bound"]
            if bound is None and (t["fam"] != "c" and t["args"][0] > 2 or args is None):
                bound = 3
            B = bc.mine_clique_embeddings(g, quality_function=q, regularize=k["regularize"], num_seeds=k["seeds"],
                                          mask_bound=k["mask"], heuristic_bound=bound, heuristic_args=args,
                                          heuristic_runs=k["runs"])
            after = cliques(B)
            ensure(len(after) >= len(before), "the largest clique shrank from %d to %d", len(before) - 1, len(after) - 1)
            for n in range(1, len(before)):
                if q is None:
                    x, y = max(map(len, before[n])), max(map(len, after[n]))
                    ensure(y <= x, "the longest chain of size %d grew from %d to %d", n, x, y)
                else:
                    x, y = q(before[n]), q(after[n])
                    ensure(y >= x, "the quality of size %d dropped from %r to %r:\n%r\n%r", n, x, y, before[n], after[n])
            disk = cliques(bc.busgraph_cache(g))
            ensure(disk == after, "the cache on disk differs from the one returned")
            before = after
            worked = worked or k["seeds"] or bound is None or bound > 2
        return Info(bool(worked) and len(before) > 3, [t["fam"], label])
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [Facet("mine", case, run, 1500, 30000, exts=BQ, case_timeout=120),
          Facet("regularized", reg_case, run, 500, 10000, exts=BQ, case_timeout=120)]
