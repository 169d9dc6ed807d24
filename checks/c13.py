"""busclique: bicliques are valid, found whenever the construction has them, and short."""
import random
import shutil

import networkx as nx
from hypothesis import strategies as st

import buscase as b
import gen
from harness import BQ, Facet, Info, ensure

PROPERTY = "C13"
RULE = ("a damaged chimera/pegasus/zephyr graph and side sizes (numbers or label lists, zero included); non-trivial = a biclique with both "
        "sides of 2 or more was found; distinct by the whole case")
ASSUMPTIONS = ["existence is compared with the reference when at most 6 couplers are missing inside cells (3 for pegasus, for cost)",
               "the reference for a chain length is the longest line across a rectangle; the answer may be shorter when that line is missing"]


@st.composite
def case(draw):
    t = draw(b.topology(big=False))
    hi = draw(st.sampled_from([4, 12, 40]))
    side = st.integers(0, hi)
    return {"t": t, "label": draw(st.sampled_from(["int", "coordinate"])), "seed": draw(st.integers(0, 2**32 - 1)),
            "q": draw(st.lists(st.tuples(side, side, st.sampled_from(["ii", "il", "li", "ll"])).map(list), min_size=1, max_size=10)),
            "names": draw(st.sampled_from(["str", "tuple", "neg", "frozenset"]))}


@st.composite
def six_case(draw):
    t = draw(b.six_topology())
    if draw(st.booleans()):
        # long lattices: the ways to avoid the couplers lead to several lengths of the same biclique
        t["args"] = draw(st.sampled_from([[1, 8, 2], [8, 1, 2], [1, 10, 1], [1, 7, 3], [2, 8, 1], [7, 2, 2], [1, 6, 4]]))
        t["fam"] = "c"
        t["de"] = t["de"][:draw(st.integers(3, 6))]
        t["dn"] = draw(st.lists(st.integers(0, 2999), max_size=8))
    return {"t": t, "label": "int", "seed": draw(st.integers(0, 2**32 - 1)), "q": [], "names": "str"}


def length(e):
    return max(map(len, e.values()), default=0)


def ask(B, n, m, how, names, g):
    f = gen.LABELS[names]
    left = n if how[0] == "i" else [f(i) for i in range(n)]
    right = m if how[1] == "i" else [f(i + 1000) for i in range(m)]
    e = B.find_biclique_embedding(left, right)
    a = list(range(n)) if how[0] == "i" else left
    z = list(range(n, n + m)) if how[1] == "i" else right
    if e:
        S = nx.Graph()
        S.add_nodes_from(a + z)
        S.add_edges_from((x, y) for x in a for y in z)
        ensure(set(e) == set(S), "K%d,%d: chains for %r", n, m, list(e))
        ensure(all(isinstance(ch, tuple) for ch in e.values()), "K%d,%d: chains are not tuples: %r", n, m, e)
        errs = gen.emb_errors(e, S, g)
        ensure(not errs, "K%d,%d: invalid: %s\n%r", n, m, errs[:3], e)
    return e


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        D = b.damaged(t)
        g = b.graph(t, c["label"], D)
        B = bc.busgraph_cache(g, seed=c["seed"])
        R = b.Ref(t, D)
        exact = len(R.bad) <= (3 if t["fam"] == "p" else 6)
        ref = R.bicliques() if exact else None
        e = B.largest_balanced_biclique()
        k, odd = divmod(len(e), 2)
        ensure(not odd and set(e) == set(range(2 * k)), "largest_balanced_biclique has chains for %r", list(e))
        errs = gen.emb_errors(e, nx.complete_bipartite_graph(k, k), g)
        ensure(not errs, "largest_balanced_biclique is invalid: %s\n%r", errs[:3], e)
        if exact:
            want = max((min(x) for x in ref), default=0)
            ensure(k == want, "largest balanced biclique K%d,%d, the reference has K%d,%d", k, k, want, want)
        qs = list(c["q"]) + [[k, k, "ii"], [k + 1, k + 1, "ii"]]
        if exact:
            # the sizes of the rectangles themselves, where nothing is left over
            tight = sorted(ref)
            random.Random(c["seed"]).shuffle(tight)
            tight = tight[:40] + [x for x in tight[25:] if not any(y != x and y[0] >= x[0] and y[1] >= x[1] for y in tight)][:15]
            qs += [[x, y, "ii"] for x, y in tight]
        nt = False
        for n, m, how in qs:
            e = ask(B, n, m, how, c["names"], g)
            if n == 0 or m == 0:
                ensure(bool(e) == (0 < n + m <= len(g)), "K%d,%d in a graph of %d nodes: %r", n, m, len(g), e)
                ensure(all(len(ch) == 1 for ch in e.values()), "K%d,%d has long chains: %r", n, m, e)
                continue
            nt |= bool(e) and min(n, m) > 1
            o = ask(B, m, n, "ii", c["names"], g)
            ensure(bool(o) == bool(e), "K%d,%d is %sfound and K%d,%d is not the same", n, m, "" if e else "not ", m, n)
            ensure(length(o) == length(e), "K%d,%d has chains of %d, K%d,%d of %d", n, m, length(e), m, n, length(o))
            if exact:
                ls = [l for (x, y), l in ref.items() if x >= n and y >= m or x >= m and y >= n]
                ensure(bool(e) == bool(ls), "K%d,%d: found %r, the reference has %r", n, m, bool(e), sorted(ls)[:3])
                if e and t["fam"] == "c":
                    ensure(length(e) == min(ls), "K%d,%d has chains of %d, the reference %d", n, m, length(e), min(ls))
                elif e:
                    ensure(length(e) <= min(ls), "K%d,%d has chains of %d, the reference %d", n, m, length(e), min(ls))
            if n > 1 and e:
                s = ask(B, n - 1, m, "ii", c["names"], g)
                ensure(s or n == 1, "K%d,%d is found and K%d,%d is not", n, m, n - 1, m)
                ensure(length(s) <= length(e), "K%d,%d needs chains of %d, K%d,%d only %d", n - 1, m, length(s), n, m, length(e))
        return Info(nt, [t["fam"], "exact" if exact else "random"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [Facet("bicliques", case, run, 3000, 60000, exts=BQ), Facet("six-couplers", six_case, run, 1500, 25000, exts=BQ)]
