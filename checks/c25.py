"""The feasibility filter never rejects what can be embedded, and the lattice bound is a lower bound."""
import importlib
import random

import networkx as nx
from hypothesis import strategies as st

import gen
from harness import BQ, Facet, Info, ensure

PROPERTY = "C25"
RULE = ("filter: a random source and a target containing it as a planted subgraph or minor (trees of random sizes, attachments biased to "
        "few vertices), with extra vertices and edges; lattice: a planted source in a damaged lattice of known size, or any source; non-trivial = "
        "the source has an edge and (for the filter) some chain is longer than one or the target is strictly larger, (for the bound) the "
        "bound is above 1 or the source does not fit; distinct by the whole case")
ASSUMPTIONS = ["simple graphs", "for the exact bound, lattices up to chimera 8, pegasus 4, zephyr 4"]


@st.composite
def filter_case(draw):
    return {"S": draw(gen.source_graph(hi=9)), "one": draw(st.booleans()), "seed": draw(st.integers(0, 2**32 - 1)),
            "long": draw(st.sampled_from([0.0, 0.2, 0.7, 1.0])), "cap": draw(st.sampled_from([2, 3, 6, 20])),
            "maxdeg": draw(st.sampled_from([3, 3, 4, 6, 99])), "extra": draw(st.sampled_from([0, 0, 1, 4])),
            "p": draw(st.sampled_from([0.0, 0.1, 0.5])), "subdivide": draw(st.sampled_from([0.0, 0.0, 0.3, 1.0]))}


def plant(c):
    """A target with the source in it: returns (S, T, chains)."""
    r = random.Random(c["seed"])
    S = gen.to_nx(c["S"])
    T = nx.Graph()
    chains = {}
    k = 0
    for v in S:
        size = 1
        if not c["one"] and r.random() < c["long"]:
            # the leanest tree of bounded degree that carries the edges, or a random one
            if r.random() < .7:
                D = max(3, c["maxdeg"])
                while size * (D - 2) + 2 < S.degree[v]:
                    size += 1
            else:
                size = r.randint(1, c["cap"])
        ch = list(range(k, k + size))
        k += size
        T.add_nodes_from(ch)
        for i in range(1, size):
            near = [q for q in ch[:i] if T.degree[q] < c["maxdeg"]] or ch[:i]
            T.add_edge(ch[i], r.choice(near))
        chains[v] = ch
    for u, v in S.edges():
        a = [q for q in chains[u] if T.degree[q] < c["maxdeg"]] or chains[u]
        b = [q for q in chains[v] if T.degree[q] < c["maxdeg"]] or chains[v]
        p, q = r.choice(a), r.choice(b)
        if not c["one"] and r.random() < c["subdivide"]:
            T.add_edge(p, k)
            p = k
            chains[u].append(k)
            k += 1
        T.add_edge(p, q)
    for _ in range(c["extra"]):
        T.add_node(k)
        for q in list(T):
            if q != k and r.random() < c["p"]:
                T.add_edge(q, k)
        k += 1
    return S, T, chains


def run_filter(c):
    from minorminer.utils.feasibility import embedding_feasibility_filter as f
    S, T, chains = plant(c)
    errs = gen.emb_errors(chains, S, T)
    assert not errs, errs
    modes = [False, True] if all(len(ch) == 1 for ch in chains.values()) else [False]
    for one in modes:
        x = f(S, T, one_to_one=one)
        ensure(isinstance(x, bool), "the filter returned %r", x)
        ensure(x, "rejected a source of degrees %r that is planted in a target of degrees %r (one_to_one=%r)\nS %r\nT %r\nembedding %r",
               sorted(d for _, d in S.degree), sorted(d for _, d in T.degree), one, list(S.edges()), list(T.edges()), chains)
    x = f(T, S, one_to_one=True)
    ensure(isinstance(x, bool), "the filter returned %r", x)
    if len(T) > len(S) or T.number_of_edges() > S.number_of_edges():
        ensure(not f(T, S, one_to_one=False), "accepted a source that is larger than its target")
    # with one qubit per variable, degrees have to fit
    for A, B in ((S, T), (T, S)):
        da, db = (sorted((d for _, d in G.degree), reverse=True) for G in (A, B))
        fits = len(da) <= len(db) and A.number_of_edges() <= B.number_of_edges() and all(p <= q for p, q in zip(da, db))
        ensure(f(A, B, one_to_one=True) is fits, "one_to_one filter is not %r for degrees %r in %r", fits, da, db)
    return Info(S.number_of_edges() > 0 and len(T) > len(S), ["subgraph" if len(modes) > 1 else "minor"])


SIZES = {"chimera": [1, 2, 3, 4], "pegasus": [2, 3], "zephyr": [1, 2]}


@st.composite
def bound_case(draw):
    fam = draw(st.sampled_from(sorted(SIZES)))
    m = draw(st.sampled_from(SIZES[fam]))
    return {"fam": fam, "m": m, "n": draw(st.sampled_from([None, 1, 2, 3])) if fam == "chimera" else None,
            "t": None if fam == "pegasus" else draw(st.sampled_from([None, 1, 2, 3, 4, 6, 8])), "kind": draw(st.sampled_from(
                ["sub", "sub", "minor", "any"])), "S": draw(gen.source_graph(hi=12)), "seed": draw(st.integers(0, 2**32 - 1)),
            "keep": draw(st.sampled_from([0.05, 0.3, 0.7, 0.95, 1.0])), "contract": draw(st.sampled_from([0.02, 0.1, 0.4, 0.8])),
            "hub": draw(st.sampled_from([0, 0, 0, 5, 9, 12, 30])), "one": draw(st.booleans()), "with_T": draw(st.booleans()),
            "dead": draw(st.sampled_from([0, 0, 1, 5])), "coords": draw(st.booleans()), "args": draw(st.integers(0, 3))}


def make(fam, m, t, n=None, **kw):
    import dwave.graphs as dg
    if fam == "chimera":
        return dg.chimera_graph(m, n or m, 4 if t is None else t, **kw)
    if fam == "pegasus":
        return dg.pegasus_graph(m, **kw)
    return dg.zephyr_graph(m, 4 if t is None else t, **kw)


def run_bound(c):
    from minorminer.utils.feasibility import embedding_feasibility_filter as f, lattice_size_lower_bound as bound
    lattice_size = importlib.import_module("c28").load().lattice_size
    r = random.Random(c["seed"])
    fam, m, t = c["fam"], c["m"], c["t"]
    T = make(fam, m, t, c["n"], coordinates=c["coords"])
    nodes = sorted(T)
    T.remove_nodes_from(r.sample(nodes, min(len(nodes) - 1, c["dead"])))
    size = max(m, c["n"] or m)
    y = lattice_size(T)
    ensure(y == size, "lattice_size is %r for a %s of %r x %r cells", y, fam, m, c["n"] or m)
    fits = None
    if c["kind"] == "any":
        S = gen.to_nx(c["S"])
        if c["hub"]:
            S.add_edges_from((0, len(S) + i) for i in range(c["hub"]))
    else:
        S = nx.Graph(T.edges())
        S.add_nodes_from(T)
        keep = sorted(S)
        r.shuffle(keep)
        S.remove_nodes_from(keep[max(1, int(len(keep) * c["keep"])):])
        es = sorted(S.edges())
        S.remove_edges_from(r.sample(es, int(len(es) * r.choice([0, .1, .5]))))
        fits = "one"
        if c["kind"] == "minor" and S.number_of_edges():
            groups = nx.utils.UnionFind(S)
            es = sorted(S.edges())
            for e in r.sample(es, int(len(es) * c["contract"])):
                groups.union(*e)
            Q = nx.Graph()
            Q.add_nodes_from(groups[v] for v in S)
            Q.add_edges_from((groups[u], groups[v]) for u, v in S.edges() if groups[u] != groups[v])
            fits = "one" if len(Q) == len(S) else "minor"
            S = Q
        S = nx.convert_node_labels_to_integers(S)
    one = c["one"]
    kw = {"one_to_one": one}
    if c["with_T"]:
        kw["T"] = T
        if c["args"] & 1:
            kw["topology"] = fam
        if c["args"] & 2 and fam != "pegasus":
            kw["t"] = 4 if t is None else t
    else:
        kw["topology"] = fam
        if t is not None:
            kw["t"] = t
    x = bound(S, **kw)
    ensure(x is None or isinstance(x, int), "the bound is %r", x)
    if fits == "one" or fits == "minor" and not one:
        ensure(x is not None and x <= size, "a source that is planted in a %s of size %d gets the bound %r (one_to_one=%r, T %s)\n%r", fam, size, x,
               one, "given" if c["with_T"] else "not given", list(S.edges()))
    if x is None and not one and not c["with_T"]:
        # every graph is a minor of a large enough lattice, of a chimera with t = 1 too
        ensure(False, "no size for a source of degrees %r (one_to_one=False)", sorted(d for _, d in S.degree))
    if x is None and one and not c["with_T"]:
        D = {"chimera": 2 + (4 if t is None else t), "pegasus": 15, "zephyr": 4 + 4 * (4 if t is None else t)}[fam]
        ensure(max((d for _, d in S.degree), default=0) > D or fam == "chimera" and not nx.is_bipartite(S),
               "no size for a source of degrees %r", sorted(d for _, d in S.degree))
    if x is not None and not (c["with_T"] and f(S, T, one) is False) and len(S):
        # the first size whose perfect lattice passes the filter
        ensure(f(S, make(fam, x, t), one), "size %d does not pass the filter", x)
        if x > 1 and (fam != "pegasus" or x > 2):
            ensure(not f(S, make(fam, x - 1, t), one), "size %d passes the filter too, the bound is %d", x - 1, x)
    # inconsistent arguments
    if c["with_T"] and f(S, T, one):
        bad = {"topology": {"chimera": "zephyr", "pegasus": "chimera", "zephyr": "pegasus"}[fam]}
        for extra in [bad] + ([{"t": 7}] if fam != "pegasus" else []):
            try:
                y = bound(S, T=T, one_to_one=one, **extra)
            except ValueError:
                continue
            ensure(False, "inconsistent %r is accepted for a %s: %r", extra, fam, y)
    try:
        y = bound(S, one_to_one=one)
        ensure(False, "no topology is accepted: %r", y)
    except ValueError:
        pass
    return Info(S.number_of_edges() > 0 and (x is None or x > 1), [fam, c["kind"], "none" if x is None else "bound"])


def hang(c):
    return run_bound(c)


FACETS = [Facet("filter", filter_case, run_filter, 6000, 200000, exts=BQ),
          Facet("bound", bound_case, run_bound, 1500, 40000, exts=BQ, case_timeout=60, mem_gb=4)]
