"""busclique: every clique embedding handed out is valid, has the size asked for and speaks the labels of the graph."""
import shutil

import networkx as nx
from hypothesis import strategies as st

import buscase as b
import gen
from harness import BQ, Facet, Info, ensure

PROPERTY = "C11"
RULE = ("a chimera/pegasus/zephyr graph with missing nodes, couplers, lines and cells, in one labelling and node order; all cached "
        "cliques of every size and chain length, and one-shot cliques; non-trivial = the largest clique has 3 or more chains; distinct "
        "by the whole case")
ASSUMPTIONS = []


@st.composite
def case(draw):
    t = draw(b.topology())
    label = draw(st.sampled_from(b.LABELS[t["fam"]]))
    if label == "nice":
        t["opt"] = {}
    return {"t": t, "label": label, "seed": draw(st.integers(0, 2**32 - 1)),
            "names": draw(st.sampled_from(["int", "str", "tuple", "mixed", "shift"])),
            "sizes": draw(st.lists(st.integers(0, 60), max_size=6)), "mask_bound": draw(st.sampled_from([None, None, 1, 8]))}


def judge(e, n, g, names=None):
    want = list(range(n)) if names is None else names
    ensure(set(e) == set(want), "asked for chains of %r, got %r", want, list(e))
    ensure(all(isinstance(ch, tuple) for ch in e.values()), "chains are not tuples: %r", e)
    S = nx.complete_graph(n) if names is None else nx.relabel_nodes(nx.complete_graph(n), dict(enumerate(names)))
    errs = gen.emb_errors(e, S, g)
    ensure(not errs, "invalid clique embedding of size %d: %s\n%r", n, errs[:4], e)


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        g = b.graph(c["t"], c["label"])
        B = bc.busgraph_cache(g, seed=c["seed"])
        if c["mask_bound"]:
            B._graph.set_mask_bound(c["mask_bound"])
        big = B.largest_clique()
        N = len(big)
        judge(big, N, g)
        ensure(N > 0 or not len(g), "no clique of size 1 in a graph with nodes")
        for n in range(0, N + 1):
            judge(B.find_clique_embedding(n), n, g)
        for n in (N + 1, N + 7):
            ensure(B.find_clique_embedding(n) == {}, "a clique of size %d although the largest has %d", n, N)
        prev = 0
        for L in range(0, max(map(len, big.values()), default=0) + 4):
            e = B.largest_clique_by_chainlength(L)
            judge(e, len(e), g)
            ensure(all(len(ch) <= L for ch in e.values()), "chain longer than %d in %r", L, e)
            ensure(len(e) >= prev, "chain length %d allows %d chains, a shorter one allows %d", L, len(e), prev)
            prev = len(e)
        ensure(prev == N, "the largest clique within the longest chain length has %d chains, the largest has %d", prev, N)
        f = gen.LABELS[c["names"]]
        for n in c["sizes"]:
            names = [f(i) for i in range(n)]
            for h, e in (("cache", bc.find_clique_embedding(iter(names), g, seed=c["seed"])),
                         ("one-shot", bc.find_clique_embedding(tuple(names), g, seed=c["seed"], use_cache=False))):
                if n <= N:
                    ensure(e or n == 0 or c["mask_bound"], "%s: no clique of size %d, the largest has %d", h, n, N)
                if e or n == 0:
                    judge(e, n, g, names)
                elif n > N and not c["mask_bound"]:
                    ensure(not e, "%s: a clique of size %d, the largest has %d", h, n, N)
        return Info(N >= 3, [c["t"]["fam"], c["label"], "damaged" if c["t"]["dn"] or c["t"]["de"] or c["t"]["dl"] else "perfect"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def odd_case(draw):
    """Graphs that are hardly there: few nodes, no couplers of a class, tori, extra couplers."""
    t = draw(b.topology("cpz", big=False))
    t["keep"] = draw(st.lists(st.integers(0, 999), max_size=8))
    return {"t": t, "label": "int", "seed": draw(st.one_of(st.none(), st.integers(0, 99))),
            "sub": draw(st.sampled_from(["keep", "noedges", "extra", "torus", "nointernal", "noexternal"])),
            "xy": [draw(st.integers(0, 999)), draw(st.integers(0, 999))]}


def run_odd(c):
    from minorminer import busclique as bc
    import dwave.graphs as dg
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        F = b.frag(t)
        nodes, edges = b.damaged(t)
        if c["sub"] == "keep":
            keep = {nodes[i % len(nodes)] for i in t["keep"]} if nodes else set()
            nodes = [q for q in nodes if q in keep]
            edges = [e for e in edges if e[0] in keep and e[1] in keep]
        elif c["sub"] == "noedges":
            edges = []
        elif c["sub"] == "nointernal":
            edges = [e for e in edges if F.kind(*e) != "i"]
        elif c["sub"] == "noexternal":
            edges = [e for e in edges if F.kind(*e) != "e"]
        g = b.graph(t, damage=(nodes, edges))
        if c["sub"] == "torus":
            f = {"c": dg.chimera_torus, "p": dg.pegasus_torus, "z": dg.zephyr_torus}[t["fam"]]
            try:
                g = f(*t["args"])
            except Exception:
                return Info(False)
        if c["sub"] == "extra" and len(nodes) > 1:
            p, q = (nodes[i % len(nodes)] for i in c["xy"])
            if p != q:
                g.add_edge(p, q)
        try:
            B = bc.busgraph_cache(g, seed=0 if c["seed"] is None else c["seed"])
        except (RuntimeError, OverflowError, ValueError):
            ensure(c["sub"] in ("extra", "torus"), "a subgraph of the lattice was refused")
            return Info(False, ["refused"])
        N = len(B.largest_clique())
        for n in range(N + 1):
            judge(B.find_clique_embedding(n), n, g)
        for n in list(range(0, N + 1)) + [N + 1]:
            e = bc.find_clique_embedding(n, g, seed=c["seed"], use_cache=False)
            if e or n == 0:
                judge(e, n, g)
        e = B.largest_balanced_biclique()
        k = len(e) // 2
        errs = gen.emb_errors(e, nx.complete_bipartite_graph(k, k), g)
        ensure(not errs, "invalid biclique: %s\n%r", errs[:3], e)
        return Info(N > 0, [c["sub"], t["fam"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def label_case(draw):
    t = draw(b.topology())
    return {"t": t, "seed": draw(st.integers(0, 2**32 - 1)), "sizes": draw(st.lists(st.integers(0, 40), max_size=5)),
            "nm": [draw(st.integers(0, 20)), draw(st.integers(0, 20))],
            "nice": draw(st.booleans())}


def run_label(c):
    """The answers in each labelling are translations of one another."""
    from minorminer import busclique as bc
    import dwave.graphs as dg
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        nodes, edges = b.damaged(t)
        labels = ["int", "coordinate"]
        if t["fam"] == "p" and c["nice"] and t["opt"] in ({}, {"fabric_only": False}):
            # nice coordinates name the qubits of whole cells
            co = dg.pegasus_coordinates(*t["args"])
            ok = set(co.iter_nice_to_linear(dg.pegasus_graph(*t["args"], nice_coordinates=True)))
            nodes = [q for q in nodes if q in ok]
            edges = [e for e in edges if e[0] in ok and e[1] in ok]
            labels.append("nice")
        ref = None
        for label in labels:
            shutil.rmtree(d, ignore_errors=True)
            f = b.translator(t, label)
            g = b.graph(t, label, (nodes, edges))
            B = bc.busgraph_cache(g, seed=c["seed"])
            inv = {f(q): q for q in nodes}

            def back(e):
                return [(v, tuple(inv[q] for q in ch)) for v, ch in e.items()]
            ans = [B.topology_identifier(), back(B.largest_clique()), back(B.largest_balanced_biclique()),
                   back(B.find_biclique_embedding(*c["nm"])), back(B.find_biclique_embedding(0, c["nm"][0]))]
            ans += [back(B.find_clique_embedding(n)) for n in c["sizes"]]
            ans += [back(bc.find_clique_embedding(n, g, use_cache=False, seed=c["seed"])) for n in c["sizes"]]
            ans += [back(B.largest_clique_by_chainlength(n)) for n in (1, 2, 3, 4)]
            if ref is None:
                ref = ans
            for i, (x, y) in enumerate(zip(ref, ans)):
                ensure(x == y, "answer %d differs between labellings int and %s:\n%r\n%r", i, label, x, y)
        return Info(len(ref[1]) >= 3, [t["fam"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet("valid", case, run, 2500, 60000, exts=BQ),
    Facet("odd", odd_case, run_odd, 2500, 50000, exts=BQ),
    Facet("labels", label_case, run_label, 800, 20000, exts=BQ),
]
