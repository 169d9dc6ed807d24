"""The chimera / pegasus / zephyr helpers: valid embeddings with the labels asked for, or a ValueError."""
import shutil

import networkx as nx
from hypothesis import strategies as st

import buscase as b
import gen
from harness import BQ, Facet, Info, ensure

PROPERTY = "C26"
RULE = ("calls of find_clique_embedding, find_biclique_embedding and find_grid_embedding of the three modules with sizes, label lists or graphs, "
        "on perfect lattices given by their parameters, damaged graphs and edge lists; non-trivial = an embedding with a chain of two qubits was "
        "returned or a size that does not exist was refused; distinct by the whole case")
ASSUMPTIONS = ["largest sizes are those of busclique on the same graph (C12 and C13 check them)"]


def nodes_arg(draw, hi):
    how = draw(st.sampled_from(["int", "int", "list", "tuple", "range", "graph", "gen"]))
    return [how, draw(st.integers(0, hi)), draw(st.sampled_from(sorted(gen.LABELS))), draw(st.sampled_from([0, 0, 3, 500]))]


@st.composite
def case(draw):
    t = draw(b.topology(big=False))
    hi = draw(st.sampled_from([5, 12, 20]))
    q = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["clique", "biclique"]))
        q.append([kind, nodes_arg(draw, hi)] + ([nodes_arg(draw, hi)] if kind == "biclique" else []))
    return {"t": t, "label": draw(st.integers(0, 1)), "how": draw(st.sampled_from(["graph", "graph", "size", "edges"])), "q": q}


def arg(a):
    """(what is passed, the labels it means, is it a number)"""
    how, n, lab, off = a
    if how == "int":
        return n, list(range(n)), True
    f = gen.LABELS[lab]
    l = [f(i + off) for i in range(n)]
    if how == "range":
        l = list(range(off, off + n))
        return range(off, off + n), l, False
    if how == "graph":
        return nx.complete_graph(l), l, False
    return {"list": list(l), "tuple": tuple(l), "gen": dict.fromkeys(l)}[how], l, False


def run(c):
    import importlib
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        fam = {"c": "chimera", "p": "pegasus", "z": "zephyr"}[t["fam"]]
        mod = importlib.import_module("minorminer.utils." + fam)
        label = b.LABELS[t["fam"]][c["label"]]
        how = c["how"]
        if how == "size" and (t["fam"] == "z" and t["args"][1] != 4 or t.get("opt")):
            how = "graph"
        if how == "edges" and t["fam"] != "c":
            how = "graph"
        if how == "graph":
            g = b.graph(t, label)
            kw = {"target_graph": g}
        elif how == "size":
            g = b.lattice(t)
            if t["fam"] == "c":
                m, n, s = t["args"]
                kw = {"m": m}
                if n != m:
                    kw["n"] = n
                if s != 4:
                    kw["t"] = s
            else:
                kw = {"m": t["args"][0]}
        else:
            import dwave.graphs as dg
            nodes, edges = b.damaged(t)
            m, n, s = t["args"]
            kw = {"m": m, "n": n, "t": s, "target_edges": [tuple(e) for e in edges]}
            g = dg.chimera_graph(m, n, s, edge_list=[tuple(e) for e in edges])
        ref = bc.busgraph_cache(g)
        top = len(ref.largest_clique())
        nt = False
        labels = [fam, how]
        queries = list(c["q"]) + [["clique", ["int", top, "int", 0]], ["clique", ["list", top + 1, "str", 0]]]
        for q in queries:
            if q[0] == "clique":
                a, l, _ = arg(q[1])
                want = len(l) <= top
                try:
                    e = mod.find_clique_embedding(a, **kw)
                except ValueError:
                    ensure(not want, "refused a clique of size %d, the largest has %d", len(l), top)
                    nt = True
                    labels.append("refused")
                    continue
                ensure(want, "size %d, the largest clique is %d: %r", len(l), top, e)
                ensure(set(e) == set(l), "asked for %r, got chains for %r", l, list(e))
                errs = gen.emb_errors(e, nx.complete_graph(l), g)
                ensure(not errs, "invalid clique of size %d: %s\n%r", len(l), errs[:3], e)
                ensure(max(map(len, e.values()), default=0) == max(map(len, ref.find_clique_embedding(len(l)).values()), default=0),
                       "clique of size %d does not have the chain length of busclique", len(l))
                nt |= any(len(x) > 1 for x in e.values())
                continue
            (a, la, na), (z, lz, nz) = arg(q[1]), arg(q[2])
            if na and nz:
                lz = [len(la) + i for i in lz]
            clash = set(la) & set(lz)
            n, m = len(la), len(lz)
            if n + m == 0:
                continue
            want = bool(ref.find_biclique_embedding(n, m))
            try:
                out = mod.find_biclique_embedding(a, z, **kw)
            except ValueError:
                ensure(clash or not want, "refused K%d,%d with labels %r and %r", n, m, la, lz)
                labels.append("overlap" if clash else "refused")
                nt |= not clash
                continue
            ensure(not clash, "accepted overlapping labels %r and %r", la, lz)
            ensure(want, "found a K%d,%d that busclique does not have", n, m)
            ensure(isinstance(out, tuple) and len(out) == 2, "%r is not a pair", out)
            ensure(set(out[0]) == set(la) and set(out[1]) == set(lz), "asked for %r and %r, got %r and %r", la, lz, list(out[0]), list(out[1]))
            S = nx.Graph()
            S.add_nodes_from(la + lz)
            S.add_edges_from((x, y) for x in la for y in lz)
            errs = gen.emb_errors({**out[0], **out[1]}, S, g)
            ensure(not errs, "invalid K%d,%d: %s\n%r", n, m, errs[:3], out)
            nt |= any(len(x) > 1 for e in out for x in e.values())
        return Info(nt, labels)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def grid_case(draw):
    return {"m": draw(st.integers(1, 5)), "n": draw(st.sampled_from([None, 1, 2, 3, 5])), "t": draw(st.sampled_from([None, 1, 2, 4, 5])),
            "dim": draw(st.lists(st.integers(1, 5), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 4]))))}


def run_grid(c):
    import dwave.graphs as dg
    from minorminer.utils.chimera import find_grid_embedding
    m, n, t = c["m"], c["n"] or c["m"], c["t"] or 4
    kw = {"m": m}
    if c["n"]:
        kw["n"] = c["n"]
    if c["t"]:
        kw["t"] = c["t"]
    dim = c["dim"]
    fits = len(dim) <= 3 and all(x <= y for x, y in zip(dim, (m, n, t)))
    try:
        e = find_grid_embedding(list(dim), **kw)
    except ValueError:
        ensure(not fits, "refused the grid %r in chimera %r", dim, (m, n, t))
        return Info(True, ["refused"])
    ensure(fits, "grid %r in chimera %r: %r", dim, (m, n, t), e)
    S = nx.grid_graph(list(dim)[::-1])
    if len(dim) == 1:
        S = nx.relabel_nodes(S, {v: (v[0] if isinstance(v, tuple) else v) for v in S})
    errs = gen.emb_errors(e, S, dg.chimera_graph(m, n, t))
    ensure(not errs, "invalid grid %r: %s\n%r", dim, errs[:3], e)
    return Info(len(S) > 1, ["grid%d" % len(dim)])


FACETS = [Facet("helpers", case, run, 1500, 40000, exts=BQ), Facet("grid", grid_case, run_grid, 1500, 20000, exts=BQ)]
