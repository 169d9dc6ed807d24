"""Generators (Hypothesis strategies of JSON-able values) and their decoders."""
import itertools

import networkx as nx
from hypothesis import strategies as st

# ------------------------------------------------------------------ graphs


@st.composite
def bits_graph(draw, lo=1, hi=8):
    n = draw(st.integers(lo, hi))
    m = n * (n - 1) // 2
    b = draw(st.integers(0, (1 << m) - 1)) if m else 0
    mode = draw(st.integers(0, 3))
    if mode == 1 and m:      # sparser
        b &= draw(st.integers(0, (1 << m) - 1))
    elif mode == 2 and m:    # denser
        b |= draw(st.integers(0, (1 << m) - 1))
    e = [list(p) for i, p in enumerate(itertools.combinations(range(n), 2)) if b >> i & 1]
    return {"n": n, "e": e}


def named_graph(kind, a, b):
    if kind == "path":
        return nx.path_graph(a)
    if kind == "cycle":
        return nx.cycle_graph(max(3, a))
    if kind == "complete":
        return nx.complete_graph(a)
    if kind == "star":
        return nx.star_graph(a)
    if kind == "bipartite":
        return nx.complete_bipartite_graph(a, max(1, b))
    if kind == "grid":
        return nx.convert_node_labels_to_integers(nx.grid_2d_graph(a, max(1, b)))
    if kind == "empty":
        return nx.empty_graph(a)
    if kind == "tree":
        return nx.balanced_tree(2, min(3, max(1, b)))
    if kind == "wheel":
        return nx.wheel_graph(a + 3)
    raise ValueError(kind)


@st.composite
def source_graph(draw, hi=9, isolated=True):
    """{"n": nodes 0..n-1, "e": edges}; structured families, random graphs, disjoint unions, isolated nodes."""
    k = draw(st.integers(0, 9))
    if k <= 4:
        g = draw(bits_graph(1, hi))
    else:
        kind = draw(st.sampled_from(["path", "cycle", "complete", "star", "bipartite", "grid", "empty", "wheel"]))
        a = draw(st.integers(1, max(1, min(6, hi - 3))))
        b = draw(st.integers(1, 3))
        G = named_graph(kind, a, b)
        g = {"n": G.number_of_nodes(), "e": sorted(sorted(e) for e in G.edges())}
    if draw(st.integers(0, 5)) == 0:
        h = draw(bits_graph(1, 4))
        g = {"n": g["n"] + h["n"], "e": g["e"] + [[u + g["n"], v + g["n"]] for u, v in h["e"]]}
    if isolated and draw(st.integers(0, 5)) == 0:
        g = {"n": g["n"] + draw(st.integers(1, 2)), "e": g["e"]}
    return g


def to_nx(g, label=None):
    G = nx.Graph()
    lab = label or (lambda x: x)
    G.add_nodes_from(lab(i) for i in range(g["n"]))
    G.add_edges_from((lab(u), lab(v)) for u, v in g["e"])
    return G


# ------------------------------------------------------------------ lattices

def lattice(fam, args, **kw):
    import dwave.graphs as dg
    if fam == "chimera":
        return dg.chimera_graph(*args, **kw)
    if fam == "pegasus":
        return dg.pegasus_graph(*args, **kw)
    if fam == "zephyr":
        return dg.zephyr_graph(*args, **kw)
    raise ValueError(fam)


def damage(G, dn, de):
    """Delete the nodes/edges with these indices (modulo), in the graph's sorted order."""
    nodes = sorted(G.nodes())
    edges = sorted(tuple(sorted(e)) for e in G.edges())
    if edges:
        G.remove_edges_from([edges[i % len(edges)] for i in de])
    G.remove_nodes_from({nodes[i % len(nodes)] for i in dn})
    return G


@st.composite
def target_graph(draw, small=False):
    k = draw(st.integers(0, 11))
    if k <= 2:
        return {"fam": "bits", "g": draw(bits_graph(2, 12 if not small else 8)), "dn": [], "de": []}
    if k <= 3:
        return {"fam": "grid", "args": [draw(st.integers(2, 5)), draw(st.integers(2, 5))],
                "dn": draw(st.lists(st.integers(0, 99), max_size=3)), "de": draw(st.lists(st.integers(0, 99), max_size=3))}
    if k == 4:
        return {"fam": "complete", "args": [draw(st.integers(1, 12))], "dn": [], "de":
                draw(st.lists(st.integers(0, 99), max_size=5))}
    if k == 5:
        return {"fam": "cycle", "args": [draw(st.integers(3, 14))], "dn": [], "de": []}
    if k <= 8 or small:
        fam, args = "chimera", draw(st.sampled_from([[1, 1, 4], [1, 2, 4], [2, 2, 4], [2, 2, 2], [3, 3, 2], [2, 3, 3],
                                                     [1, 4, 1], [3, 3, 4]]))
    elif k <= 9:
        fam, args = "pegasus", [2]
    else:
        fam, args = "zephyr", draw(st.sampled_from([[1, 1], [1, 2], [2, 1], [1, 4]]))
    dn = draw(st.lists(st.integers(0, 299), max_size=draw(st.sampled_from([0, 0, 3, 12]))))
    de = draw(st.lists(st.integers(0, 299), max_size=draw(st.sampled_from([0, 0, 3, 12]))))
    return {"fam": fam, "args": args, "dn": dn, "de": de}


def make_target(t):
    fam = t["fam"]
    if fam == "bits":
        G = to_nx(t["g"])
    elif fam == "grid":
        G = nx.convert_node_labels_to_integers(nx.grid_2d_graph(*t["args"]))
    elif fam == "complete":
        G = nx.complete_graph(*t["args"])
    elif fam == "cycle":
        G = nx.cycle_graph(*t["args"])
    else:
        G = lattice(fam, t["args"])
    H = nx.Graph()
    H.add_nodes_from(sorted(G.nodes()))
    H.add_edges_from(sorted(tuple(sorted(e)) for e in G.edges()))
    return damage(H, t["dn"], t["de"])


# ------------------------------------------------------------------ labels

LABELS = {
    "int": lambda i: i,
    "shift": lambda i: 1000 - 7 * i,
    "neg": lambda i: -i - 1,
    "str": lambda i: "v%d" % i,
    "tuple": lambda i: (i, "x"),
    "mixed": lambda i: i if i % 3 == 0 else ("s%d" % i if i % 3 == 1 else (i, i)),
    "frozenset": lambda i: frozenset([i, i + 1]),
}


def labelled(G, name):
    f = LABELS[name]
    return nx.relabel_nodes(G, {v: f(v) for v in G}) if name != "int" else G


# ------------------------------------------------------------------ oracles

def emb_errors(emb, S, T, overlap_ok=False):
    """Reference validity predicate for a minor embedding, written from the definition."""
    errs = []
    Sn, Tn = set(S), set(T)
    extra = set(emb) - Sn
    if extra:
        errs.append(f"chains for nodes that are not in the source: {extra}")
    used = {}
    for v in Sn:
        if v not in emb:
            errs.append(f"no chain for {v!r}")
            continue
        c = list(emb[v])
        if not c:
            errs.append(f"empty chain for {v!r}")
            continue
        if len(set(c)) != len(c):
            errs.append(f"repeated qubit in the chain of {v!r}: {c}")
        bad = [q for q in c if q not in Tn]
        if bad:
            errs.append(f"chain of {v!r} uses {bad}, not in the target")
            continue
        cs = set(c)
        seen = {c[0]}
        stack = [c[0]]
        while stack:
            x = stack.pop()
            for y in T[x]:
                if y in cs and y not in seen:
                    seen.add(y)
                    stack.append(y)
        if seen != cs:
            errs.append(f"chain of {v!r} is disconnected: {c}")
        for q in cs:
            used.setdefault(q, []).append(v)
    if not overlap_ok:
        for q, vs in used.items():
            if len(vs) > 1:
                errs.append(f"qubit {q!r} is used by {vs}")
    for u, v in S.edges():
        if u == v or u not in emb or v not in emb:
            continue
        cv = set(emb[v])
        if not any(y in cv for x in emb[u] if x in Tn for y in T[x]):
            # overlapping chains count as adjacent only when overlap is allowed
            if not (overlap_ok and cv & set(emb[u])):
                errs.append(f"no coupler for the edge {u!r}, {v!r}")
    return errs


def max_overlap(emb):
    cnt = {}
    for c in emb.values():
        for q in c:
            cnt[q] = cnt.get(q, 0) + 1
    return max(cnt.values(), default=0)
