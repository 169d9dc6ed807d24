"""Graphs, positions and layout functions for the layout checks."""
import random

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen

SORTABLE = ["int", "shift", "neg", "str", "tuple"]


def shuffled(g, label, seed):
    """The graph with labelled nodes and edges inserted in a random order and direction."""
    r = random.Random(seed)
    lab = gen.LABELS[label]
    nodes = [lab(i) for i in range(g["n"])]
    edges = [(lab(u), lab(v)) for u, v in g["e"]]
    if seed:
        r.shuffle(nodes)
        r.shuffle(edges)
        edges = [e if r.random() < .5 else e[::-1] for e in edges]
    G = nx.Graph()
    G.add_nodes_from(nodes)
    G.add_edges_from(edges)
    return G


def as_form(G, form):
    """Edge data structures that networkx understands (when they can hold the graph)."""
    if form == "graph" or any(d == 0 for _, d in G.degree()):
        return G
    if form == "edges":
        return list(G.edges())
    return {v: list(G[v]) for v in G}


@st.composite
def positions(draw, n, dim, lo=-20, hi=20):
    """n points with coordinates in quarters; often with repeated coordinates."""
    c = st.integers(lo, hi) if draw(st.booleans()) else st.integers(-2, 2)
    return [[draw(c) for _ in range(dim)] for _ in range(n)]


def pts(p):
    return [tuple(x / 4 for x in row) for row in p]


LATTICES = [["chimera", [1, 1, 1]], ["chimera", [1, 3, 1]], ["chimera", [3, 1, 1]], ["chimera", [2, 2, 2]], ["chimera", [2, 3, 4]],
            ["chimera", [3, 2, 2]], ["chimera", [4, 4, 1]], ["chimera", [1, 2, 3]], ["pegasus", [2]], ["pegasus", [3]],
            ["zephyr", [1, 1]], ["zephyr", [1, 2]], ["zephyr", [2, 1]], ["zephyr", [2, 2]]]


@st.composite
def lattice(draw, fams=("chimera", "pegasus", "zephyr")):
    fam, args = draw(st.sampled_from([x for x in LATTICES if x[0] in fams]))
    lab = draw(st.sampled_from(["int", "int", "coord", "nodata"] + (["nice"] if fam == "pegasus" else [])))
    return {"fam": fam, "args": args, "lab": lab, "full": fam == "pegasus" and lab != "nice" and draw(st.booleans()),
            "off": draw(st.sampled_from([None, None] + list(range(8)))) if fam == "pegasus" and lab != "nice" else None,
            "dn": draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 0, 2, 10, 40])))),
            "de": draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 0, 2, 10]))))}


def make_lattice(t, damaged=True):
    kw = {"int": {}, "coord": {"coordinates": True}, "nodata": {"data": False}, "nice": {"nice_coordinates": True}}[t["lab"]]
    if t.get("full"):
        kw["fabric_only"] = False
    if t.get("off") is not None:
        kw["offsets_index"] = t["off"]
    G = gen.lattice(t["fam"], t["args"], **kw)
    if damaged:
        gen.damage(G, t["dn"], t["de"])
    return G


def spec(kw):
    """dim and center as the layout functions resolve them."""
    dim = kw.get("dim") or (len(kw["center"]) if kw.get("center") is not None else 2)
    center = kw.get("center")
    return dim, np.array(center if center is not None else [0.0] * dim, dtype=float)


def line_layout(G, dim=None, center=None, scale=None, k=1, **kw):
    """A deterministic layout function: points on a parabola-like curve, by sorted order."""
    d, c = spec({"dim": dim, "center": center})
    n = len(G)
    out = {}
    for i, v in enumerate(sorted(G)):
        p = np.zeros(d)
        p[0] = i * k
        if d > 1:
            p[1] = (i * i) % 5
        out[v] = p
    a = np.array([out[v] for v in out]) if n else np.zeros((0, d))
    if n:
        m = (a.min(0) + a.max(0)) / 2
        r = np.abs(a - m).max()
        f = scale / r if scale and r else 1
        out = {v: (p - m) * f + c for v, p in out.items()}
    return out


def flat_layout(G, dim=None, center=None, scale=None, **kw):
    """All points on one line."""
    d, c = spec({"dim": dim, "center": center})
    return {v: np.array([i] + [0] * (d - 1)) * (scale or 1) / max(1, len(G)) + c for i, v in enumerate(sorted(G))}


def bbox(points):
    a = np.array(points, dtype=float)
    return a.min(0), a.max(0)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
