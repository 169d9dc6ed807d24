"""Layout functions: p_norm descends on the distortion, graph_layout is the lattice's drawing, components are packed without overlaps."""
import random
import warnings

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import laycase as lc
from harness import LAY, Discard, Facet, Info, ensure

PROPERTY = "C22"
RULE = ("p-norm: random graphs (disconnected ones too) of up to 9 nodes in any node order, 5 norms, 1 to 4 dimensions, given or default starts "
        "and distances; lattices: damaged graphs of the three families in every labelling with dim, center and scale; packing: graphs of "
        "several components with several layout functions; rectangles: up to 12 with limits; non-trivial = three nodes and an edge / two "
        "coordinates apart / two components / three rectangles; distinct by the whole case")
ASSUMPTIONS = ["nodes of one graph can be sorted", "p_norm is judged as a descent: its result is no worse than its start and no steepest-descent step "
               "of a reference gradient improves it by more than 5%"]
INF = float("inf")


@st.composite
def pnorm_case(draw):
    g = draw(gen.source_graph(hi=8))
    dim = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    how = draw(st.sampled_from(["dim", "center", "both", "none"]))
    return {"g": g, "lab": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 999)), "dim": 2 if how == "none" else dim, "how": how,
            "p": draw(st.sampled_from([1, 2, 2, 3, 4, "inf"])), "center": [draw(st.integers(-9, 9)) for _ in range(4)],
            "scale": draw(st.sampled_from([None, None, 1, 2.5, 30])), "start": draw(st.sampled_from(["random", "random", "default"])),
            "dist": draw(st.sampled_from(["none", "dict", "iter", "weird"])), "rs": draw(st.integers(0, 2**32 - 1))}


def distortion(X, D, p):
    return float(((np.linalg.norm(X[:, None] - X[None], ord=p, axis=-1) - D) ** 2).sum())


def run_pnorm(c):
    import minorminer.layout as mml
    p = INF if c["p"] == "inf" else c["p"]
    G = lc.shuffled(c["g"], c["lab"], c["seed"])
    n = len(G)
    nodes = sorted(G)
    r = random.Random(c["rs"])
    kw = {}
    if c["how"] in ("dim", "both"):
        kw["dim"] = c["dim"]
    if c["how"] in ("center", "both"):
        kw["center"] = tuple(c["center"][:c["dim"]])
    dim, center = lc.spec(kw)
    lengths = dict(nx.all_pairs_shortest_path_length(G))
    if c["dist"] == "weird":
        w = {frozenset(e): r.choice([1, 1, 2, 3]) for e in G.edges()}
        lengths = dict(nx.all_pairs_dijkstra_path_length(G, weight=lambda u, v, d: w[frozenset((u, v))]))
    if c["dist"] != "none":
        kw["G_distances"] = iter([(u, lengths[u]) for u in r.sample(nodes, n)]) if c["dist"] == "iter" else {
            u: lengths[u] for u in r.sample(nodes, n)}
    start = None
    if c["start"] == "random":
        start = {v: tuple(r.gauss(0, 1) for _ in range(dim)) for v in nodes}
        kw["starting_layout"] = {v: start[v] for v in r.sample(nodes, n)}
    D = np.array([[lengths[u].get(v, n) for v in nodes] for u in nodes], dtype=float)
    np.random.seed(c["seed"])
    L = mml.p_norm(G, p=p, **kw)
    ensure(set(L) == set(nodes), "p_norm laid out %s", list(L))
    X = np.array([L[v] for v in nodes], dtype=float)
    ensure(X.shape == (n, dim) and np.isfinite(X).all(), "p_norm returned %s for dimension %d", X.tolist(), dim)
    lo, hi = lc.bbox(X)
    ensure(lc.close((lo + hi) / 2, center), "p_norm is centered at %s, not %s", (lo + hi) / 2, center)
    f = distortion(X, D, p)
    if start:
        f0 = distortion(np.array([start[v] for v in nodes]), D, p)
        ensure(f <= f0 * (1 + 1e-9) + 1e-9, "p_norm went from distortion %g to %g", f0, f)
    g = np.zeros_like(X)
    h = 1e-6
    for ix in np.ndindex(*X.shape):
        E = np.zeros_like(X)
        E[ix] = h
        g[ix] = (distortion(X + E, D, p) - distortion(X - E, D, p)) / (2 * h)
    best = min(distortion(X - s * g, D, p) for s in 10.0 ** np.arange(-6, 0.1, 0.5))
    # kinks of the norm can stop the descent: coinciding points, a line, p = 1 and infinity
    apart = min((np.abs(X[i] - X[j]).max() for i in range(n) for j in range(i)), default=1) > 1e-6
    ensure(dim == 1 or not apart or f - best <= (.05 if p in (2, 3, 4) else .25) * f + 1e-3,
           "p_norm stopped at distortion %g, one descent step gives %g", f, best)
    # the node order does not matter
    if start:
        H = lc.shuffled(c["g"], c["lab"], 0)
        kw2 = dict(kw)
        if "G_distances" in kw2:
            kw2["G_distances"] = lengths
        M = mml.p_norm(H, p=p, **kw2)
        ensure(all(np.array_equal(M[v], L[v]) for v in nodes), "another node order gives %s, not %s", M, L)
        if c["scale"]:
            kw2["scale"] = c["scale"]
            M = np.array([mml.p_norm(H, p=p, **kw2)[v] for v in nodes])
            s0 = np.abs(X - center).max()
            want = (X - center) * (c["scale"] / s0) + center if s0 > 1e-9 else X
            ensure(lc.close(M, want, 1e-5), "with scale %s: %s, expected %s", c["scale"], M.tolist(), want.tolist())
    return Info(n > 2 and G.number_of_edges() > 0, ["p=%s" % c["p"], "dim=%d" % dim, c["start"], c["dist"]])


@st.composite
def lattice_case(draw):
    t = draw(lc.lattice())
    dim = draw(st.sampled_from([2, 2, 3, 4]))
    how = draw(st.sampled_from(["dim", "center", "both", "none", "none"]))
    return {"t": t, "dim": 2 if how == "none" else dim, "how": how, "center": [draw(st.integers(-9, 9)) for _ in range(4)],
            "scale": draw(st.sampled_from([None, None, .5, 1, 3, 17.25]))}


def run_lattice(c):
    import dwave.graphs as dg
    import minorminer.layout as mml
    G = lc.make_lattice(c["t"])
    if not len(G):
        raise Discard
    kw = {}
    if c["how"] in ("dim", "both"):
        kw["dim"] = c["dim"]
    if c["how"] in ("center", "both"):
        kw["center"] = tuple(c["center"][:c["dim"]])
    if c["scale"]:
        kw["scale"] = c["scale"]
    dim, center = lc.spec(kw)
    s = c["scale"] or max(G.graph["rows"], G.graph["columns"]) / 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = {"chimera": dg.chimera_layout, "pegasus": dg.pegasus_layout, "zephyr": dg.zephyr_layout}[c["t"]["fam"]](G)
    nodes = sorted(G)
    R = np.array([np.array(ref[v])[:2] for v in nodes])
    L = mml.graph_layout(G, **kw)
    ensure(set(L) == set(nodes), "graph_layout misses %s", set(nodes) - set(L))
    X = np.array([L[v] for v in nodes], dtype=float)
    ensure(X.shape == (len(nodes), dim) and np.isfinite(X).all(), "graph_layout returned %s", X.tolist()[:5])
    apart = 0
    for a in range(2):
        lo, hi = X[:, a].min(), X[:, a].max()
        ensure(lo >= center[a] - s - 1e-6 * (1 + abs(center[a]) + s) and hi <= center[a] + s + 1e-6 * (1 + abs(center[a]) + s),
               "axis %d spans [%g, %g], outside [%g, %g]", a, lo, hi, center[a] - s, center[a] + s)
        q = R[:, a] - R[:, a].min()
        if q.max() > 1e-9:
            apart += 1
            ensure(lc.close([lo, hi], [center[a] - s, center[a] + s]), "axis %d spans [%g, %g], not %g around %g", a, lo, hi, s, center[a])
            ensure(lc.close((X[:, a] - lo) / (hi - lo), q / q.max(), 1e-5), "axis %d is not that of the lattice's drawing", a)
        else:
            ensure(hi - lo < 1e-6, "axis %d is spread although the nodes share it", a)
    for a in range(2, dim):
        ensure(lc.close(X[:, a], [center[a]] * len(nodes)), "coordinate %d is not %g", a, center[a])
    for bad in ({"dim": 3, "center": (0, 0)}, {"dim": 2, "center": (1, 2, 3)}):
        try:
            mml.graph_layout(G, **bad)
        except ValueError:
            pass
        else:
            ensure(False, "%s was accepted", bad)
    try:
        mml.graph_layout(nx.Graph(G.edges()))
    except ValueError:
        pass
    else:
        ensure(False, "a graph of no family was accepted")
    return Info(apart == 2, [c["t"]["fam"], c["t"]["lab"], "dim=%d" % dim, "apart=%d" % apart])


@st.composite
def pack_case(draw):
    parts = draw(st.lists(gen.bits_graph(1, 6), min_size=1, max_size=6))
    n, e = 0, []
    for h in parts:
        e += [[u + n, v + n] for u, v in h["e"]]
        n += h["n"]
    return {"g": {"n": n, "e": e}, "lab": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)),
            "fn": draw(st.sampled_from(["circular", "line", "line3", "flat", "pnorm"])), "center": draw(st.sampled_from([None, [3, -2]])),
            "scale": draw(st.sampled_from([None, None, 1, 20])), "dim": draw(st.sampled_from([None, 2]))}




def circle(G, **kw):
    H = nx.Graph()
    H.add_nodes_from(sorted(G))
    return nx.circular_layout(H, **kw)


FN = {"circular": circle, "line": lc.line_layout, "line3": lambda G, **k: lc.line_layout(G, k=3, **k), "flat": lc.flat_layout}


def run_pack(c):
    import minorminer.layout as mml
    G = lc.shuffled(c["g"], c["lab"], c["seed"])
    fn = FN[c["fn"]] if c["fn"] != "pnorm" else mml.p_norm
    kw = {k: (tuple(c[k]) if k == "center" else c[k]) for k in ("center", "scale", "dim") if c[k] is not None}
    L = mml.Layout(G, fn, **kw)
    ensure(set(L) == set(G), "nodes of the layout: %s", list(L))
    X = np.array([L[v] for v in G], dtype=float)
    ensure(X.shape == (len(G), 2) and np.isfinite(X).all(), "layout %s", X.tolist())
    if c["center"]:
        lo, hi = lc.bbox(X)
        ensure(lc.close((lo + hi) / 2, c["center"]), "centered at %s", (lo + hi) / 2)
    comps = [sorted(x) for x in nx.connected_components(G)]
    f = 1.0
    # one factor for all components
    if c["scale"]:
        plain = mml.Layout(G, fn, **{k: v for k, v in kw.items() if k != "scale"}) if c["fn"] != "pnorm" else None
        if len(G) > 1:
            ensure(abs(L.scale - c["scale"]) < 1e-6 * c["scale"], "scale %s, not %s", L.scale, c["scale"])
        if plain is not None and plain.scale > 1e-9:
            f = c["scale"] / plain.scale
            want = {v: (np.array(plain[v]) - plain.center) * f + L.center for v in G}
            ensure(all(lc.close(L[v], want[v], 1e-5) for v in G), "scaling changed more than the scale")
    boxes = [lc.bbox([L[v] for v in x]) for x in comps]
    for i in range(len(boxes)):
        for j in range(i):
            (a, b), (x, y) = boxes[i], boxes[j]
            eps = 1e-7 * max(1, L.scale)
            ensure(np.any(b <= x + eps) or np.any(y <= a + eps), "components %s and %s overlap: %s %s", comps[i], comps[j], boxes[i], boxes[j])
            ensure(not np.allclose((a + b) / 2, (x + y) / 2, atol=1e-9), "components %s and %s sit on each other", comps[i], comps[j])
    if c["fn"] != "pnorm":
        for x in comps:
            if len(x) > 2:
                # each component is a rotated, moved copy of its own layout
                sub = fn(G.subgraph(x), scale=len(x) ** .5, **{k: v for k, v in kw.items() if k != "scale"})
                P, Q = np.array([sub[v] for v in x], dtype=float), np.array([L[v] for v in x], dtype=float)
                dp = np.linalg.norm(P[:, None] - P[None], axis=-1)
                dq = np.linalg.norm(Q[:, None] - Q[None], axis=-1)
                ensure(lc.close(dq, dp * f, 1e-5), "component %s lost its shape: distances %s, expected %s", x, dq.tolist(), (dp * f).tolist())
            elif len(x) == 2:
                ensure(np.linalg.norm(np.array(L[x[0]]) - np.array(L[x[1]])) > 1e-6 * L.scale, "an edge has no length")
    return Info(len(comps) > 1, ["comps=%d" % min(5, len(comps)), c["fn"], "scale=%s" % c["scale"]])


@st.composite
def rect_case(draw):
    hi = draw(st.sampled_from([2, 5, 30, 1000]))
    s = draw(st.lists(st.tuples(st.integers(1, hi), st.integers(1, hi)).map(list), max_size=12))
    return {"s": s, "w": draw(st.one_of(st.none(), st.integers(1, 4 * hi))), "h": draw(st.one_of(st.none(), st.integers(1, 4 * hi))),
            "move": [[draw(st.integers(-3, 3)) for _ in range(2)] for _ in s]}


def run_rect(c):
    from minorminer._extern import rpack
    s = [tuple(x) for x in c["s"]]
    kw = {}
    if c["w"]:
        kw["max_width"] = c["w"]
    if c["h"]:
        kw["max_height"] = c["h"]
    W, H = c["w"] or 10**9, c["h"] or 10**9
    try:
        pos = rpack.pack(iter(s), **kw)
    except rpack.PackingImpossibleError:
        ensure(kw, "packing without limits is always possible")
        ensure(W < sum(w for w, _ in s) or H < max(h for _, h in s), "a row of %s fits into %s", s, kw)
        ensure(H < sum(h for _, h in s) or W < max(w for w, _ in s), "a column of %s fits into %s", s, kw)
        return Info(len(s) > 2, ["impossible"])
    ensure(len(pos) == len(s), "%d positions for %d rectangles", len(pos), len(s))

    def over(pos):
        return [(i, j) for i in range(len(s)) for j in range(len(s)) if i != j and pos[i][0] < pos[j][0] + s[j][0] and
                pos[j][0] < pos[i][0] + s[i][0] and pos[i][1] < pos[j][1] + s[j][1] and pos[j][1] < pos[i][1] + s[i][1]]
    ensure(not over(pos), "rectangles %s overlap at %s", s, pos)
    bw, bh = (max((x + w for (x, _), (w, _) in zip(pos, s)), default=0), max((y + h for (_, y), (_, h) in zip(pos, s)), default=0))
    ensure(all(x >= 0 and y >= 0 for x, y in pos), "negative positions %s", pos)
    ensure(bw <= W and bh <= H, "packed into %dx%d although limited to %s", bw, bh, kw)
    ensure(rpack.bbox_size(s, pos) == (bw, bh), "bbox_size %s, expected %s", rpack.bbox_size(s, pos), (bw, bh))
    if s:
        d = sum(w * h for w, h in s) / (bw * bh)
        ensure(abs(rpack.packing_density(s, pos) - d) < 1e-9, "packing_density %g, expected %g", rpack.packing_density(s, pos), d)
    moved = [(x + a, y + b) for (x, y), (a, b) in zip(pos, c["move"])]
    o = over(moved)
    got = rpack.overlapping(s, moved)
    ensure(got in o if o else got is None, "overlapping says %s, the overlaps are %s", got, o)
    return Info(len(s) > 2, ["n=%d" % len(s), "limits=%d" % len(kw), "overlap=%s" % bool(o)])


FACETS = [Facet("p-norm", pnorm_case, run_pnorm, 1500, 40000, exts=LAY), Facet("lattices", lattice_case, run_lattice, 1200, 30000, exts=LAY),
          Facet("packing", pack_case, run_pack, 2000, 40000, exts=LAY), Facet("rectangles", rect_case, run_rect, 5000, 100000, exts=LAY)]
