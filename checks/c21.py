"""Layout is one object with three faces: a mapping, an array in sorted order, and dim / center / scale."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import laycase as lc
from harness import LAY, Facet, Info, ensure

PROPERTY = "C21"
RULE = ("histories of up to 8 operations (dim, center, scale, layout, layout_array, setting and updating vertices) on Layouts of graphs of up to "
        "8 sortable, differently ordered nodes in 1 to 4 dimensions; non-trivial = at least two nodes at different positions and two effective "
        "operations; distinct by the whole case")
ASSUMPTIONS = ["nodes of one graph can be sorted", "a vertex of the graph is never deleted from its layout"]


@st.composite
def op(draw, n):
    k = draw(st.sampled_from(["dim", "center", "center", "scale", "scale", "set", "set", "update", "layout", "array", "nothing"]))
    if k == "dim":
        return [k, draw(st.integers(0, 5))]
    if k == "center":
        return [k, [draw(st.integers(-9, 9)) for _ in range(5)], draw(st.sampled_from(["tuple", "list", "array"]))]
    if k == "scale":
        return [k, draw(st.sampled_from([0, 1, 2, 3, 7, 40])) / draw(st.sampled_from([1, 4]))]
    if k == "set":
        return [k, draw(st.integers(0, 99)), [draw(st.integers(-20, 20)) for _ in range(5)]]
    if k == "update":
        return [k, draw(lc.positions(n, 5))]
    if k in ("layout", "array"):
        d = draw(st.integers(1, 4))
        return [k, draw(lc.positions(n, d))]
    return [k]


@st.composite
def case(draw):
    g = draw(gen.bits_graph(1, 8))
    d = draw(st.integers(1, 3))
    n = g["n"]
    kw = {}
    if draw(st.integers(0, 3)) == 0:
        kw["dim"] = draw(st.integers(d, 4))
    if draw(st.integers(0, 3)) == 0:
        kw["center"] = [draw(st.integers(-9, 9)) for _ in range(kw.get("dim", d))]
    if draw(st.integers(0, 3)) == 0:
        kw["scale"] = draw(st.sampled_from([.5, 1, 3, 12]))
    return {"g": g, "lab": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)), "kw": kw, "start": draw(lc.positions(n, d)),
            "how": draw(st.sampled_from(["dict", "dict", "extra", "func", "pack"])), "form": draw(st.sampled_from(["graph", "edges", "dict"])),
            "ops": [draw(op(n)) for _ in range(draw(st.integers(0, 8)))]}


class Model:
    def __init__(self, pos):
        self.pos = {v: np.array(p, dtype=float) for v, p in pos.items()}

    def array(self):
        return np.array([self.pos[v] for v in sorted(self.pos)])

    def specs(self):
        a = self.array()
        lo, hi = a.min(0), a.max(0)
        c = (lo + hi) / 2
        return a.shape[1], c, float(np.abs(a - c).max())

    def dim(self, d):
        if d:
            self.pos = {v: np.concatenate([p, np.zeros(d - len(p))]) for v, p in self.pos.items()}

    def center(self, c):
        _, old, _ = self.specs()
        self.pos = {v: p - old + np.array(c, dtype=float) for v, p in self.pos.items()}

    def scale(self, s):
        _, c, old = self.specs()
        if s and old > 1e-9:
            self.pos = {v: (p - c) * (s / old) + c for v, p in self.pos.items()}


def compare(L, M, what):
    d, c, s = M.specs()
    ensure(set(L) == set(M.pos) and len(L) == len(M.pos), "%s: keys %s, expected %s", what, list(L), list(M.pos))
    for v, p in M.pos.items():
        ensure(lc.close(L[v], p), "%s: position of %r is %s, expected %s", what, v, L[v], p)
    ensure(lc.close(L.layout_array, M.array()), "%s: layout_array %s, expected %s", what, np.array(L.layout_array).tolist(), M.array().tolist())
    ensure(L.dim == d, "%s: dim %s, expected %s", what, L.dim, d)
    ensure(lc.close(L.center, c), "%s: center %s, expected %s", what, L.center, c)
    ensure(abs(L.scale - s) <= 1e-6 * (1 + s), "%s: scale %s, expected %s", what, L.scale, s)
    ensure({v: tuple(p) for v, p in L.items()} == {v: tuple(L.layout[v]) for v in L}, "%s: items() and layout differ", what)


def run(c):
    import minorminer.layout as mml
    G = lc.shuffled(c["g"], c["lab"], c["seed"])
    H = lc.as_form(G, c["form"])
    nodes = sorted(G)
    start = dict(zip(nodes, lc.pts(c["start"])))
    kw = {k: (tuple(v) if k == "center" else v) for k, v in c["kw"].items()}
    given = dict(start)
    if c["how"] == "extra":
        given[("no", "vertex")] = (0,) * len(c["start"][0])
    calls = []

    def func(X, **k):
        calls.append((set(X), {a: b for a, b in k.items() if a != "spice"}, k.get("spice")))
        return {v: start[v] for v in X}
    keep = {v: tuple(p) for v, p in given.items()}
    if c["how"] == "func":
        L = mml.Layout(H, func, pack_components=False, spice=3, **kw)
        ensure(len(calls) == 1, "the layout function was called %d times", len(calls))
        ensure(calls[0] == (set(G), kw, 3), "the layout function got %s, expected nodes %s and %s", calls[0], sorted(G), kw)
    elif c["how"] == "pack":
        # whatever the components and the function, the specifications asked for are those of the result
        dim = kw.get("dim") or (len(kw["center"]) if "center" in kw else 2)
        L = mml.Layout(H, lc.line_layout, **kw)
        M = Model({v: L[v] for v in L})
        compare(L, M, "packed")
        ensure(set(L) == set(G), "packed: nodes %s", set(L) ^ set(G))
        ensure(L.dim == dim, "packed: dim %s for %s", L.dim, kw)
        if "center" in kw:
            ensure(lc.close(L.center, kw["center"]), "packed: center %s for %s", L.center, kw)
        if "scale" in kw and len({tuple(p) for p in L.values()}) > 1:
            ensure(abs(L.scale - kw["scale"]) < 1e-6 * (1 + kw["scale"]), "packed: scale %s for %s", L.scale, kw)
    else:
        L = mml.Layout(H, given, **kw)
    ensure({v: tuple(p) for v, p in given.items()} == keep, "the caller's layout was changed")
    if c["how"] != "pack":
        M = Model(start)
        M.dim(kw.get("dim"))
        if "scale" in kw:
            M.scale(kw["scale"])
        if "center" in kw:
            M.center(kw["center"])
        if c["how"] == "extra":
            L.pop(("no", "vertex"), None)
        compare(L, M, "created")
    effective = 0
    for o in c["ops"]:
        k = o[0]
        before = M.array()
        d = before.shape[1]
        what = "after %s of %s" % (k, o[1:])
        if k == "dim":
            if 0 < o[1] < d:
                try:
                    L.dim = o[1]
                except ValueError:
                    pass
                else:
                    ensure(False, "dim went from %d to %d", d, o[1])
            else:
                L.dim = o[1] or None
                M.dim(o[1])
        elif k == "center":
            x = o[1][:d]
            L.center = {"tuple": tuple, "list": list, "array": np.array}[o[2]](x)
            M.center(x)
        elif k == "scale":
            L.scale = o[1] or None
            M.scale(o[1])
        elif k == "set":
            v = nodes[o[1] % len(nodes)]
            p = tuple(x / 4 for x in o[2][:d])
            L[v] = p
            M.pos[v] = np.array(p, dtype=float)
        elif k == "update":
            new = {v: p[:d] for v, p in zip(nodes, lc.pts(o[1]))}
            L.update(new)
            M = Model(new)
        elif k == "layout":
            new = dict(zip(nodes, lc.pts(o[1])))
            keep = dict(new)
            L.layout = new
            M = Model(new)
        elif k == "array":
            new = np.array(lc.pts(o[1]))
            L.layout_array = new
            M = Model(dict(zip(nodes, new)))
        compare(L, M, what)
        if k == "layout":
            ensure(new == keep, "the dictionary given as layout was changed")
        after = M.array()
        effective += after.shape != before.shape or not np.allclose(after, before)
    return Info(effective >= 2 and len({tuple(p) for p in M.array().tolist()}) > 1,
                [c["how"], c["form"], "effective=%d" % effective] + sorted({o[0] for o in c["ops"]}))


FACETS = [Facet("model", case, run, 4000, 100000, exts=LAY)]
