"""Damaged Chimera / Pegasus / Zephyr graphs, and a reference model of their lines, cells, cliques and bicliques."""
import itertools
import os
import random

import networkx as nx
from hypothesis import strategies as st

# ------------------------------------------------------------------ cases

CHIMERA = [[1, 1, 4], [2, 2, 4], [3, 3, 4], [4, 4, 4], [1, 4, 4], [4, 1, 4], [2, 5, 2], [5, 3, 3], [3, 3, 8], [4, 4, 1], [6, 6, 1],
           [2, 2, 7], [1, 1, 8], [1, 2, 2], [4, 2, 5], [5, 5, 2], [1, 1, 1], [3, 4, 6], [7, 2, 1]]
PEGASUS = [[2], [2], [3], [3], [4]]
ZEPHYR = [[1, 4], [2, 4], [1, 1], [2, 1], [3, 1], [2, 2], [3, 2], [1, 3], [2, 3], [3, 4], [1, 2]]


@st.composite
def topology(draw, families="cpz", big=True):
    fam = draw(st.sampled_from(families))
    t = {"fam": fam}
    if fam == "c":
        t["args"] = draw(st.sampled_from(CHIMERA))
    elif fam == "p":
        t["args"] = draw(st.sampled_from(PEGASUS if big else PEGASUS[:2]))
        t["opt"] = draw(st.sampled_from([{}, {}, {}, {"fabric_only": False}, {"offsets_index": 2}, {"offsets_index": 5},
                                         {"offsets_index": 7}]))
    else:
        t["args"] = draw(st.sampled_from(ZEPHYR if big else ZEPHYR[:5]))
    many = draw(st.sampled_from([0, 0, 0, 0, 2, 5, 20, 60]))
    t["dn"] = draw(st.lists(st.integers(0, 2999), max_size=many))
    # classes of couplers: i(nternal), e(xternal), o(dd)
    ne = draw(st.sampled_from([0, 0, 1, 3, 6, 20]))
    t["de"] = draw(st.lists(st.tuples(st.sampled_from("iiieo"), st.integers(0, 9999)).map(list), max_size=ne))
    # whole cells / lines taken away
    t["dl"] = draw(st.lists(st.tuples(st.sampled_from(["line", "cell", "odd", "ext"]), st.integers(0, 999)).map(list),
                            max_size=draw(st.sampled_from([0, 0, 0, 0, 1, 3]))))
    t["order"] = draw(st.sampled_from([0, 0, 1, 2]))
    return t


@st.composite
def six_topology(draw):
    """Six couplers missing inside cells: the most that are still dealt with in every possible way."""
    fam, args = draw(st.sampled_from([("c", [1, 1, 4]), ("c", [1, 1, 8]), ("c", [1, 2, 5]), ("c", [2, 2, 2]), ("c", [2, 2, 4]),
                                      ("c", [2, 3, 4]), ("c", [3, 3, 3]), ("c", [3, 3, 4]), ("z", [1, 2]), ("z", [1, 4]),
                                      ("z", [2, 2])]))
    de = draw(st.lists(st.integers(0, 9999), min_size=6, max_size=6, unique=True))
    return {"fam": fam, "args": args, "dn": draw(st.lists(st.integers(0, 2999), max_size=1)), "de": [["i", i] for i in de],
            "dl": [], "order": draw(st.sampled_from([0, 1]))}


def lattice(t, **kw):
    import dwave.graphs as dg
    f = {"c": dg.chimera_graph, "p": dg.pegasus_graph, "z": dg.zephyr_graph}[t["fam"]]
    return f(*t["args"], **t.get("opt", {}), **kw)


class Frag:
    """The lattice as a grid of cells with vertical and horizontal lines cut into fragments.

    at[u][(y, x, k)] = linear qubit; covers all qubits of the undamaged lattice.
    """

    def __init__(self, t):
        fam = t["fam"]
        G = lattice(t)
        self.G = G
        self.cells = {}            # qubit -> list of (u, y, x, k), in line order
        if fam == "c":
            m, n, s = t["args"]
            self.dy, self.dx, self.shore = m, n, s
            for q in G:
                y, r = divmod(q, n * 2 * s)
                x, r = divmod(r, 2 * s)
                u, k = divmod(r, s)
                self.cells[q] = [(u, y, x, k)]
        elif fam == "p":
            m = t["args"][0]
            self.dy = self.dx = 6 * m
            self.shore = 2
            off = self.off = [[o // 2 for o in G.graph["vertical_offsets"][::2]], [o // 2 for o in G.graph["horizontal_offsets"][::2]]]
            for q in G:
                r, z = divmod(q, m - 1)
                r, k = divmod(r, 12)
                u, w = divmod(r, m)
                line = 6 * w + k // 2
                z0 = 6 * z + off[u][k // 2]
                self.cells[q] = [(0, z0 + i, line, k & 1) if u == 0 else (1, line, z0 + i, k & 1) for i in range(6)]
        else:
            m, s = t["args"]
            self.dy = self.dx = 2 * m + 1
            self.shore = 2 * s
            for q in G:
                r, z = divmod(q, m)
                r, kj = divmod(r, 2 * s)
                u, w = divmod(r, 2 * m + 1)
                z0 = 2 * z + (kj & 1)
                self.cells[q] = [(0, z0 + i, w, kj) if u == 0 else (1, w, z0 + i, kj) for i in range(2)]
        self.u = {q: c[0][0] for q, c in self.cells.items()}
        self.at = {f: q for q, c in self.cells.items() for f in c}
        self.line = {}
        for q, c in self.cells.items():
            u, y, x, k = c[0]
            self.line[q] = (u, x if u == 0 else y, k)

    def kind(self, p, q):
        if self.u[p] != self.u[q]:
            return "i"
        return "e" if self.line[p] == self.line[q] else "o"


_frag = {}


def frag(t):
    key = repr((t["fam"], t["args"], t.get("opt")))
    if key not in _frag:
        _frag[key] = Frag(t)
    return _frag[key]


def damaged(t):
    """(nodes, edges) left, as linear indices."""
    F = frag(t)
    nodes = sorted(F.G)
    edges = sorted(tuple(sorted(e)) for e in F.G.edges())
    by = {"i": [], "e": [], "o": []}
    for e in edges:
        by[F.kind(*e)].append(e)
    gone = set()
    dead = {nodes[i % len(nodes)] for i in t["dn"]} if nodes else set()
    for c, i in t["de"]:
        l = by[c] or by["i"]
        if l:
            gone.add(l[i % len(l)])
    for kind, i in t["dl"]:
        if not nodes:
            break
        if kind == "line":
            l = sorted(set(F.line.values()))
            li = l[i % len(l)]
            dead |= {q for q in nodes if F.line[q][:2] == li[:2]}
        elif kind == "cell":
            cs = sorted({f[1:3] for f in F.at})
            c = cs[i % len(cs)]
            dead |= {q for f, q in F.at.items() if f[1:3] == c}
        elif kind == "odd":
            gone |= set(by["o"])
        else:
            q = nodes[i % len(nodes)]
            gone |= {e for e in by["e"] if F.line[e[0]][:2] == F.line[q][:2]}
    nodes = [q for q in nodes if q not in dead]
    edges = [e for e in edges if e not in gone and e[0] not in dead and e[1] not in dead]
    if t["order"]:
        r = random.Random(t["order"])
        r.shuffle(nodes)
        r.shuffle(edges)
        edges = [e if r.random() < .5 else e[::-1] for e in edges]
    return nodes, edges


LABELS = {"c": ["int", "coordinate"], "p": ["int", "coordinate", "nice"], "z": ["int", "coordinate"]}


def translator(t, label):
    """linear index -> label"""
    import dwave.graphs as dg
    if label == "int":
        return lambda q: q
    fam, a = t["fam"], t["args"]
    if fam == "c":
        m, n, s = a

        def f(q):
            y, r = divmod(q, n * 2 * s)
            x, r = divmod(r, 2 * s)
            u, k = divmod(r, s)
            return (y, x, u, k)
        return f
    if fam == "p":
        m = a[0]

        def f(q):
            r, z = divmod(q, m - 1)
            r, k = divmod(r, 12)
            u, w = divmod(r, m)
            return (u, w, k, z)
        if label == "coordinate":
            return f
        co = dg.pegasus_coordinates(m)
        return lambda q: co.pegasus_to_nice(f(q))
    m, s = a

    def f(q):
        r, z = divmod(q, m)
        r, kj = divmod(r, 2 * s)
        u, w = divmod(r, 2 * m + 1)
        return (u, w, kj // 2, kj % 2, z)
    return f


def graph(t, label="int", damage=None):
    """The networkx graph a user would have, with its topology attributes."""
    nodes, edges = damage or damaged(t)
    kw = {}
    if label == "coordinate":
        kw["coordinates"] = True
    if label == "nice":
        kw["nice_coordinates"] = True
    f = translator(t, label)
    if label == "nice":
        # nodes outside the fabric have no nice coordinates
        base = lattice(t, **kw)
        G = nx.Graph(**base.graph)
        ok = set(base)
    else:
        G = nx.Graph(**lattice(t, **kw).graph)
        ok = None
    for q in nodes:
        if ok is None or f(q) in ok:
            G.add_node(f(q))
    for p, q in edges:
        if ok is None or (f(p) in ok and f(q) in ok):
            G.add_edge(f(p), f(q))
    return G


# ------------------------------------------------------------------ reference: lines, bad couplers, bicliques, cliques

class Ref:
    """What the busclique construction can find, written from its description: cells with parallel lines; an ell is a vertical
    and a horizontal line segment meeting in the corner of a rectangle; a clique of width w is a staircase of w ells; a
    biclique is a rectangle's vertical lines against its horizontal lines.  Missing couplers inside a cell are dealt
    with by giving up one of the two line fragments, in every possible way (up to 6 of them)."""

    def __init__(self, t, damage=None):
        F = self.F = frag(t)
        self.fam = t["fam"]
        nodes, edges = damage or damaged(t)
        self.nodes = set(nodes)
        E = self.E = set()
        for p, q in edges:
            E.add((p, q))
            E.add((q, p))
        self.dy, self.dx, self.shore = F.dy, F.dx, F.shore
        here = {f: q for f, q in F.at.items() if q in self.nodes}
        self.here = here
        self.bad = []
        for (u, y, x, k), q in sorted(here.items()):
            if u == 0:
                for k1 in range(self.shore):
                    p = here.get((1, y, x, k1))
                    if p is not None and (p, q) not in E:
                        self.bad.append(((u, y, x, k), (1, y, x, k1)))
        self.exact = len(self.bad) <= 6

    def masks(self):
        seen = set()
        for pick in itertools.product((0, 1), repeat=len(self.bad)):
            s = frozenset(b[i] for b, i in zip(self.bad, pick))
            if s not in seen:
                seen.add(s)
                yield s

    def lines(self, gone):
        """line[(u, w, z0, z1)] = bit mask of the shore indices with an unbroken line"""
        L = {}
        for u in (0, 1):
            W, Z = (self.dx, self.dy) if u == 0 else (self.dy, self.dx)

            def f(w, z, k):
                return (0, z, w, k) if u == 0 else (1, w, z, k)
            for w in range(W):
                for z0 in range(Z):
                    m = {k for k in range(self.shore) if f(w, z0, k) in self.here and f(w, z0, k) not in gone}
                    L[u, w, z0, z0] = len(m)
                    for z1 in range(z0 + 1, Z):
                        m2 = set()
                        for k in m:
                            a, b = f(w, z1 - 1, k), f(w, z1, k)
                            if b in self.here and b not in gone:
                                p, q = self.here[a], self.here[b]
                                if p == q or (p, q) in self.E:
                                    m2.add(k)
                        m = m2
                        L[u, w, z0, z1] = len(m)
        return L

    def span(self, u, w, z0, z1):
        """qubits in the longest line of the family across these cells"""
        if self.fam == "c":
            return z1 - z0 + 1
        if self.fam == "p":
            o = self.F.off[u][w % 6]
            return (z1 - o) // 6 - (z0 - o) // 6 + 1
        return max([(z1 - j) // 2 - (z0 - j) // 2 + 1 for j in (0, 1) if z0 >= j and z1 + 1 - j < self.dy], default=0)

    def bicliques(self):
        """{(s0, s1): longest chain in the rectangle where it is shortest} over all masks"""
        out = {}
        per = {"c": 1, "p": 6, "z": 1}[self.fam]
        S = {(u, w, a, b): self.span(u, w, a, b) for u in (0, 1) for w in range(per)
             for a in range(max(self.dy, self.dx)) for b in range(a, max(self.dy, self.dx))}
        for gone in self.masks():
            L = self.lines(gone)
            for y0 in range(self.dy):
                for y1 in range(y0, self.dy):
                    V = [L[0, x, y0, y1] for x in range(self.dx)]
                    for x0 in range(self.dx):
                        s0 = 0
                        for x1 in range(x0, self.dx):
                            s0 += V[x1]
                            if s0 == 0:
                                continue
                            s1 = sum(L[1, y, x0, x1] for y in range(y0, y1 + 1))
                            if s1 == 0:
                                continue
                            l = max([S[0, x % per, y0, y1] for x in range(x0, min(x1, x0 + 5) + 1)] +
                                    [S[1, y % per, x0, x1] for y in range(y0, min(y1, y0 + 5) + 1)])
                            if out.get((s0, s1), 10**9) > l:
                                out[s0, s1] = l
        return out

    def clique_widths(self):
        """[best clique size for a staircase of width w], w from 1, over all masks"""
        best = {}
        W = min(self.dy, self.dx)
        for gone in self.masks():
            L = self.lines(gone)
            v = max((min(L[0, x, y, y], L[1, y, x, x]) for y in range(self.dy) for x in range(self.dx)), default=0)
            best[1] = max(best.get(1, 0), v)
            for w in range(2, W + 1):
                prev = None
                for h in range(1, w + 1):
                    wd = w - h + 1
                    cur = {}
                    # state: the rectangle left once the ells up to this height are placed, of height h and width wd - 1
                    for y0 in range(self.dy - h + 1):
                        for x0 in range(self.dx - wd + 1):
                            y1, x1 = y0 + h - 1, x0 + wd - 1
                            for yc, xc in ((y0, x0), (y0, x1), (y1, x0), (y1, x1)):
                                s = min(L[0, xc, y0, y1], L[1, yc, x0, x1])
                                if prev is not None:
                                    # the previous (shorter by a row, wd wide) rectangle excludes row yc
                                    py = y0 + 1 if yc == y0 else y0
                                    s += prev[py, x0]
                                # taking column xc away leaves columns starting at
                                nx0 = x0 + 1 if xc == x0 else x0
                                if cur.get((y0, nx0), -1) < s:
                                    cur[y0, nx0] = s
                    prev = cur
                best[w] = max(best.get(w, 0), max(prev.values(), default=0))
        return best


def clique_number4(nodes, edges, cap):
    """Largest clique of single nodes, up to cap."""
    if not nodes:
        return 0
    if not edges:
        return 1
    G = nx.Graph(edges)
    if cap == 2:
        return 2
    best = 2
    for a, b in G.edges():
        c = set(G[a]) & set(G[b])
        if c and best < 3:
            best = 3
        for p in c:
            if set(G[p]) & c:
                return 4
    return best


def fresh_cache_dir(tag=""):
    """Point the cache at a new empty directory."""
    import tempfile
    d = tempfile.mkdtemp(prefix="bc" + tag, dir=os.environ["VERIF_SCRATCH"])
    os.environ["XDG_DATA_HOME"] = d
    return d
