"""The native Chimera embedder finds valid cliques and bicliques, as large and as tight as there are."""
import itertools
import random
import warnings

import networkx as nx
from hypothesis import strategies as st

import buscase as bc
from harness import BQ, Facet, Info, ensure

PROPERTY = "C27"
RULE = ("Chimera graphs up to 5 x 5 of shores 1 to 4, damaged in qubits, couplers inside and between cells, lines and cells, given in linear or "
        "Chimera coordinates in any order; all widths, sizes, imbalances and chain length limits; non-trivial = damaged and at least K_2 or K_{1,2} "
        "is found; distinct by the whole case")
ASSUMPTIONS = ["sizes and chain lengths are claimed for at most 6 missing couplers inside cells (the documented exhaustive mode), chain lengths of tightest "
               "embeddings when there are none", "a native clique has chains of at least two qubits", "limits allow at least one qubit"]
SIZES = [[2, 2, 5], [1, 2, 6], [1, 1, 4], [2, 2, 4], [3, 3, 4], [1, 4, 4], [4, 1, 4], [2, 5, 2], [5, 3, 3], [4, 4, 1], [5, 5, 1], [1, 1, 1], [1, 2, 2], [4, 2, 3],
         [4, 4, 2], [3, 4, 2]]


@st.composite
def case(draw):
    t = draw(bc.topology("c"))
    t["args"] = draw(st.sampled_from(SIZES))
    if draw(st.integers(0, 2)) == 0:
        # few enough missing couplers to try everything, and enough damage for the ways to differ
        t["args"] = draw(st.sampled_from([[3, 3, 3], [3, 3, 2], [2, 3, 4], [4, 3, 2], [3, 3, 4], [4, 4, 1]]))
        t["de"] = [["i", i] for i in draw(st.lists(st.integers(0, 9999), min_size=1, max_size=5))]
        t["dn"] = draw(st.lists(st.integers(0, 999), max_size=10))
        t["dl"] = []
    t["de"] = t["de"] + draw(st.lists(st.tuples(st.just("e"), st.integers(0, 9999)).map(list), max_size=draw(st.sampled_from([0, 0, 8, 30]))))
    return {"t": t, "linear": draw(st.booleans()), "square": draw(st.booleans()), "bundles": draw(st.integers(0, 3)) == 0,
            "rs": draw(st.integers(0, 999)), "q": draw(st.integers(0, 10**6))}


def setup(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from minorminer.utils.polynomialembedder import processor
    random.seed(c["rs"])
    t = c["t"]
    M, N, L = t["args"]
    _, edges = bc.damaged(t)
    nodes = sorted({q for e in edges for q in e})
    ref = bc.Ref(t, (nodes, edges))
    f = bc.translator(t, "coordinate")
    given = edges if c["linear"] else [(f(p), f(q)) for p, q in edges]
    kw = {} if M == N and c["square"] else {"N": N}
    if c["bundles"]:
        kw["random_bundles"] = True
    if not c["linear"]:
        kw["linear"] = False
    keep = list(given)
    P = processor(given, M=M, L=L, **kw)
    ensure(given == keep, "the edge list was changed")
    G = nx.Graph()
    G.add_nodes_from(nodes)
    G.add_edges_from(edges)
    if not c["linear"]:
        G = nx.relabel_nodes(G, {q: f(q) for q in nodes})
    full = bc.lattice(t).number_of_edges()
    return P, G, ref, (M, N, L), len(edges) < full


def paths(chains, G, what):
    ensure(isinstance(chains, list), "%s is %s", what, type(chains))
    used = set()
    for ch in chains:
        ensure(len(ch) and len(set(ch)) == len(ch) and all(q in G for q in ch), "%s has the chain %s", what, ch)
        ensure(all(G.has_edge(a, b) for a, b in zip(ch, ch[1:])), "%s: the chain %s is not a path", what, ch)
        ensure(not used & set(ch), "%s: chains overlap in %s", what, used & set(ch))
        used |= set(ch)


def coupled(a, b, G):
    return any(G.has_edge(p, q) for p in a for q in b)


def clique(chains, G, what):
    paths(chains, G, what)
    for a, b in itertools.combinations(chains, 2):
        ensure(coupled(a, b, G), "%s: chains %s and %s are not coupled", what, a, b)


def run_clique(c):
    P, G, ref, (M, N, L), dmg = setup(c)
    W = min(M, N)
    best = ref.clique_widths() if ref.exact else None
    for w in range(1, W + 1):
        ch = P.nativeCliqueEmbed(w)
        clique(ch, G, "nativeCliqueEmbed(%d)" % w)
        ensure(all(len(x) == w + 1 for x in ch), "nativeCliqueEmbed(%d) has chains of lengths %s", w, [len(x) for x in ch])
        if best:
            ensure(len(ch) == best[w], "nativeCliqueEmbed(%d) has %d chains, there are %d", w, len(ch), best[w])
    q = c["q"]
    limit = [None, None] + list(range(2, W + 2)) + [M + N + q % 7]
    limit = limit[q // 7 % len(limit)]
    ch = P.largestNativeClique() if limit is None and q % 2 else P.largestNativeClique(max_chain_length=limit)
    clique(ch, G, "largestNativeClique")
    if limit:
        ensure(all(len(x) <= limit for x in ch), "largestNativeClique(%d) has a chain of length %d", limit, max(map(len, ch), default=0))
    if best:
        ok = {w: best[w] for w in range(1, min(W, (limit or 99) - 1) + 1)}
        size = max(ok.values())
        if limit and limit > W + 1:
            ensure(len(ch) >= size, "largestNativeClique(%s) has %d chains, there are %d", limit, len(ch), size)
        else:
            ensure(len(ch) == size, "largestNativeClique(%s) has %d chains, there are %d", limit, len(ch), size)
        if not ref.bad and ch and len(ch) == size:
            w = min(w for w in ok if ok[w] == size)
            ensure(len(ch[0]) == w + 1, "largestNativeClique's chains have length %d, %d suffices", len(ch[0]), w + 1)
    top = max(best.values()) if best else len(ch)
    # what a width can just hold tells the ways to give up qubits apart
    for n in {1 + q % (top + 3), top, top + 1} | set(best.values() if best else ()):
        t = P.tightestNativeClique(n)
        if best is None:
            if t:
                clique(t, G, "tightestNativeClique(%d)" % n)
                ensure(len(t) == n, "tightestNativeClique(%d) has %d chains", n, len(t))
            continue
        ws = [w for w in best if best[w] >= n]
        if not ws:
            ensure(not t, "tightestNativeClique(%d) is %s although there are only %d", n, t, top)
            continue
        clique(t, G, "tightestNativeClique(%d)" % n)
        ensure(len(t) == n, "tightestNativeClique(%d) has %d chains", n, len(t))
        ensure(not n or {len(x) for x in t} == {min(ws) + 1}, "tightestNativeClique(%d) has chains of lengths %s, %d suffices", n,
               [len(x) for x in t], min(ws) + 1)
    return Info(dmg and top > 1, ["linear=%s" % c["linear"], "bad=%s" % (str(len(ref.bad)) if ref.exact else ">6"), "size=%d" % min(top, 9),
                                  "limit=%s" % (limit is not None)])


def rectangles(ref, M, N):
    """[{(horizontal chain length a, b): set of (lines along the rows' direction, lines across)}] for every least way to
    give up qubits"""
    masks = list(ref.masks())
    each = []
    for gone in masks:
        if any(x < gone for x in masks):
            continue
        out = {}
        each.append(out)
        Ls = ref.lines(gone)
        # reference: u = 0 runs along the rows (x of the module), u = 1 along the columns
        for x0 in range(M):
            for x1 in range(x0, M):
                for y0 in range(N):
                    for y1 in range(y0, N):
                        h = sum(Ls[0, y, x0, x1] for y in range(y0, y1 + 1))
                        v = sum(Ls[1, x, y0, y1] for x in range(x0, x1 + 1))
                        out.setdefault((x1 - x0 + 1, y1 - y0 + 1), set()).add((h, v))
    return each


def run_biclique(c):
    P, G, ref, (M, N, L), dmg = setup(c)
    q = c["q"]
    kw = {}
    imb = [0, 0, 1, 2, None][q % 5]
    if imb != 0 or q % 3:
        kw["chain_imbalance"] = imb
    lim = [None, None, 1, 2, 3, M + N][q // 5 % 6]
    if lim is not None:
        kw["max_chain_length"] = lim
    R, each = None, rectangles(ref, M, N) if ref.exact else None
    if ref.exact:
        R = {}
        for x in each:
            for l, z in x.items():
                R.setdefault(l, set()).update(z)

    def fits(ab):
        return (imb is None or abs(ab[0] - ab[1]) <= imb) and (lim is None or max(ab) <= lim)

    def judge(emb, what, sizes=None):
        ensure(isinstance(emb, tuple) and len(emb) == 2, "%s is %s", what, emb)
        A, B = emb
        paths(list(A) + list(B), G, what)
        for a in A:
            for b in B:
                ensure(coupled(a, b, G), "%s: chains %s and %s are not coupled", what, a, b)
        la, lb = {len(x) for x in A}, {len(x) for x in B}
        ensure(len(la) <= 1 and len(lb) <= 1, "%s has chains of lengths %s and %s on the sides", what, la, lb)
        if A and B:
            ensure(fits((min(la), min(lb))), "%s has chains of lengths %s and %s with imbalance %s and limit %s", what, la, lb, imb, lim)
        if sizes:
            ensure((len(A), len(B)) == sizes, "%s has sides %d and %d", what, len(A), len(B))
        return tuple(sorted((min(la, default=0), min(lb, default=0)), reverse=True))
    emb = P.largestNativeBiClique(**kw)
    best = tuple(sorted(map(len, emb)))
    ab = judge(emb, "largestNativeBiClique")
    if R is not None:
        ok = [(tuple(sorted(s)), tuple(sorted(l, reverse=True))) for l in R if fits(l) for s in R[l]]
        want = max(s for s, _ in ok)
        ensure(best == want, "largestNativeBiClique(%s) has sides %s, there are %s", kw, best, want)
        if not ref.bad and min(best):
            tight = min(l for s, l in ok if s == want)
            ensure(ab == tight, "largestNativeBiClique(%s) has chain lengths %s, %s suffice", kw, ab, tight)
    top = max(best)
    for n, m in {(1 + q // 30 % (top + 2), 1 + q // 300 % (top + 2)), (best[0] or 1, best[1] or 1), (1, 1 + q // 77 % (top + 2))}:
        args = (n,) if n == m and q % 2 else (n, m)
        t = P.tightestNativeBiClique(*args, **kw)
        what = "tightestNativeBiClique(%s)" % (args,)
        if R is None:
            if t is not None:
                judge(t, what, (n, m))
            continue
        ok = [tuple(sorted(l, reverse=True)) for l in R if fits(l) for s in R[l] if (s[0] >= n and s[1] >= m) or (s[0] >= m and s[1] >= n)]
        if not ok:
            ensure(t is None, "%s is %s although there is none (%s)", what, t, kw)
            continue
        ensure(t is not None, "%s is None although there is one with chain lengths %s (%s)", what, min(ok), kw)
        got = judge(t, what, (n, m))
        if not ref.bad:
            ensure(got == min(ok), "%s has chain lengths %s, %s suffice (%s)", what, got, min(ok), kw)
        # the fewest qubits among the shortest chains of every way
        most = []
        for x in each:
            ls = [tuple(sorted(l)) for l in x if fits(l) for s in x[l] if (s[0] >= n and s[1] >= m) or (s[0] >= m and s[1] >= n)]
            if ls:
                a, b = min(ls, key=lambda l: (l[1], l[0]))
                most.append(max(n * a + m * b, n * b + m * a))
        count = sum(len(ch) for side in t for ch in side)
        ensure(count <= min(most), "%s has %d qubits, %d suffice (%s)", what, count, min(most), kw)
    return Info(dmg and best[0] > 0 and best[1] > 1, ["linear=%s" % c["linear"], "bad=%s" % (str(len(ref.bad)) if ref.exact else ">6"),
                                                      "imbalance=%s" % imb, "limit=%s" % lim])


FACETS = [Facet("cliques", case, run_clique, 4000, 100000, exts=BQ), Facet("bicliques", case, run_biclique, 4000, 100000, exts=BQ)]
