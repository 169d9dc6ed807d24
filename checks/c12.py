"""busclique: clique sizes and chain lengths are the best of the construction."""
import shutil

import networkx as nx
from hypothesis import strategies as st

import buscase as b
from harness import BQ, Facet, Info, ensure

PROPERTY = "C12"
RULE = ("a damaged chimera/pegasus/zephyr graph; clique sizes and chain lengths against a reference dynamic programme over lines and "
        "rectangles, the one-shot search, subgraphs and closed forms; non-trivial = the largest clique has 3 or more chains; "
        "distinct by the whole case")
ASSUMPTIONS = ["sizes are compared with the reference when at most 6 couplers are missing inside cells (beyond that the code "
               "documents a randomized choice); zephyr and pegasus chain lengths are compared with the one-shot search"]


@st.composite
def case(draw):
    t = draw(b.topology(big=False))
    return {"t": t, "seed": draw(st.integers(0, 2**32 - 1))}


@st.composite
def six_case(draw):
    return {"t": draw(b.six_topology()), "seed": draw(st.integers(0, 2**32 - 1))}


def short(fam):
    return 2 if fam == "c" else 4


def length(e):
    return max(map(len, e.values()), default=0)


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        D = b.damaged(t)
        R = b.Ref(t, D)
        g = b.graph(t, damage=D)
        B = bc.busgraph_cache(g, seed=c["seed"])
        N = len(B.largest_clique())
        if len(R.bad) > (3 if t["fam"] == "p" else 6):
            return Info(False, ["many-bad"])
        W = R.clique_widths()
        if t["fam"] == "p":
            W.pop(1, None)
        k = b.clique_number4(*D, short(t["fam"]))
        want = max([k] + list(W.values()))
        ensure(N == want, "largest clique %d, the reference construction finds %d (widths %r, short %d)", N, want, W, k)
        if t["fam"] == "c":
            for n in range(1, N + 1):
                if n <= k:
                    l = 1
                else:
                    l = min(w + 1 for w, s in W.items() if s >= n)
                got = length(B.find_clique_embedding(n))
                ensure(got == l, "K%d with chains of %d, the reference has %d", n, got, l)
        elif k:
            ensure(length(B.find_clique_embedding(k)) == 1, "K%d is a subgraph, chains are longer", k)
        return Info(N >= 3, [t["fam"], "bad%d" % len(R.bad)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def diff_case(draw):
    return {"t": draw(b.topology()), "seed": draw(st.integers(0, 2**32 - 1)),
            "sizes": draw(st.lists(st.integers(1, 40), min_size=1, max_size=8))}


def run_diff(c):
    """The cached search and the one-shot search agree on sizes and chain lengths; lengths grow with the size."""
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        g = b.graph(t)
        B = bc.busgraph_cache(g, seed=c["seed"])
        N = len(B.largest_clique())
        prev = 0
        by = []
        for n in range(1, N + 1):
            l = length(B.find_clique_embedding(n))
            ensure(l >= prev, "K%d needs chains of %d, K%d only %d", n - 1, prev, n, l)
            prev = l
            by.append(l)
        for L in range(1, prev + 1):
            e = B.largest_clique_by_chainlength(L)
            want = sum(1 for l in by if l <= L)
            ensure(len(e) == want, "largest_clique_by_chainlength(%d) has %d chains, find_clique_embedding reaches %d", L, len(e),
                   want)
        for n in {min(n, N + 1) for n in c["sizes"]} | {N, N + 1}:
            a = bc.find_clique_embedding(n, g, use_cache=False, seed=c["seed"])
            if n > N:
                ensure(not a, "one-shot finds K%d, the cache only K%d", n, N)
            elif n:
                ensure(len(a) == n, "one-shot misses K%d", n)
                ensure(length(a) == by[n - 1], "K%d: one-shot chains of %d, cached %d", n, length(a), by[n - 1])
        return Info(N >= 3, [t["fam"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def mono_case(draw):
    t = draw(b.topology(big=False))
    t["de"] = t["de"][:6]
    return {"t": t, "seed": draw(st.integers(0, 2**32 - 1)), "drop": draw(st.lists(st.integers(0, 2999), min_size=1, max_size=10))}


def profile(bc, g, seed):
    B = bc.busgraph_cache(g, seed=seed)
    N = len(B.largest_clique())
    M = len(B.largest_balanced_biclique()) // 2
    return [length(B.find_clique_embedding(n)) for n in range(1, N + 1)], M


def run_mono(c):
    """Taking qubits away never helps (with few couplers missing inside cells)."""
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        nodes, edges = b.damaged(t)
        R = b.Ref(t, (nodes, edges))
        if not R.exact or not nodes:
            return Info(False)
        gone = {nodes[i % len(nodes)] for i in c["drop"]}
        D2 = ([q for q in nodes if q not in gone], [e for e in edges if e[0] not in gone and e[1] not in gone])
        A, Ma = profile(bc, b.graph(t, damage=(nodes, edges)), c["seed"])
        B, Mb = profile(bc, b.graph(t, damage=D2), c["seed"] ^ 5)
        ensure(len(B) <= len(A), "K%d after taking %r away, K%d before", len(B), gone, len(A))
        ensure(Mb <= Ma, "K%d,%d after taking %r away, K%d,%d before", Mb, Mb, gone, Ma, Ma)
        # the zephyr construction maximizes sizes, not sizes per chain length
        for n, (x, y) in enumerate(zip(A, B) if t["fam"] != "z" else (), 1):
            ensure(x <= y, "K%d: chains of %d after taking %r away, %d before", n, y, gone, x)
        return Info(len(A) >= 3, [t["fam"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def perfect_cases():
    out = []
    for m in range(1, 9):
        for n in range(1, 9):
            for s in (1, 2, 3, 4, 5, 6, 7, 8):
                if m * n * s <= 128 and (s in (4, 8) or m <= 5 and n <= 5):
                    out.append({"fam": "c", "args": [m, n, s]})
    out += [{"fam": "p", "args": [m]} for m in range(2, 9)]
    out += [{"fam": "z", "args": [m, s]} for m in range(1, 8) for s in (1, 2, 3, 4)]
    return [{"t": x, "seed": 3} for x in out]


def run_perfect(c):
    """Closed forms for undamaged graphs (the published yields of the native clique embeddings)."""
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t = c["t"]
        fam, a = t["fam"], t["args"]
        g = b.lattice(t)
        B = bc.busgraph_cache(g, seed=c["seed"])
        N = len(B.largest_clique())
        prof = [length(B.find_clique_embedding(n)) for n in range(1, N + 1)]
        if fam == "c":
            m, n, s = a
            w = min(m, n)
            want = [1 if i <= 2 else -(-i // s) + 1 for i in range(1, max(2, s * w) + 1)]
            ensure(prof == want, "chimera %r: chain lengths %r, expected %r", a, prof, want)
            top = max((min(s * x, s * y) for x in range(1, n + 1) for y in range(1, m + 1)), default=0)
            ensure(len(B.largest_balanced_biclique()) == 2 * top, "chimera %r: largest balanced biclique", a)
        elif fam == "p":
            m = a[0]
            want = [1] * 4 + [2] * 6
            if m > 2:
                for l in range(3, m + 1):
                    want += [l] * (10 if l < 5 else 12)
                want += [m + 1] * (12 * (m - 1) - len(want))
            ensure(prof == want, "pegasus %d: chain lengths %r, expected %r", m, prof, want)
        else:
            m, s = a
            want = [1 if i <= 4 else 2 if i <= 2 * s else 2 - (2 * s - i) // (4 * s)
                    for i in range(1, max(4, 2 * s + 4 * s * (m - 1)) + 1)]
            ensure(prof == want, "zephyr %r: chain lengths %r, expected %r", a, prof, want)
        return Info(N >= 3, [fam])
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet("reference", case, run, 1500, 40000, exts=BQ),
    Facet("six-couplers", six_case, run, 700, 20000, exts=BQ),
    Facet("one-shot", diff_case, run_diff, 1200, 30000, exts=BQ),
    Facet("monotone", mono_case, run_mono, 1200, 30000, exts=BQ),
    Facet("perfect", None, run_perfect, 0, 0, exts=BQ, fixed=perfect_cases),
]
