"""Placements: the nearest connected subsets (closest), the nearest crossing (intersection), on scaled copies of the layouts."""
import itertools

import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import laycase as lc
from harness import LAY, Discard, Facet, Info, ensure

PROPERTY = "C23"
RULE = ("closest: layouts of random sources and targets with subset sizes up to 3 and up to 9 neighbors; intersection: sources laid out over "
        "damaged lattices of the three families in every labelling and with every Pegasus offset, and on every crossing at once; placements: Placement objects of given, callable and default placements "
        "with scale ratios; non-trivial = two source nodes at different places, over two target nodes; distinct by the whole case")
ASSUMPTIONS = ["nodes of one graph can be sorted", "the target has connected subsets of the sizes asked for", "ties in distance may be broken either way"]


@st.composite
def closest_case(draw):
    S, T = draw(gen.bits_graph(1, 7)), draw(gen.bits_graph(1, 8))
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    lo = draw(st.integers(1, 3))
    return {"S": S, "T": T, "ls": draw(st.sampled_from(lc.SORTABLE)), "lt": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)),
            "ps": draw(lc.positions(S["n"], dim)), "pt": draw(lc.positions(T["n"], dim)), "size": [lo, draw(st.integers(lo, 4))],
            "k": draw(st.sampled_from([1, 1, 2, 3, 9]))}


def frozen(L):
    return {v: tuple(p) for v, p in L.items()}


def subsets(T, lo, hi):
    return [frozenset(x) for k in range(lo, hi + 1) for x in itertools.combinations(sorted(T), k) if nx.is_connected(T.subgraph(x))]


def judge_closest(placement, sp, tp, T, lo, hi, k):
    """placement of the source positions sp over the target positions tp."""
    subs = subsets(T, lo, hi)
    if not subs:
        raise Discard
    bary = [np.mean([tp[v] for v in x], axis=0) for x in subs]
    distinct = len({tuple(np.round(b, 9)) for b in bary}) == len(bary)
    at = dict(zip(subs, bary))
    ensure(set(placement) == set(sp), "placed %s, expected %s", sorted(placement, key=str), sorted(sp, key=str))
    used = {}
    for u in placement:                  # in the order of the choices
        x = frozenset(placement[u])
        ensure(x in at, "%r is placed on %s, not a connected set of %d to %d nodes", u, sorted(x), lo, hi)
        ds = sorted(np.linalg.norm(b - sp[u]) for b in bary)
        kk = min(k, len(ds))
        d = np.linalg.norm(at[x] - sp[u])
        ensure(d <= ds[kk - 1] + 1e-6, "%r is placed at distance %g, the %d nearest are at %s", u, d, kk, ds[:kk])
        if distinct and lo == hi == 1 and k > 1:
            near = [y for y in subs if np.linalg.norm(at[y] - sp[u]) < min(ds[kk - 1] + 1e-9, 8.9)
                    and (kk == len(ds) or np.linalg.norm(at[y] - sp[u]) < ds[kk] - 1e-9)]
            if any(not used.get(next(iter(y))) for y in near):
                ensure(not used.get(next(iter(x))), "%r is placed on a used node although %s were near", u, near)
        for v in x:
            used[v] = used.get(v, 0) + 1


def run_closest(c):
    import minorminer.layout as mml
    S, T = lc.shuffled(c["S"], c["ls"], c["seed"]), lc.shuffled(c["T"], c["lt"], c["seed"] // 2)
    sp, tp = dict(zip(sorted(S), lc.pts(c["ps"]))), dict(zip(sorted(T), lc.pts(c["pt"])))
    SL, TL = mml.Layout(S, sp), mml.Layout(T, tp)
    keep = frozen(SL), frozen(TL)
    kw = {}
    if c["size"] != [1, 1] or c["seed"] % 2:
        kw["subset_size"] = tuple(c["size"])
    if c["k"] != 1 or c["seed"] % 3:
        kw["num_neighbors"] = c["k"]
    if not subsets(T, *c["size"]):
        raise Discard
    placement = mml.closest(SL, TL, **kw)
    judge_closest(placement, {v: np.array(p) for v, p in sp.items()}, {v: np.array(p) for v, p in tp.items()}, T, *c["size"], c["k"])
    ensure(frozen(SL) == keep[0] and frozen(TL) == keep[1], "the layouts were changed")
    return Info(len(set(sp.values())) > 1 and len(T) > 1, ["size=%s" % c["size"], "k=%d" % c["k"], "sets=%s" % any(len(x) > 1 for x in placement.values())])


# ---------------------------------------------------------------- intersection

_cross = {}


def crossings(t):
    """{(vertical line, horizontal line): (vertical qubit or None, horizontal qubit or None)} of the whole lattice, and the grid's sides."""
    key = repr((t["fam"], t["args"], t["lab"], t["full"], t.get("off")))
    if key in _cross:
        return _cross[key]
    import dwave.graphs as dg
    G = lc.make_lattice(t, damaged=False)
    fam = t["fam"]
    ver, hor = {}, {}                    # (line, position) -> qubit
    if fam == "chimera":
        m, n, s = G.graph["rows"], G.graph["columns"], G.graph["tile"]
        co = dg.chimera_coordinates(m, n, s)
        for v in G:
            i, j, u, k = v if t["lab"] == "coord" else co.linear_to_chimera(v)
            for x in range(s):
                if u == 0:
                    ver[j * s + k, i * s + x] = v
                else:
                    hor[i * s + k, j * s + x] = v
        sides = (n * s, m * s)
    elif fam == "pegasus":
        m = t["args"][0]
        co = dg.pegasus_coordinates(m)
        off = [G.graph["vertical_offsets"], G.graph["horizontal_offsets"]]
        for v in G:
            u, w, k, z = v if t["lab"] == "coord" else (co.nice_to_pegasus(v) if t["lab"] == "nice" else co.linear_to_pegasus(v))
            for x in range(12):
                (hor if u else ver)[12 * w + k, 12 * z + off[u][k] + x] = v
        s = G.graph["tile"]
        sides = (s * m, s * m)
    else:
        m, s = G.graph["rows"], G.graph["tile"]
        co = dg.zephyr_coordinates(m, s)
        for v in G:
            u, w, k, j, z = v if t["lab"] == "coord" else co.linear_to_zephyr(v)
            for x in range(4 * s):
                (hor if u else ver)[2 * (s * w + k) + j, (4 * z + 2 * j) * s + x] = v
        s = 2 * s
        sides = (s * (2 * m + 1),) * 2
    out = {}
    for x in range(sides[0]):
        for y in range(sides[1]):
            out[x, y] = (ver.get((x, y)), hor.get((y, x)))
    # two crossing lines are coupled: the reference agrees with the lattice
    for a, b in out.values():
        assert a is None or b is None or G.has_edge(a, b), (t, a, b)
    _cross[key] = out, sides, s
    return _cross[key]


@st.composite
def cross_case(draw):
    t = draw(lc.lattice())
    S = draw(gen.bits_graph(1, 9))
    return {"t": t, "S": S, "ls": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)), "ps": draw(lc.positions(S["n"], 2)),
            "div": draw(st.sampled_from([1, 1, 3, 16])), "via": draw(st.sampled_from(["function", "placement"])),
            "ratio": draw(st.sampled_from([None, None, .5, 1, 2]))}


def run_cross(c):
    import minorminer.layout as mml
    T = lc.make_lattice(c["t"])
    if not len(T):
        raise Discard
    S = lc.shuffled(c["S"], c["ls"], c["seed"])
    sp = {v: (x / c["div"], y / c["div"]) for v, (x, y) in zip(sorted(S), lc.pts(c["ps"]))}
    SL, TL = mml.Layout(S, sp), mml.Layout(T, mml.graph_layout)
    keep = frozen(SL), frozen(TL)
    if c["via"] == "function":
        placement = mml.intersection(SL, TL)
        scale0 = None
    else:
        kw = {"scale_ratio": c["ratio"]} if c["ratio"] else {}
        ts = TL.scale
        placement = mml.Placement(SL, TL, mml.intersection, **kw)
        scale0 = ts
        ensure(frozen(SL) == keep[0], "the source layout was changed by Placement")
    ensure(set(placement) == set(S), "placed %s", set(placement) ^ set(S))
    cr, sides, tile = crossings(c["t"])
    # the expected position on the grid
    a = np.array([sp[v] for v in sorted(S)])
    mid = (a.min(0) + a.max(0)) / 2
    r = np.abs(a - mid).max()
    cur = r
    if scale0 is not None:
        if c["ratio"]:
            cur = c["ratio"] * scale0 if r and scale0 else r
        elif r > scale0 and scale0:
            cur = scale0
    half = (min(sides) - 1) / 2
    new = min(cur * tile, half)
    pos = (a - mid) * (new / r if r else 1) + half
    ties = 0
    ok = [True, True]
    alive = set(T)
    why = None
    for v, p in zip(sorted(S), pos):
        cand = [[int(np.floor(x + .5 - 1e-6)), int(np.floor(x + .5 + 1e-6))] for x in p]
        ties += any(x[0] != x[1] for x in cand)
        got = set(placement[v])
        for o in range(2):
            want = [{q for q in cr[(x, y) if o == 0 else (y, x)] if q in alive} for x in set(cand[0]) for y in set(cand[1])
                    if ((x, y) if o == 0 else (y, x)) in cr]
            if got not in want:
                ok[o] = False
                why = why or (v, tuple(p), got, want)
    ensure(any(ok), "%r at %s is placed on %s, the nearest crossing has %s", *(why or (0, 0, 0, 0)))
    return Info(len({tuple(np.round(p)) for p in pos}) > 1 and len(T) > 1, [c["t"]["fam"], c["t"]["lab"], c["via"], "ties=%d" % min(ties, 2),
                                                                       "empty=%s" % any(not placement[v] for v in placement)])


@st.composite
def grid_case(draw):
    """A source vertex on every crossing of the lattice's grid at once."""
    return {"t": draw(lc.lattice()), "shift": [draw(st.integers(-9, 9)) for _ in range(2)], "zoom": draw(st.sampled_from([1, 1, 2, .5]))}


def run_grid(c):
    import minorminer.layout as mml
    T = lc.make_lattice(c["t"])
    if not len(T):
        raise Discard
    cr, sides, tile = crossings(c["t"])
    n = min(sides)
    if n < 2:
        raise Discard
    S = nx.Graph()
    S.add_nodes_from((x, y) for x in range(n) for y in range(n))
    z = c["zoom"] if (n - 1) / 2 * c["zoom"] * tile >= (n - 1) / 2 else 1
    SL = mml.Layout(S, {(x, y): (z * x + c["shift"][0], z * y + c["shift"][1]) for x, y in S})
    placement = mml.intersection(SL, mml.Layout(T, mml.graph_layout))
    ensure(set(placement) == set(S), "placed %d of %d", len(placement), len(S))
    alive = set(T)
    bad = [None, None]
    for x, y in S:
        got = set(placement[x, y])
        for o in range(2):
            want = {q for q in cr[(x, y) if o == 0 else (y, x)] if q in alive}
            if bad[o] is None and got != want:
                bad[o] = ((x, y), got, want)
    ensure(None in bad, "crossing %r of the %s %r (%d x %d) is placed on %s, not on %s", *((bad[0] or (0,))[:1] + (c["t"]["fam"], c["t"], *sides) + (bad[0] or (0, 0, 0))[1:]))
    return Info(len(T) > 1, [c["t"]["fam"], c["t"]["lab"], "off=%s" % c["t"].get("off")])


# ---------------------------------------------------------------- Placement

@st.composite
def place_case(draw):
    S, T = draw(gen.bits_graph(1, 6)), draw(gen.bits_graph(1, 8))
    dim = draw(st.sampled_from([1, 2, 2, 3]))
    return {"S": S, "T": T, "ls": draw(st.sampled_from(lc.SORTABLE)), "lt": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)),
            "ps": draw(lc.positions(S["n"], dim)), "pt": draw(lc.positions(T["n"], draw(st.sampled_from([dim, dim, dim, dim, 1, 2])))),
            "how": draw(st.sampled_from(["none", "closest", "func", "dict"])), "ratio": draw(st.sampled_from([None, None, .5, 1, 3])),
            "div": draw(st.sampled_from([1, 10])), "empty": draw(st.sampled_from([False] * 9 + [True])),
            "ops": draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 9), st.booleans()).map(list), max_size=5))}


def run_place(c):
    import minorminer.layout as mml
    S, T = lc.shuffled(c["S"], c["ls"], c["seed"]), lc.shuffled(c["T"], c["lt"], c["seed"] // 2)
    if c["empty"]:
        S = nx.Graph()
    sp = {v: tuple(x / c["div"] for x in p) for v, p in zip(sorted(S), lc.pts(c["ps"]))}
    tp = dict(zip(sorted(T), lc.pts(c["pt"])))
    SL, TL = mml.Layout(S, sp), mml.Layout(T, tp)
    keep = frozen(SL), frozen(TL)
    given = {v: [sorted(T)[i % len(T)]] for i, v in enumerate(sorted(S))}
    calls = []

    def func(a, b, **kw):
        calls.append((a, b, kw))
        return given
    kw = {"scale_ratio": c["ratio"]} if c["ratio"] else {}
    arg = {"none": None, "closest": mml.closest, "func": func, "dict": dict(given)}[c["how"]]
    if c["how"] == "func":
        kw["spice"] = 7
    elif c["how"] == "closest":
        kw["num_neighbors"] = 2
    try:
        P = mml.Placement(SL, TL, arg, **kw)
    except ValueError:
        ensure(len(S) and len(c["ps"][0]) != len(c["pt"][0]), "layouts of the same dimension were refused")
        return Info(False, ["refused"])
    ensure(not len(S) or len(c["ps"][0]) == len(c["pt"][0]), "layouts of dimensions %d and %d were accepted", len(c["ps"][0]), len(c["pt"][0]))
    ensure(frozen(SL) == keep[0] and frozen(TL) == keep[1], "the layouts were changed")
    ss, ts = SL.scale, TL.scale
    want = c["ratio"] * ts if c["ratio"] else min(ss, ts)
    if not (ss and ts):
        want = ss                        # a point cannot be scaled, and nothing is scaled to a point
    ensure(abs(P.S_layout.scale - want) < 1e-6 * (1 + want), "the source layout has scale %g, expected %g (source %g, target %g, ratio %s)",
           P.S_layout.scale, want, ss, ts, c["ratio"])
    f = want / ss if ss else 1
    pos = {v: (np.array(sp[v]) - SL.center) * f + SL.center for v in S}
    ensure(all(lc.close(P.S_layout[v], pos[v]) for v in S), "the source layout was moved")
    ensure(all(lc.close(P.T_layout[v], tp[v]) for v in T), "the target layout was changed")
    if c["how"] in ("none", "closest"):
        judge_closest(P, pos, {v: np.array(p) for v, p in tp.items()}, T, 1, 1, 2 if c["how"] == "closest" else 1)
    else:
        ensure(dict(P) == given, "the placement is %s, not %s", dict(P), given)
        if c["how"] == "func":
            ensure(len(calls) == 1 and calls[0][0] is P.S_layout and calls[0][1] is P.T_layout and calls[0][2] == {"spice": 7},
                   "the placement function was called with %s", [x[2] for x in calls])
    # a mutable mapping
    model = dict(P)
    for k, v, dele in c["ops"]:
        key = sorted(S)[k % len(S)] if len(S) and k < 7 else k
        if dele and key in model:
            del P[key]
            del model[key]
        else:
            P[key] = [v]
            model[key] = [v]
        ensure(dict(P) == model and len(P) == len(model) and list(P) == list(model), "placement %s, expected %s", dict(P), model)
    return Info(len(set(sp.values())) > 1 and len(T) > 1, [c["how"], "ratio=%s" % c["ratio"], "shrunk=%s" % (ss > ts)])


FACETS = [Facet("closest", closest_case, run_closest, 3000, 80000, exts=LAY), Facet("intersection", cross_case, run_cross, 2000, 50000, exts=LAY),
          Facet("grid", grid_case, run_grid, 300, 8000, exts=LAY),
          Facet("placements", place_case, run_place, 2500, 50000, exts=LAY)]
