"""layout.find_embedding is find_embedding started from the documented layouts and placement."""
import networkx as nx
import numpy as np
from hypothesis import strategies as st

import gen
import laycase as lc
from harness import LAY, Facet, Info, Violation, ensure

PROPERTY = "C20"
RULE = ("random sources over random graphs and damaged lattices, with every documented form of layout (function, pair of functions, dictionaries, "
        "Layouts or None), placement (closest, intersection, function, dictionary), hint type, dim, center, scale, scale_ratio, subset sizes and "
        "neighbors, passed as graphs or edges; non-trivial = an embedding with two chains was returned; distinct by the whole case")
ASSUMPTIONS = ["nodes of one graph can be sorted", "find_embedding itself is judged by C01-C07, layouts and placements by C21-C23"]


@st.composite
def case(draw):
    S = draw(gen.source_graph(hi=7))
    lat = draw(st.booleans())
    T = draw(lc.lattice()) if lat else draw(gen.bits_graph(3, 12))
    if not lat and draw(st.integers(0, 3)):
        T = {"n": T["n"], "e": sorted({tuple(e) for e in T["e"]} | {(i, i + 1) for i in range(T["n"] - 1)})}
        T["e"] = [list(e) for e in T["e"]]
    side = ["fn:line", "fn:line3", "fn:pnorm", "dict", "Layout"]
    c = {"S": S, "T": T, "lat": lat, "ls": draw(st.sampled_from(lc.SORTABLE)), "lt": draw(st.sampled_from(lc.SORTABLE)), "seed": draw(st.integers(0, 99)),
         "layout": draw(st.sampled_from(["default", "one", "pair", "pair", "pair", "list"])), "one": draw(st.sampled_from(side[:3])),
         "s": draw(st.sampled_from(side)), "t": draw(st.sampled_from(side + ["none", "none"])),
         "sform": draw(st.sampled_from(["graph", "edges", "dict"])), "tform": draw(st.sampled_from(["graph", "edges", "dict"])),
         "place": draw(st.sampled_from(["default", "closest", "intersection" if lat or draw(st.integers(0, 9)) == 0 else "closest", "func", "dict"])),
         "hint": draw(st.sampled_from(["default", "initial_chains", "suspend_chains", "suspend_chains"] * 6 + ["other"])),
         "ret": draw(st.booleans()), "rs": draw(st.integers(0, 2**32)), "lk": {}, "pk": {}, "mm": {}, "bits": draw(st.integers(0, 2**40))}
    d = draw(st.sampled_from([2, 2, 2, 3]))
    ok = d == 2 or draw(st.integers(0, 9)) == 0
    if d == 3 and not ok:                # a Layout keeps its dimension
        c["s"], c["t"] = ["dict" if x == "Layout" else x for x in (c["s"], c["t"])]
        c["place"] = "closest" if c["place"] == "intersection" else c["place"]
    if draw(st.integers(0, 3)) == 0 or d == 3:
        c["lk"]["dim"] = d
    if draw(st.integers(0, 3)) == 0:
        c["lk"]["center"] = [draw(st.integers(-4, 4)) for _ in range(d)]
    if draw(st.integers(0, 3)) == 0:
        c["lk"]["scale"] = draw(st.sampled_from([.5, 2, 10]))
    if draw(st.integers(0, 3)) == 0:
        c["pk"]["scale_ratio"] = draw(st.sampled_from([.5, 1, 2]))
    if draw(st.integers(0, 3)) == 0:
        c["pk"]["subset_size"] = draw(st.sampled_from([[1, 1], [1, 2], [2, 2], [1, 3]]))
    if draw(st.integers(0, 3)) == 0:
        c["pk"]["num_neighbors"] = draw(st.sampled_from([1, 2, 5]))
    if draw(st.integers(0, 2)) == 0:
        c["mm"]["tries"] = draw(st.integers(1, 4))
    if draw(st.integers(0, 2)) == 0:
        c["mm"]["return_overlap"] = True
    if draw(st.integers(0, 3)) == 0:
        c["mm"]["max_no_improvement"] = draw(st.integers(1, 3))
    if draw(st.integers(0, 3)) == 0:
        c["mm"]["timeout"] = 500
    return c


def attempt(f):
    try:
        return "ok", f()
    except Exception as e:
        return type(e).__name__, str(e)


def frozen(L):
    return {v: tuple(p) for v, p in L.items()}


def run(c):
    import minorminer
    import minorminer.layout as mml
    S = lc.shuffled(c["S"], c["ls"], c["seed"])
    T = lc.make_lattice(c["T"]) if c["lat"] else lc.shuffled(c["T"], c["lt"], c["seed"] // 3)
    family = c["lat"]
    lk = {k: tuple(v) if k == "center" else v for k, v in c["lk"].items()}
    pk = {k: tuple(v) if k == "subset_size" else v for k, v in c["pk"].items()}
    dim = lc.spec(lk)[0]

    def fn(name, G):
        if name == "fn:pnorm":
            return lambda G, **k: mml.p_norm(G, starting_layout=lc.line_layout(G, dim=lc.spec(k)[0]), **k)
        return {"fn:line": lc.line_layout, "fn:line3": lambda G, **k: lc.line_layout(G, k=3, **k)}[name]

    def side(name, G):
        if name.startswith("fn"):
            return fn(name, G)
        if name == "none":
            return None
        d = {v: (((i * 7) % 5) / 2, i * 0.75) for i, v in enumerate(sorted(G))}
        if name == "dict" or not len(G):
            return d
        return mml.Layout(G, d)
    kw = dict(c["mm"], random_seed=c["rs"], **lk, **pk)
    s_arg = t_arg = None
    free = False                         # p_norm without a start may vary from call to call
    if c["layout"] == "one":
        s_arg = fn(c["one"], S)
        t_arg = None if family else s_arg
        kw["layout"] = s_arg
    elif c["layout"] in ("pair", "list"):
        s_arg, t_arg = side(c["s"], S), side(c["t"], T)
        kw["layout"] = (s_arg, t_arg) if c["layout"] == "pair" else [s_arg, t_arg]
        free = t_arg is None and not family
    else:
        free = True
    nodes = sorted(T)
    r = c["bits"]
    given = {v: [nodes[(r >> (3 * i)) % len(nodes)]] for i, v in enumerate(sorted(S))} if nodes else {}
    got = []

    def placer(a, b, **k):
        got.append((frozen(a), frozen(b), k))
        return dict(given)
    p_arg = {"default": mml.closest, "closest": mml.closest, "intersection": mml.intersection, "func": placer, "dict": dict(given)}[c["place"]]
    if c["place"] != "default":
        kw["placement"] = p_arg
    hint = "initial_chains" if c["hint"] == "default" else c["hint"]
    if c["hint"] != "default":
        kw["mm_hint_type"] = c["hint"]
    ret = c["ret"] or free
    if ret:
        kw["return_layouts"] = True
    watched = [x for x in (s_arg, t_arg) if isinstance(x, mml.Layout)]
    before = [frozen(x) for x in watched]
    gs = sorted(map(str, S.nodes())), sorted(map(str, T.nodes())), S.number_of_edges(), T.number_of_edges()

    returned = []

    def check_specs(L, M, same=False):
        ensure(set(L) == set(M) and L.dim == M.dim, "the returned layout has nodes %s in %s dimensions", list(L), L.dim)
        if "center" in lk:
            ensure(lc.close(L.center, lk["center"]) or not len(L), "the layout is centered at %s, not %s", L.center, lk["center"])
        if "scale" in lk:
            ensure(abs(L.scale - lk["scale"]) < 1e-6 or L.scale < 1e-9, "the layout has scale %s, not %s", L.scale, lk["scale"])
        if same:
            ensure(all(lc.close(L[v], M[v]) for v in M), "the target layout is %s, expected %s", L, M)

    def expected():
        SL = s_arg if isinstance(s_arg, mml.Layout) else mml.Layout(S, s_arg, **lk) if s_arg is not None else mml.Layout(S, mml.p_norm, **lk)
        if isinstance(t_arg, mml.Layout):
            TL = t_arg
        elif t_arg is None and family:
            TL = mml.Layout(T, mml.graph_layout, **lk)
        else:
            TL = mml.Layout(T, mml.p_norm if t_arg is None else t_arg, **lk)
        if free and returned:
            if not isinstance(s_arg, mml.Layout):
                check_specs(returned[0], SL)
            check_specs(returned[1], TL, t_arg is None and family)
            SL, TL = returned
        P = mml.Placement(SL, TL, p_arg, **pk)
        if hint == "initial_chains":
            h = {"initial_chains": dict(P)}
        elif hint == "suspend_chains":
            h = {"suspend_chains": {v: [C] for v, C in P.items()}}
        else:
            raise ValueError("hint type")
        out = minorminer.find_embedding(SX, TX, random_seed=c["rs"], **c["mm"], **h)
        return out, P, SL, TL
    SX, TX = nx.Graph(S), nx.Graph(T)
    if c["sform"] != "graph":
        x = lc.as_form(S, c["sform"])
        SX = x if x is S else nx.Graph(x)
    else:
        x = S
    if c["tform"] != "graph" and not family:
        y = lc.as_form(T, c["tform"])
        TX = y if y is T else nx.Graph(y)
    else:
        y = T
    kind2, res = attempt(lambda: mml.find_embedding(x, y, **kw))
    if kind2 == "ok" and free:
        returned += list(res[1])
    kind, ref = attempt(expected)
    if kind == "Violation":
        raise Violation(ref)
    if free and kind2 == "ValueError" and "corrupted" in res:
        return Info(False, ["initial chains in two components"])
    ensure(kind == kind2, "find_embedding ended with %s (%s), expected %s (%s)", kind2, res, kind, ref)
    ensure([frozen(z) for z in watched] == before, "a given Layout was changed")
    ensure(gs == (sorted(map(str, S.nodes())), sorted(map(str, T.nodes())), S.number_of_edges(), T.number_of_edges()), "a given graph was changed")
    labels = [kind + ":" + str(ref)[:40] if kind != "ok" else "ok", c["layout"], c["place"], hint, kind, "lattice" if family else "graph", c["sform"] + "/" + c["tform"]]
    if kind != "ok":
        return Info(False, labels)
    out, P, SL, TL = ref
    if ret:
        res, (a, b) = res
        ensure(isinstance(a, mml.Layout) and isinstance(b, mml.Layout), "returned layouts are %s and %s", type(a), type(b))
        for L, M, name in ((a, SL, "source"), (b, TL, "target")):
            ensure(set(L) == set(M) and all(lc.close(L[v], M[v]) for v in M), "the %s layout is %s, expected %s", name, L, M)
    if c["place"] == "func":
        ensure(len(got) == 2 and got[0][2] == got[1][2], "the placement got the keywords %s, expected %s", got[0][2], got[-1][2])
    emb, flag = res if c["mm"].get("return_overlap") else (res, 1)
    oemb, oflag = out if c["mm"].get("return_overlap") else (out, 1)

    def plain(e):
        return {v: list(ch) for v, ch in e.items()}
    ensure(plain(emb) == plain(oemb) and flag == oflag, "the embedding is %s (%s), find_embedding with those hints gives %s (%s)", emb, flag, oemb, oflag)
    if emb:
        err = gen.emb_errors(emb, S, T, overlap_ok=not flag)
        ensure(not err, "invalid embedding: %s", err)
        if hint == "suspend_chains" and flag:
            for v, C in P.items():
                if C:
                    ensure(set(C) & set(emb[v]), "the chain %s of %r avoids its placement %s", emb[v], v, C)
    return Info(bool(emb) and len(emb) > 1, labels)


def timeout_cases():
    return [{"n": n, "timeout": t} for n in (4, 9) for t in (1e-9, 0, -1.0)] + [{"n": 4, "layouts": k} for k in (0, 1, 3)]


def run_timeout(c):
    import dwave.graphs as dg
    import minorminer.layout as mml
    S, T = nx.path_graph(c["n"]), dg.chimera_graph(2, 2, 2)
    try:
        if "timeout" in c:
            mml.find_embedding(S, T, timeout=c["timeout"])
        else:
            mml.find_embedding(S, T, layout=(lc.line_layout,) * c["layouts"])
    except TimeoutError:
        ensure("timeout" in c, "TimeoutError")
    except ValueError:
        ensure("timeout" not in c, "ValueError")
    else:
        ensure(False, "%s was accepted", c)
    return Info(True, ["refused"])


FACETS = [Facet("reference", case, run, 3000, 80000, exts=LAY), Facet("refusals", None, run_timeout, 0, 0, exts=LAY, fixed=timeout_cases)]
