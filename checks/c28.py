"""Parallel embeddings: disjoint, valid, in their tiles, never changing the caller's graphs."""
import random
import sys
import types

import networkx as nx
from hypothesis import strategies as st

import gen
from harness import BQ, Discard, Facet, Info, ensure

PROPERTY = "C28"
RULE = ("small sources searched repeatedly in random graphs and damaged lattices, with an exact subgraph matcher or a chain-growing embedder, "
        "with and without filter, tiles, tile embeddings, shuffling and seeds; arrays of random embeddings; non-trivial = two or more "
        "embeddings were returned (arrays: two embeddings of two variables); distinct by the whole case")
ASSUMPTIONS = ["minorminer.subgraph (not built here) is replaced by an exact subgraph matcher", "undirected simple graphs"]


def monomorphism(S, T):
    """The first embedding as a subgraph, by backtracking in node order; a case that needs too long is discarded."""
    order, rest = [], dict.fromkeys(S)
    while rest:
        v = max(rest, key=lambda v: (sum(u in S[v] for u in order), S.degree[v]))
        del rest[v]
        order.append(v)
    steps = [0]
    place = {}
    used = set()

    def go(i):
        if i == len(order):
            return True
        v = order[i]
        near = [place[u] for u in S[v] if u in place]
        for q in (T[near[0]] if near else T):
            steps[0] += 1
            if steps[0] > 30000:
                raise Discard()
            if q not in used and T.degree[q] >= S.degree[v] and all(T.has_edge(q, p) for p in near):
                place[v] = q
                used.add(q)
                if go(i + 1):
                    return True
                used.discard(q)
                del place[v]
        return False
    return {v: place[v] for v in S} if go(0) else {}


def grow(S, T, style=list):
    """A minor embedder that always makes chains of two where a spare neighbour exists: subgraph embedding, then longer chains."""
    e = monomorphism(S, T)
    used = set(e.values())
    out = {}
    for v, q in e.items():
        spare = [p for p in T[q] if p not in used][:1]
        used.update(spare)
        out[v] = style([q] + spare)
    if not out and S.number_of_edges():
        # contract an edge of T and look again
        for p, q in sorted((sorted(e, key=repr) for e in T.edges()), key=repr)[:6]:
            C = nx.contracted_nodes(T, p, q, self_loops=False)
            e = monomorphism(S, C)
            if e:
                return {v: style([x, q] if x == p else [x]) for v, x in e.items()}
    return out


def load():
    if "minorminer.subgraph" not in sys.modules:
        try:
            import minorminer.subgraph  # noqa
        except ImportError:
            m = types.ModuleType("minorminer.subgraph")
            m.find_subgraph = lambda S, T, **kw: monomorphism(S, T)
            sys.modules["minorminer.subgraph"] = m
    import minorminer.utils.parallel_embeddings as p
    return p


SOURCES = st.one_of(gen.bits_graph(1, 4), st.sampled_from([{"n": 2, "e": [[0, 1]]}, {"n": 3, "e": [[0, 1], [1, 2]]},
                    {"n": 4, "e": [[0, 1], [1, 2], [2, 3], [0, 3]]}, {"n": 3, "e": [[0, 1], [1, 2], [0, 2]]}, {"n": 1, "e": []},
                    {"n": 6, "e": [[0, i] for i in range(1, 6)]}, {"n": 4, "e": [[i, j] for j in range(4) for i in range(j)]},
                    {"n": 8, "e": [[i, j] for i in range(4) for j in range(4, 8)]}]))
OPTIONS = {"num": st.sampled_from([1, 2, 3, 5, None, None]), "filter": st.booleans(), "chains": st.sampled_from([None, None, "list", "tuple"]),
           "shuffle": st.booleans(), "seed": st.sampled_from([None, 0, 7])}


def snapshot(G):
    return list(G.nodes(data=True)), {(u, v): repr(d) for u, v, d in G.edges(data=True)}, dict(G.graph)


def audit(embs, S, T, num, chains, room):
    ensure(isinstance(embs, list), "%r is not a list", embs)
    if num is not None:
        ensure(len(embs) <= num, "%d embeddings were asked for, got %d", num, len(embs))
    used = {}
    for i, e in enumerate(embs):
        ee = {v: (list(x) if chains else [x]) for v, x in e.items()}
        errs = gen.emb_errors(ee, S, T)
        ensure(not errs, "embedding %d is invalid: %s\n%r", i, errs[:3], e)
        for ch in ee.values():
            for q in ch:
                ensure(q not in used, "%r is in the embeddings %r and %d", q, used.get(q), i)
                used[q] = i
    if num is None or len(embs) < num:
        if room is not None:
            room(T.subgraph([q for q in T if q not in used]))
    return used


@st.composite
def multi_case(draw):
    return {"S": draw(SOURCES), "T": draw(gen.target_graph(small=True)), "sl": draw(st.sampled_from(["int", "str", "tuple"])),
            "tl": draw(st.sampled_from(["int", "str", "neg", "tuple"])), "via": draw(st.sampled_from(["multiple", "multiple", "sublattice"])),
            **{k: draw(v) for k, v in OPTIONS.items()}}


def embedder(c, S0, T0, seen):
    style = {"list": list, "tuple": tuple, None: None}[c["chains"]]

    def f(S, T, **kw):
        ensure(set(S) == set(S0) and {frozenset(e) for e in S.edges()} == {frozenset(e) for e in S0.edges()}, "the embedder was given another source")
        ensure(set(T) <= set(T0) and all(T0.has_edge(*e) for e in T.edges()), "the embedder was given nodes that are not in the target")
        ensure(all(T.has_edge(*e) for e in T0.subgraph(T).edges()), "edges are missing in the embedder's target")
        seen.append((list(S), list(T), kw))
        return grow(S, T, style) if style else monomorphism(S, T)
    return f


def run_multi(c):
    p = load()
    S = gen.labelled(gen.to_nx(c["S"]), c["sl"])
    T = gen.labelled(gen.make_target(c["T"]), c["tl"])
    if not len(T):
        raise Discard()
    before = snapshot(S), snapshot(T)
    seen = []
    f = embedder(c, S, T, seen)
    kw = {"max_num_emb": c["num"], "use_filter": c["filter"], "one_to_iterable": bool(c["chains"]), "shuffle_all_graphs": c["shuffle"],
          "seed": c["seed"], "embedder": f, "embedder_kwargs": {"mark": 5}}
    call = p.find_multiple_embeddings if c["via"] == "multiple" else p.find_sublattice_embeddings
    embs = call(S, T, **kw)
    ensure((snapshot(S), snapshot(T)) == before, "the caller's graphs were changed")
    ensure(all(k == {"mark": 5} for _, _, k in seen), "embedder_kwargs did not arrive")

    if c["shuffle"] and len(T) > 11 and seen:
        ensure(seen[0][1] != list(T), "shuffle_all_graphs did not shuffle the target")

    def room(left):
        # greedy: the search stops only when there is no further embedding
        e = (grow if c["chains"] else monomorphism)(S, left)
        cap = len(T) // len(S)
        ensure(not e or len(embs) >= cap, "stopped at %d embeddings, %r is another one", len(embs), e)
    if not c["shuffle"] or not c["chains"]:
        audit(embs, S, T, c["num"], c["chains"], room)
    else:
        audit(embs, S, T, c["num"], c["chains"], None)
    if not c["shuffle"]:
        again = call(S, T, **{**kw, "use_filter": not c["filter"]})
        ensure(again == embs, "use_filter=%r gives %r, use_filter=%r gives %r", c["filter"], embs, not c["filter"], again)
    elif c["seed"] is not None:
        ensure(call(S, T, **kw) == embs, "the same seed gives another result")
    ensure(call(S, T, **{**kw, "timeout": 0}) == [], "timeout=0 returned embeddings")
    if not c["chains"]:
        # the default embedder
        kw.pop("embedder"), kw.pop("embedder_kwargs")
        audit(call(S, T, **kw), S, T, c["num"], None, room)
    return Info(len(embs) > 1, [c["via"], str(c["chains"])])


@st.composite
def sub_case(draw):
    fam = draw(st.sampled_from(["chimera", "chimera", "pegasus", "zephyr"]))
    return {"fam": fam, "m": draw(st.sampled_from({"chimera": [1, 2, 3, 4], "pegasus": [2, 3], "zephyr": [1, 2, 3]}[fam])),
            "n": draw(st.sampled_from([None, 2, 3])) if fam == "chimera" else None,
            "t": draw(st.sampled_from([1, 2, 4])) if fam != "pegasus" else None,
            "coords": draw(st.booleans()), "dn": draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 2, 10])))),
            "de": draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 2, 10])))),
            "S": draw(st.one_of(SOURCES, st.just("tile"))), "size": draw(st.integers(1, 2)),
            "tile": draw(st.sampled_from(["size", "size", "graph", "chimera"])), "emb": draw(st.sampled_from([None, None, True, False, "given", "given", "bad"])),
            "order": draw(st.booleans()), "cast": draw(st.booleans()), **{k: draw(v) for k, v in OPTIONS.items()}}


def run_sub(c):
    import dwave.graphs as dg
    p = load()
    fam, t = c["fam"], c["t"]
    args = {"chimera": [c["m"], c["n"] or c["m"], t], "pegasus": [c["m"]], "zephyr": [c["m"], t]}[fam]
    T = getattr(dg, fam + "_graph")(*args, coordinates=c["coords"])
    gen.damage(T, c["dn"], c["de"])
    if not len(T):
        raise Discard()
    size = c["size"] + (fam == "pegasus")
    if fam == "chimera":
        tile = dg.chimera_graph(size, size, t)
        maps = dg.chimera_sublattice_mappings
    elif fam == "pegasus":
        tile = dg.pegasus_graph(size)
        maps = dg.pegasus_sublattice_mappings
    else:
        tile = dg.zephyr_graph(size, t)
        maps = dg.zephyr_sublattice_mappings
    if c["tile"] == "chimera" and fam != "chimera":
        tile = dg.chimera_graph(1, 1, 4 if fam == "pegasus" else t)
    if c["S"] == "tile":
        S = tile
        if c["tile"] == "size":
            S = tile.copy()
        c = {**c, "filter": False} if c["num"] != 1 and len(tile) > 40 else c
    else:
        S = gen.to_nx(c["S"])
    if len(S) > len(T):
        raise Discard()
    rnd = random.Random(len(T))
    seen = []
    f = embedder(c, S, T, seen)

    def tile_or_target(S_, T_, **kw):
        if set(T_) == set(tile) and {frozenset(e) for e in T_.edges()} == {frozenset(e) for e in tile.edges()}:
            g = embedder(c, S, tile, [])
            return g(S_, T_, **kw)
        return f(S_, T_, **kw)
    kw = {"max_num_emb": c["num"], "use_filter": c["filter"], "one_to_iterable": bool(c["chains"]), "shuffle_all_graphs": c["shuffle"],
          "seed": c["seed"], "embedder": tile_or_target, "shuffle_sublattice_order": c["order"]}
    if c["tile"] == "size":
        kw["sublattice_size"] = size
    else:
        kw["tile"] = tile
    use = c["emb"]
    style = {"list": list, "tuple": tuple, None: None}[c["chains"]]
    base = None
    if use == "bad":
        # an embedding that is none is refused
        good = grow(S, tile, list) if style else monomorphism(S, tile)
        if not good:
            return Info(False)
        v = rnd.choice(sorted(good, key=repr))
        how = rnd.randrange(3)
        if how == 0:
            del good[v]
        elif how == 1:
            q = rnd.choice(sorted(tile))
            good[v] = [q] if style else q
        else:
            w = rnd.choice(sorted(good, key=repr))
            good[v], good[w] = good[w], good[v]
        errs = gen.emb_errors(good if style else {x: [y] for x, y in good.items()}, S, tile)
        try:
            p.find_sublattice_embeddings(S, T, tile=tile, tile_embedding=good, one_to_iterable=bool(style), use_filter=c["filter"] and not errs,
                                         embedder=kw["embedder"])
            ensure(not errs, "the tile embedding %r was accepted: %s", good, errs[:2])
        except ValueError as e:
            ensure(errs, "the tile embedding %r was refused: %s", good, e)
        return Info(bool(errs), ["bad-tile-embedding"])
    if use == "given":
        base = grow(S, tile, style) if style else monomorphism(S, tile)
        if base:
            kw["tile_embedding"] = base
    elif use is not None:
        kw["use_tile_embedding"] = use
    if use is True or c["chains"]:
        # the edges of a tile the embedder sees are then restricted
        kw["embedder"] = grow if c["chains"] else monomorphism
        kw["embedder_kwargs"] = {"style": style} if c["chains"] else {}
    before = snapshot(S), snapshot(T), snapshot(tile)
    call = dict(S=S, T=T, **kw)
    if c["cast"] and not c["coords"]:
        plain = nx.Graph()
        plain.add_nodes_from(T)
        plain.add_edges_from(T.edges())
        call["T"] = plain
        call["T_family"] = fam
        call["T_kwargs"] = dict(zip(("m", "n", "t") if fam == "chimera" else ("m", "t"), args))
        whole = snapshot(plain)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        embs = p.find_sublattice_embeddings(**call)
    ensure((snapshot(S), snapshot(T), snapshot(tile)) == before, "the caller's graphs were changed")
    if call["T"] is not T:
        ensure(snapshot(call["T"]) == whole, "the caller's graph was changed")
    if c["seed"] is not None or not c["shuffle"] and not c["order"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            again = p.find_sublattice_embeddings(**{**call, "T_kwargs": dict(call["T_kwargs"])} if "T_kwargs" in call else call)
        ensure(again == embs, "%r, and with the same seed %r", embs, again)
    used = audit(embs, S, T, c["num"], c["chains"], None)
    images = [{g(x) for x in tile} for g in maps(tile, T)]
    for e in embs:
        qs = {q for x in e.values() for q in (x if c["chains"] else [x])}
        ensure(any(qs <= im for im in images), "an embedding is not inside any displaced tile: %r", e)
    if base:
        for e in embs:
            ok = False
            for g in maps(tile, T):
                if all((tuple(map(g, base[v])) == tuple(x) if c["chains"] else g(base[v]) == x) for v, x in e.items()):
                    ok = True
                    break
            ensure(ok, "%r is not a displaced tile embedding %r", e, base)
    complete = c["num"] is None or len(embs) < c["num"]
    if complete and not c["chains"] and len(embs) < len(T) // len(S) and (not c["filter"] or monomorphism(S, tile)):
        left = T.subgraph([q for q in T if q not in used])
        if base:
            for g in maps(tile, T):
                e = {v: [g(base[v])] for v in S}
                ensure(gen.emb_errors(e, S, left), "%r was left out", e)
        elif use is not True and not (use is None and kw.get("tile") is S):
            for im in images:
                e = monomorphism(S, left.subgraph(im))
                ensure(not e, "%d embeddings were found and %r was left out", len(embs), e)
    return Info(len(embs) > 1, [fam, c["tile"], str(use)])


@st.composite
def array_case(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.sampled_from([1, 2, 3, 4, 5, n, n]))
    return {"n": n, "k": k, "label": draw(st.sampled_from(sorted(gen.LABELS))), "chains": draw(st.sampled_from([None, "list", "tuple", "ragged"])),
            "order": draw(st.sampled_from([None, "same", "shuffled", "subset"])), "seed": draw(st.integers(0, 10**6)), "nd": draw(st.booleans())}


def run_array(c):
    import numpy as np
    p = load()
    r = random.Random(c["seed"])
    f = gen.LABELS[c["label"]]
    names = [f(i) for i in range(c["n"])]
    embs = []
    q = 0
    for _ in range(c["k"]):
        e = {}
        for v in names:
            if c["chains"] is None:
                e[v] = q
                q += 1
            else:
                l = r.randint(1, 3) if c["chains"] == "ragged" else 2
                e[v] = (tuple if c["chains"] == "tuple" else list)(range(q, q + l))
                q += l
        embs.append(e)
    order = None if c["order"] is None else list(names)
    if c["order"] in ("shuffled", "subset"):
        r.shuffle(order)
        if c["order"] == "subset":
            order = order[:max(1, len(order) - 1)]
    arr = p.embeddings_to_array(embs, node_order=order)
    cols = order or names
    ensure(arr == [[e[v] for v in cols] for e in embs], "array %r of %r in order %r", arr, embs, order)
    if c["nd"] and c["chains"] is None:
        nd = p.embeddings_to_array(embs, node_order=order, as_ndarray=True)
        ensure(isinstance(nd, np.ndarray) and nd.shape == (len(embs), len(cols)) and nd.tolist() == arr, "ndarray %r", nd)
        arr = nd
    back = p.array_to_embeddings(arr, cols)
    want = [{v: e[v] for v in cols} for e in embs]
    ensure(len(back) == len(want) and all(dict(x) == y for x, y in zip(back, want)), "round trip of %r gives %r", want, back)
    if order is None and c["label"] == "int":
        back = p.array_to_embeddings(arr)
        ensure([dict(x) for x in back] == want, "round trip of %r without an order gives %r", want, back)
    G = gen.labelled(gen.to_nx({"n": c["n"] + 3, "e": [[i, j] for i in range(c["n"] + 3) for j in range(i) if r.random() < .5]}), c["label"])
    H = p.shuffle_graph(G, seed=c["seed"])
    ensure(set(H) == set(G) and {frozenset(e) for e in H.edges()} == {frozenset(e) for e in G.edges()}, "shuffle_graph changed the graph")
    K = p.shuffle_graph(G, seed=c["seed"])
    ensure(list(H) == list(K) and list(H.edges()) == list(K.edges()), "shuffle_graph with the same seed gives another order")
    return Info(c["n"] > 1 and c["k"] > 1, ["square" if c["n"] == c["k"] else "oblong", str(c["chains"])])


FACETS = [Facet("multiple", multi_case, run_multi, 2500, 60000, exts=BQ), Facet("sublattice", sub_case, run_sub, 1200, 30000, exts=BQ),
          Facet("arrays", array_case, run_array, 2000, 20000, exts=BQ)]
