"""busclique: the topology identifier depends on the topology, the qubits and the couplers the algorithms see -- and on nothing else."""
import shutil

from hypothesis import strategies as st

import buscase as b
from harness import BQ, Facet, Info, ensure

PROPERTY = "C16"
RULE = ("pairs of graphs of one family: the same graph written differently (labels, order, endpoints, damage listed in another "
        "order), or one qubit / coupler / dimension / offset apart; non-trivial = the graph has an internal coupler; distinct by "
        "the whole case")
ASSUMPTIONS = ["odd couplers are ignored by the identifier (pinned by a test of the repository), graphs of different families are "
               "not compared"]


@st.composite
def case(draw):
    t = draw(b.topology())
    t2 = dict(t)
    how = draw(st.sampled_from(["order", "label", "node", "edge", "edge", "edge", "args", "opt", "odd", "fresh"]))
    return {"t": t, "how": how, "x": draw(st.integers(0, 9999)), "k": draw(st.sampled_from("iiieo")),
            "order": draw(st.integers(0, 99)), "label": draw(st.integers(0, 1)),
            "t2": draw(b.topology(families=t["fam"])) if how == "fresh" else None,
            "seed": draw(st.sampled_from([0, 0, 5, 2**32 - 1]))}


def key(t):
    F = b.frag(t)
    nodes, edges = b.damaged(t)
    off = (F.G.graph.get("vertical_offsets"), F.G.graph.get("horizontal_offsets"))
    return (t["fam"], tuple(t["args"]), repr(off), frozenset(nodes),
            frozenset(frozenset(e) for e in edges if F.kind(*e) != "o"))


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        t, how = c["t"], c["how"]
        u = dict(t)
        label = "int"
        if how == "order":
            u.update(order=c["order"], dn=sorted(t["dn"], reverse=True), de=t["de"][::-1])
        elif how == "label":
            label = b.LABELS[t["fam"]][1]
        elif how == "node":
            u["dn"] = t["dn"] + [c["x"]]
        elif how == "edge":
            u["de"] = t["de"] + [[c["k"], c["x"]]]
        elif how == "odd":
            u["dl"] = t["dl"] + [["odd", 0]]
        elif how == "args":
            tab = {"c": b.CHIMERA, "p": b.PEGASUS, "z": b.ZEPHYR}[t["fam"]]
            u["args"] = tab[c["x"] % len(tab)]
        elif how == "opt" and t["fam"] == "p":
            u["opt"] = [{}, {"fabric_only": False}, {"offsets_index": 2}, {"offsets_index": 5}][c["x"] % 4]
        elif how == "fresh":
            u = c["t2"]
        A = bc.busgraph_cache(b.graph(t), seed=c["seed"])
        B = bc.busgraph_cache(b.graph(u, label), seed=c["seed"])
        same = key(t) == key(u)
        i, j = A.topology_identifier(), B.topology_identifier()
        ensure((i == j) == same, "the graphs are %s, but their identifiers are %s and %s", "equal" if same else "different", i, j)
        ensure(isinstance(i, str) and len(i) == 64, "identifier %r", i)
        ensure(bc.busgraph_cache(b.graph(t), seed=c["seed"]).topology_identifier() == i, "the identifier changed")
        F = b.frag(t)
        # the fragments drawn by draw_fragment_embedding are a Chimera subgraph that says the same
        return Info(any(F.kind(*e) == "i" for e in b.damaged(t)[1]), [how, "same" if same else "different"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def frag_case(draw):
    return {"t": draw(b.topology()), "label": draw(st.integers(0, 1)), "n": draw(st.integers(0, 12))}


def run_frag(c):
    """What draw_fragment_embedding draws: the graph of line fragments, and the fragments of the chains."""
    from minorminer import busclique as bc
    import dwave.graphs as dg
    d = b.fresh_cache_dir()
    orig = dg.draw_chimera_embedding
    try:
        t = c["t"]
        label = b.LABELS[t["fam"]][c["label"]]
        f = b.translator(t, label)
        F = b.frag(t)
        nodes, edges = b.damaged(t)
        B = bc.busgraph_cache(b.graph(t, label))
        e = B.find_clique_embedding(c["n"])
        seen = []
        dg.draw_chimera_embedding = lambda *a, **k: seen.append((a, k))
        B.draw_fragment_embedding(e, some=1)
        (g, fe), kw = seen[0]
        ensure(kw == {"some": 1}, "keyword arguments %r", kw)
        here = {fr: q for fr, q in F.at.items() if q in set(nodes)}

        def lin(fr):
            u, y, x, k = fr
            return ((y * F.dx + x) * 2 + u) * F.shore + k
        ensure(set(g) == {lin(fr) for fr in here}, "fragments differ by %r", set(g) ^ {lin(fr) for fr in here})
        E = {frozenset(x) for x in edges}
        want = set()
        for fr, q in here.items():
            u, y, x, k = fr
            nx_ = (u, y + 1, x, k) if u == 0 else (u, y, x + 1, k)
            p = here.get(nx_)
            if p is not None and (p == q or frozenset((p, q)) in E):
                want.add(frozenset((lin(fr), lin(nx_))))
            if u == 0:
                for k1 in range(F.shore):
                    p = here.get((1, y, x, k1))
                    if p is not None and frozenset((p, q)) in E:
                        want.add(frozenset((lin(fr), lin((1, y, x, k1)))))
        got = {frozenset(x) for x in g.edges()}
        ensure(got == want, "fragment couplers: %d too many, %d missing: %r", len(got - want), len(want - got),
               sorted(map(sorted, got ^ want))[:6])
        inv = {f(q): q for q in nodes}
        ensure(set(fe) == set(e), "variables %r", set(fe))
        for v, ch in e.items():
            w = {lin(fr) for fr, q in F.at.items() if q in {inv[x] for x in ch}}
            ensure(set(fe[v]) == w, "fragments of chain %r: %r, expected %r", ch, sorted(fe[v]), sorted(w))
        return Info(bool(e) and any(F.kind(*x) == "i" for x in edges), [t["fam"]])
    finally:
        dg.draw_chimera_embedding = orig
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet("identifier", case, run, 6000, 150000, exts=BQ),
    Facet("fragments", frag_case, run_frag, 2000, 40000, exts=BQ),
]
