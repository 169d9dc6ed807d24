"""Graphs and their components: neighborhoods, relabelling, masks, sources and sinks, and the split into components and back."""
from hypothesis import strategies as st

import drv
from harness import Facet, Info, ensure

PROPERTY = "C10"
RULE = ("a multigraph with loops and isolated nodes, given at once or edge by edge, with any set of reserved nodes, a relabelling, a mask that is a "
        "union of components and a list of nodes to translate; non-trivial = at least two components of which one has a reserved and a free node; "
        "distinct by the whole case")
ASSUMPTIONS = ["a mask is a union of components, as documented"]


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(0, 8), st.integers(4, 12), st.integers(8, 30)))
    e = []
    if n:
        # a few blocks, so that there are several components
        blocks = draw(st.integers(1, 4))
        for _ in range(draw(st.one_of(st.integers(0, 2 * n), st.integers(n // 2, n)))):
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(0, n - 1))
            if draw(st.integers(0, 19)):
                b = min(a % blocks + b // blocks * blocks, n - 1)
            e.append([a, b])
    return {"n": n, "e": e, "grow": draw(st.booleans()), "flags": draw(st.lists(st.sampled_from([0, 0, 1]), min_size=n, max_size=n)),
            "perm": draw(st.permutations(list(range(n)))), "pick": draw(st.lists(st.booleans(), min_size=n, max_size=n)),
            "threshold": draw(st.integers(0, n + 1)), "reserve": draw(st.sampled_from([True, True, False])),
            "query": draw(st.lists(st.integers(-1, n + 1), max_size=6))}


def components(n, e):
    comp = list(range(n))
    for a, b in e:
        x, y = comp[a], comp[b]
        if x != y:
            comp = [x if z == y else z for z in comp]
    return comp


def nbrs(n, e, src=lambda x: False, snk=lambda x: False, perm=None, mask=None):
    out = [set() for _ in range(n)]
    for a, b in e:
        for x, y in ((a, b), (b, a)):
            if x != y and not src(y) and not snk(x) and (mask is None or mask[x]):
                out[perm[x] if perm else x].add(perm[y] if perm else y)
    return [sorted(s) for s in out]


def run(c):
    n, e, flags, perm = c["n"], c["e"], c["flags"], c["perm"]
    if c["grow"]:
        n = max([max(x) for x in e], default=-1) + 1
    comp = components(n, e)
    mask = [int(c["pick"][comp[x]]) for x in range(n)]
    a = drv.run("graph", "graph", [c["n"], c["grow"], *drv.enc([x for x, _ in e]), *drv.enc([y for _, y in e]), *drv.enc(flags), *drv.enc(perm),
                                   *drv.enc(mask), c["threshold"], c["reserve"], *drv.enc(c["query"])])

    def graph():
        return a(), [[a(), a()] for _ in range(a())]

    ensure(graph() == (n, e), "the graph does not give back its nodes and edges")

    def check(what, want):
        got = [sorted(l) for l in a.lists()]
        ensure(got == want, "%s: neighborhoods %s, expected %s", what, got, want)

    th = c["threshold"]
    fl = lambda x: flags[x]
    big = lambda x: x >= th
    check("plain", nbrs(n, e))
    check("sources", nbrs(n, e, src=fl))
    check("sinks", nbrs(n, e, snk=fl))
    check("sources from a threshold", nbrs(n, e, src=big))
    check("sinks from a threshold", nbrs(n, e, snk=big))
    if not c["grow"]:
        check("relabelled", nbrs(n, e, perm=perm))
        check("relabelled and masked", nbrs(n, e, perm=perm, mask=mask))
        check("relabelled with sources", nbrs(n, e, src=fl, perm=perm))
        check("relabelled and masked with sinks", nbrs(n, e, snk=fl, perm=perm, mask=mask))
    want = {frozenset(x for x in range(n) if comp[x] == r) for r in set(comp)}
    k = a()
    ensure(k == len(want), "%d components, expected %d", k, len(want))
    seen, last, mixed = set(), n, False
    rest = sorted(map(tuple, map(sorted, e)))
    for i in range(k):
        nodes = a.list()
        size, reserved = a(), a()
        ensure(len(set(nodes)) == len(nodes) and frozenset(nodes) in want and not seen & set(nodes), "component %d has the nodes %s", i, nodes)
        seen |= set(nodes)
        ensure(size == len(nodes), "component %d of %d nodes says its size is %d", i, len(nodes), size)
        ensure(len(nodes) <= last, "the components are not sorted by size")
        last = len(nodes)
        res = [bool(c["reserve"] and flags[x]) for x in nodes]
        ensure(reserved == sum(res), "component %d says %d of its nodes are reserved: %s", i, reserved, res)
        ensure(res == sorted(res), "the reserved nodes of component %d are not its last labels", i)
        mixed |= 0 < sum(res) < len(res)
        gn, ge = graph()
        ensure(gn == len(nodes), "the graph of component %d has %d nodes, not %d", i, gn, len(nodes))
        back = sorted(tuple(sorted((nodes[x], nodes[y]))) for x, y in ge)
        ensure(back == [t for t in rest if t[0] in set(nodes)], "the edges of component %d translate back to %s", i, back)
        where = {x: j for j, x in enumerate(nodes)}
        le = [[where[x], where[y]] for x, y in e if x in where]
        check("component %d" % i, nbrs(len(nodes), le, src=lambda j: res[j]))
        for x in c["query"]:
            ok, to = a(), a.list()
            ensure(bool(ok) == (x in where), "node %d in component %d: %s", x, i, ok)
            if ok:
                ensure(to == [where[x]], "node %d has label %s in component %d, expected %d", x, to, i, where[x])
        ok = a()
        ensure(bool(ok) == all(x in where for x in c["query"]), "into_component says %s for %s", ok, c["query"])
        back = a.list()
        ensure(back == nodes[::-1], "labels translate back to %s, not %s", back, nodes[::-1])
    ensure(seen == set(range(n)), "nodes %s are in no component", set(range(n)) - seen)
    ensure(graph() == (0, []) and a.done(), "a cleared graph is not empty")
    return Info(mixed and k > 1, ["grow" if c["grow"] else "whole", "loops" if any(x == y for x, y in e) else "plain", "reserve=%d" % c["reserve"]])


FACETS = [Facet("graph", case, run, 8000, 200000, exts=["drv.graph"], flavour="asan")]
