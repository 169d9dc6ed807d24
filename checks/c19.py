"""One free variable among fixed chains gets a shortest chain; independent variables get a qubit each."""
from collections import deque

import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Discard, Facet, Info, ensure

PROPERTY = "C19"
RULE = ("single: one free variable whose neighbors (up to 6) all have fixed, disjoint, connected chains in the largest component of a random or "
        "damaged lattice target, other fixed variables around, any parameters, by find_embedding, miner or quickpass with any chain length bound; "
        "independent: up to all qubits' worth of isolated variables; non-trivial = two neighbors and a shortest chain of two qubits / at least half "
        "of the qubits needed; distinct by the whole case")
ASSUMPTIONS = ["with three or more neighbors the bound is the best union of shortest paths from one root, which the search is documented to minimize"]


@st.composite
def case(draw):
    k = draw(st.sampled_from([0, 1, 2, 2, 2, 3, 3, 4, 5, 6]))
    extra = draw(st.integers(0, 3))
    p = draw(ec.params(overlap=False))
    return {"k": k, "extra": extra, "T": draw(gen.target_graph()), "p": p, "x": draw(st.integers(0, 9)),
            "chains": [draw(ec.chain_spec(draw(st.sampled_from([1, 1, 2, 6])), True)) for _ in range(k + extra)],
            "lt": draw(st.sampled_from(sorted(gen.LABELS))), "how": draw(st.sampled_from(["find", "find", "miner", "quick", "quick"])),
            "bound": draw(st.sampled_from([0, 0, 1, 2, 3, 5])), "ls": draw(st.booleans()), "hint": draw(st.sampled_from([None, None, 0])),
            "hs": draw(ec.chain_spec(4, True)), "passes": draw(st.integers(1, 3)), "strategy": draw(st.integers(0, 4)), "by": draw(st.booleans())}


def optimum(T, chains, free):
    """(exact or None, upper bound) of the number of qubits of a connected free set next to all chains; (None, None) if there is none."""
    if not free:
        return None, None
    if not chains:
        return 1, 1
    dist = []
    for ch in chains:
        d = {}
        dq = deque()
        for q in ch:
            for p in T[q]:
                if p in free and p not in d:
                    d[p] = 1
                    dq.append(p)
        while dq:
            q = dq.popleft()
            for p in T[q]:
                if p in free and p not in d:
                    d[p] = d[q] + 1
                    dq.append(p)
        dist.append(d)
    common = set(dist[0]).intersection(*dist)
    if not common:
        return None, None
    ub = min(sum(d[q] - 1 for d in dist) for q in common) + 1
    return (ub if len(chains) <= 2 else None), ub


def run(c):
    import minorminer
    T0 = gen.make_target(c["T"])
    comps = sorted(nx.connected_components(T0), key=len, reverse=True)
    if not comps or (len(comps) > 1 and len(comps[0]) == len(comps[1])):
        raise Discard
    main = comps[0]
    order = sorted(main)
    used, chains = set(), []
    for spec in c["chains"]:
        ch = ec.decode_chain(spec, T0, order, used)
        if ch:
            chains.append(ch)
            used |= set(ch)
    k = min(c["k"], len(chains))
    lab = gen.LABELS[c["lt"]]
    n = len(chains) + 1
    x = c["x"] % n
    names = [v for v in range(n) if v != x]
    fixed = {v: [lab(q) for q in ch] for v, ch in zip(names, chains)}
    S = nx.Graph()
    S.add_nodes_from(range(n))
    S.add_edges_from((x, v) if c["by"] else (v, x) for v in names[:k])
    T = nx.relabel_nodes(T0, {q: lab(q) for q in T0})
    free = main - used
    exact, ub = optimum(T0, chains[:k], free)
    kw = dict(c["p"])
    if fixed:
        kw["fixed_chains"] = fixed
    if c["hint"] is not None and c["how"] == "find":
        ch = ec.decode_chain(c["hs"], T0, order, used)
        if ch:
            kw["initial_chains"] = {x: [lab(q) for q in ch]}
    bound = 0
    try:
        if c["how"] == "quick":
            bound = c["bound"]
            m = minorminer.miner(S, T, **kw)
            for _ in range(c["passes"]):
                emb = m.quickpass(varorder=[x] if c["ls"] else None, strategy=c["strategy"], chainlength_bound=bound,
                                  local_search=c["ls"], clear_first=c["by"])
        elif c["how"] == "miner":
            emb = minorminer.miner(S, T, **kw).find_embedding()
        else:
            emb = minorminer.find_embedding(S, T, **kw)
    except RuntimeError as e:
        if ec.declared(e, kw) is None:
            raise
        emb = {}
    label = [c["how"], "k=%d" % min(k, 4), "len=%s" % (min(ub, 5) if ub else None)]
    got = list(emb.get(x) or [])
    if ub is None:
        ensure(not got, "the chain %s was found where there is none", got)
        return Info(False, label)
    if bound and ub > bound:
        if got:
            ensure(len(got) <= bound, "quickpass(chainlength_bound=%d) gave a chain of %d qubits", bound, len(got))
            ensure(exact is None, "the chain %s is shorter than the shortest, of %s qubits", got, exact)
        return Info(False, label + ["bounded"])
    # a later local search takes the best chain it comes across, which may be longer than the last one if there are many neighbors
    again = c["how"] == "quick" and c["ls"] and c["passes"] > 1 and not c["by"]
    if again and k > 2 and bound and not got:
        return Info(False, label)
    ensure(got, "no chain although one of %d qubits exists", ub)
    full = {v: list(q) for v, q in fixed.items()}
    full[x] = got
    errs = gen.emb_errors(full, S, T)
    ensure(not errs, "invalid: %s in %s", errs, full)
    if "initial_chains" in kw and (not k or kw.get("chainlength_patience") == 0):
        return Info(False, label + ["hint kept"])
    ensure(len(got) <= ub or (again and k > 2), "the chain %s has %d qubits, %d suffice", got, len(got), ub)
    ensure(exact is None or len(got) == exact, "the chain %s is shorter than the shortest", got)
    return Info(k > 1 and ub > 1, label)


@st.composite
def indep_case(draw):
    return {"T": draw(gen.target_graph()), "n": draw(st.integers(0, 99)), "p": draw(ec.params(overlap=False)), "edges": draw(st.booleans()),
            "how": draw(st.sampled_from(["find", "miner"])), "fixed": draw(st.lists(st.integers(0, 199), max_size=3))}


def run_indep(c):
    import minorminer
    T = gen.make_target(c["T"])
    comps = sorted(nx.connected_components(T), key=len, reverse=True)
    if not comps:
        raise Discard
    size = len(comps[0])
    if size > 60:
        raise Discard
    tie = len(comps) > 1 and len(comps[1]) == size
    order = sorted(comps[0])
    fixed = {}
    if not tie:
        for v, i in enumerate(c["fixed"]):
            q = order[i % size]
            if [q] not in fixed.values():
                fixed[v] = [q]
    n = 1 + c["n"] % size
    if n <= len(fixed):
        raise Discard
    S = nx.empty_graph(n)
    kw = dict(c["p"])
    if fixed:
        kw["fixed_chains"] = fixed
    kw.pop("max_beta", None)
    f = minorminer.find_embedding if c["how"] == "find" else lambda S, T, **k: minorminer.miner(S, T, **k).find_embedding()
    emb = f(S, T, **kw)
    ensure(set(emb) == set(range(n)), "%d isolated variables were not embedded in %d qubits: %s", n, size, emb)
    errs = gen.emb_errors(emb, S, T)
    ensure(not errs, "invalid: %s", errs)
    ensure(all(len(ch) == 1 for ch in emb.values()), "an isolated variable has the chain %s", max(emb.values(), key=len))
    return Info(2 * n >= size, [c["how"], "full=%s" % (n == size), "fixed=%d" % len(fixed)])


FACETS = [Facet("single", case, run, 6000, 150000, exts=MM), Facet("independent", indep_case, run_indep, 2500, 50000, exts=MM)]
