"""suspend_chains and restrict_chains."""
import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C03"
RULE = ("a call with restrict_chains or suspend_chains; non-trivial = a constraint applies to some variable and chains "
        "came back; forced: a tree of variables that each own one path of a tree of qubits, non-trivial = three or more variables and a path of two or "
        "more qubits; distinct by the whole case")
ASSUMPTIONS = ["restrict_chains is documented both as a guarantee and as 'somewhat soft'; what is checked is the part that "
               "holds: a chain never leaves the union of its own domain and its neighbours' domains, and with one shared "
               "domain it never leaves it",
               "initial chains outside the domains, and suspended variables that are also fixed, are left out"]


@st.composite
def suspend_case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    c["suspend"] = draw(ec.blobs(n, p=1))
    k = draw(st.integers(0, 7))
    if k & 1:
        c["fixed"] = {v: s for v, s in draw(ec.chain_map(n, p=3, hi=3)).items() if v not in c["suspend"]}
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k == 4:
        c["restrict"] = draw(ec.domains(n))
    c["via"] = draw(st.sampled_from(["function", "function", "miner"]))
    return c


def fe_of(c):
    if c["via"] == "function":
        return None
    import minorminer
    return lambda S, T, **kw: minorminer.miner(S, T, **kw).find_embedding()


def run_suspend(c):
    d = ec.decode(c)
    if not any(b for bl in d.suspend.values() for b in bl):
        return Info(False)
    if c.get("suspend_as") == "tuple":
        d.kw["suspend_chains"] = {v: tuple(tuple(b) for b in bl) for v, bl in d.suspend.items()}
    emb, flag, label = ec.call(d, fe_of(c))
    if not emb:
        return Info(False, [label])
    extra = set(emb) - set(d.S)
    ensure(not extra, "auxiliary variables leaked into the answer: %r", extra)
    if flag is None or flag:
        ec.judge_valid(d, emb, flag)
        for v, bl in d.suspend.items():
            for b in bl:
                ensure(not b or set(b) & set(emb[v]), "the chain %r of %r misses the blob %r", emb[v], v, b)
    return Info(flag is None or flag, [label, c["via"]])


@st.composite
def restrict_case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    c["restrict"] = draw(ec.domains(n, p=draw(st.integers(0, 2))))
    c["shared"] = draw(st.integers(0, 2)) == 0
    c["seed_initial"] = draw(st.lists(st.integers(0, 99), max_size=8))
    if draw(st.integers(0, 3)) == 0:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=3))
    c["via"] = draw(st.sampled_from(["function", "function", "miner"]))
    return c


def run_restrict(c):
    d = ec.decode(c)
    R = {v: list(r) for v, r in d.restrict.items() if r}
    if c["shared"] and R:
        one = next(iter(R.values()))
        R = {v: list(one) for v in d.S}
    if not R:
        return Info(False)
    if c["shared"]:
        for v in list(d.fixed):
            if not set(d.fixed[v]) <= set(one):
                del d.fixed[v]
    if c.get("fixed"):
        d.kw["fixed_chains"] = d.fixed
    # initial chains inside the domains
    init = {}
    nodes = list(d.S)
    for i, s in enumerate(c["seed_initial"]):
        v = nodes[i % len(nodes)]
        if v in d.fixed:
            continue
        dom = [q for q in R.get(v, list(d.T)) if q in d.main]
        if dom:
            init[v] = [dom[s % len(dom)]]
    if init:
        d.kw["initial_chains"] = init
    d.kw["restrict_chains"] = R
    emb, flag, label = ec.call(d, fe_of(c))
    if not emb:
        return Info(False, [label])
    ec.judge_valid(d, emb, flag)
    everything = set(d.T)
    soft = 0
    for v, ch in emb.items():
        if v in d.fixed or not ch:
            continue
        own = set(R.get(v, everything))
        allowed = set(own)
        for u in d.S[v]:
            allowed |= set(R.get(u, everything)) if u not in d.fixed else set(R.get(u, everything))
        out = [q for q in ch if q not in allowed]
        ensure(not out, "the chain %r of %r uses %r: outside its own and every neighbour's domain%s", ch, v, out,
               " (one shared domain)" if c["shared"] else "")
        soft += not set(ch) <= own
    return Info(len(R) > 0, [label, "shared" if c["shared"] else "own-domains", "left-own-domain" if soft else "inside"])


@st.composite
def forced_case(draw):
    n = draw(st.integers(2, 7))
    return {"n": n, "par": [draw(st.integers(0, i - 1)) for i in range(1, n)], "k": [draw(st.integers(1, 4)) for _ in range(n)],
            "at": [[draw(st.integers(0, 3)), draw(st.integers(0, 3))] for _ in range(n)], "seed": draw(st.integers(0, 2**31 - 1)),
            "free": draw(st.sampled_from([None, None, 0, 1])), "suspend": draw(st.booleans()), "via": draw(st.sampled_from(["function", "miner"]))}


def run_forced(c):
    """A tree whose variables each own one path of a tree of qubits: only one way around, which has to be found."""
    import minorminer
    n, k = c["n"], c["k"]
    S = [(c["par"][i - 1], i) for i in range(1, n)]
    R = {v: [(v, i) for i in range(k[v])] for v in range(n)}
    T = [((v, i), (v, i + 1)) for v in range(n) for i in range(k[v] - 1)]
    T += [((u, c["at"][v][0] % k[u]), (v, c["at"][v][1] % k[v])) for u, v in S]
    kw = {"restrict_chains": {v: r for v, r in R.items() if v != c["free"]}}
    if c["suspend"]:
        kw["suspend_chains"] = {v: [r] for v, r in R.items()}
    for i in range(3):
        kw["random_seed"] = (c["seed"] + i) % 2**31
        emb = minorminer.find_embedding(S, T, **kw) if c["via"] == "function" else minorminer.miner(S, T, **kw).find_embedding()
        if emb:
            break
    ensure(emb, "no embedding of the tree %s with chains %s along the tree %s", S, kw, T)
    ensure(sorted(emb) == list(range(n)), "the chains are of %s", sorted(emb))
    G = nx.Graph(T)
    for v, ch in emb.items():
        ensure(ch and nx.is_connected(G.subgraph(ch)), "the chain %r of %r", ch, v)
    ensure(sum(map(len, emb.values())) == len(set().union(*emb.values())), "the chains overlap: %s", emb)
    for u, v in S:
        ensure(any(G.has_edge(p, q) for p in emb[u] for q in emb[v]), "%s and %s are not coupled: %s", u, v, emb)
    return Info(n > 2 and max(k) > 1, [c["via"], "suspend" if c["suspend"] else "plain"])


FACETS = [
    Facet("forced", forced_case, run_forced, 3000, 60000, exts=MM),
    Facet("suspend", suspend_case, run_suspend, 12000, 250000, exts=MM),
    Facet("restrict", restrict_case, run_restrict, 16000, 300000, exts=MM),
]
