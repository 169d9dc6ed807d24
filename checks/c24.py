"""diagnose_embedding, is_valid_embedding and verify_embedding against the definition of a minor embedding."""
import networkx as nx
from hypothesis import strategies as st

import gen
from harness import BQ, Facet, Info, ensure

PROPERTY = "C24"
RULE = ("random sources and targets (as graphs or edge lists, with mixed labels and self-loops in the source) with assignments of chains that "
        "are random, grown to be connected, or taken from a planted minor and then damaged; non-trivial = at least two chains over a target "
        "with edges; distinct by the whole case")
ASSUMPTIONS = ["undirected graphs; source nodes and target nodes are hashable"]


@st.composite
def case(draw):
    n = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 6]))
    mode = draw(st.sampled_from(["planted", "planted", "random", "grown"]))
    T = draw(gen.bits_graph(1, 10)) if mode != "planted" else None
    S = draw(gen.bits_graph(max(n, 1), max(n, 1))) if n else {"n": 0, "e": []}
    sizes = draw(st.lists(st.integers(1, 3), min_size=n, max_size=n))
    faults = draw(st.lists(st.tuples(st.sampled_from(["drop", "empty", "alien", "share", "cut", "edge", "extra", "noqubit", "repeat"]),
                                     st.integers(0, 99), st.integers(0, 99)).map(list),
                           max_size=draw(st.sampled_from([0, 0, 1, 2, 4]))))
    return {"mode": mode, "S": S, "T": T, "sizes": sizes, "faults": faults, "loops": draw(st.lists(st.integers(0, 9), max_size=2)),
            "spare": draw(st.integers(0, 2)), "bits": draw(st.integers(0, 2**60)), "sl": draw(st.sampled_from(sorted(gen.LABELS))),
            "tl": draw(st.sampled_from(sorted(gen.LABELS))), "form": draw(st.sampled_from(["graph", "edges", "mixed"])),
            "chain": draw(st.sampled_from(["list", "tuple", "set"])),
            "ignore": draw(st.lists(st.integers(0, 4), max_size=5, unique=True))}


def build(c):
    import random
    r = random.Random(c["bits"])
    S = gen.to_nx(c["S"])
    n = len(S)
    if c["mode"] == "planted":
        T = nx.Graph()
        chains, k = {}, 0
        for v in range(n):
            ch = list(range(k, k + c["sizes"][v]))
            k += len(ch)
            T.add_nodes_from(ch)
            for i in range(1, len(ch)):
                T.add_edge(ch[i], ch[r.randrange(i)])
            chains[v] = ch
        for u, v in S.edges():
            T.add_edge(r.choice(chains[u]), r.choice(chains[v]))
        for _ in range(c["spare"]):
            T.add_node(k)
            for q in list(T):
                if q != k and r.random() < .3:
                    T.add_edge(q, k)
            k += 1
        perm = list(range(k))
        r.shuffle(perm)
        T = nx.relabel_nodes(T, dict(enumerate(perm)))
        chains = {v: [perm[q] for q in ch] for v, ch in chains.items()}
    else:
        T = gen.to_nx(c["T"])
        chains = {}
        free = sorted(T)
        for v in range(n):
            ch = [r.choice(free if c["mode"] == "grown" and free else sorted(T))]
            while len(ch) < c["sizes"][v]:
                near = sorted({p for q in ch for p in T[q]} - set(ch)) if c["mode"] == "grown" else sorted(set(T) - set(ch))
                if not near:
                    break
                ch.append(r.choice(near))
            free = [q for q in free if q not in ch] if c["mode"] == "grown" else free
            chains[v] = ch
    extra = {}
    for f, a, z in c["faults"]:
        if f == "extra":
            extra["extra%d" % a] = [z]
        if not chains:
            continue
        vs = sorted(chains)
        v, w = vs[a % len(vs)], vs[z % len(vs)]
        if f == "drop":
            del chains[v]
        elif f == "empty":
            chains[v] = []
        elif f == "alien":
            chains[v] = chains[v] + ["alien"]
        elif f == "share" and chains[w]:
            chains[v] = chains[v] + [chains[w][a % len(chains[w])]]
        elif f == "cut" and chains[v]:
            chains[v] = [q for i, q in enumerate(chains[v]) if i != z % len(chains[v])]
        elif f == "edge" and T.number_of_edges():
            es = sorted(T.edges())
            T.remove_edge(*es[a % len(es)])
        elif f == "noqubit" and len(T):
            T.remove_node(sorted(T)[z % len(T)])
        elif f == "repeat" and chains[v]:
            chains[v] = chains[v] + chains[v][:1]
    chains.update(extra)
    for i in c["loops"]:
        if n:
            S.add_edge(i % n, i % n)
    return S, T, chains


def run(c):
    from minorminer import utils as mu
    E = {"MissingChainError": mu.MissingChainError, "ChainOverlapError": mu.ChainOverlapError, "DisconnectedChainError":
         mu.DisconnectedChainError, "InvalidNodeError": mu.InvalidNodeError, "MissingEdgeError": mu.MissingEdgeError}
    S, T, chains = build(c)
    fs, ft = gen.LABELS[c["sl"]], gen.LABELS[c["tl"]]
    S = nx.relabel_nodes(S, {v: fs(v) for v in S})
    as_s, as_t = S, nx.relabel_nodes(T, {q: ft(q) for q in T})
    T = as_t
    if c["form"] in ("edges", "mixed"):
        as_s = list(S.edges())
        S = nx.Graph(as_s)
    if c["form"] == "edges":
        as_t = list(T.edges())
        T = nx.Graph(as_t)
    make = {"list": list, "tuple": tuple, "set": set}[c["chain"]]
    emb = {(v if isinstance(v, str) else fs(v)): make([q if isinstance(q, str) else ft(q) for q in ch]) for v, ch in chains.items()}

    # the definition
    want = {k: [] for k in E}
    full = {}
    for v in S:
        ch = list(emb.get(v, ()))
        if not ch:
            want["MissingChainError"].append((v, ))
            continue
        bad = [q for q in ch if q not in T]
        want["InvalidNodeError"] += [(v, q) for q in bad]
        if not bad:
            full[v] = set(ch)
            if not nx.is_connected(T.subgraph(ch)):
                want["DisconnectedChainError"].append((v, ))
    owners = {}
    for v in S:
        for q in set(emb.get(v, ())):
            if q in T:
                owners.setdefault(q, set()).add(v)
    for u, v in S.edges():
        if u != v and u in full and v in full and not any(T.has_edge(p, q) for p in full[u] for q in full[v]):
            want["MissingEdgeError"].append(frozenset((u, v)))

    got = {k: [] for k in E}
    first = None
    seq = []
    for err in mu.diagnose_embedding(emb, as_s, as_t):
        cls, args = err[0], tuple(err[1:])
        ensure(cls in E.values(), "unknown error class %r", cls)
        x = cls(*args)
        ensure(isinstance(x, Exception) and str(x), "the error cannot be built: %r", err)
        seq.append(cls)
        first = first or cls
        got[cls.__name__].append(args)

    def multi(l):
        return sorted(map(repr, l))
    for k in ("MissingChainError", "DisconnectedChainError"):
        ensure(multi(got[k]) == multi(want[k]), "%s: %r, the definition gives %r\n%r", k, got[k], want[k], emb)
    ensure(set(got["InvalidNodeError"]) == set(want["InvalidNodeError"]), "InvalidNodeError: %r, the definition gives %r",
           got["InvalidNodeError"], want["InvalidNodeError"])
    ensure({frozenset(p) for p in got["MissingEdgeError"]} == set(want["MissingEdgeError"]) and
           len(got["MissingEdgeError"]) == len(want["MissingEdgeError"]), "MissingEdgeError: %r, the definition gives %r\n%r",
           got["MissingEdgeError"], want["MissingEdgeError"], emb)
    named = {}
    for q, x, y in got["ChainOverlapError"]:
        ensure(x != y and {x, y} <= owners.get(q, set()), "%r is not shared by %r and %r", q, x, y)
        named.setdefault(q, set()).update((x, y))
    shared = {q: o for q, o in owners.items() if len(o) > 1}
    ensure(named == shared, "ChainOverlapError for %r, shared qubits are %r", named, shared)
    ensure(len(got["ChainOverlapError"]) == len(set((q, frozenset((x, y))) for q, x, y in got["ChainOverlapError"])), "an overlap is reported "
           "twice: %r", got["ChainOverlapError"])
    valid = not any(want.values()) and not shared
    ensure(mu.is_valid_embedding(emb, as_s, as_t) is valid, "is_valid_embedding is not %r for %r", valid, emb)
    try:
        ok = mu.verify_embedding(emb, as_s, as_t)
        ensure(ok is True and valid, "verify_embedding passed %r", emb)
    except mu.exceptions.EmbeddingError as e:
        ensure(not valid and type(e) is first, "verify_embedding raised %r, the first problem is %r", e, first)
    names = sorted(E)
    ignore = tuple(E[names[i]] for i in c["ignore"])
    rest = [k for k in seq if k not in ignore]
    try:
        ok = mu.verify_embedding(emb, as_s, as_t, ignore_errors=ignore)
        ensure(ok is True and not rest, "verify_embedding ignored %r of %r", rest, seq)
    except mu.exceptions.EmbeddingError as e:
        ensure(rest and type(e) is rest[0], "verify_embedding(ignore=%r) raised %r; problems are %r", ignore, e, seq)
    labels = [k for k in E if want.get(k)] + (["overlap"] if shared else []) + (["valid"] if valid else [])
    return Info(len(emb) > 1 and T.number_of_edges() > 0, labels)


FACETS = [Facet("diagnose", case, run, 6000, 200000, exts=BQ)]
