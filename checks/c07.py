"""initial_chains and skip_initialization."""
import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C07"
RULE = ("a problem restarted from chains: a valid embedding found earlier, that embedding with qubits added, dropped or "
        "shared, or made-up chains; non-trivial = the restart was accepted and the source has an edge; distinct by the "
        "whole case")
ASSUMPTIONS = []


@st.composite
def case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params(overlap=False))
    c["first"] = draw(st.integers(0, 2**32))
    c["patience1"] = draw(st.integers(0, 2))
    c["mut"] = draw(st.lists(st.tuples(st.sampled_from(["drop", "grow", "share", "dup", "empty", "remove", "move", "drop"]), st.integers(0, 50),
                                       st.integers(0, 50)).map(list), max_size=4))
    c["skip"] = draw(st.booleans())
    c["via"] = draw(st.sampled_from(["function", "miner"]))
    c["overlap"] = draw(st.booleans())
    return c


def lexkey(emb):
    """Longest chains first: the histogram the algorithm improves."""
    return sorted((len(ch) for ch in emb.values()), reverse=True)


def semivalid(emb, S, T):
    """Chains for everybody, connected, and linked across every source edge; overlap allowed."""
    return not gen.emb_errors(emb, S, T, overlap_ok=False) or not [
        e for e in gen.emb_errors(emb, S, T) if not e.startswith("qubit ")]


def run(c):
    import minorminer
    d = ec.decode(c)
    if not len(d.S):
        return Info(False)
    emb0, _, label0 = ec.call(d, random_seed=c["first"], tries=3, chainlength_patience=c["patience1"])
    if not emb0:
        return Info(False, ["no-start"])
    ch = {v: list(x) for v, x in emb0.items()}
    nodes = list(d.S)
    for op, i, j in c["mut"]:
        v = nodes[i % len(nodes)]
        if v not in ch:
            continue
        if op == "drop" and len(ch[v]) > 1:
            ch[v].pop(j % len(ch[v]))
        elif op == "grow" and ch[v]:
            nb = sorted({q for x in ch[v] for q in d.T[x]} - set(ch[v]), key=repr)
            if nb:
                ch[v].append(nb[j % len(nb)])
        elif op == "share" and ch[v]:
            u = nodes[j % len(nodes)]
            ch[v] = list(dict.fromkeys(ch[v] + ch.get(u, [])))
        elif op == "dup" and ch[v]:
            ch[v].append(ch[v][j % len(ch[v])])
        elif op == "move" and ch[v]:
            near = list(nx.node_connected_component(d.T, ch[v][0]))
            ch[v] = [sorted(near, key=repr)[j % len(near)]]
        elif op == "empty":
            ch[v] = []
        elif op == "remove":
            del ch[v]
    full = {v: x for v, x in ch.items() if x}
    uniq = {v: list(dict.fromkeys(x)) for v, x in full.items()}
    errs = gen.emb_errors(uniq, d.S, d.T)
    valid = not errs
    kw = {"initial_chains": ch, "skip_initialization": c["skip"], "return_overlap": c["overlap"]}
    if c["via"] == "miner":
        fe = lambda S, T, **k: minorminer.miner(S, T, **k).find_embedding()
    else:
        fe = None
    # initial chains as a miner update instead of a parameter
    emb, flag, label = ec.call(d, fe, **kw)
    ec.judge_valid(d, emb, flag)
    ok = bool(emb) if flag is None else flag
    semi = not [e for e in errs if not e.startswith("qubit ")]
    labels = [label, "valid" if valid else "semi" if semi else "broken"]
    if c["skip"]:
        # max_fill caps the overlap of new chains only
        if semi:
            ensure(label != "skip-failed", "skip_initialization refused chains that are connected and linked across every "
                   "edge:\n%r", ch)
        elif [e for e in errs if "no chain" in e or "disconnected" in e] or [
                (u, v) for u, v in d.S.edges() if u != v and not set(uniq[u]) & set(uniq[v])
                and not any(d.T.has_edge(a, b) for a in uniq[u] for b in uniq[v])]:
            ensure(label == "skip-failed", "skip_initialization accepted chains that cannot be used: %s (%s)", errs, label)
        if valid:
            ensure(ok, "started from a valid embedding, came back with %s", label)
            ensure(lexkey(emb) <= lexkey(uniq), "started from chain lengths %r, came back worse: %r", lexkey(uniq), lexkey(emb))
            if c["p"].get("chainlength_patience") == 0:
                ensure(ec.clean(emb) == ec.clean(uniq), "no improvement was asked for, but the chains changed:\n%r\n%r", uniq,
                       emb)
            # improve_embeddings is the same through the miner
    elif valid and not any(k in c["p"] for k in ("max_fill", "max_beta")):
        ensure(ok, "a valid embedding in initial_chains was lost: %s", label)
        ensure(lexkey(emb) <= lexkey(uniq), "initial_chains had lengths %r, came back worse: %r", lexkey(uniq), lexkey(emb))
    return Info(d.S.number_of_edges() > 0 and label not in ("skip-failed",), labels)


@st.composite
def ignore_case(draw):
    c = draw(ec.problem(7))
    c["p"] = draw(ec.params())
    c["initial"] = draw(ec.chain_map(c["S"]["n"], connected=False, p=1))
    c["blank"] = draw(st.lists(st.integers(0, 20), max_size=5))
    return c


def run_ignore(c):
    """Empty entries are ignored: the same answer as without them."""
    d = ec.decode(c)
    if not len(d.S):
        return Info(False)
    a = ec.call(d, initial_chains=d.initial)
    nodes = list(d.S)
    more = dict(d.initial)
    for i in c["blank"]:
        more.setdefault(nodes[i % len(nodes)], [])
    b = ec.call(d, initial_chains=more)
    ensure(a == b, "adding empty initial chains %r changes the answer:\n%r\n%r", more, a, b)
    z = ec.call(d, fixed_chains={v: [] for v in nodes[:2]}, restrict_chains={v: [] for v in nodes[:1]},
                initial_chains=d.initial)
    ensure(a == z, "empty fixed_chains / restrict_chains entries change the answer:\n%r\n%r", a, z)
    return Info(len(more) > len(d.initial) and bool(a[0]), [a[2]])


FACETS = [
    Facet("restart", case, run, 12000, 250000, exts=MM),
    Facet("blank", ignore_case, run_ignore, 4000, 60000, exts=MM),
]
