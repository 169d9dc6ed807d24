"""Cases for minorminer.find_embedding / miner: generation, decoding, and the judgements shared by several checks."""
import networkx as nx
from hypothesis import strategies as st

import gen
from harness import Discard, Violation, ensure

INIT_FAIL = "Failed during initialization"
SKIP_FAIL = "cannot bootstrap from initial embedding"
COMPONENT_FAIL = "chain inputs are corrupted"
RESERVED_FAIL = "problem has too few nodes or edges"


@st.composite
def params(draw, overlap=True, threads=True, seed=True):
    p = {}
    if seed:
        p["random_seed"] = draw(st.one_of(st.integers(0, 1000), st.integers(0, 2**64 - 1)))
    p["tries"] = draw(st.integers(1, 3))
    if draw(st.integers(0, 2)) == 0:
        p["max_no_improvement"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 2)) == 0:
        p["chainlength_patience"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 4)) == 0:
        p["inner_rounds"] = draw(st.integers(1, 20))
    if draw(st.integers(0, 4)) == 0:
        p["max_fill"] = draw(st.integers(1, 70))
    if draw(st.integers(0, 4)) == 0:
        p["max_beta"] = draw(st.sampled_from([1.001, 1.5, 2.0, 10.0, 1e6, 1e64]))
    if threads and draw(st.integers(0, 4)) == 0:
        p["threads"] = draw(st.integers(1, 5))
    if draw(st.integers(0, 6)) == 0:
        p["verbose"] = draw(st.integers(0, 3))
    if overlap and draw(st.integers(0, 3)) == 0:
        p["return_overlap"] = True
    return p


@st.composite
def chain_spec(draw, hi=5, connected=True):
    """[mode, start, step, step, ...]: mode 0 grows a connected chain, mode 1 is an arbitrary list of qubits."""
    mode = 0 if connected or draw(st.integers(0, 2)) else 1
    return [mode, draw(st.integers(0, 199))] + draw(st.lists(st.integers(0, 199), max_size=hi - 1))


def decode_chain(spec, T, order, avoid=()):
    mode, start = spec[0], spec[1]
    free = [q for q in order if q not in avoid]
    if not free:
        return []
    if mode == 1:
        return list(dict.fromkeys(free[i % len(free)] for i in spec[1:]))
    c = [free[start % len(free)]]
    pos = {q: i for i, q in enumerate(order)}
    for s in spec[2:]:
        nb = sorted({y for x in c for y in T[x] if y not in c and y not in avoid}, key=pos.get)
        if not nb:
            break
        c.append(nb[s % len(nb)])
    return c


@st.composite
def problem(draw, src=9, small=False, labels=True):
    c = {"S": draw(gen.source_graph(src)), "T": draw(gen.target_graph(small)),
         "form": draw(st.sampled_from(["nx", "nx", "edges"]))}
    c["ls"] = draw(st.sampled_from(sorted(gen.LABELS))) if labels else "int"
    c["lt"] = draw(st.sampled_from(sorted(gen.LABELS))) if labels else "int"
    return c


@st.composite
def chain_map(draw, n, connected=True, p=2, hi=5):
    return {str(v): draw(chain_spec(hi, connected)) for v in range(n) if draw(st.integers(0, p)) == 0}


@st.composite
def domains(draw, n, p=1):
    """restrict domains as seeds: [keep_mod, keep_list] -> list of target indices"""
    d = {}
    for v in range(n):
        if draw(st.integers(0, p)) == 0:
            d[str(v)] = draw(st.lists(st.integers(0, 199), min_size=1, max_size=30))
    return d


@st.composite
def blobs(draw, n, p=2):
    return {str(v): draw(st.lists(st.lists(st.integers(0, 199), max_size=5), min_size=0, max_size=2))
            for v in range(n) if draw(st.integers(0, p)) == 0}


class Decoded:
    pass


def decode(c, sane_fixed=True, initial_in_component=True):
    d = Decoded()
    S0 = gen.to_nx(c["S"])
    T0 = gen.make_target(c["T"])
    if c["form"] == "edges":
        S0 = nx.Graph(list(S0.edges()))
        T0 = nx.Graph(list(T0.edges()))
    fs, ft = gen.LABELS[c["ls"]], gen.LABELS[c["lt"]]
    order = sorted(T0)
    d.fixed, d.initial, d.restrict, d.suspend = {}, {}, {}, {}
    used = set()
    comps = sorted(nx.connected_components(T0), key=len, reverse=True)
    # find_embedding works in one largest component; a tie makes "the largest" ambiguous
    main = comps[0] if comps else set()
    d.tie = len(comps) > 1 and len(comps[1]) == len(comps[0])
    for v, spec in (c.get("fixed") or {}).items():
        v = int(v)
        if v not in S0:
            continue
        if sane_fixed:
            ch = decode_chain(spec, T0, [q for q in order if q in main], used)
            if not ch:
                continue
            if any(u in d.fixed and not any(T0.has_edge(a, b) for a in ch for b in d.fixed[u]) for u in S0[v] if u != v):
                continue
        else:
            ch = decode_chain(spec, T0, order)
        if ch:
            d.fixed[v] = ch
            used |= set(ch)
    for v, spec in (c.get("initial") or {}).items():
        v = int(v)
        if v in S0:
            ch = decode_chain(spec, T0, [q for q in order if q in main] if initial_in_component else order)
            if ch:
                d.initial[v] = ch
    for v, idx in (c.get("restrict") or {}).items():
        v = int(v)
        if v in S0 and order:
            d.restrict[v] = list(dict.fromkeys(order[i % len(order)] for i in idx))
    for v, bl in (c.get("suspend") or {}).items():
        v = int(v)
        if v in S0 and order:
            d.suspend[v] = [list(dict.fromkeys(order[i % len(order)] for i in b)) for b in bl]
    d.main = {ft(q) for q in main}
    d.S = nx.relabel_nodes(S0, {v: fs(v) for v in S0})
    d.T = nx.relabel_nodes(T0, {q: ft(q) for q in T0})
    for name in ("fixed", "initial", "restrict"):
        m = getattr(d, name)
        setattr(d, name, {fs(v): [ft(q) for q in ch] for v, ch in m.items()})
    d.suspend = {fs(v): [[ft(q) for q in b] for b in bl] for v, bl in d.suspend.items()}
    d.Sin = d.S if c["form"] == "nx" else list(d.S.edges())
    d.Tin = d.T if c["form"] == "nx" else list(d.T.edges())
    d.kw = dict(c["p"])
    for name, key in (("fixed", "fixed_chains"), ("initial", "initial_chains"), ("restrict", "restrict_chains"),
                      ("suspend", "suspend_chains")):
        if c.get(name):
            d.kw[key] = getattr(d, name)
    return d


def declared(e, kw):
    """The label of a failure the documentation declares, None for any other exception."""
    m = str(e)
    if isinstance(e, RuntimeError):
        if m.startswith(INIT_FAIL):
            return "init-failed"
        if m.startswith(SKIP_FAIL) and kw.get("skip_initialization"):
            return "skip-failed"
        if m.startswith(RESERVED_FAIL) and kw.get("fixed_chains"):
            return "all-reserved"
    if type(e) is ValueError and m == COMPONENT_FAIL and any(
            kw.get(k) for k in ("fixed_chains", "initial_chains", "restrict_chains", "suspend_chains")):
        return "outside-component"
    return None


def attempt(f, kw):
    """-> (True, value) or (False, label of a declared failure)"""
    try:
        return True, f()
    except (RuntimeError, ValueError) as e:
        label = declared(e, kw)
        if label is None:
            raise
        return False, label


def call(d, fe=None, **over):
    """-> (embedding or {}, flag or None, label). Declared failures are returned as ({}, None, label)."""
    import minorminer
    fe = fe or minorminer.find_embedding
    kw = dict(d.kw, **over)
    if not len(d.T) and len(d.S):
        try:
            fe(d.Sin, d.Tin, **kw)
        except (ValueError, RuntimeError):
            return {}, None, "empty-target"
        raise Violation("an empty target graph was accepted")
    ok, r = attempt(lambda: fe(d.Sin, d.Tin, **kw), kw)
    if not ok:
        return {}, None, r
    if kw.get("return_overlap"):
        ensure(isinstance(r, tuple) and len(r) == 2, "return_overlap: not a pair: %r", r)
        return r[0], bool(r[1]), "flag-%d" % bool(r[1])
    ensure(isinstance(r, dict), "not a dict: %r", r)
    return r, None, "embedded" if r else "failed"


def judge_valid(d, emb, flag):
    """Validity of whatever came back."""
    if flag is None:
        if emb:
            errs = gen.emb_errors(emb, d.S, d.T)
            ensure(not errs, "invalid embedding: %s\nembedding: %r\nsource edges: %r", errs, emb, sorted(map(repr, d.S.edges())))
        return
    errs = gen.emb_errors(emb, d.S, d.T)
    ensure(bool(flag) == (not errs), "the success flag is %r, but the chains are %s\n%r", flag,
           "valid" if not errs else "not valid: %s" % errs, emb)


def clean(emb):
    return {v: sorted(c, key=repr) for v, c in emb.items()}
