"""fixed_chains: kept exactly, never shared, whatever else is asked for."""
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C02"
RULE = ("a find_embedding or miner call with at least one usable fixed chain (connected, pairwise disjoint, adjacent "
        "where the source says so); non-trivial = at least one variable is not fixed and chains came back; distinct by "
        "the whole case")
ASSUMPTIONS = ["fixed chains that are themselves inconsistent (disconnected, overlapping, missing a coupler between two "
               "fixed variables) are only judged on being returned unchanged"]


@st.composite
def case(draw, sane=True):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    c["fixed"] = draw(ec.chain_map(n, connected=sane, p=1, hi=4))
    k = draw(st.integers(0, 7))
    if k & 1:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k & 2:
        c["restrict"] = draw(ec.domains(n))
    if k & 4:
        c["suspend"] = draw(ec.blobs(n))
    c["via"] = draw(st.sampled_from(["function", "function", "miner"]))
    c["sane"] = sane
    return c


def check_fixed(d, emb, exclusive, what=""):
    for v, ch in d.fixed.items():
        ensure(v in emb, "%sfixed variable %r has no chain", what, v)
        ensure(sorted(map(repr, emb[v])) == sorted(map(repr, set(ch))),
               "%sthe fixed chain of %r was %r, came back as %r", what, v, ch, emb[v])
    if exclusive:
        own = {q: v for v, ch in d.fixed.items() for q in ch}
        for u, ch in emb.items():
            if u in d.fixed:
                continue
            hit = [q for q in ch if q in own]
            ensure(not hit, "%sthe chain of %r uses %r, reserved by fixed chains", what, u, hit)


def fe_of(c):
    if c["via"] == "function":
        return None
    import minorminer
    return lambda S, T, **kw: minorminer.miner(S, T, **kw).find_embedding()


def run(c):
    d = ec.decode(c, sane_fixed=c["sane"], initial_in_component=True)
    if not d.fixed or not len(d.S):
        return Info(False)
    emb, flag, label = ec.call(d, fe_of(c))
    if not emb:
        return Info(False, [label])
    check_fixed(d, emb, True)
    if c["sane"]:
        ec.judge_valid(d, emb, flag)
    else:
        # every free variable must still be right with respect to everybody
        pass
    return Info(len(d.fixed) < len(d.S), [label, c["via"], "n-fixed-%d" % min(3, len(d.fixed))])


@st.composite
def quick_case(draw):
    c = draw(case())
    c["via"] = "function"
    c["p"].pop("return_overlap", None)
    c["ops"] = draw(st.lists(st.fixed_dictionaries({
        "order": st.one_of(st.none(), st.lists(st.integers(0, 20), min_size=1, max_size=10)),
        "strategy": st.integers(0, 4), "bound": st.integers(0, 4), "overlap": st.integers(0, 2),
        "ls": st.booleans(), "clear": st.booleans()}), min_size=1, max_size=4))
    return c


def run_quick(c):
    import minorminer
    d = ec.decode(c)
    if not d.fixed or not len(d.S) or len(d.fixed) == len(d.S):
        return Info(False)
    ok, m = ec.attempt(lambda: minorminer.miner(d.Sin, d.Tin, **d.kw), d.kw)
    if not ok:
        return Info(False, [m])
    nodes = list(d.S)
    for op in c["ops"]:
        kw = dict(strategy=op["strategy"], chainlength_bound=op["bound"], overlap_bound=op["overlap"],
                  local_search=op["ls"], clear_first=op["clear"])
        if op["order"] is not None:
            kw["varorder"] = [nodes[i % len(nodes)] for i in op["order"]]
        emb = m.quickpass(**kw)
        check_fixed(d, emb, True, "quickpass: ")
    ok, emb = ec.attempt(m.find_embedding, d.kw)
    if ok and emb:
        check_fixed(d, emb, True)
        ec.judge_valid(d, emb, None)
    return Info(len(d.fixed) < len(d.S), ["then-embedded" if ok and emb else "then-failed"])


FACETS = [
    Facet("calls", lambda: case(True), run, 14000, 300000, exts=MM),
    Facet("inconsistent", lambda: case(False), run, 5000, 100000, exts=MM),
    Facet("quickpass", quick_case, run_quick, 8000, 150000, exts=MM),
]
