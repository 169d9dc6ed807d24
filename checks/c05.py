"""find_embedding and miner: any input ends in an answer or a Python exception, never in a crash, a memory error or a hang."""
import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure
import c06

PROPERTY = "C05"
RULE = ("a call or a miner history, well-formed or not, run with address and undefined-behaviour sanitizers and container "
        "assertions (facets asan-*) or as shipped (calls, garbage), or with several threads under ThreadSanitizer (races); non-trivial = well-formed enough to reach the C++ code; distinct "
        "by the whole case")
ASSUMPTIONS = ["signed integer overflow in the heuristic's distance sums, and misaligned access, are not counted",
               "a call with a timeout of 3 s that is not back after 100 s is a hang"]
OK = (ArithmeticError, AttributeError, LookupError, MemoryError, RuntimeError, TypeError, ValueError)


@st.composite
def wild_case(draw):
    """Well-typed, but with chains that overlap, are disconnected, sit in another component or break the domains."""
    c = draw(ec.problem(7))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    for k, key in ((1, "fixed"), (2, "initial"), (4, "restrict"), (8, "suspend")):
        pass
    k = draw(st.integers(0, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, connected=False, p=1))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k & 4:
        c["restrict"] = draw(ec.domains(n))
    if k & 8:
        c["suspend"] = draw(ec.blobs(n))
    if draw(st.integers(0, 3)) == 0:
        c["p"]["skip_initialization"] = True
    c["ops"] = draw(st.lists(c06.op(), max_size=3))
    return c


def run_wild(c):
    import minorminer
    d = ec.decode(c, sane_fixed=False, initial_in_component=False)
    if not len(d.T):
        return Info(False)
    kw = dict(d.kw, timeout=3)
    try:
        r = minorminer.find_embedding(d.Sin, d.Tin, **kw)
        label = "answered"
    except OK as e:
        label = type(e).__name__
    try:
        m = minorminer.miner(d.Sin, d.Tin, **kw)
    except OK as e:
        return Info(label == "answered", [label, "no-miner"])
    nodes = list(d.S)
    for o in c["ops"]:
        try:
            if o["op"] == "quick":
                a = dict(strategy=o["strategy"], chainlength_bound=o["bound"], overlap_bound=o["overlap"],
                         local_search=o["ls"], clear_first=o["clear"])
                if o["order"] is not None:
                    a["varorder"] = [nodes[i % len(nodes)] for i in o["order"]]
                m.quickpass(**a)
            elif o["op"] == "set":
                m.set_initial_chains({nodes[int(v) % len(nodes)]: ec.decode_chain(s, d.T, sorted(d.T, key=repr))
                                      for v, s in o["made"].items()})
            else:
                m.find_embedding()
        except OK as e:
            label += "+" + type(e).__name__
    return Info(True, [label])


BAD = [None, -1, 0, 1, 2, 2**31 - 1, 2**31, -2**31, 2**63, 2**64, 1.5, float("nan"), float("inf"), -1e308, "x", "", b"1", [], [1],
       {}, (), True, False, "1", object]
NAMES = ["max_no_improvement", "random_seed", "tries", "verbose", "max_fill", "chainlength_patience", "return_overlap",
         "skip_initialization", "inner_rounds", "threads", "max_beta", "interactive", "fixed_chains", "initial_chains",
         "restrict_chains", "suspend_chains", "timeout", "no_such_parameter", "S", "T"]
GRAPHS = {
    "k3": lambda: [(0, 1), (1, 2), (0, 2)],
    "grid": lambda: nx.grid_2d_graph(3, 3),
    "k6": lambda: nx.complete_graph(6),
    "iter": lambda: iter([(0, 1), (1, 2)]),
    "empty": lambda: [],
    "emptygraph": lambda: nx.Graph(),
    "isolated": lambda: nx.empty_graph(3),
    "loops": lambda: [(0, 0), (0, 1), (1, 1)],
    "onlyloop": lambda: [(5, 5)],
    "dup": lambda: [(0, 1), (1, 0), (0, 1), (1, 2), (2, 0)],
    "di": lambda: nx.DiGraph([(0, 1), (1, 2), (2, 0)]),
    "multi": lambda: nx.MultiGraph([(0, 1), (0, 1), (1, 2)]),
    "triple": lambda: [(0, 1, 2)],
    "one": lambda: [(0,)],
    "unhashable": lambda: [([], 1)],
    "ints": lambda: [1, 2],
    "none": lambda: None,
    "string": lambda: ["ab", "bc"],
    "set": lambda: {(0, 1), (1, 2)},
    "pin": lambda: [(("__MINORMINER_INTERNAL_PIN_FOR_SUSPENSION", 0, 0), 0), (0, 1)],
    "nan": lambda: [(float("nan"), 1), (1, 2)],
    "big": lambda: nx.path_graph(40),
}
CHAINS = {
    "ok": lambda: {0: [0]}, "tuple": lambda: {0: (0, 1)}, "set": lambda: {0: {0, 1}}, "badq": lambda: {0: [99]},
    "badv": lambda: {99: [0]}, "none": lambda: {0: None}, "int": lambda: {0: 5}, "list": lambda: [[0], [1]],
    "gen": lambda: ({i: [i]} for i in range(2)), "nested": lambda: {0: [[0]]}, "deep": lambda: {0: [[[0]]]},
    "dupq": lambda: {0: [0, 0, 0]}, "all": lambda: {i: [i] for i in range(3)}, "str": lambda: {0: "01"},
    "blob": lambda: {0: [[0, 1], []]}, "blobbad": lambda: {0: [[77]]}, "blobv": lambda: {77: [[0]]}, "badhash": lambda: {0: [{}]},
    "blobs2": lambda: {0: [[0]], 1: [[0]], 2: [[1], [2]]}, "empty": lambda: {}, "same": lambda: {0: [0], 1: [0], 2: [0]},
}


@st.composite
def garbage_case(draw):
    c = {"S": draw(st.sampled_from(sorted(GRAPHS))), "T": draw(st.sampled_from(sorted(GRAPHS))), "kw": {},
         "via": draw(st.sampled_from(["function", "miner"]))}
    if draw(st.booleans()):
        c["S"] = draw(st.sampled_from(["k3", "grid", "k6", "dup", "big"]))
        c["T"] = draw(st.sampled_from(["grid", "k6", "big"]))
    for name in draw(st.lists(st.sampled_from(NAMES[:-2]), max_size=3, unique=True)):
        if name.endswith("_chains"):
            c["kw"][name] = draw(st.sampled_from(sorted(CHAINS) * 2 + list(range(len(BAD)))))
        else:
            c["kw"][name] = draw(st.integers(0, len(BAD) - 1))
    c["seed"] = draw(st.integers(0, 9))
    return c


def run_garbage(c):
    import minorminer
    S, T = GRAPHS[c["S"]](), GRAPHS[c["T"]]()
    kw = {"timeout": 2, "random_seed": c["seed"], "tries": 2}
    for k, x in c["kw"].items():
        kw[k] = CHAINS[x]() if isinstance(x, str) else BAD[x]
    if kw.get("timeout") is None or isinstance(kw["timeout"], (int, float)) and not kw["timeout"] <= 4:
        # a legitimate request to run for hours; keep the other parameters finite
        for k in ("tries", "max_no_improvement", "chainlength_patience", "inner_rounds"):
            kw.pop(k, None)
    if kw.get("interactive"):
        kw["verbose"] = 0
    try:
        f = minorminer.find_embedding if c["via"] == "function" else (lambda S, T, **k: minorminer.miner(S, T, **k).find_embedding())
        r = f(S, T, **kw)
    except OK as e:
        return Info(isinstance(e, RuntimeError) or "chain inputs" in str(e), [type(e).__name__])
    if kw.get("return_overlap"):
        ensure(isinstance(r, tuple), "not a tuple: %r", r)
    else:
        ensure(isinstance(r, dict), "not a dict: %r", r)
    return Info(True, ["answered"])


@st.composite
def race_case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    c["p"]["threads"] = draw(st.integers(2, 6))
    n = c["S"]["n"]
    k = draw(st.integers(0, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k == 4:
        c["restrict"] = draw(ec.domains(n))
    if k >= 12:
        c["suspend"] = draw(ec.blobs(n))
    return c


def run_race(c):
    """Under ThreadSanitizer, which ends the process at the first data race."""
    import minorminer
    d = ec.decode(c)
    if not len(d.T):
        return Info(False)
    try:
        r = minorminer.find_embedding(d.Sin, d.Tin, **dict(d.kw, timeout=20))
    except OK as e:
        return Info(False, [type(e).__name__])
    return Info(len(d.S) > 2 and len(d.T) > 2, ["answered" if r else "empty", "threads-%d" % d.kw["threads"]])


FACETS = [
    Facet("races", race_case, run_race, 1500, 40000, flavour="tsan", exts=MM),
    Facet("asan-calls", wild_case, run_wild, 3000, 90000, flavour="asan", exts=MM),
    Facet("asan-history", c06.case, c06.run, 1000, 30000, flavour="asan", exts=MM),
    Facet("asan-garbage", garbage_case, run_garbage, 1500, 30000, flavour="asan", exts=MM),
    Facet("calls", wild_case, run_wild, 10000, 200000, exts=MM),
    Facet("garbage", garbage_case, run_garbage, 8000, 150000, exts=MM),
]
