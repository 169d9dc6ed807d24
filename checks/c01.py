"""find_embedding: every answer is a valid minor embedding, or a declared failure."""
import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C01"
RULE = ("a generated source graph x target graph (random, structured, damaged chimera/pegasus/zephyr, disconnected) x "
        "parameters; non-trivial = the source has an edge and the call gave chains with some chain of two or more "
        "qubits, or overlapping chains with the flag down, or a failure; distinct by the whole case")
ASSUMPTIONS = ["a RuntimeError 'Failed during initialization' and {} are the declared failures",
               "embeddability itself is not judged: the algorithm is a heuristic"]


@st.composite
def basic_case(draw):
    c = draw(ec.problem(9))
    c["p"] = draw(ec.params())
    return c


@st.composite
def mixed_case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    k = draw(st.integers(1, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k & 4:
        c["restrict"] = draw(ec.domains(n))
    if k & 8:
        c["suspend"] = draw(ec.blobs(n))
    if draw(st.integers(0, 7)) == 0:
        c["p"]["skip_initialization"] = True
    return c


@st.composite
def large_case(draw):
    S = draw(st.one_of(gen.source_graph(16), st.integers(8, 14).map(lambda k: {
        "n": k, "e": [[i, j] for i in range(k) for j in range(i + 1, k)]})))
    fam, args = draw(st.sampled_from([("chimera", [4, 4, 4]), ("chimera", [6, 5, 4]), ("pegasus", [3]), ("zephyr", [2, 4]),
                                      ("zephyr", [3, 2]), ("chimera", [8, 8, 2])]))
    dn = draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 5, 40]))))
    de = draw(st.lists(st.integers(0, 999), max_size=draw(st.sampled_from([0, 5, 40]))))
    return {"S": S, "T": {"fam": fam, "args": args, "dn": dn, "de": de}, "form": "nx", "ls": "int", "lt": "int",
            "p": draw(ec.params())}


def run_any(c):
    d = ec.decode(c)
    if not len(d.T):
        return Info(False)
    emb, flag, label = ec.call(d)
    if not len(d.S):
        ensure(emb == {} and flag in (None, True), "an empty source gave %r, %r", emb, flag)
        return Info(False, ["empty-source"])
    # a fixed variable that is also suspended pins a chain nobody may change; validity of that pair is the user's
    ec.judge_valid(d, emb, flag)
    nt = d.S.number_of_edges() > 0 and (not emb or max(map(len, emb.values())) > 1)
    labels = [label]
    if not nx.is_connected(d.T):
        labels.append("target-disconnected")
    for k in ("fixed", "initial", "restrict", "suspend"):
        if getattr(d, k):
            labels.append(k)
    return Info(nt, labels)


FACETS = [
    Facet("basic", basic_case, run_any, 16000, 400000, exts=MM, flavour="opt"),
    Facet("mixed", mixed_case, run_any, 14000, 400000, exts=MM, flavour="opt"),
    Facet("large", large_case, run_any, 400, 12000, exts=MM, flavour="opt"),
]
