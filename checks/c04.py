"""find_embedding: same seed, same answer; irrelevant presentation does not change it."""
import json
import os
import subprocess
import sys

import networkx as nx
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C04"
RULE = ("one seeded problem run several times: again, in other processes with other hash seeds, with other labels, as an edge "
        "list, with other verbosity or number of threads, with its chain dictionaries in another order; non-trivial = the run used the "
        "generator's freedom (some chain has two or more qubits, or it failed after searching) and chains came back or "
        "the declared failure did; distinct by the whole case")
ASSUMPTIONS = ["no run comes near its timeout (1000 s by default), which would make the answer depend on the clock"]


@st.composite
def case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    k = draw(st.integers(0, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k == 4:
        c["restrict"] = draw(ec.domains(n))
    if k >= 12:
        c["suspend"] = draw(ec.blobs(n))
    c["ls2"] = draw(st.sampled_from(sorted(gen.LABELS)))
    c["lt2"] = draw(st.sampled_from(sorted(gen.LABELS)))
    c["verbose2"] = draw(st.integers(0, 3))
    return c


def canon(emb, S, T):
    """Labels replaced by positions in node order."""
    si = {v: i for i, v in enumerate(S)}
    ti = {q: i for i, q in enumerate(T)}
    return {si[v]: [ti[q] for q in ch] for v, ch in emb.items()}


def run(c):
    d = ec.decode(c)
    a = ec.call(d)
    b = ec.call(d)
    ensure(a == b, "the same call with the same seed answered twice differently:\n%r\n%r", a, b)
    # verbosity and the logger are not part of the problem
    v = ec.call(d, verbose=c["verbose2"])
    ensure(a == v, "verbose=%d changes the answer:\n%r\n%r", c["verbose2"], a, v)
    # other labels, same order
    c2 = dict(c, ls=c["ls2"], lt=c["lt2"])
    d2 = ec.decode(c2)
    e = ec.call(d2)
    ka, ke = canon(a[0], d.S, d.T), canon(e[0], d2.S, d2.T)
    ensure(ka == ke and a[1:] == e[1:], "renaming the nodes changes the answer:\n%r\n%r", a, e)
    # dictionary order
    kw = {k: (dict(reversed(list(x.items()))) if isinstance(x, dict) and k != "suspend_chains" else x)
          for k, x in d.kw.items()}
    r = ec.call(d, **kw)
    ensure(a == r, "the order of the chain dictionaries changes the answer:\n%r\n%r", a, r)
    # a graph, and the list of its edges, when no node is isolated and the order of first appearance is the node order
    if c["form"] == "nx":
        def plain(G):
            seen = list(dict.fromkeys(x for e in G.edges() for x in e))
            return len(seen) == len(G)
        if plain(d.S) and plain(d.T):
            d3 = ec.decode(c)
            d3.Sin, d3.Tin = list(d.S.edges()), list(d.T.edges())
            x = ec.call(d3)
            ensure(a == x, "the edge list of the same graphs answers differently:\n%r\n%r", a, x)
            d3.Sin, d3.Tin = iter(d3.Sin), tuple(d3.Tin)
            x = ec.call(d3)
            ensure(a == x, "an iterator over the same edges answers differently:\n%r\n%r", a, x)
    emb = a[0]
    nt = len(d.S) > 0 and (a[2] in ("failed", "flag-0") or bool(emb) and max(map(len, emb.values())) > 1)
    return Info(nt, [a[2]] + (["threads"] if d.kw.get("threads", 1) > 1 else []))


CHILD = r"""
import json, sys
import embcase as ec
out = []
for c in json.load(sys.stdin):
    d = ec.decode(c)
    out.append(repr(ec.call(d)))
print(json.dumps(out))
"""


@st.composite
def process_case(draw):
    cs = draw(st.lists(case(), min_size=8, max_size=24))
    for c in cs:
        # hash-randomised labels
        c["ls"] = draw(st.sampled_from(["str", "mixed", "tuple", "int"]))
        c["lt"] = draw(st.sampled_from(["str", "mixed", "tuple", "int"]))
    return {"cases": cs, "hash": [draw(st.integers(1, 4000)), draw(st.integers(1, 4000))]}


def run_process(c):
    outs = []
    for h in c["hash"]:
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(c["cases"]), capture_output=True, text=True,
                           env=env)
        ensure(p.returncode == 0, "child: %s", p.stderr[-1500:])
        outs.append(json.loads(p.stdout.splitlines()[-1]))
    for i, (a, b) in enumerate(zip(*outs)):
        ensure(a == b, "two processes (hash seeds %r) answered the same seeded call differently:\n%s\n%s", c["hash"], a, b)
    return Info(True, ["pairs-%d" % (len(c["cases"]) // 8 * 8)])


@st.composite
def thread_case(draw):
    return dict(draw(case()), threads=draw(st.integers(2, 7)))


def run_threads(c):
    d = ec.decode(c)
    a = ec.call(d, threads=1)
    b = ec.call(d, threads=c["threads"])
    ensure(a == b, "threads=%d answers differently from threads=1:\n%r\n%r", c["threads"], a, b)
    emb = a[0]
    nt = len(d.S) > 1 and (a[2] in ("failed", "flag-0") or bool(emb) and max(map(len, emb.values())) > 1)
    return Info(nt, [a[2], "more threads than qubits" if c["threads"] > len(d.T) else "fewer"])


FACETS = [
    Facet("threads", thread_case, run_threads, 2500, 60000, exts=MM),
    Facet("metamorphic", case, run, 6000, 120000, exts=MM),
    Facet("processes", process_case, run_process, 120, 2500, mem_gb=0, exts=MM),
]
