"""Variable orders are complete traversals in the requested manner, and qubit weights grow without overflow."""
from hypothesis import strategies as st

import drv
from harness import Facet, Info, ensure

PROPERTY = "C18"
RULE = ("a variable graph of up to 24 free and 4 fixed variables in several components, and a sequence of variable orders (shuffled, depth, breadth, "
        "priority and reverse priority first, keep), neighbor lists in any order and weight tables; non-trivial = a breadth or priority order of a "
        "component of five or more variables and a weight table of five or more weights; distinct by the whole case")
ASSUMPTIONS = ["2^63 / (qubits * largest degree) bounds the weights up to one part in 10^9, the rounding of the table"]


@st.composite
def case(draw):
    nv = draw(st.one_of(st.integers(1, 8), st.integers(5, 12), st.integers(6, 24)))
    nf = draw(st.sampled_from([0, 0, 1, 2, 4]))
    n = nv + nf
    blocks = draw(st.integers(1, 3))
    e = set()
    for _ in range(draw(st.one_of(st.integers(0, 2 * n), st.integers(n, 3 * n)))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if draw(st.integers(0, 9)):
            b = min(a % blocks + b // blocks * blocks, n - 1)
        if a != b:
            e.add((min(a, b), max(a, b)))
    ops = draw(st.lists(st.one_of(st.tuples(st.integers(0, 5)), st.tuples(st.sampled_from([2, 2, 3, 3])), st.tuples(st.just(6), st.one_of(st.integers(0, 10), st.integers(-1, 70))),
                                  st.tuples(st.integers(7, 9), st.integers(0, n - 1))), min_size=draw(st.sampled_from([1, 5, 8])), max_size=12))
    return {"nv": nv, "nf": nf, "e": sorted(map(list, e)), "nq": draw(st.sampled_from([1, 2, 5, 30, 1000, 5000])), "seed": draw(st.integers(0, 2**32 - 1)),
            "beta": draw(st.sampled_from([0, 0, 1001, 1500, 2000, 10000, 500, 10**9])),
            "fill": draw(st.one_of(st.integers(0, 10), st.integers(0, 70))), "ops": [list(o) for o in ops]}


def judge_order(c, N, kind, order):
    nv = c["nv"]
    ensure(sorted(order) == list(range(nv)), "order %s of %d variables is %s", kind, nv, order)
    if kind == 0:
        return 0
    pos = {v: i for i, v in enumerate(order)}
    best, i = 0, 0
    while i < nv:
        # a block: one component of the free variables, entered once
        comp, stack = {order[i]}, [order[i]]
        while stack:
            for y in N[stack.pop()]:
                if y < nv and y not in comp:
                    comp.add(y)
                    stack.append(y)
        block = order[i:i + len(comp)]
        ensure(set(block) == comp, "order %s visits %s, but the component of its first is %s", kind, block, sorted(comp))
        for j, v in enumerate(block[1:], 1):
            ensure(any(w in N[v] for w in block[:j]), "order %s visits %d before any of its neighbors: %s", kind, v, block)
        if kind == 2:
            d = {block[0]: 0}
            q = [block[0]]
            for x in q:
                for y in N[x]:
                    if y < nv and y not in d:
                        d[y] = d[x] + 1
                        q.append(y)
            ds = [d[v] for v in block]
            ensure(ds == sorted(ds), "the breadth first order %s has the distances %s", block, ds)
        if kind == 3:
            # always a variable with the most visited (or fixed) neighbors among those next to a visited one
            for j in range(1, len(block)):
                seen = set(order[:i + j]) | set(range(nv, nv + c["nf"]))
                front = [y for y in comp if y not in seen and any(w in N[y] for w in block[:j])]
                score = {y: len(N[y] & seen) for y in front}
                ensure(score[block[j]] == max(score.values()), "the priority first order %s takes %d with %d visited neighbors, not %d", block, block[j], score[block[j]], max(score.values()))
        if kind == 4:
            # always a variable with the fewest visited (or fixed) neighbors, now or when it was first seen
            first = {}
            for j in range(1, len(block)):
                seen = set(order[:i + j]) | set(range(nv, nv + c["nf"]))
                front = [y for y in comp if y not in seen and any(w in N[y] for w in block[:j])]
                now = {y: len(N[y] & seen) for y in front}
                first = {y: first.get(y, now[y]) for y in front}
                x = block[j]
                ensure(now[x] == min(now.values()) or first[x] == min(first.values()),
                       "the reverse priority first order %s takes %d with %d visited neighbors, not %d", block, x, now[x], min(now.values()))
        best = max(best, len(comp)) if kind in (2, 3, 4) else best
        i += len(comp)
    return best


def run(c):
    n = c["nv"] + c["nf"]
    N = [set() for _ in range(n)]
    for x, y in c["e"]:
        N[x].add(y)
        N[y].add(x)
    prog = [c["nv"], c["nf"], c["nq"]]
    for x in range(n):
        prog += drv.enc(sorted(N[x]))
    prog += [c["seed"], c["fill"], c["beta"]]
    for o in c["ops"]:
        prog += o * (8 if o[0] > 6 else 1)
    a = drv.run("order", "order", prog)
    margin = c["nq"] * max(1, max(map(len, N)))
    wb = a()
    ensure(wb == min(c["fill"], (2**63 // margin).bit_length() - 1), "with max_fill %d, %d qubits and degree %d the bound on overlaps is %d", c["fill"], c["nq"], max(map(len, N)), wb)
    big = table = 0
    last = None
    for o in c["ops"]:
        if o[0] < 5:
            last = a.list()
            big = max(big, judge_order(c, N, o[0], last))
        elif o[0] == 5:
            keep = a.list()
            ensure(last is None and len(keep) == c["nv"] or keep == last, "the kept order is %s, it was %s", keep, last)
        elif o[0] == 6:
            w = [a() for _ in range(66)]
            m = min(o[1], 63)
            use = w[:max(m, 0) + 1] if m >= 0 else []
            for i, x in enumerate(use):
                ensure(x >= 1 and (i > 0 or x == 1), "the weight of %d overlaps is %d", i, x)
                ensure(i == 0 or x >= use[i - 1], "the weight of %d overlaps, %d, is less than that of one fewer", i, x)
                ensure(x * margin <= 2**63 * (1 + 1e-9), "the weight of %d overlaps, %d, times %d overflows", i, x, margin)
            ensure(all(x == 2**63 - 1 for x in w[max(m, -1) + 1:]), "more than %d overlaps weigh %s", m, w[m + 1:m + 3])
            if m > 0:
                beta = max(c["beta"] / 1000, 1.0) if c["beta"] else float("inf")
                bound = min(2.0**63 / margin, 2.0**62, min(beta, 1e4)**m)
                ensure(w[m] >= bound * 0.5, "the weight of %d overlaps is only %d", m, w[m])
                for i, x in enumerate(use):
                    ensure(beta > 1e4 or x <= beta**i * (1 + 1e-9), "the weight of %d overlaps is %d, with max_beta %s", i, x, beta)
            table = max(table, len(use))
        else:
            for _ in range(8):
                got = a.list()
                ensure(sorted(got) == sorted(N[o[1]]), "the neighbors of %d are %s, found %s", o[1], sorted(N[o[1]]), got)
    ensure(a.done(), "extra answers")
    return Info(big >= 5 and table >= 5, ["order=%d" % o[0] for o in c["ops"] if o[0] < 5])


def known_match(k, facet, case, msg):
    """The one overflow listed: one qubit, degree at most one, and 2^63 turned negative."""
    deg = [0] * (case["nv"] + case["nf"])
    for x, y in case["e"]:
        deg[x] += 1
        deg[y] += 1
    return k["id"] == "one-qubit-weight" and case["nq"] == 1 and max(deg) <= 1 and msg.startswith("the weight of ") and msg.endswith(" overlaps is -9223372036854775808")


FACETS = [Facet("order", case, run, 8000, 200000, exts=["drv.order"], flavour="asan")]
