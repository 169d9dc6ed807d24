"""The priority queue of the search pops in priority order over any history, and ties are found completely."""
from hypothesis import strategies as st

import drv
from harness import Facet, Info, ensure

PROPERTY = "C09"
RULE = ("queue: a history of insertions, removals, looks at the top, emptiness tests, resets and moves of a queue of up to 40 places, mirrored by a "
        "list; dijkstra: the insert-while-popping pattern of a shortest path search, over hundreds of entries; minima: the positions of the least "
        "entries of a list; non-trivial = at least five removals of which two or more from three or more entries / a tie; distinct by the whole case")
ASSUMPTIONS = ["at most as many insertions between two resets as the queue has places, and the top of an empty queue is not asked for, as the interface demands"]

DIST = st.one_of(st.integers(0, 4), st.integers(0, 50), st.sampled_from([2**63 - 1, 2**62, -1, 2**31, 2**32 + 1, -(2**40)]))
DIRT = st.one_of(st.integers(0, 3), st.integers(0, 2**31 - 1))


@st.composite
def history(draw):
    n = draw(st.sampled_from([1, 2, 5, 8, 12, 20, 40, 40]))
    kinds = draw(st.lists(st.sampled_from([1] * 10 + [2] * 6 + [0, 4, 5]), min_size=draw(st.sampled_from([0, 0, 25, 40])), max_size=80))
    ops = [(k, draw(DIRT), draw(DIST)) if k == 1 else (k,) for k in kinds]
    return {"n": n, "max": draw(st.booleans()), "ops": [list(o) for o in ops], "drain": draw(st.booleans())}


@st.composite
def fat(draw):
    """Most of the queue filled at once, then popped with insertions in between (the use in Dijkstra's algorithm)."""
    n = draw(st.integers(3, 400))
    return {"n": n, "max": draw(st.booleans()), "seed": draw(st.integers(0, 2**30)), "range": draw(st.sampled_from([1, 3, 10, 1000, 2**62])),
            "first": draw(st.integers(1, n)), "push": draw(st.integers(0, 6)), "rounds": draw(st.integers(1, 3))}


class Model:
    def __init__(self, c):
        self.n, self.sign = c["n"], -1 if c["max"] else 1
        self.prog, self.expect = [self.n], []
        self.live, self.used, self.ident = [], 0, 0
        self.pops = self.deep = 0
        self.kind = "max" if c["max"] else "min"

    def push(self, dirt, dist):
        if self.used == self.n:
            return
        self.prog += [1, self.ident, dirt, dist]
        self.live.append((dist * self.sign, dirt * self.sign, self.ident))
        self.used += 1
        self.ident += 1

    def top(self):
        """Ask for emptiness and, when there is one, the top."""
        self.prog += [4]
        self.expect.append(not self.live)
        if self.live:
            self.prog += [3]
            self.expect.append(min(x[:2] for x in self.live))

    def pop(self):
        if not self.live:
            return
        self.top()
        self.prog += [2]
        self.expect.append("pop")
        self.pops += 1
        self.deep += len(self.live) > 2
        # which of two equal entries leaves is open; the answer tells, so the model only keeps the keys
        self.live.remove(min(self.live))

    def reset(self):
        self.prog += [0]
        self.live, self.used = [], 0
        self.expect.append("reset")

    def move(self):
        self.prog += [5]

    def judge(self):
        a = drv.run("queue", self.kind, self.prog)
        # replay: nodes handed out are distinct, live, and carry the keys they were put in with
        keys, i, p, last = {}, 0, self.prog, None
        live = {}
        i = 1
        exp = iter(e for e in self.expect if e not in ("pop", "reset"))
        while i < len(p):
            op = p[i]
            i += 1
            if op == 1:
                live[p[i]] = (p[i + 1], p[i + 2])
                i += 3
            elif op == 0:
                live = {}
            elif op == 4:
                got, want = a(), next(exp)
                ensure(bool(got) == bool(want), "empty() says %s with %d entries in the queue", bool(got), len(live))
            elif op == 3:
                want = next(exp)
                node, dirt, dist = a(), a(), a()
                ensure(node in live and live[node] == (dirt, dist), "top() gives entry %s with tie-break %s and priority %s, which is not in the queue", node, dirt, dist)
                w = (want[0] * self.sign, want[1] * self.sign)
                ensure((dist, dirt) == w, "top() of a %s queue has priority %s, tie-break %s; the first is %s, %s", self.kind, dist, dirt, w[0], w[1])
                last = node
            elif op == 2:
                del live[last]
        ensure(a.done(), "extra answers")


def run_history(c):
    m = Model(c)
    for op in c["ops"]:
        if op[0] == 1:
            m.push(op[1], op[2])
        else:
            [m.reset, None, m.pop, None, m.top, m.move][op[0]]()
    if c["drain"]:
        while m.live:
            m.pop()
    m.top()
    m.judge()
    return Info(m.pops >= 5 and m.deep >= 2, ["max" if c["max"] else "min", "full" if m.used == m.n else "part", "reset" if 0 in [o[0] for o in c["ops"]] else "once"])


def run_fat(c):
    import random
    r = random.Random(c["seed"])
    m = Model(c)
    for _ in range(c["rounds"]):
        for _ in range(c["first"]):
            m.push(r.randrange(min(c["range"], 2**31)), r.randrange(c["range"]))
        base = 0
        while m.live:
            m.pop()
            base += 1
            for _ in range(r.randint(0, c["push"])):
                m.push(r.randrange(min(c["range"], 2**31)), base + r.randrange(c["range"]))
        m.reset()
    m.judge()
    return Info(m.deep >= 2 and m.pops >= 5, ["max" if c["max"] else "min", "many" if m.pops > 100 else "few"])


def run_minima(c):
    a = drv.run("queue", "minima", drv.enc(c["l"]))
    got = a.list()
    want = [i for i, x in enumerate(c["l"]) if x == min(c["l"])]
    ensure(sorted(got) == want, "the least entries of %s are at %s, found %s", c["l"], want, got)
    return Info(len(want) > 1, [])


DRV = ["drv.queue"]
FACETS = [
    Facet("queue", history, run_history, quick=9000, thorough=250000, exts=DRV, flavour="o1"),
    Facet("dijkstra", fat, run_fat, quick=2500, thorough=60000, exts=DRV, flavour="asan"),
    Facet("minima", lambda: st.fixed_dictionaries({"l": st.one_of(
        st.lists(st.one_of(st.integers(0, 3), st.integers(-2**31, 2**31 - 1)), min_size=1, max_size=30),
        st.lists(st.integers(0, 2), min_size=30, max_size=100))}),
          run_minima, quick=2500, thorough=40000, exts=DRV, flavour="o1"),
]
