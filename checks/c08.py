"""Chains keep exact books: trees, reference counts, links and qubit weights stay right under every history of embedding operations."""
import random
from collections import deque

from hypothesis import strategies as st

import drv
from harness import Facet, Info, ensure

PROPERTY = "C08"
RULE = ("an embedding over up to 6 free and 2 fixed variables and up to 16 qubits, with initial chains (overlapping, broken or on reserved qubits "
        "included), fixed chains and domains, and a history of tear-outs, freezes, thaws, constructions along random shortest path trees (plain and "
        "by Steiner nodes), flips, steals, copies and restores; after every operation the whole state is read and compared with an independent account; "
        "non-trivial = a steal or flip moved a qubit, or a chain of three or more qubits was built; distinct by the whole case")
ASSUMPTIONS = ["operations are used as the search uses them: a chain is built for a torn-out variable from a root with a path to every embedded neighbor; "
               "a frozen chain is thawed before anything but the torn-out chain has changed"]


@st.composite
def case(draw):
    nv = draw(st.sampled_from([1, 2, 3, 3, 4, 4, 5, 6]))
    nf = draw(st.sampled_from([0, 0, 1, 2]))
    nq = draw(st.sampled_from([1, 2, 4, 8, 8, 12, 12, 16, 16]))
    fixed = [draw(st.integers(1, 3)) for _ in range(nf)]
    nr = sum(fixed)
    n = nq + nr
    reach = draw(st.integers(1, 4))
    e = {(min(i, j), max(i, j)) for i, j in ((i, draw(st.integers(max(0, i - reach), i - 1))) for i in range(1, n))} if n > 1 else set()
    for _ in range(draw(st.sampled_from([0, 0, 2, 4, n]))):
        a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        if a != b:
            e.add((min(a, b), max(a, b)))
    # mix, so that the reserved qubits (the last ones) are anywhere in the graph
    mix = draw(st.permutations(list(range(n))))
    w = nv + nf
    se = draw(st.lists(st.tuples(st.integers(0, w - 1), st.integers(0, w - 1)), min_size=w, max_size=3 * w))
    qs = st.lists(st.integers(0, n - 1), max_size=6)
    wide = draw(st.sampled_from([0, 0, 0, 1]))
    if wide:
        # many neighbors
        nv = draw(st.integers(7, 10))
        w = nv + nf
        se = [(0, i) for i in range(1, w)] + draw(st.lists(st.tuples(st.integers(0, w - 1), st.integers(0, w - 1)), max_size=2 * w))
    initial = None
    if draw(st.booleans()):
        # connected chains that overlap
        r = random.Random(draw(st.integers(0, 2**32 - 1)))
        nb = {q: [] for q in range(n)}
        for a, b in sorted(e):
            nb[mix[a]].append(mix[b])
            nb[mix[b]].append(mix[a])
        initial, near = {}, r.randrange(nq)
        for v in range(nv):
            ch = [r.choice([near, r.randrange(nq)])]
            for _ in range(r.choice([0, 1, 2, 3, 5, 7])):
                more = [p for q in (ch[-1:] if r.random() < .8 else ch) for p in nb[q] if p < nq and p not in ch]
                if more:
                    ch.append(r.choice(more))
            near = r.choice(ch)
            if r.random() < .9:
                initial[str(v)] = ch
    return {"start": draw(st.booleans()), "nv": nv, "nq": nq, "fixed": fixed, "Q": sorted([mix[a], mix[b]] for a, b in e), "S": sorted({(min(x), max(x)) for x in se if x[0] != x[1]}),
            "initial": initial if initial is not None else draw(st.dictionaries(st.integers(0, w - 1).map(str), qs, max_size=w)),
            "restrict": draw(st.one_of(st.just({}), st.just({}), st.dictionaries(st.integers(0, w - 1).map(str), st.lists(st.integers(0, n - 1), min_size=1, max_size=n), max_size=w))),
            "ops": draw(st.lists(st.tuples(st.sampled_from([0, 1, 3, 3, 3, 4, 4, 5, 5, 5, 6, 6, 6, 6, 7, 8, 9, 10]), st.integers(0, nv - 1), st.integers(0, 99), st.sampled_from([0, 0, 1, 2, 3])), min_size=draw(st.sampled_from([1, 6])), max_size=14))}


class State:
    def __init__(self, a, c, nw, n):
        self.chain, self.links = [], []
        for v in range(nw):
            size = a()
            ch = {}
            for _ in range(size):
                q, p, r = a(), a(), a()
                ensure(q not in ch, "qubit %d is twice in the chain of %d", q, v)
                ch[q] = (p, r)
            self.chain.append(ch)
            self.links.append([a() for _ in range(nw)])
            ensure(a() == 0, "the chain of %d fails its own diagnostic", v)
        self.weight = [a() for _ in range(n)]
        self.maxw, self.linked = a(), a()
        self.each = [a() for _ in range(c["nv"])]
        self.valid, self.stats = a(), a.list()

    def key(self):
        return self.chain, self.links, self.weight, self.maxw, self.linked, self.each, self.valid, self.stats


def audit(s, c, nw, n, adj, nbrs, when):
    nv, nq = c["nv"], c["nq"]
    for v in range(nw):
        ch = s.chain[v]
        refs = {q: 0 for q in ch}
        for q, (p, _) in ch.items():
            ensure(p in ch, "%s: the parent %d of qubit %d is not in the chain of %d", when, p, q, v)
            ensure(p == q or p in adj[q], "%s: the parent %d of qubit %d in the chain of %d is not next to it", when, p, q, v)
            refs[p] += 1
        for w in range(nw):
            l = s.links[v][w]
            if w != v and w not in nbrs[v]:
                ensure(l == -1, "%s: %d is linked to %d, which it does not interact with", when, v, w)
            if l != -1:
                ensure(l in ch, "%s: the link of %d to %d is %d, not in its chain %s", when, v, w, l, sorted(ch))
                refs[l] += 1
                if w != v:
                    m = s.links[w][v]
                    ensure(m != -1, "%s: %d is linked to %d but not the other way around", when, v, w)
                    ensure(l == m or m in adj[l], "%s: %d and %d are linked by %d and %d, which are not coupled", when, v, w, l, m)
        for q, (p, r) in ch.items():
            ensure(r == refs[q], "%s: qubit %d of %d counts %d references, there are %d", when, q, v, r, refs[q])
        root = s.links[v][v]
        if root != -1:
            # everything hangs together from the root
            for q in ch:
                x, k = q, 0
                while ch[x][0] != x and k <= len(ch):
                    x, k = ch[x][0], k + 1
                ensure(x == root, "%s: the parents of %d in the chain of %d lead to %d, the root is %d", when, q, v, x, root)
    for q in range(n):
        k = sum(q in ch for ch in s.chain)
        ensure(s.weight[q] == k, "%s: qubit %d weighs %d, it is in %d chains", when, q, s.weight[q], k)
    free = s.weight[:nq]
    ensure(s.maxw == max(free), "%s: the largest weight is %d, found %d", when, max(free), s.maxw)
    each = [int(s.links[v][v] >= 0 and all(s.links[v][w] >= 0 for w in nbrs[v])) for v in range(nv)]
    ensure([int(bool(x)) for x in s.each] == each, "%s: linked() is %s, expected %s", when, s.each, each)
    ensure(bool(s.linked) == all(each), "%s: linked() of all is %s", when, s.linked)
    over = [w for w in free if w > 1]
    if over:
        want = [over.count(i) for i in range(2, max(over) + 1)]
    else:
        ls = [len(s.chain[v]) for v in range(nv)]
        want = [ls.count(i) for i in range(max(ls) + 1)]
    ensure(bool(s.valid) == (not over) and s.stats == want, "%s: statistics say %s %s, expected %s", when, s.valid, s.stats, want)


def run(c):
    nv, nf, nq = c["nv"], len(c["fixed"]), c["nq"]
    nr = sum(c["fixed"])
    n, nw = nq + nr, nv + nf
    adj = [set() for _ in range(n)]
    for a, b in c["Q"]:
        adj[a].add(b)
        adj[b].add(a)
    qn = [sorted(p for p in adj[q] if p < nq) for q in range(n)]  # reserved qubits are only left, never entered
    nbrs = [set() for _ in range(nw)]
    for x, y in c["S"]:
        nbrs[x].add(y)
        nbrs[y].add(x)
    fixed, at = {}, nq
    for i, k in enumerate(c["fixed"]):
        fixed[nv + i] = list(range(at, at + k))
        at += k
    initial = {int(k): v for k, v in c["initial"].items()}
    restrict = {int(k): v for k, v in c["restrict"].items()}
    prog = [nv, nf, nq, nr]
    for v in range(nw):
        prog += drv.enc(sorted(nbrs[v]))
    for q in range(n):
        prog += drv.enc(qn[q])
    prog += [7, *drv.encdict(fixed), *drv.encdict(initial), *drv.encdict(restrict)]
    accepts = lambda v, q: v not in restrict or q in restrict[v]

    ops = []  # the operations run so far, with whether they answer something before the state

    def go(*new):
        """Run all operations again with one more; the state after it, and its answer."""
        if new:
            ops.append(new)
        a = drv.run("emb", "emb", prog + [x for o in ops for x in o])
        s, ans = State(a, c, nw, n), None
        for o in ops:
            ans = a() if o[0] in (1, 7, 8, 9) else None
            s = State(a, c, nw, n)
        ensure(a.done(), "extra answers")
        return s, ans

    s, _ = go()
    audit(s, c, nw, n, adj, nbrs, "at first")
    for v in range(nw):
        want = fixed[v] if v in fixed else [q for q in initial.get(v, []) if q < nq]
        ensure(set(s.chain[v]) == set(want), "at first the chain of %d is %s, given %s", v, sorted(s.chain[v]), want)
    for v in range(nv):
        if v in initial:
            S = set(s.chain[v])
            seen, dq = set(), [next((q for q in initial[v] if q in S), None)]
            if dq[0] is None:
                dq = []
            while dq:
                q = dq.pop()
                if q not in seen:
                    seen.add(q)
                    dq += adj[q] & S
            ensure((s.links[v][v] >= 0) == (bool(S) and seen == S), "the initial chain %s of %d %s rooted", sorted(S), v, "is not" if seen == S else "is disconnected but")
            for w in nbrs[v]:
                if s.chain[w] and S and (w in initial and w < nv or w in fixed):
                    touch = S & set(s.chain[w]) or any(adj[q] & set(s.chain[w]) for q in S)
                    ensure((s.links[v][w] >= 0) == bool(touch), "the given chains of %d and %d %s linked", v, w, "are not" if touch else "do not touch but are")

    keep, labels, moved, long = None, set(), False, False

    def tree(u, v, seed):
        """A random shortest path tree from the chain of v over the qubits that u or v may use."""
        par, dist, vis = [-2] * n, [0] * n, [0] * n
        dq = deque(s.chain[v])
        src = set(s.chain[v])
        for q in src:
            par[q] = -1
            vis[q] = 1 if v < nv else 0
        done = set(src)
        while dq:
            q = dq.popleft()
            l = qn[q]
            k = (seed * 7 + q * 3) % len(l) if l else 0
            for p in l[k:] + l[:k]:
                if p not in done and (accepts(u, p) or accepts(v, p)):
                    done.add(p)
                    par[p], dist[p], vis[p] = q, dist[q] + 1, 1
                    dq.append(p)
        return par, dist, vis

    def build(u, steiner, x, when):
        nonlocal s, long
        emb = [v for v in sorted(nbrs[u]) if s.chain[v]]
        trees = {v: tree(u, v, x + v) for v in emb}
        roots = [q for q in range(nq) if accepts(u, q) and all(trees[v][2][q] == 1 for v in emb)]
        if not roots:
            return False
        q = roots[x % len(roots)]
        p = [4 if steiner else 3, u, q, len(emb)]
        for v in emb:
            par, dist, vis = trees[v]
            p += [v, *drv.enc([max(y, -1) for y in par])]
            if steiner:
                p += [*drv.enc(dist), *drv.enc(vis)]
        before = s
        s, _ = go(*p)
        audit(s, c, nw, n, adj, nbrs, when)
        for v in range(nw):
            if v != u:
                ensure({y: z[0] for y, z in s.chain[v].items()} == {y: z[0] for y, z in before.chain[v].items()}, "%s: the chain of %d changed", when, v)
        ch = s.chain[u]
        ensure(s.links[u][u] == q or len(ch) == 0, "%s: the root of %d is %d, not %d", when, u, s.links[u][u], q)
        for v in nbrs[u]:
            ensure((s.links[u][v] >= 0) == bool(s.chain[v]), "%s: %d %s linked to %d", when, u, "is not" if s.chain[v] else "is", v)
        onpath = {q}
        starts = {q}
        for v in emb:
            for y in (range(nq) if steiner else [q]):
                while y >= 0 and y not in s.chain[v] and trees[v][2][y] == 1:
                    onpath.add(y)
                    y = trees[v][0][y]
        ensure(set(ch) <= onpath, "%s: the chain of %d has %s, not on the paths", when, u, sorted(set(ch) - onpath))
        ensure(all(z[1] > 0 for z in ch.values()), "%s: the chain of %d has loose ends: %s", when, u, sorted(y for y, z in ch.items() if not z[1]))
        if not steiner and len(emb) == 1:
            ensure(len(ch) == max(1, trees[emb[0]][1][q]), "%s: a path of %d qubits became a chain of %d", when, trees[emb[0]][1][q], len(ch))
        long |= len(ch) >= 3
        labels.add("built")
        return True

    if c["start"]:
        for u in range(nv):
            if not s.chain[u]:
                build(u, u & 1, c["ops"][u % len(c["ops"])][2], "first chain of %d" % u)

    for i, (op, u, x, t) in enumerate(c["ops"]):
        when = "operation %d (%d on %d)" % (i, op, u)
        before = s
        if op in (0, 1, 3, 4, 10):
            s, ans = go(1 if op in (1, 10) else 0, u)
            audit(s, c, nw, n, adj, nbrs, when)
            ensure(not s.chain[u], "%s: the chain is still %s", when, sorted(s.chain[u]))
            for v in range(nw):
                ensure(s.links[v][u] == -1, "%s: %d is still linked to it", when, v)
                if v != u:
                    ensure({y: z[0] for y, z in s.chain[v].items()} == {y: z[0] for y, z in before.chain[v].items()}, "%s: the chain of %d changed", when, v)
                    ensure([l for w, l in enumerate(s.links[v]) if w != u] == [l for w, l in enumerate(before.links[v]) if w != u], "%s: the links of %d changed", when, v)
            if op in (1, 10):
                ensure(ans == len(before.chain[u]), "%s: says it froze %s qubits of %d", when, ans, len(before.chain[u]))
                if op == 10 and build(u, t & 1, x, when + ", built"):
                    s, _ = go(0, u)
                if op == 10 or t:
                    s, _ = go(2, u)
                    labels.add("thawed")
                    ensure(s.key() == before.key(), "%s: the thawed embedding is not the one before the freeze", when)
            elif op > 2:
                build(u, op == 4, x, when + ", built")
        elif op in (5, 6):
            s, _ = go(5, u, t) if op == 5 else go(6, u)
            audit(s, c, nw, n, adj, nbrs, when)
            old = {v: set(before.chain[v]) for v in range(nw)}
            new = {v: set(s.chain[v]) for v in range(nw)}
            cand = {v for v in nbrs[u] if v < nv and before.links[u][v] >= 0}
            for v in range(nw):
                if v != u and v not in cand:
                    ensure(old[v] == new[v], "%s: the chain of %d changed", when, v)
                ensure([l >= 0 for l in s.links[v]] == [l >= 0 for l in before.links[v]], "%s: %d lost or won links", when, v)
                loose = {q for q, z in s.chain[v].items() if not z[1]} - {q for q, z in before.chain[v].items() if not z[1]}
                ensure(not loose, "%s: the chain of %d keeps the loose ends %s", when, v, sorted(loose))
                ensure(bool(new[v]) == bool(old[v]), "%s: the chain of %d vanished", when, v)
            took = set()
            if op == 6:
                for v in cand:
                    ensure(new[v] <= old[v], "%s: %d won %s", when, v, sorted(new[v] - old[v]))
                    took |= old[v] - new[v]
                    p = s.links[v][u]
                    ensure(s.chain[v][p][1] > 1 or not accepts(u, p), "%s: could have taken %d from %d", when, p, v)
                ensure(new[u] <= old[u] | took, "%s: won %s from nowhere", when, sorted(new[u] - old[u] - took))
                ensure(all(accepts(u, q) for q in new[u] - old[u]), "%s: took %s outside of its domain", when, sorted(new[u] - old[u]))
            else:
                ensure(new[u] <= old[u], "%s: it won %s", when, sorted(new[u] - old[u]))
                for v in cand:
                    ensure(new[v] <= old[v] | old[u], "%s: %d won %s from nowhere", when, v, sorted(new[v] - old[v]))
                    ensure(all(accepts(v, q) for q in new[v] - old[v]), "%s: %d took %s outside of its domain", when, v, sorted(new[v] - old[v]))
                    took |= new[v] - old[v]
                    if t:
                        ensure(len(new[v]) <= max(len(old[v]), t), "%s: %d grew from %d to %d qubits, beyond %d", when, v, len(old[v]), len(new[v]), t)
                if len(cand) == 1:
                    v = min(cand)
                    p = s.links[u][v]
                    ensure(s.chain[u][p][1] > 1 or not accepts(v, p) or (t and len(new[v]) >= t), "%s: %d could have taken %d", when, v, p)
            moved |= bool(took)
        elif op == 7:
            s, ans = go(7)
            ensure(s.key() == before.key(), "%s: copying changed the embedding", when)
            ensure(ans, "%s: a copy differs from its origin", when)
            keep = s
        elif op == 8 and keep:
            s, ans = go(8)
            labels.add("restored")
            ensure(s.key() == keep.key(), "%s: the restored embedding is not the copied one", when)
            ensure(ans, "%s: a restored embedding differs from the copy", when)
        elif op == 9 and keep:
            s, ans = go(9)
            same = all(set(s.chain[v]) == set(keep.chain[v]) for v in range(nv))
            ensure(bool(ans) == same, "%s: == says %s", when, ans)
    if moved:
        labels.add("moved")
    if nf:
        labels.add("fixed")
    return Info(moved or long, sorted(labels))


FACETS = [Facet("embedding", case, run, 10000, 300000, exts=["drv.emb"], flavour="asan")]
