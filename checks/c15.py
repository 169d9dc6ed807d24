"""busclique: a clique cache behaves like a map from sizes to cliques under insert, merge, update, get and the disk."""
import json
import shutil

from hypothesis import strategies as st

import buscase as b
from harness import BQ, Facet, Info, ensure

PROPERTY = "C15"
RULE = ("a history of insertions (direct or by quality), merges, updates from cache objects of every format, and reopenings of "
        "several busgraph_cache objects of one graph; non-trivial = at least one operation changed a cache and another read it "
        "back; distinct by the whole case")
ASSUMPTIONS = ["the embeddings inserted are valid clique embeddings of the graph", "an object loads its cache before it is "
               "changed (insertions into a never-loaded object deliberately start from a blank cache)"]


def topologies():
    out = []
    for base in ({"fam": "c", "args": [2, 2, 4]}, {"fam": "p", "args": [2]}, {"fam": "z", "args": [2, 2]},
                 {"fam": "c", "args": [3, 2, 2]}, {"fam": "z", "args": [1, 4]}, {"fam": "p", "args": [3]},
                 {"fam": "c", "args": [1, 1, 4]}):
        t = dict(base, dn=[], de=[], dl=[], order=0)
        out.append(t)
        out.append(dict(t, dn=[0, 9]))
        out.append(dict(t, dn=[3], de=[["i", 2]], order=5))
    return out


TOPO = topologies()
QUALITY = {"none": None, "total": lambda e: -sum(map(len, e)), "worst": lambda e: max(map(len, e), default=0),
           "sum": lambda e: sum(sum(c) for c in e), "const": lambda e: 0,
           "tuple": lambda e: (-max(map(len, e), default=0), -sum(map(len, e)))}


@st.composite
def case(draw):
    o = st.integers(0, 2)
    emb = st.fixed_dictionaries({"n": st.integers(0, 20), "long": st.booleans(), "perm": st.integers(0, 10**6),
                                 "grow": st.lists(st.integers(0, 999), max_size=6),
                                 "as": st.sampled_from(["dict", "list", "sets"])})
    q = st.sampled_from(sorted(QUALITY))
    w = st.booleans()
    op = st.one_of(
        st.tuples(st.just("insert"), o, emb, q, w),
        st.tuples(st.just("insert"), o, emb, q, w),
        st.tuples(st.just("direct"), o, emb, w),
        st.tuples(st.just("merge"), o, o, q, w),
        st.tuples(st.just("update"), o, o, st.booleans(), st.booleans(), w),
        st.tuples(st.just("replace"), o, st.lists(emb, max_size=4), st.sampled_from(["list", "dict", "json", "iter"]), w),
        st.tuples(st.just("reopen"), o),
        st.tuples(st.just("copy"), o, o),
    ).map(list)
    t = draw(st.integers(0, len(TOPO) - 1))
    return {"t": t, "labels": [draw(st.integers(0, 2)) for _ in range(3)],
            "ops": draw(st.lists(op, min_size=1, max_size=10))}


def make(G, cliques, how):
    """A valid clique embedding (linear labels), longest chains first or not, some chains longer than needed."""
    import random
    if not cliques:
        return []
    sizes = sorted(cliques)
    n = sizes[how["n"] % len(sizes)]
    if how["long"]:
        chains = [set(c) for c in cliques[sizes[-1]]][-n:] if n else []
    else:
        chains = [set(c) for c in cliques[n]]
    if how["perm"]:
        random.Random(how["perm"]).shuffle(chains)
    used = set().union(*chains) if chains else set()
    for g in how["grow"]:
        if not chains:
            break
        c = chains[g % len(chains)]
        free = sorted({p for q in c for p in G[q]} - used)
        if free:
            p = free[(g // 7) % len(free)]
            c.add(p)
            used.add(p)
    return [tuple(sorted(c)) for c in chains]


class Model:
    """sizes -> chains, shortest first; atleast[l] = a size known to be reachable with chains of at most l qubits."""

    def __init__(self, size=None, atleast=None):
        self.size = dict(size or {0: []})
        self.atleast = dict(atleast or {})

    def copy(self):
        return Model(self.size, self.atleast)

    def note(self, chains):
        for i, c in enumerate(sorted(chains, key=len), 1):
            l = len(c)
            self.atleast[l] = max(self.atleast.get(l, 0), i)

    def reach(self, l):
        return max((n for k, n in self.atleast.items() if k <= l), default=0)

    def insert(self, chains, quality):
        chains = sorted(chains, key=len)
        self.merge(Model({i: chains[:i] for i in range(len(chains) + 1)}), quality)
        self.note(chains)

    def direct(self, chains):
        chains = sorted(chains, key=len)
        self.size[len(chains)] = chains
        l = len(chains[-1]) if chains else 0
        self.atleast[l] = max(self.atleast.get(l, 0), len(chains))

    def merge(self, other, quality):
        for i, e in other.size.items():
            old = self.size.get(i)
            if old is None:
                self.size[i] = e
            elif i:
                if quality is None:
                    better = len(e[-1]) < len(old[-1])
                else:
                    better = quality(e) > quality(old)
                if better:
                    self.size[i] = e
        for l, n in other.atleast.items():
            self.atleast[l] = max(self.atleast.get(l, 0), n)


BASE = {}


def base(bc, ti):
    """The cliques a fresh computation finds."""
    if ti not in BASE:
        B = bc.busgraph_cache(b.graph(TOPO[ti]))
        B._cliques = B._graph.cliques()
        N = len(B.largest_clique())
        M = Model()
        for n in range(N + 1):
            e = B.find_clique_embedding(n)
            if len(e) == n:
                M.size[n] = list(e.values())
        for l in range(1, 40):
            n = len(B.largest_clique_by_chainlength(l))
            if n > M.reach(l):
                M.atleast[l] = n
        BASE[ti] = M
    return BASE[ti]


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        ti = c["t"] % len(TOPO)
        t = TOPO[ti]
        M0 = base(bc, ti)
        nodes, edges = b.damaged(t)
        import networkx as nx
        G = nx.Graph()
        G.add_nodes_from(nodes)
        G.add_edges_from(edges)
        labs = [b.LABELS[t["fam"]][k % len(b.LABELS[t["fam"]])] for k in c["labels"]]
        # pegasus qubits outside the fabric have no nice coordinates: another graph
        labs = ["coordinate" if l == "nice" else l for l in labs]
        graphs = [b.graph(t, l) for l in labs]
        to = [b.translator(t, l) for l in labs]
        back = [{f(q): q for q in nodes} for f in to]
        B, M = [], []
        for g in graphs:
            B.append(bc.busgraph_cache(g))
            B[-1].largest_clique()
            M.append(M0.copy())
        disk = M0.copy()
        changed = False

        def cliques(i):
            return M[i].size

        def check(X, m, i, what):
            sizes = max(m.size)
            for n in range(sizes + 2):
                want = m.size.get(n)
                got = X.find_clique_embedding(n)
                got = [tuple(back[i][q] for q in ch) for _, ch in sorted(got.items())]
                if want is None:
                    ensure(not got, "%s: a clique of size %d out of nothing: %r", what, n, got)
                else:
                    ensure(got == [tuple(x) for x in want], "%s: the clique of size %d is %r, expected %r", what, n, got, want)
            big = X.largest_clique()
            ensure(len(big) == sizes, "%s: largest clique has %d nodes, expected %d", what, len(big), sizes)
            for l in range(1, 8):
                e = [[back[i][q] for q in ch] for ch in X.largest_clique_by_chainlength(l).values()]
                ensure(all(len(ch) <= l for ch in e), "%s: chains longer than %d: %r", what, l, e)
                ensure(len(e) >= m.reach(l), "%s: largest clique with chains of at most %d qubits has %d nodes, %d are known",
                       what, l, len(e), m.reach(l))
                seen = [q for ch in e for q in ch]
                ensure(len(seen) == len(set(seen)), "%s: chains overlap: %r", what, e)
                for x in range(len(e)):
                    ensure(nx.is_connected(G.subgraph(e[x])), "%s: chain %r", what, e[x])
                    for y in range(x):
                        ensure(any(G.has_edge(p, q) for p in e[x] for q in e[y]), "%s: %r and %r are not linked", what, e[x], e[y])

        labels = set()
        for op in c["ops"]:
            k, i = op[0], op[1]
            labels.add(k)
            if k in ("insert", "direct"):
                chains = make(G, cliques(i), op[2])
                lab = [tuple(to[i](q) for q in ch) for ch in chains]
                if op[2]["as"] == "dict":
                    emb = {"v%d" % j: ch for j, ch in enumerate(lab)}
                elif op[2]["as"] == "sets" and labs[i] == "int":
                    emb = [set(ch) for ch in lab]
                    chains = [tuple(s) for s in emb]
                else:
                    emb = lab
                if k == "insert":
                    f = QUALITY[op[3]]
                    B[i].insert_clique_embedding(emb, write_to_disk=op[4], quality_function=f)
                    M[i].insert(chains, f)
                else:
                    B[i].insert_clique_embedding(emb, write_to_disk=op[3], direct=True)
                    M[i].direct(chains)
                changed = True
            elif k == "merge":
                f = QUALITY[op[3]]
                B[i].merge_clique_cache(B[op[2]], quality_function=f, write_to_disk=op[4])
                M[i].merge(M[op[2]], f)
            elif k == "update":
                j = op[2]
                cache = B[j].get_clique_cache(sparse=op[3], compress=op[4])
                if not op[4]:
                    items = cache.items() if op[3] else enumerate(cache)
                    ensure(isinstance(cache, dict if op[3] else list), "a %s instead", type(cache))
                    for n, e in items:
                        ensure([tuple(x) for x in e] == [tuple(x) for x in M[j].size.get(n, [])],
                               "cache object holds %r for size %d, expected %r", e, n, M[j].size.get(n))
                    ensure(not op[3] or set(cache) == set(M[j].size), "sizes %r in the cache object, expected %r",
                           list(cache), sorted(M[j].size))
                else:
                    ensure(isinstance(cache, bytes), "a %s instead", type(cache))
                B[i].update_clique_cache(cache, write_to_disk=op[5])
                new = Model()
                for n, e in M[j].size.items():
                    new.direct(e)
                M[i] = new
            elif k == "replace":
                embs = [make(G, M0.size, h) for h in op[2]]
                if op[3] == "dict":
                    embs = list({len(e): e for e in embs}.values())
                    cache = {len(e): e for e in embs}
                elif op[3] == "json":
                    cache = json.dumps(embs)
                elif op[3] == "iter":
                    cache = iter(embs)
                else:
                    cache = embs
                B[i].update_clique_cache(cache, write_to_disk=op[4])
                M[i] = Model({})
                for e in embs:
                    M[i].direct(e)
                M[i].size.setdefault(0, [])
                changed = True
            elif k == "reopen":
                B[i] = bc.busgraph_cache(graphs[i])
                B[i].largest_clique()
                M[i] = disk.copy()
            elif k == "copy":
                # an object that was never loaded takes everything over
                B[i] = bc.busgraph_cache(graphs[i])
                if op[2] != i:
                    B[i].largest_clique()
                    M[i] = disk.copy()
                    B[i].merge_clique_cache(B[op[2]], write_to_disk=False)
                    M[i].merge(M[op[2]], None)
                else:
                    B[i].update_clique_cache([], write_to_disk=False)
                    M[i] = Model()
            if k in ("insert", "direct", "merge", "update", "replace") and op[-1]:
                disk = M[i].copy()
            check(B[i], M[i], i, "after " + k)
        for i in range(3):
            check(B[i], M[i], i, "at the end")
        X = bc.busgraph_cache(graphs[0])
        check(X, disk, 0, "from disk")
        return Info(changed, sorted(labels))
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [Facet("model", case, run, 3000, 60000, exts=BQ)]
