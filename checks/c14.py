"""busclique: the file cache is transparent over every history of calls, evictions, deletions, crashes and concurrent users."""
import os
import shutil
import signal
import threading

from hypothesis import strategies as st

import buscase as b
from harness import BQ, Facet, Info, ensure

PROPERTY = "C14"
RULE = ("a history of cache uses over a pool of graphs (near-identical ones, and ones with colliding short names, included), with "
        "reopening, deletion of files, stray temporary files, crashes at a chosen file operation, or several threads and "
        "processes at once; non-trivial = the history hits a cache file written earlier; distinct by the whole case")
ASSUMPTIONS = ["files are lost or left over whole; bit rot inside a cache file is not modelled"]

POOL = None


def pool():
    """Small graphs: variants of one another (same size, one coupler or qubit apart), permuted damage, three families."""
    global POOL
    if POOL is None:
        out = []
        for base in ({"fam": "c", "args": [2, 2, 4]}, {"fam": "p", "args": [2]}, {"fam": "z", "args": [1, 2]},
                     {"fam": "c", "args": [1, 2, 2]}, {"fam": "z", "args": [1, 4]}):
            t = dict(base, dn=[], de=[], dl=[], order=0)
            out.append(t)
            F = b.frag(t)
            edges = sorted(tuple(sorted(e)) for e in F.G.edges())
            by = {}
            for i, e in enumerate(edges):
                by.setdefault(F.kind(*e), []).append(i)
            for k in by:
                for j in (0, 1, len(by[k]) // 2, len(by[k]) - 1):
                    out.append(dict(t, de=[[k, j]]))
            for q in (0, 1, 8, 16, len(F.G) - 1):
                out.append(dict(t, dn=[q]))
            out.append(dict(t, dn=[0, 9]))
            out.append(dict(t, dn=[1, 8]))
            # many missing internal couplers: the ways to give up qubits are sampled with the seed
            for s in range(4):
                out.append(dict(t, de=[["i", (37 * s + 13 * j) % 9973] for j in range(6 + 4 * s)]))
        seen, POOL = set(), []
        for t in out:
            key = repr((t["fam"], t["args"], [sorted(map(str, x)) for x in b.damaged(t)]))
            if key not in seen:
                seen.add(key)
                POOL.append(t)
    return POOL


NP = 96


def expect(bc, memo, i, seed):
    """Answers of a computation that has never seen a cache."""
    key = i, seed
    if key not in memo:
        g = b.graph(pool()[i % len(pool())])
        B = bc.busgraph_cache(g, seed=seed)
        B._cliques = B._graph.cliques()
        B._bicliques = bc.busgraph_cache(g, seed=seed)._graph.bicliques()
        memo[key] = answers(B)
    return memo[key]


def answers(B):
    N = len(B.largest_clique())
    return [B.largest_clique(), [B.find_clique_embedding(n) for n in range(N + 2)],
            [B.largest_clique_by_chainlength(l) for l in range(5)], B.largest_balanced_biclique(),
            [B.find_biclique_embedding(n, m) for n in (1, 3) for m in (0, 2, 5)]]


@st.composite
def case(draw):
    base = draw(st.integers(0, NP))
    near = st.one_of(st.integers(0, NP), st.integers(base, base + 18))
    op = st.one_of(
        st.tuples(st.just("use"), near, st.sampled_from([0, 0, 1])),
        st.tuples(st.just("use"), near, st.sampled_from([0, 0, 1])),
        st.tuples(st.just("use"), near, st.sampled_from([0, 0, 1])),
        st.tuples(st.just("part"), near, st.sampled_from(["c", "b"])),
        st.tuples(st.just("again"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("rm"), st.integers(0, 99), st.just(0)),
        st.tuples(st.just("rmlru"), st.integers(0, 1), st.just(0)),
        st.tuples(st.just("stray"), st.integers(0, 99), st.just(0)),
        st.tuples(st.just("clear"), st.just(0), st.just(0)),
        st.tuples(st.just("put"), near, st.just(0)),
    ).map(list)
    return {"ops": draw(st.lists(op, min_size=1, max_size=14))}


def cachefiles(d):
    out = []
    for r, _, fs in os.walk(d):
        out += [os.path.join(r, f) for f in fs if not f.startswith(".")]
    return sorted(out)


MEMO = {}


def run(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        alive, put = [], {}
        hits = 0
        for op, x, y in c["ops"]:
            if op == "use":
                i = x % len(pool())
                B = bc.busgraph_cache(b.graph(pool()[i]), seed=y)
                hits += os.path.exists(os.path.join(bc.busgraph_cache.cache_rootdir(), "clique", B._graph.short_identifier))
                want = expect(bc, MEMO, i, y)
                if (i, y) in put:
                    e = B.find_clique_embedding(2)
                    ensure(e == {0: put[i, y][0], 1: put[i, y][1]}, "stored %r, read %r", put[i, y][:2], e)
                    alive.append((i, y, None))
                    continue
                if (x + len(alive)) % 2:
                    B.largest_balanced_biclique()
                got = answers(B)
                for k, (p, q) in enumerate(zip(want, got)):
                    ensure(p == q, "answer %d of graph %d, seed %d differs from a fresh computation:\n%r\n%r", k, i, y, p, q)
                alive.append((i, y, B))
            elif op == "part":
                B = bc.busgraph_cache(b.graph(pool()[x % len(pool())]))
                if y == "c":
                    B.largest_clique()
                else:
                    B.find_biclique_embedding(2, 2)
            elif op == "again" and alive:
                i, s, B = alive[x % len(alive)]
                if B is not None and (i, s) not in put:
                    ensure(answers(B) == expect(bc, MEMO, i, s), "an open cache changed its answers")
            elif op == "rm":
                fs = cachefiles(d)
                if fs:
                    os.remove(fs[x % len(fs)])
                    put = {k: v for k, v in put.items() if os.path.exists(v[2])}
            elif op == "rmlru":
                p = os.path.join(bc.busgraph_cache.cache_rootdir(), ["clique", "biclique"][x], ".lru")
                if os.path.exists(p):
                    os.remove(p)
            elif op == "stray":
                fs = cachefiles(d)
                if fs:
                    with open(fs[x % len(fs)] + "~", "wb") as fh:
                        fh.write(b"\x80garbage")
            elif op == "clear":
                bc.busgraph_cache.clear_all_caches()
                ensure(not [f for _, _, fs in os.walk(d) for f in fs], "clear_all_caches left files")
                put = {}
            elif op == "put":
                i = x % len(pool())
                B = bc.busgraph_cache(b.graph(pool()[i]))
                e = B.find_clique_embedding(2)
                if len(e) == 2:
                    B.insert_clique_embedding([e[1], e[0]], direct=True, write_to_disk=True)
                    f = os.path.join(bc.busgraph_cache.cache_rootdir(), "clique", B._graph.short_identifier)
                    put[i, 0] = tuple(sorted((e[1], e[0]), key=len)) + (f,)
        return Info(hits > 0, ["hit" if hits else "cold"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def lru_case(draw):
    return {"n": draw(st.sampled_from([100, 101, 103, 110])), "kind": draw(st.sampled_from(["clique", "biclique"])),
            "rm": draw(st.lists(st.integers(0, 99), max_size=6)), "touch": draw(st.lists(st.integers(0, 99), max_size=4)),
            "more": draw(st.lists(st.integers(0, 139), max_size=25)),
            # the k-th of the files that will go next is used again, and j new ones come
            "ops": draw(st.lists(st.one_of(st.tuples(st.just("old"), st.integers(0, 12)), st.tuples(st.just("new"), st.integers(1, 8)))
                                 .map(list), max_size=8))}


def run_lru(c):
    """At most 100 files stay, the most recently used ones; a file that disappeared is no reason to fail."""
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        import dwave.graphs as dg
        names = {}

        def use(i):
            g = dg.chimera_graph(1, 1, 4)
            B = bc.busgraph_cache(g, seed=i)
            names[i] = B._graph.short_identifier
            e = B.largest_clique() if c["kind"] == "clique" else B.largest_balanced_biclique()
            ensure(len(e) == (4 if c["kind"] == "clique" else 8), "wrong answer %r", e)
            if i in order:
                order.remove(i)
            order.insert(0, i)
            del order[100:]
        order = []
        root = os.path.join(bc.busgraph_cache.cache_rootdir(), c["kind"])
        for i in range(c["n"]):
            use(i)
        for i in c["touch"]:
            use(i)
        for i in c["rm"]:
            p = os.path.join(root, names[i])
            if os.path.exists(p):
                os.remove(p)
        for i in c["more"]:
            use(i)
        fresh = 1000
        for op, k in c["ops"]:
            if op == "old":
                use(order[-1 - k % len(order)])
            else:
                for _ in range(k):
                    use(fresh)
                    fresh += 1
        here = {f for f in os.listdir(root) if not f.startswith(".") and not f.endswith("~")}
        keep = {names[i] for i in order}
        ensure(len(here) <= 100, "%d cache files", len(here))
        ensure(here <= keep, "files that should have been evicted: %r", here - keep)
        lost = {i for i in order if names[i] not in here}
        ensure(lost <= set(c["rm"]), "recently used graphs %r were evicted", lost - set(c["rm"]))
        return Info(c["n"] + len(c["more"]) > 100, [c["kind"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def crash_case(draw):
    return {"pre": draw(st.lists(st.integers(0, NP), max_size=3)), "who": draw(st.integers(0, NP)),
            "lru": draw(st.sampled_from([0, 0, 0, 101])),
            "at": draw(st.integers(0, 9)), "how": draw(st.sampled_from(["before", "after", "half"])),
            "what": draw(st.sampled_from(["c", "b", "put", "put"])), "post": draw(st.lists(st.integers(0, NP), max_size=3))}


def run_crash(c):
    """A process dies at one of its file operations; everybody else carries on."""
    from minorminer import busclique as bc
    import dwave.graphs as dg
    d = b.fresh_cache_dir()
    try:
        for x in c["pre"]:
            answers(bc.busgraph_cache(b.graph(pool()[x % len(pool())])))
        for s in range(c["lru"]):
            bc.busgraph_cache(dg.chimera_graph(1, 1, 2), seed=s).find_clique_embedding(1)
        who = c["who"] % len(pool())
        before = None
        if c["what"] == "put":
            B = bc.busgraph_cache(b.graph(pool()[who]))
            before = B.find_clique_embedding(2)
        pid = os.fork()
        if pid == 0:
            try:
                count = [0]

                def hook(orig, half=None):
                    def f(*a, **k):
                        n = count[0]
                        count[0] += 1
                        if n == c["at"]:
                            if c["how"] == "half" and half:
                                half(orig, *a, **k)
                            elif c["how"] == "after":
                                orig(*a, **k)
                            os._exit(7)
                        return orig(*a, **k)
                    return f

                def half_dump(orig, obj, fh, *a):
                    import pickle
                    x = pickle.dumps(obj)
                    fh.write(x[:len(x) // 2])
                    fh.flush()
                os.replace = hook(os.replace)
                os.remove = hook(os.remove)
                bc.dump = hook(bc.dump, half_dump)
                bc.load = hook(bc.load)
                B = bc.busgraph_cache(b.graph(pool()[who]))
                if c["what"] == "c":
                    B.largest_clique()
                elif c["what"] == "b":
                    B.largest_balanced_biclique()
                else:
                    e = B.find_clique_embedding(2)
                    if len(e) == 2:
                        B.insert_clique_embedding([e[1], e[0]], direct=True, write_to_disk=True)
                os._exit(0)
            except BaseException:
                os._exit(9)
        _, stt = os.waitpid(pid, 0)
        code = os.WEXITSTATUS(stt)
        ensure(code in (0, 7), "the user's process failed with %r", code)
        for x in [who] + c["post"] + c["pre"] + [who]:
            x %= len(pool())
            B = bc.busgraph_cache(b.graph(pool()[x]))
            want = expect(bc, MEMO, x, 0)
            if c["what"] == "put" and x == who:
                e = B.find_clique_embedding(2)
                ensure(e == before or len(e) == 2 and e == {0: before[1], 1: before[0]},
                       "neither the old nor the new clique: %r", e)
                continue
            got = answers(B)
            ensure(got == want, "after a crash, graph %d has different answers:\n%r\n%r", x, want, got)
        for s in range(0, c["lru"], 20):
            ensure(len(bc.busgraph_cache(dg.chimera_graph(1, 1, 2), seed=s + 500).find_clique_embedding(1)) == 1, "no answer")
        return Info(code == 7, ["crashed" if code == 7 else "ran through", c["how"]])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def conc_case(draw):
    j = st.tuples(st.integers(0, NP), st.sampled_from(["c", "b", "cb", "put"])).map(list)
    return {"procs": draw(st.lists(st.lists(j, min_size=3, max_size=10), min_size=2, max_size=4)),
            "threads": draw(st.integers(1, 3)), "same": draw(st.booleans()), "i": draw(st.integers(0, 10**6))}


def conc_worker(bc, jobs, fails):
    try:
        for x, what in jobs:
            x %= len(pool())
            B = bc.busgraph_cache(b.graph(pool()[x]))
            want = MEMO[x, 0]
            if what == "put":
                N = len(want[0])
                e = B.find_clique_embedding(N)
                B.insert_clique_embedding(list(e.values()), direct=True, write_to_disk=True)
                continue
            if "c" in what:
                got = B.find_clique_embedding(len(want[0]))
                if got != want[1][len(want[0])]:
                    fails.append("graph %d: %r, expected %r" % (x, got, want[1][len(want[0])]))
            if "b" in what:
                got = B.largest_balanced_biclique()
                if got != want[3]:
                    fails.append("graph %d: %r, expected %r" % (x, got, want[3]))
    except BaseException as e:  # noqa
        import traceback
        fails.append(traceback.format_exc()[-700:])


def run_conc(c):
    from minorminer import busclique as bc
    d = b.fresh_cache_dir()
    try:
        procs = [c["procs"][0]] * len(c["procs"]) if c["same"] else c["procs"]
        for jobs in procs:
            for x, _ in jobs:
                expect(bc, MEMO, x % len(pool()), 0)
        r, w = os.pipe()
        go_r, go_w = os.pipe()
        pids = []
        for jobs in procs:
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(60)
                    os.close(go_w)
                    os.read(go_r, 1)
                    fails = []
                    ts = [threading.Thread(target=conc_worker, args=(bc, jobs[k:] + jobs[:k], fails)) for k in range(c["threads"])]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                    for f in fails[:2]:
                        os.write(w, (f + "\n").encode()[:1500])
                finally:
                    os._exit(0)
            pids.append(pid)
        os.close(go_r)
        os.close(w)
        os.close(go_w)
        out = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        os.close(r)
        for pid in pids:
            _, stt = os.waitpid(pid, 0)
            ensure(stt == 0, "a process ended with status %d", stt)
        ensure(not out, "concurrent users failed: %s", out.decode(errors="replace")[:1500])
        for jobs in procs:
            for x, _ in jobs:
                x %= len(pool())
                B = bc.busgraph_cache(b.graph(pool()[x]))
                ensure(B.find_clique_embedding(len(MEMO[x, 0][0])) == MEMO[x, 0][1][len(MEMO[x, 0][0])], "different answer afterwards")
        left = [f for f in cachefiles(d) if f.endswith("~")]
        ensure(not left, "temporary files left: %r", left)
        return Info(True, ["t%d" % c["threads"], "p%d" % len(procs)])
    finally:
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def inter_case(draw):
    j = st.tuples(st.integers(0, NP), st.sampled_from(["c", "b", "cb", "put"])).map(list)
    return {"a": draw(j), "b": draw(st.lists(j, min_size=1, max_size=2)), "same": draw(st.sampled_from([True, True, False])),
            "at": draw(st.integers(0, 7)), "how": draw(st.sampled_from(["before", "after"])), "threads": draw(st.booleans()),
            "pre": draw(st.lists(st.integers(0, NP), max_size=2)), "lru": draw(st.sampled_from([0] * 12 + [100]))}


def run_inter(c):
    """One user is stopped at one of its file operations until the other is done, or has to wait for it."""
    from minorminer import busclique as bc
    import select
    import dwave.graphs as dg
    d = b.fresh_cache_dir()
    try:
        ja, jb = [c["a"]], [list(x) for x in c["b"]]
        if c["same"]:
            jb[0][0] = ja[0][0]
        for x, _ in ja + jb:
            expect(bc, MEMO, x % len(pool()), 0)
        for x in c["pre"]:
            answers(bc.busgraph_cache(b.graph(pool()[x % len(pool())])))
        for s in range(c["lru"]):
            bc.busgraph_cache(dg.chimera_graph(1, 1, 2), seed=s).find_clique_embedding(1)
        r, w = os.pipe()
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()

        def first():
            me = threading.get_ident()
            count = [0]

            def hook(orig):
                def f(*x, **k):
                    if threading.get_ident() != me:
                        return orig(*x, **k)
                    n = count[0]
                    count[0] += 1
                    if n == c["at"] and c["how"] == "after":
                        y = orig(*x, **k)
                    if n == c["at"]:
                        os.write(a_w, b"x")
                        select.select([b_r], [], [], .12)
                    return y if n == c["at"] and c["how"] == "after" else orig(*x, **k)
                return f
            os.replace = hook(os.replace)
            os.remove = hook(os.remove)
            os.path.exists = hook(os.path.exists)
            bc.dump = hook(bc.dump)
            bc.load = hook(bc.load)
            conc_worker(bc, ja, fails)
            os.write(a_w, b"." if count[0] > c["at"] else b"-")

        def second():
            os.read(a_r, 1)
            conc_worker(bc, jb, fails)
            os.write(b_w, b"x")
        pids = []
        for jobs in [[first, second]] if c["threads"] else [[first], [second]]:
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(60)
                    fails = []
                    ts = [threading.Thread(target=f) for f in jobs]
                    for t in ts:
                        t.start()
                    for t in ts:
                        t.join()
                    for f in fails[:2]:
                        os.write(w, (f + "\n").encode()[:1500])
                    os._exit(0)
                except BaseException:
                    os._exit(9)
            pids.append(pid)
        os.close(w)
        out = b""
        while True:
            x = os.read(r, 65536)
            if not x:
                break
            out += x
        for pid in pids:
            _, stt = os.waitpid(pid, 0)
            ensure(stt == 0, "a process ended with status %d", stt)
        os.close(a_w)
        marks = os.read(a_r, 9)
        for f in (r, a_r, b_r, b_w):
            os.close(f)
        ensure(not out, "a user failed next to another one: %s", out.decode(errors="replace")[:1500])
        for x, _ in ja + jb:
            x %= len(pool())
            B = bc.busgraph_cache(b.graph(pool()[x]))
            ensure(B.find_clique_embedding(len(MEMO[x, 0][0])) == MEMO[x, 0][1][len(MEMO[x, 0][0])], "different answer afterwards")
        left = [f for f in cachefiles(d) if f.endswith("~")]
        ensure(not left, "temporary files left: %r", left)
        return Info(b"." in marks, ["threads" if c["threads"] else "processes", "stopped" if b"." in marks else "ran through"])
    finally:
        shutil.rmtree(d, ignore_errors=True)


FACETS = [
    Facet("history", case, run, 2000, 40000, exts=BQ),
    Facet("lru", lru_case, run_lru, 120, 2500, exts=BQ),
    Facet("crash", crash_case, run_crash, 600, 15000, exts=BQ),
    Facet("interleaved", inter_case, run_inter, 400, 8000, exts=BQ),
    Facet("concurrent", conc_case, run_conc, 160, 4000, exts=BQ),
]
