"""miner: histories of quickpass / find_embedding(s) / improve_embeddings / set_initial_chains."""
from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C06"
RULE = ("a history of 1..8 operations on one miner, run on two miners built alike; non-trivial = at least two operations, "
        "the source has an edge and some operation gave chains; distinct by the whole case")
ASSUMPTIONS = ["find_embeddings(force=True) is only asked of miners that just found an embedding, so that it can end"]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["quick", "quick", "quick", "find", "find", "finds", "improve", "set", "set"]))
    o = {"op": k}
    if k == "quick":
        o.update(order=draw(st.one_of(st.none(), st.none(), st.lists(st.integers(0, 20), max_size=12))),
                 strategy=draw(st.integers(0, 4)), bound=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 5])),
                 overlap=draw(st.sampled_from([0, 0, 1, 2])), ls=draw(st.booleans()), clear=draw(st.booleans()),
                 beta=draw(st.sampled_from([None, 1.0, 1.5, 100.0])))
    elif k == "finds":
        o.update(n=draw(st.integers(0, 3)), force=draw(st.booleans()))
    elif k == "improve":
        o.update(which=draw(st.lists(st.integers(0, 9), max_size=3)))
    elif k == "set":
        o.update(how=draw(st.sampled_from(["last", "made", "none"])), made=draw(ec.chain_map(9, connected=True, p=1)))
    return o


@st.composite
def case(draw):
    c = draw(ec.problem(8))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    if draw(st.integers(0, 3)) == 0:
        c["fixed"] = draw(ec.chain_map(n, p=4, hi=3))
    if draw(st.integers(0, 5)) == 0:
        c["initial"] = draw(ec.chain_map(n, p=1))
    if draw(st.integers(0, 7)) == 0:
        c["suspend"] = draw(ec.blobs(n, p=3))
    c["ops"] = draw(st.lists(op(), min_size=1, max_size=8))
    return c


def lexkey(emb):
    return sorted((len(ch) for ch in emb.values()), reverse=True)


def ref_quality(emb):
    """(2,) for no embedding; otherwise overlaps first, then chain lengths, longest first."""
    if not emb:
        return (2,)
    cnt = {}
    for ch in emb.values():
        for q in ch:
            cnt[q] = cnt.get(q, 0) + 1
    over = sorted((k - 1 for k in cnt.values() if k > 1), reverse=True)
    return (1 if over else 0, over, lexkey(emb))


def ref_less(a, b):
    a, b = ref_quality(a), ref_quality(b)
    return (a > b) - (a < b)


class Model:
    def __init__(self, c, d):
        self.c, self.d = c, d
        self.initial = {v: x for v, x in d.initial.items() if v not in d.fixed}
        self.max_overlap = 0        # of the passes since the last clear
        self.bounds = []
        self.tainted = True         # state not built from scratch by quickpass alone
        self.first = True


def judge_quick(mdl, o, emb):
    d = mdl.d
    clear = o["clear"] or mdl.first
    mdl.first = False
    if clear:
        mdl.tainted = bool(mdl.initial)
        mdl.max_overlap, mdl.bounds = 0, []
    mdl.max_overlap = max(mdl.max_overlap, o["overlap"])
    mdl.bounds.append(o["bound"])
    ensure(set(emb) <= set(d.S), "quickpass: chains for %r", set(emb) - set(d.S))
    for v, ch in d.fixed.items():
        ensure(sorted(map(repr, emb.get(v, []))) == sorted(map(repr, set(ch))), "quickpass: the fixed chain of %r is %r",
               v, emb.get(v))
    errs = [e for e in gen.emb_errors(emb, d.S, d.T, overlap_ok=True) if not e.startswith("no chain")]
    if mdl.tainted:
        errs = [e for e in errs if not e.startswith("no coupler") and "disconnected" not in e]
    ensure(not errs, "quickpass: %s\n%r", errs, emb)
    if not mdl.tainted:
        ov = gen.max_overlap(emb)
        ensure(ov <= 1 + mdl.max_overlap, "quickpass: a qubit is used %d times, overlap_bound is %d", ov, mdl.max_overlap)
        if all(mdl.bounds):
            m = max([len(ch) for v, ch in emb.items() if v not in d.fixed], default=0)
            ensure(m <= max(mdl.bounds), "quickpass: a chain of %d qubits, chainlength_bound is %d\n%r", m,
                   max(mdl.bounds), emb)


def play(c, d, judge):
    import minorminer
    ok, m = ec.attempt(lambda: minorminer.miner(d.Sin, d.Tin, **d.kw), d.kw)
    if not ok:
        return None, m
    mdl = Model(c, d)
    ro = bool(d.kw.get("return_overlap"))
    nodes = list(d.S)
    log, valid = [], []
    fresh = True
    for o in c["ops"]:
        k = o["op"]
        if k == "quick":
            if len(d.fixed) == len(d.S):
                continue
            kw = dict(strategy=o["strategy"], chainlength_bound=o["bound"], overlap_bound=o["overlap"],
                      local_search=o["ls"], clear_first=o["clear"])
            if o["beta"]:
                kw["round_beta"] = o["beta"]
            if o["order"] is not None:
                kw["varorder"] = [nodes[i % len(nodes)] for i in o["order"]]
                free = [v for v in kw["varorder"] if v not in d.fixed]
                if not free:
                    mdl.first = mdl.first and False
            emb = m.quickpass(**kw)
            if judge:
                judge_quick(mdl, o, emb)
            log.append(("quick", emb))
            if emb and not gen.emb_errors(emb, d.S, d.T):
                valid.append(emb)
        elif k == "find":
            ok, r = ec.attempt(m.find_embedding, d.kw)
            mdl.tainted = True
            if ok:
                emb, flag = r if ro else (r, None)
                if judge:
                    ec.judge_valid(d, emb, flag)
                    for v, ch in d.fixed.items():
                        if emb:
                            ensure(sorted(map(repr, emb[v])) == sorted(map(repr, set(ch))), "fixed chain of %r: %r", v, emb[v])
                if (flag is None or flag) and emb:
                    valid.append(emb)
            if judge and fresh:
                f = ec.call(d)
                mine = (r[0], bool(r[1])) if ok and ro else (r, None) if ok else ({}, None)
                ensure(f[:2] == mine and (ok or f[2] == r), "a new miner's first embedding differs from find_embedding's:\n%r\n%r",
                       r, f)
            log.append(("find", r))
        elif k == "finds":
            force = o["force"] and bool(log) and log[-1][0] == "find" and bool(log[-1][1]) and not isinstance(log[-1][1], str)
            if force and not ro:
                # three more in a row: then waiting for n of them ends
                rs = [ec.attempt(m.find_embedding, d.kw) for _ in range(3)]
                force = all(ok and r for ok, r in rs)
            ok, r = ec.attempt(lambda: m.find_embeddings(o["n"], force=force), d.kw)
            mdl.tainted = True
            if ok and judge:
                ensure(isinstance(r, list) and len(r) <= o["n"], "find_embeddings(%d) gave %d", o["n"], len(r))
                if force or ro:
                    ensure(len(r) == o["n"], "find_embeddings(%d, force=%r) gave %d", o["n"], force, len(r))
                for emb in r:
                    if not ro:
                        ensure(emb, "find_embeddings returned an empty embedding")
                        ec.judge_valid(d, emb, None)
            log.append(("finds", r))
        elif k == "improve":
            if not valid:
                continue
            embs = [valid[i % len(valid)] for i in o["which"]]
            before = [{v: list(x) for v, x in e.items()} for e in embs]
            ok, r = ec.attempt(lambda: m.improve_embeddings(embs), d.kw)
            mdl.tainted = True
            if embs:
                mdl.initial = {v: x for v, x in embs[-1].items() if v not in d.fixed}
            if ok and judge:
                ensure(embs == before, "improve_embeddings changed its argument")
                ensure(len(r) == len(embs), "improve_embeddings of %d gave %d", len(embs), len(r))
                for a, b in zip(embs, r):
                    if not ro:
                        ec.judge_valid(d, b, None)
                    if not any(x in d.kw for x in ("max_fill", "max_beta", "suspend_chains")):
                        ensure(b and not gen.emb_errors(b, d.S, d.T), "improve_embeddings lost a valid embedding: %r -> %r", a, b)
                        ensure(lexkey(b) <= lexkey(a), "improve_embeddings made it worse: %r -> %r", lexkey(a), lexkey(b))
            log.append(("improve", r))
        elif k == "set":
            if o["how"] == "last" and valid:
                new = valid[-1]
            elif o["how"] == "made":
                order = sorted(d.T, key=repr)
                order = [q for q in order if q in d.main]
                new = {}
                for v, spec in o["made"].items():
                    if int(v) < len(nodes) and order:
                        new[nodes[int(v)]] = ec.decode_chain(spec, d.T, order)
            else:
                new = {}
            m.set_initial_chains(new)
            mdl.initial = {v: x for v, x in new.items() if x and v not in d.fixed}
            log.append(("set", None))
        fresh = False
    if judge:
        embs = valid + [r for k, r in log if k == "quick"] + [{}]
        for a in embs:
            ka = m.quality_key(a)
            ensure(ka[0] == ref_quality(a)[0], "quality_key(%r) = %r", a, ka)
        full = [e for e in embs if len(e) == len(d.S)]
        for a in full + [{}]:
            for b in full + [{}]:
                ka, kb = m.quality_key(a), m.quality_key(b)
                ensure(((ka > kb) - (ka < kb)) == ref_less(a, b), "quality_key orders %r and %r as %r and %r", a, b, ka, kb)
    return log, valid


def run(c):
    d = ec.decode(c)
    if not len(d.S) or not len(d.T):
        return Info(False)
    log, valid = play(c, d, True)
    if log is None:
        return Info(False, [valid])
    again, _ = play(c, d, False)
    ensure(again == log, "the same history on a second miner differs:\n%r\n%r", log, again)
    got = any(k in ("quick", "find") and r and not isinstance(r, str) for k, r in log)
    return Info(len(log) >= 2 and d.S.number_of_edges() > 0 and got, sorted({k for k, _ in log}) + (["valid"] if valid else []))


FACETS = [Facet("history", case, run, 10000, 200000, exts=MM)]
