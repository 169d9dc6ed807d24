"""find_embedding's log: the right messages for the verbosity, on the right channel, and what they report is true."""
import collections
import io
import logging
import re
import sys

from hypothesis import strategies as st

import embcase as ec
from harness import MM, Facet, Info, ensure

PROPERTY = "C31"
RULE = ("one seeded search run with verbosity 0 to 3 (4 is 3 here, debug output is not compiled in), to the logger or "
        "interactively; its messages are parsed and compared with the answer and with each other; non-trivial = a chain of two "
        "qubits was returned, or overlapping chains with two overfull qubits; distinct by the whole case")
ASSUMPTIONS = ["the wording of the messages is the current one; messages that do not parse are not judged"]
NUM = r"(-?\d+)"
BEST = [("fill", re.compile(r"max qubit fill %s; num maxfull qubits=%s$" % (NUM, NUM))),
        ("len", re.compile(r"max chain length %s; num max chains=%s$" % (NUM, NUM)))]
MINOR = [("fill", re.compile(r" *num max qubits=%s$" % NUM)), ("len", re.compile(r" *num max chains=%s$" % NUM))]
STATE = [("fill", re.compile(r"max qubit fill %s, num max qubits %s$" % (NUM, NUM))),
         ("len", re.compile(r"max chain length %s, num of max chains %s$" % (NUM, NUM)))]


@st.composite
def case(draw):
    c = draw(ec.problem(10))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    k = draw(st.integers(0, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k == 4:
        c["restrict"] = draw(ec.domains(n))
    if k >= 12:
        c["suspend"] = draw(ec.blobs(n))
    c["interactive"] = draw(st.booleans())
    return c


class Collect(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, rec):
        self.got.append((rec.levelname, rec.msg.decode() if isinstance(rec.msg, bytes) else rec.msg))


def logged(d, v, interactive):
    """-> answer, messages"""
    log = logging.getLogger("minorminer._minorminer")
    h = Collect()
    log.addHandler(h)
    old = log.level, log.propagate, sys.stdout, sys.stderr
    log.setLevel(logging.DEBUG)
    log.propagate = False
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        a = ec.call(d, verbose=v, interactive=interactive)
        text, err = sys.stdout.getvalue(), sys.stderr.getvalue()
    finally:
        log.setLevel(old[0])
        log.propagate, sys.stdout, sys.stderr = old[1:]
        log.removeHandler(h)
    if interactive:
        ensure(not h.got, "interactive, but the logger got %r", h.got)
        ensure(not err, "messages on stderr: %r", err)
        return a, text
    ensure(not text and not err, "not interactive, but this was printed: %r %r", text, err)
    ensure(all(lv == "INFO" for lv, m in h.got), "levels of the messages: %r", h.got)
    return a, [m.rstrip() for lv, m in h.got]


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def first(pats, m):
    for name, p in pats:
        x = p.match(m)
        if x:
            return name, [int(g) for g in x.groups()]
    return None, None


def judge(d, a, msgs):
    best = None      # (kind, major, minor) of the best so far
    found = False
    for m in msgs:
        what = "at %r of %r" % (m, msgs)
        if m.startswith("embedding found"):
            ensure(not found, "found twice, %s", what)
            found, best = True, None
        if m.startswith("embedding trial"):
            ensure(not found, "another trial after success, %s", what)
            if not m.endswith(" 1"):
                # a real restart reports its own state first; the trial's number follows it
                pass
        kind, x = first(BEST, m)
        if kind:
            ensure((kind == "len") == found, "%s", what)
            ensure(best is None or x[0] < best[1] or not found, "no improvement %s", what)
            best = (kind, x[0], x[1])
        kind, x = first(MINOR, m)
        if kind:
            ensure(best is not None and kind == best[0], "%s", what)
            ensure(0 < x[0] < best[2], "no improvement %s", what)
            best = (kind, best[1], x[0])
        kind, x = first(STATE, m)
        if kind:
            ensure(best is not None and (kind, x[0], x[1]) == best, "the best state was %r, %s", best, what)
    emb, flag, label = a
    ok = bool(emb) if flag is None else flag
    free = {v: ch for v, ch in emb.items() if v not in d.fixed}
    if best is not None:
        ensure(found == ok, "found in the log: %r, in the answer: %r\n%r", found, ok, msgs)
    if best is None or not emb:
        return False
    if ok:
        sizes = collections.Counter(map(len, free.values()))
        top = max(sizes, default=0)
        ensure(best[1:] == (top, sizes[top]), "the log ends with %r, but chain lengths are %r", best, sizes)
        return top > 1
    fill = collections.Counter(collections.Counter(q for ch in free.values() for q in ch).values())
    top = max(fill, default=0)
    if top > 1:
        ensure(best[1:] == (top, fill[top]), "the log ends with %r, but qubit fills are %r", best, fill)
    return top > 1 and sum(k for w, k in fill.items() if w > 1) > 1


def run(c):
    d = ec.decode(c)
    if not len(d.S) or not len(d.T):
        return Info(False)
    res = [logged(d, v, c["interactive"]) for v in range(4)]
    a = res[0][0]
    for v in range(1, 4):
        ensure(res[v][0] == a, "verbose=%d changes the answer:\n%r\n%r", v, a, res[v][0])
    ensure(not res[0][1], "verbose=0, but %r", res[0][1])
    texts = [r[1] for r in res]
    if c["interactive"]:
        texts = [t.splitlines() for t in texts]
    for v in range(1, 4):
        ensure(subsequence(texts[v - 1], texts[v]), "verbose=%d misses messages:\n%r\n%r", v, texts[v - 1], texts[v])
    ensure(all(m.startswith(("embedding found", "max ", "initialized", "embedding trial", "reducing", "problem "))
               for m in texts[1]), "messages of verbose=1: %r", texts[1])
    nt = judge(d, a, texts[3]) if a[2] not in ("init-failed", "skip-failed", "all-reserved", "outside-component") else False
    return Info(nt, [a[2]])


FACETS = [Facet("log", case, run, 4000, 120000, exts=MM)]
