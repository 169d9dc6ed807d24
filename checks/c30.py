"""find_embedding and miner stop when told to: by a keyboard interrupt or the time limit, at any point, with the best so far."""
import ctypes
import functools
import logging
import operator
import signal
import sys
import time

from hypothesis import strategies as st

import embcase as ec
import gen
from harness import MM, Facet, Info, ensure

PROPERTY = "C30"
RULE = ("a search with generous numbers of tries, stopped at a chosen message of its log by a keyboard interrupt (interactive or "
        "not) or by running into its time limit there; non-trivial = the search was stopped in the middle (further passes "
        "would have followed); distinct by the whole case")
ASSUMPTIONS = ["the search looks for interrupts and the clock once per pass over the variables, so one pass of "
               "each kind may still begin after the stop", "stops are placed at log messages, which every phase of the search writes"]
INTERRUPT = functools.partial(ctypes.pythonapi.PyErr_SetInterruptEx, int(signal.SIGINT))
PASS = ("overfill improvement pass", "chainlength improvement pass")


class Sink:
    """Collects the messages and stops the search at the k-th one.

    The interrupt is raised from C code, and (unless python) no Python code runs afterwards that would notice it before
    the search does."""

    def __init__(self, k, action, python=False):
        self.msgs, self.k, self.action, self.python, self.at = [], k, action, python, None

    def attach(self, base, names):
        """A subclass of base with the sink for its methods."""
        def get(obj):
            if self.at is None and len(self.msgs) == self.k:
                self.at = len(self.msgs)
                self.msgs.append("(stop)")
                if not self.python:
                    for a in names:
                        delattr(cls, a)
                        setattr(cls, a, static)
                if self.action == "interrupt":
                    return INTERRUPT          # the message becomes a second, ignored, argument
                return functools.partial(_sleep, self.action)
            return self.msgs.append
        static = staticmethod(self.msgs.append)
        cls = type("Sink", (base,), {a: property(get) for a in names})
        return cls

    def text(self):
        self.msgs[:] = [m.decode() if isinstance(m, bytes) else m for m in self.msgs]


def _sleep(t, msg):
    time.sleep(t)


def handler(sig, frame):
    raise KeyboardInterrupt


@st.composite
def case(draw, how):
    c = draw(ec.problem(9))
    c["p"] = draw(ec.params())
    n = c["S"]["n"]
    c["p"].update(tries=draw(st.integers(1, 30)), max_no_improvement=draw(st.integers(1, 12)),
                  chainlength_patience=draw(st.integers(0, 12)), verbose=3)
    c["p"].pop("inner_rounds", None)
    k = draw(st.integers(0, 15))
    if k & 1:
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k & 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k in (4, 5, 6, 8, 12):
        c["restrict"] = draw(ec.domains(n))
    if k >= 12:
        c["suspend"] = draw(ec.blobs(n))
    c["at"] = draw(st.integers(0, 12)) if draw(st.booleans()) else draw(st.integers(0, 120))
    c["miner"] = draw(st.booleans())
    c["again"] = draw(st.booleans())
    if how == "interrupt":
        c["interactive"] = draw(st.integers(0, 2)) > 0
        c["python"] = draw(st.integers(0, 3)) == 0
    return c


def search(d, kw, sink, use_miner, keep):
    """-> (list holding the answer if the search returned one, exception or None)"""
    import minorminer
    out = []
    old = sys.stdout, signal.signal(signal.SIGINT, handler)
    log = logging.getLogger("minorminer._minorminer")
    cls = log.__class__
    try:
        if use_miner and "m" not in keep:
            try:
                keep["m"] = minorminer.miner(d.Sin, d.Tin, **kw)
            except (RuntimeError, ValueError) as e:
                return out, e
        f = keep["m"].find_embedding if use_miner else functools.partial(minorminer.find_embedding, d.Sin, d.Tin, **kw)
        if kw.get("interactive"):
            sys.stdout = sink.attach(object, ["write"])()
        else:
            log.__class__ = sink.attach(cls, ["info", "error", "debug"])
        try:
            # collects the answer even if an interrupt is left over at the end
            out.extend(map(operator.call, [f]))
            exc = None
        except (KeyboardInterrupt, RuntimeError, ValueError) as e:
            exc = e
    finally:
        sys.stdout = old[0]
        log.__class__ = cls
        try:
            time.sleep(0)   # an interrupt nobody looked for
        except KeyboardInterrupt:
            pass
        signal.signal(signal.SIGINT, old[1])
        sink.text()
    return out, exc


def parse(r, kw):
    return (r[0], bool(r[1])) if kw.get("return_overlap") else (r, None)


def judge(d, kw, r):
    """-> whether a valid embedding came back"""
    emb, flag = parse(r, kw)
    if flag is None:
        ec.judge_valid(d, emb, None)
        return bool(emb)
    if flag:
        ec.judge_valid(d, emb, True)
    return flag


def stopped(c, action, kw):
    d = ec.decode(c)
    if not len(d.T) or not len(d.S):
        return Info(False)
    kw = dict(d.kw, **kw)
    sink, keep = Sink(c["at"], action, c.get("python", False) and not kw.get("interactive")), {}
    out, exc = search(d, kw, sink, c["miner"], keep)
    what = "stopped at message %r of %r" % (sink.at, sink.msgs)
    if exc is not None and not isinstance(exc, KeyboardInterrupt):
        ensure(ec.declared(exc, kw), "%s: %r", what, exc)
        return Info(False, ["refused"])
    after = [] if sink.at is None else sink.msgs[sink.at + 1:]
    before = sink.msgs if sink.at is None else sink.msgs[:sink.at]
    passes = [m for m in after if m.startswith(PASS)]
    for x in PASS:
        n = sum(m.startswith(x) for m in passes)
        ensure(n <= 1, "%s: %d passes (%s) were started after the stop", what, n, x)
    found = any(m.startswith("embedding found") for m in before)
    label = "no stop" if sink.at is None else "stopped"
    if action == "interrupt" and sink.at is not None and not kw.get("interactive"):
        ensure(isinstance(exc, KeyboardInterrupt), "%s: the interrupt was swallowed, the answer is %r", what, out)
        if out:
            label = "at the end"
    elif not out and action == "interrupt" and sink.at is not None and not exc.args:
        # raised by this handler, not by the search: there was no pass left that would have looked for it
        ensure(not passes, "%s: no answer, but %r", what, exc)
        label = "at the end"
    else:
        ensure(out, "%s: no answer, but %r", what, exc)
        ok = judge(d, kw, out[0])
        ensure(ok or not found, "%s: the embedding found before is lost: %r", what, out[0])
        if exc is not None:
            label = "at the end"
        if ok and found:
            said = [int(m.split("max chain length ")[1].split(";")[0].split(",")[0]) for m in before if m.startswith("max chain length ")]
            emb = parse(out[0], kw)[0]
            if said:
                big = max(len(ch) for v, ch in emb.items())
                ensure(big <= max(said[-1], max([len(x) for x in d.fixed.values()], default=0)),
                       "%s: longest chain %d, but %d was reported before", what, big, said[-1])
    if label == "stopped":
        label = "stopped, found" if found else "stopped, not found"
    if c["again"] and c["miner"] and action == "interrupt":
        sink2 = Sink(-1, None)
        out, exc = search(d, kw, sink2, True, keep)
        ensure(out or exc is not None and ec.declared(exc, kw), "%s: the miner does not work any more: %r", what, exc)
        if out:
            judge(d, kw, out[0])
    return Info(label.startswith("stopped"), [label, "interactive" if kw.get("interactive") else "logger"])


def run_interrupt(c):
    return stopped(c, "interrupt", {"interactive": c["interactive"]})


def run_timeout(c):
    return stopped(c, 0.16, {"timeout": 0.15})


@st.composite
def limit_case(draw):
    c = draw(ec.problem(9))
    c["p"] = draw(ec.params())
    c["p"].pop("inner_rounds", None)
    c["p"].update(tries=10**9, max_no_improvement=10**9, chainlength_patience=draw(st.sampled_from([10, 10**9])))
    c["p"]["inner_rounds"] = draw(st.sampled_from([10, 10**9]))
    c["p"]["timeout"] = draw(st.sampled_from([0, 0.0, -1, 0.001, 0.01, 0.05]))
    n = c["S"]["n"]
    k = draw(st.integers(0, 11))
    if k <= 2:
        c["initial"] = draw(ec.chain_map(n, connected=False, p=1))
    if k in (2, 3, 4, 5):
        c["restrict"] = draw(ec.domains(n))
    if k in (5, 6):
        c["fixed"] = draw(ec.chain_map(n, p=3, hi=4))
    if k in (0, 7, 8):
        c["suspend"] = draw(ec.blobs(n))
    return c


def run_limit(c):
    d = ec.decode(c)
    if not len(d.S) or not len(d.T):
        return Info(False)
    t = time.process_time()
    emb, flag, label = ec.call(d)
    t = time.process_time() - t
    ensure(t < 20, "%.1f s of work for a time limit of %r s", t, c["p"]["timeout"])
    ec.judge_valid(d, emb, flag if flag else None) if emb and (flag or flag is None) else None
    return Info(True, [label])


FACETS = [
    Facet("interrupt", functools.partial(case, "interrupt"), run_interrupt, 8000, 200000, exts=MM),
    Facet("timeout", functools.partial(case, "timeout"), run_timeout, 1200, 20000, exts=MM),
    Facet("limit", limit_case, run_limit, 3000, 60000, exts=MM),
]
