"""Calls leave their arguments alone; answers belong to the caller.

The inputs are those of the other checks; every public function, class and method of minorminer is wrapped, each
outermost call is compared before and after.
"""
import copy
import functools
import importlib
import inspect
import threading

from hypothesis import strategies as st

from harness import BQ, LAY, MM, Discard, Facet, Info, Violation, ensure

PROPERTY = "C32"
RULE = ("the generated inputs of other checks, executed with every public call compared before and after; non-trivial = "
        "at least one call with a graph, mapping, list or array among its arguments returned an answer; distinct by the "
        "whole case")
ASSUMPTIONS = ["iterators given as arguments are consumed by their nature and not compared",
               "T_kwargs of find_sublattice_embeddings and the first layout given to intersection are documented to be changed"]

STATE = threading.local()
NOTES = []         # violations of the running case
COUNT = [0, 0, 0]  # outermost calls, with containers and an answer, repeated after scribbling


def snap(x, depth=0):
    """A value that changes whenever the argument is changed."""
    import networkx as nx
    import numpy as np
    if depth > 6:
        return "..."
    d = depth + 1
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes)):
        return repr(x)
    if isinstance(x, nx.Graph):
        return ("graph", type(x).__name__, repr(x.graph), [(snap(n, d), repr(a)) for n, a in x.nodes(data=True)],
                [(snap(n, d), [(snap(m, d), repr(a)) for m, a in nb.items()]) for n, nb in x.adjacency()])
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tolist())
    if isinstance(x, dict):
        return ("dict", [(snap(k, d), snap(v, d)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, d) for v in x])
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((repr(snap(v, d)) for v in x)))
    if type(x).__name__ in ("Layout", "Placement") and type(x).__module__.startswith("minorminer"):
        return (type(x).__name__, [(k, snap(v, d)) for k, v in sorted(vars(x).items())])
    return type(x).__name__


def containers(x):
    import networkx as nx
    import numpy as np
    return isinstance(x, (nx.Graph, np.ndarray)) or isinstance(x, (list, tuple, dict, set)) and len(x) > 0


def scribble(x):
    """Destroy an answer in place."""
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
        x["scribble"] = ["scribble"]
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x[:] = ["scribble"]
    elif isinstance(x, set):
        x.clear()
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def call(name, fn, a, k, skip_self=False, again=False):
    if not getattr(STATE, "on", False) or getattr(STATE, "depth", 0):
        return fn(*a, **k)
    STATE.depth = 1
    try:
        args = a[1:] if skip_self else a
        kk = {n: v for n, v in k.items() if not (n == "T_kwargs" and "sublattice" in name)}
        if name == "intersection":   # documented: modifies its first argument
            args = args[1:]
            kk.pop("S_layout", None)
        before = snap((args, kk))
        try:
            r = fn(*a, **k)
            if any(containers(x) for x in (*args, *kk.values(), *(a[:1] if skip_self else ()))) or skip_self:
                COUNT[1] += 1
        finally:
            COUNT[0] += 1
            after = snap((args, kk))
            if before != after:
                NOTES.append("%s changed its arguments:\n%s" % (name, diff(before, after)))
        if again and not (kk.get("use_cache") is False and kk.get("seed") is None) and not any(
                hasattr(x, "__next__") for x in (*args, *kk.values())):
            one = snap(r)
            scribble(r)
            if snap((args, kk)) != before:
                NOTES.append("%s: the answer shares objects with the arguments" % name)
                return fn(*a, **k)
            r = fn(*a, **k)
            COUNT[2] += 1
            if snap(r) != one:
                NOTES.append("%s answers differently after its previous answer was changed by the caller:\n%s" % (
                    name, diff(one, snap(r))))
        return r
    finally:
        STATE.depth = 0


def diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/%d" % i)
    return "at %s\n%.600r\n%.600r" % (path, a, b)


# deterministic functions whose answers are embeddings
AGAIN = {"find_clique_embedding", "find_biclique_embedding", "largest_clique", "largest_clique_by_chainlength",
         "largest_balanced_biclique", "find_grid_embedding", "diagnose_embedding",
         "embedding_feasibility_filter", "lattice_size_lower_bound"}


def wrap(fn, name, method=False, again=False):
    @functools.wraps(fn, updated=())
    def w(*a, **k):
        return call(name, fn, a, k, method, again)
    return w


def wrap_class(cls, name):
    """cdef classes: a subclass with wrapped methods and construction."""
    class Meta(type(cls)):
        def __call__(c, *a, **k):
            return call(name, functools.partial(type.__call__, c), a, k)
    body = {"__doc__": cls.__doc__, "__module__": cls.__module__}
    for n in dir(cls):
        f = getattr(cls, n)
        if not n.startswith("_") and callable(f):
            body[n] = wrap(f, name + "." + n, True, n in AGAIN)
    return Meta(cls.__name__, (cls,), body)


def patch():
    if getattr(patch, "done", False):
        return
    patch.done = True
    importlib.import_module("c28").load()   # parallel_embeddings needs a stand-in for minorminer.subgraph
    mods = []
    for m in ("minorminer", "minorminer._minorminer", "minorminer.busclique", "minorminer.layout", "minorminer.layout.layout",
              "minorminer.layout.placement", "minorminer.utils", "minorminer.utils.chimera", "minorminer.utils.pegasus",
              "minorminer.utils.zephyr", "minorminer.utils.diagnostic", "minorminer.utils.feasibility",
              "minorminer.utils.parallel_embeddings", "minorminer.utils.polynomialembedder"):
        try:
            mods.append(importlib.import_module(m))
        except ImportError:
            pass
    made = {}
    for m in mods:
        for n, o in list(vars(m).items()):
            if n.startswith("_") or not callable(o):
                continue
            home = getattr(o, "__module__", None) or ""
            if not home.startswith(("minorminer", "_minorminer", "busclique")):
                continue
            if id(o) not in made:
                if inspect.isclass(o):
                    if issubclass(o, (Exception, tuple)):
                        continue
                    if o.__flags__ & (1 << 9):     # a Python class
                        for k, f in list(vars(o).items()):
                            if inspect.isfunction(f) and (k == "__init__" or not k.startswith("_")):
                                setattr(o, k, wrap(f, o.__name__ + "." + k, True, k in AGAIN))
                        made[id(o)] = o, o
                    else:
                        try:
                            made[id(o)] = o, wrap_class(o, n)
                        except TypeError:
                            continue
                else:
                    made[id(o)] = o, wrap(o, n, False, n in AGAIN and "minorminer.find_embedding" not in n)
            setattr(m, n, made[id(o)][1])


SOURCES = {
    "embedder": [("c01", "basic"), ("c01", "mixed"), ("c02", "calls"), ("c02", "quickpass"), ("c03", "suspend"),
                 ("c03", "restrict"), ("c06", "history"), ("c07", "restart")],
    "busclique": [("c11", "valid"), ("c11", "odd"), ("c11", "labels"), ("c12", "one-shot"), ("c13", "bicliques"),
                  ("c16", "identifier"), ("c26", "helpers"), ("c26", "grid"), ("c27", "cliques"), ("c27", "bicliques")],
    "layout": [("c20", "reference"), ("c20", "refusals"), ("c21", "model"), ("c22", "p-norm"), ("c22", "lattices"),
               ("c22", "packing"), ("c23", "closest"), ("c23", "intersection"), ("c23", "placements")],
    "utilities": [("c24", "diagnose"), ("c25", "filter"), ("c25", "bound"), ("c28", "multiple"), ("c28", "sublattice"),
                  ("c28", "arrays")],
}


def inner(mod, name):
    from harness import facet_of
    return facet_of(importlib.import_module(mod), name)


def strategy(m, n):
    f = inner(m, n)
    if f.strategy:
        return f.strategy()
    return st.sampled_from(f.fixed() if callable(f.fixed) else f.fixed)


def case(group):
    return st.one_of([st.fixed_dictionaries({"from": st.just([m, n]), "case": strategy(m, n)})
                      for m, n in SOURCES[group]])


def run(c):
    patch()
    del NOTES[:]
    COUNT[:] = [0, 0, 0]
    STATE.on = True
    labels = ["/".join(c["from"])]
    try:
        inner(*c["from"]).run(copy.deepcopy(c["case"]))
    except Violation as e:
        if not NOTES:
            labels.append("other")   # a property of its own, judged by its own check
            if __debug__ and "VERIF_C32_LOUD" in __import__("os").environ:
                raise
    except Discard:
        labels.append("discarded")
    finally:
        STATE.on = False
    ensure(not NOTES, "%s", "\n".join(NOTES[:3]))
    if COUNT[2]:
        labels.append("answer destroyed and asked again")
    return Info(COUNT[1] > 0, labels)


FACETS = [Facet(g, functools.partial(case, g), run, q, t, exts=x)
          for g, q, t, x in [("embedder", 4000, 80000, MM), ("busclique", 2500, 50000, BQ),
                             ("layout", 2500, 50000, sorted(set(LAY + BQ))), ("utilities", 2500, 50000, BQ)]]
