"""Generated-case search: parallel Hypothesis workers, crash isolation, shrinking, replay, evidence.

A check module (in /verif/checks) defines PROPERTY, TITLE_RULE (rule text) and FACETS, a list of Facet.
    run(case) is called with a JSON-able case; it raises on a violation and returns an Info.

    python3 lib/harness.py run <module>            the check (VERIF_SEED, VERIF_TIER)
    python3 lib/harness.py replay <file>           re-run one saved case (exit 1 when it still fails)
"""
import base64
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))

for _p in ("/opt/minorminer-venv/lib/python3.12/site-packages", "/opt/veriftools/pyvenv/lib/python3.12/site-packages"):
    if _p not in sys.path:
        sys.path.append(_p)

KNOWN = os.path.join(VERIF, "known_findings.json")


def build_python_exe():
    return "/usr/bin/python3"


MM = ["minorminer._minorminer"]
BQ = ["minorminer._minorminer", "minorminer.busclique"]
LAY = ["minorminer._minorminer", "minorminer._extern.rpack._core"]


class Violation(Exception):
    pass


class Discard(Exception):
    """A case outside the domain: not counted, not judged."""


def ensure(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Info:
    __slots__ = ("nontrivial", "labels")

    def __init__(self, nontrivial=True, labels=()):
        self.nontrivial = bool(nontrivial)
        self.labels = list(labels)


class Facet:
    def __init__(self, name, strategy, run, quick, thorough=None, flavour="o1", exts=None,
                 case_timeout=100, mem_gb=4, about="", shards=None, fixed=()):
        self.name = name
        self.strategy = strategy          # callable () -> hypothesis strategy, or None: only `fixed`
        self.run = run
        self.quick = quick                # number of cases
        self.thorough = thorough if thorough is not None else quick * 10
        self.flavour = flavour
        self.exts = exts
        self.case_timeout = case_timeout
        self.mem_gb = mem_gb
        self.about = about
        self.shards = shards
        self.fixed = fixed                # callable () -> list of cases, or a list: always run first


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def chash(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


def sub_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], "big")


# ---------------------------------------------------------------- worker side

def load(modname):
    m = importlib.import_module(modname)
    return m


def facet_of(m, name):
    for f in m.FACETS:
        if f.name == name:
            return f
    raise KeyError(name)


SANITIZED = ("asan", "tsan")


def limit_memory(facet):
    if facet.flavour not in SANITIZED and facet.mem_gb:
        b = int(facet.mem_gb * (1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (b, b))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_isolated(facet, case):
    """Run one case in a forked child; a crash or hang becomes a Violation."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                info = facet.run(case)
                out = {"ok": True, "nt": info.nontrivial, "labels": info.labels}
            except Discard:
                out = {"discard": True}
            except BaseException as e:  # noqa
                out = {"ok": False, "msg": describe(e)}
            os.write(w, json.dumps(out).encode()[:60000])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    end = time.time() + facet.case_timeout
    import select
    data = b""
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if hung:
        raise Violation(f"no result after {facet.case_timeout} s (hang)")
    if os.WIFSIGNALED(st):
        raise Violation(f"the process was killed by signal {os.WTERMSIG(st)}")
    if not data:
        raise Violation(f"the process exited with status {os.WEXITSTATUS(st)}")
    out = json.loads(data)
    if out.get("discard"):
        raise Discard()
    if not out["ok"]:
        raise Violation(out["msg"])
    return Info(out["nt"], out["labels"])


def describe(e):
    if isinstance(e, Violation):
        return str(e)
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])[-3000:]


def shrinker_limits(seconds):
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = seconds


def preload(facet):
    """Import the built modules first: a broken build is an error, not a violation."""
    import importlib
    if facet.flavour != "none":
        import build
        for e in facet.exts or list(build.EXT):
            if not e.startswith("drv."):
                importlib.import_module(e)


def worker(modname, fname, shard, nshards, seed, n, budget, outdir, isolated):
    m = load(modname)
    facet = facet_of(m, fname)
    preload(facet)
    limit_memory(facet)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    shrinker_limits(60)
    t0 = time.time()
    cur = os.open(os.path.join(outdir, "current"), os.O_RDWR | os.O_CREAT)
    res = {"evaluations": 0, "nontrivial": 0, "hashes": [], "labels": {}, "samples": [], "discarded": 0,
           "failure": None}
    hashes = set()
    last = {}
    known = known_matcher(m)

    def body(case):
        blob = json.dumps({"case": case, "t": time.time(), "n": res["evaluations"]}).encode()
        os.pwrite(cur, len(blob).to_bytes(8, "big") + blob, 0)
        try:
            if isolated:
                info = run_isolated(facet, case)
            else:
                info = facet.run(case)
        except Discard:
            res["discarded"] += 1
            return
        except MemoryError as e:
            last["case"], last["msg"] = case, "out of memory: " + describe(e)
            raise Violation(last["msg"])
        except Exception as e:
            msg = describe(e)
            if known(facet.name, case, msg):
                res["labels"]["known-finding"] = res["labels"].get("known-finding", 0) + 1
                res["evaluations"] += 1
                return
            last["case"], last["msg"] = case, msg
            raise
        res["evaluations"] += 1
        for l in info.labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1
        if info.nontrivial:
            h = chash(case)
            if h not in hashes:
                hashes.add(h)
                if len(res["samples"]) < 3 and len(canon(case)) < 1500 and len(hashes) % 7 == 1:
                    res["samples"].append({"facet": facet.name, "case": case, "labels": info.labels})

    def fail():
        res["failure"] = {"case": last["case"], "msg": last["msg"]}

    fixed = facet.fixed() if callable(facet.fixed) else list(facet.fixed)
    failed = False
    for i, case in enumerate(fixed):
        if i % nshards != shard:
            continue
        case = json.loads(json.dumps(case))
        try:
            body(case)
        except Exception:
            fail()
            failed = True
            break
    batch = 200
    done = 0
    b = 0
    while not failed and facet.strategy and done < n and time.time() - t0 < budget:
        k = min(batch, n - done)

        @hypothesis.seed(sub_seed(seed, modname, fname, shard, b))
        @settings(max_examples=k, database=None, deadline=None, derandomize=False,
                  phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck), print_blob=False)
        @given(facet.strategy())
        def test(case):
            # stop early (between cases, generating nothing more of interest) when the budget is used up
            if time.time() - t0 > budget and not last:
                return
            body(case)

        try:
            test()
        except Exception as e:
            if not last:
                raise
            failed = True
            fail()
            break
        done += k
        b += 1
    res["hashes"] = sorted(hashes)
    res["nontrivial"] = len(hashes)
    res["wall"] = time.time() - t0
    res["done"] = True
    with open(os.path.join(outdir, "result.tmp"), "w") as fh:
        json.dump(res, fh)
    os.rename(os.path.join(outdir, "result.tmp"), os.path.join(outdir, "result.json"))


# ---------------------------------------------------------------- known findings

def load_known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as fh:
        return json.load(fh).get("findings", [])


def known_matcher(m):
    mine = [k for k in load_known() if k["property"] == m.PROPERTY]
    fn = getattr(m, "known_match", None)

    def match(facet, case, msg):
        if not mine or fn is None:
            return None
        for k in mine:
            if fn(k, facet, case, msg):
                return k
        return None
    return match


# ---------------------------------------------------------------- parent side

def tsan_lib():
    return subprocess.run(["gcc", "-print-file-name=libtsan.so"], capture_output=True, text=True).stdout.strip()


def tsan_works():
    """ThreadSanitizer refuses some kernels' memory layouts; then its facets are left out, and the evidence says so."""
    r = subprocess.run([build_python_exe(), "-c", "print(6 * 7)"], capture_output=True, text=True,
                       env=dict(os.environ, LD_PRELOAD=tsan_lib()))
    return r.returncode == 0 and r.stdout == "42\n"


def child_env(facet, pkgdir, scratch):
    import build
    e = build.env()
    e["PYTHONPATH"] = build.pythonpath(pkgdir) if pkgdir else ":".join(
        [os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks"), build.VENV_SITE, build.TOOLS_SITE])
    e["PYTHONHASHSEED"] = "0"
    e["PYTHONNOUSERSITE"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["OMP_NUM_THREADS"] = "1"
    e["XDG_DATA_HOME"] = os.path.join(scratch, "xdg")
    e["HOME"] = scratch
    e["VERIF_SCRATCH"] = scratch
    e["VERIF_PKG"] = pkgdir or ""
    e["TMPDIR"] = scratch
    if facet.flavour == "asan":
        def lib(n):
            return subprocess.run(["gcc", "-print-file-name=" + n], capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = lib("libasan.so") + " " + lib("libubsan.so")
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=4096"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:abort_on_error=1"
    if facet.flavour == "tsan":
        e["LD_PRELOAD"] = tsan_lib()
        e["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:die_after_fork=0:report_signal_unsafe=0"
    return e


def spawn(modname, facet, pkgdir, shard, nshards, seed, n, budget, root, isolated=False):
    out = tempfile.mkdtemp(prefix=f"w-{facet.name}-{shard}-", dir=root)
    os.makedirs(os.path.join(out, "xdg"), exist_ok=True)
    log = open(os.path.join(out, "log"), "wb")
    args = {"mod": modname, "facet": facet.name, "shard": shard, "nshards": nshards, "seed": seed, "n": n,
            "budget": budget, "out": out, "isolated": isolated}
    p = subprocess.Popen([build_python_exe(), os.path.abspath(__file__), "worker", json.dumps(args)],
                         env=child_env(facet, pkgdir, out), cwd=out, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    return {"p": p, "out": out, "facet": facet, "shard": shard, "nshards": nshards, "n": n, "start": time.time(),
            "isolated": isolated}


def read_current(out):
    try:
        with open(os.path.join(out, "current"), "rb") as fh:
            n = int.from_bytes(fh.read(8), "big")
            return json.loads(fh.read(n))
    except (OSError, ValueError):
        return None


def kill(j):
    try:
        os.killpg(j["p"].pid, signal.SIGKILL)
    except OSError:
        pass
    j["p"].wait()


def tail(path, n=3000):
    try:
        with open(path, "rb") as fh:
            return fh.read()[-n:].decode(errors="replace")
    except OSError:
        return ""


def write_replay(m, modname, facet, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{m.PROPERTY}-{facet.name}-{chash(case)}.json")
    with open(path, "w") as fh:
        json.dump({"property": m.PROPERTY, "module": modname, "facet": facet.name, "case": case, "message": msg},
                  fh, indent=1)
    return path


def confirm(modname, facet, pkgdir, case, root, times=3):
    """Replay in fresh processes; how many of `times` fail, and a message."""
    js = []
    for i in range(times):
        out = tempfile.mkdtemp(prefix="replay-", dir=root)
        os.makedirs(os.path.join(out, "xdg"))
        with open(os.path.join(out, "case.json"), "w") as fh:
            json.dump({"module": modname, "facet": facet.name, "case": case}, fh)
        log = open(os.path.join(out, "log"), "wb")
        p = subprocess.Popen([build_python_exe(), os.path.abspath(__file__), "replay1", os.path.join(out, "case.json")],
                             env=child_env(facet, pkgdir, out), cwd=out, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        js.append((p, out))
    bad, msg = 0, ""
    end = time.time() + facet.case_timeout * 1.5 + 20
    for p, out in js:
        try:
            rc = p.wait(max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            bad += 1
            msg = msg or "no result in time (hang)"
            continue
        if rc == 0:
            continue
        if rc in (1,) or rc < 0 or facet.flavour in SANITIZED:
            bad += 1
            msg = msg or (tail(os.path.join(out, "log"), 2000) if rc == 1 else
                          f"process died with {rc}: " + tail(os.path.join(out, "log"), 2000))
        else:
            msg = msg or f"replay ended with {rc}: " + tail(os.path.join(out, "log"), 2000)
    return bad, msg


def run_check(modname):
    import build
    t0 = time.time()
    m = load(modname)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = os.environ.get("VERIF_FACET")
    facets = [f for f in m.FACETS if not only or f.name in only.split(",")]
    if any(f.flavour == "tsan" for f in facets) and not tsan_works():
        print("NOTE: ThreadSanitizer does not start here; left out:", [f.name for f in facets if f.flavour == "tsan"])
        facets = [f for f in facets if f.flavour != "tsan"]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cpus = int(os.environ.get("VERIF_JOBS", "8"))
    budget_total = {"quick": 420, "thorough": 3000}[tier]
    budget_total = float(os.environ.get("VERIF_BUDGET", budget_total))
    pkg = {}
    try:
        want = {}
        for f in facets:
            if f.flavour == "none":
                continue
            want.setdefault(f.flavour, set()).update(f.exts or build.EXT)
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            fs = {fl: ex.submit(build.build_python, fl, sorted(ex_)) for fl, ex_ in want.items()}
            pre = getattr(m, "prepare", None)
            fp = ex.submit(pre) if pre else None
            pkg = {fl: f.result() for fl, f in fs.items()}
            if fp:
                fp.result()
    except build.BuildError as e:
        print("BUILD-ERROR", e)
        return 2
    tb = time.time()
    os.makedirs(os.path.join(VERIF, ".scratch"), exist_ok=True)
    root = tempfile.mkdtemp(prefix=f"{m.PROPERTY}-", dir=os.path.join(VERIF, ".scratch"))
    os.chmod(root, 0o755)
    try:
        return _run_check(modname, m, tier, seed, facets, scale, cpus, budget_total, pkg, root, t0, tb)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run_check(modname, m, tier, seed, facets, scale, cpus, budget_total, pkg, root, t0, tb):
    queue = []
    nf = max(1, len(facets))
    for f in facets:
        n = int((f.quick if tier == "quick" else f.thorough) * scale)
        shards = f.shards or max(1, min(cpus, n // 25 or 1))
        for s in range(shards):
            queue.append((f, s, shards, -(-n // shards) if n else 0))
    # interleave: every facet's shard 0 first
    queue.sort(key=lambda q: (q[1], ))
    running, done, failures, errors = [], [], [], []
    tot = {"evaluations": 0, "discarded": 0, "labels": {}, "hashes": set(), "samples": {}, "facets": {}}
    deadline = tb + budget_total
    unconfirmed = []

    def absorb(j, res):
        f = j["facet"]
        tot["evaluations"] += res["evaluations"]
        tot["discarded"] += res["discarded"]
        for l, c in res["labels"].items():
            k = f.name + ":" + l
            tot["labels"][k] = tot["labels"].get(k, 0) + c
        tot["hashes"].update(f.name + h for h in res["hashes"])
        tot["samples"].setdefault(f.name, []).extend(res["samples"])
        d = tot["facets"].setdefault(f.name, {"evaluations": 0, "nontrivial": 0, "wall": 0})
        d["evaluations"] += res["evaluations"]
        d["nontrivial"] += res["nontrivial"]
        d["wall"] = round(d["wall"] + res["wall"], 1)

    violation = None
    while (queue or running) and violation is None:
        while queue and len(running) < cpus:
            f, s, ns, n = queue.pop(0)
            # a fair share of what is left
            waves = -(-(len(queue) + 1 + len(running)) // cpus)
            left = max(5.0, deadline - time.time())
            running.append(spawn(modname, f, pkg.get(f.flavour), s, ns, seed, n, max(10.0, left / max(1, waves)), root))
        time.sleep(0.05)
        for j in list(running):
            f = j["facet"]
            rc = j["p"].poll()
            bad = None
            if rc is None:
                c = read_current(j["out"])
                t = c["t"] if c else j["start"] + 60
                if time.time() - t > f.case_timeout:
                    # a Hypothesis shrink or a slow generator also leaves `current` alone; only a case that is
                    # really stuck reproduces below
                    kill(j)
                    running.remove(j)
                    bad = (c["case"] if c else None, f"no result after {f.case_timeout} s")
                else:
                    continue
            else:
                running.remove(j)
                rp = os.path.join(j["out"], "result.json")
                if os.path.exists(rp):
                    with open(rp) as fh:
                        res = json.load(fh)
                    absorb(j, res)
                    if res["failure"]:
                        bad = (res["failure"]["case"], res["failure"]["msg"])
                else:
                    c = read_current(j["out"])
                    lg = tail(os.path.join(j["out"], "log"))
                    if c is None or rc > 0 and f.flavour not in SANITIZED:
                        errors.append(f"worker {f.name}/{j['shard']} ended with {rc}: {lg}")
                    else:
                        bad = (c["case"], f"process died with {rc}: {lg}")
                        if not j["isolated"] and rc < 0:
                            # try to shrink it: same seed, one forked child per case
                            k = spawn(modname, f, pkg.get(f.flavour), j["shard"], j["nshards"], seed, j["n"], 150,
                                      root, isolated=True)
                            try:
                                k["p"].wait(260)
                                with open(os.path.join(k["out"], "result.json")) as fh:
                                    res = json.load(fh)
                                if res["failure"]:
                                    bad = (res["failure"]["case"], res["failure"]["msg"])
                            except (subprocess.TimeoutExpired, OSError, ValueError):
                                kill(k)
            if bad:
                case, msg = bad
                if case is None:
                    errors.append(f"{f.name}: {msg}")
                    continue
                km = known_matcher(m)(f.name, case, msg)
                if km:
                    continue
                nbad, rmsg = confirm(modname, f, pkg.get(f.flavour), case, root)
                if nbad == 3:
                    violation = (f, case, rmsg or msg)
                    break
                unconfirmed.append({"facet": f.name, "case": case, "message": msg[:500], "replays_failing": nbad})
                print(f"UNCONFIRMED {f.name}: failed once, {nbad}/3 replays failed: {msg[:300]}", flush=True)
    for j in running:
        kill(j)

    # known findings: replay each listed one
    kf = []
    for k in load_known():
        if k["property"] != m.PROPERTY:
            continue
        f = facet_of(m, k["facet"])
        if f.flavour not in pkg and f.flavour != "none":
            continue
        nbad, rmsg = confirm(modname, f, pkg.get(f.flavour), k["case"], root, times=1)
        if nbad:
            kf.append(k)
            print(f"KNOWN-FINDING: property={m.PROPERTY} {k['what']}", flush=True)
        else:
            print(f"note: listed finding {k['id']} no longer fails", flush=True)

    samples = []
    for i in range(3):
        for f in facets:
            s = tot["samples"].get(f.name, [])
            if i < len(s) and len(samples) < 12:
                samples.append(s[i])
    ev = {
        "property": m.PROPERTY, "tier": tier, "seed": seed, "level": getattr(m, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": tot["evaluations"], "distinct_nontrivial": len(tot["hashes"]),
            "rule": m.RULE, "samples": samples, "facets": tot["facets"],
            "labels": dict(sorted(tot["labels"].items())), "discarded": tot["discarded"],
            "unconfirmed": unconfirmed, "known_findings": [k["id"] for k in kf],
        },
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", m.PROPERTY + ".json")
    with open(p + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    os.replace(p + ".tmp", p)
    if violation:
        f, case, msg = violation
        path = write_replay(m, modname, f, case, msg)
        print(f"{f.name}: {msg.strip()[:3000]}")
        print(f"VIOLATION property={m.PROPERTY} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 2
    print(f"{m.PROPERTY}: held on {tot['evaluations']} cases ({len(tot['hashes'])} distinct non-trivial), "
          f"build {tb - t0:.0f} s, total {time.time() - t0:.0f} s")
    return 0


def replay(path):
    import build
    with open(path) as fh:
        r = json.load(fh)
    m = load(r["module"])
    f = facet_of(m, r["facet"])
    pkg = build.build_python(f.flavour, sorted(f.exts or build.EXT)) if f.flavour != "none" else None
    if hasattr(m, "prepare"):
        m.prepare()
    os.makedirs(os.path.join(VERIF, ".scratch"), exist_ok=True)
    root = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(VERIF, ".scratch"))
    try:
        bad, msg = confirm(r["module"], f, pkg, r["case"], root, times=1)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if bad:
        print(msg)
        print(f"VIOLATION property={m.PROPERTY} replay={os.path.abspath(path)}")
        return 1
    print("the case passes", msg)
    return 0


def replay1(path):
    with open(path) as fh:
        r = json.load(fh)
    m = load(r["module"])
    f = facet_of(m, r["facet"])
    try:
        preload(f)
    except Exception as e:
        print("cannot import the build:", describe(e))
        return 3
    limit_memory(f)
    try:
        info = f.run(r["case"])
    except Discard:
        print("discarded")
        return 0
    except Exception as e:
        print(describe(e))
        return 1
    print("pass", info.labels)
    return 0


if __name__ == "__main__":
    sys.modules["harness"] = sys.modules["__main__"]
    cmd = sys.argv[1]
    if cmd == "worker":
        a = json.loads(sys.argv[2])
        worker(a["mod"], a["facet"], a["shard"], a["nshards"], a["seed"], a["n"], a["budget"], a["out"], a["isolated"])
    elif cmd == "run":
        sys.exit(run_check(sys.argv[2]))
    elif cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    elif cmd == "replay1":
        sys.exit(replay1(sys.argv[2]))
