"""Out-of-tree build of /repo's current working tree.

Copies the sources to /verif/.build/<flavour>-<content hash>/ and compiles the
Cython extensions there, with the compiler flags of setup.py.  Nothing is
written to /repo.  A finished build is reused when the content hash (sources,
flavour, this file) matches.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VENV_SITE = "/opt/minorminer-venv/lib/python3.12/site-packages"
TOOLS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/usr/bin/python3"
VENV_PY = "/opt/minorminer-venv/bin/python"

PATTERNS = [
    "include/**/*.hpp", "include/**/*.h", "minorminer/**/*.py", "minorminer/**/*.pyx",
    "minorminer/**/*.pxi", "minorminer/**/*.pxd", "minorminer/**/*.hpp", "minorminer/**/*.h",
    "minorminer/_extern/rpack/src/*.c", "minorminer/src/*",
]

with open(os.path.abspath(__file__), "rb") as _fh:
    SELF = hashlib.sha256(_fh.read()).digest()

EXT = {
    "minorminer._minorminer": dict(src="minorminer/_minorminer.pyx", cxx=True,
                                   inc=["", "include", "include/find_embedding"], extra=[]),
    "minorminer.busclique": dict(src="minorminer/busclique.pyx", cxx=True,
                                 inc=["", "include", "include/busclique"], extra=[]),
    "minorminer._extern.rpack._core": dict(src="minorminer/_extern/rpack/_core.pyx", cxx=False,
                                           inc=["minorminer/_extern/rpack/include"],
                                           extra=["minorminer/_extern/rpack/src/rpackcore.c"]),
}

FLAVOURS = {
    # the flags setup.py uses
    "opt": dict(cxx=["-std=c++17", "-Ofast", "-fomit-frame-pointer", "-g1", "-fno-rtti"],
                c=["-O2"], link=[]),
    # as opt, but quicker to compile
    "o1": dict(cxx=["-std=c++17", "-O1", "-fomit-frame-pointer", "-g0", "-fno-rtti"], c=["-O1"], link=[]),
    # minorminer_assert and the chain diagnostics compiled in
    "debug": dict(cxx=["-std=c++17", "-O2", "-g1", "-DCPPDEBUG", "-include", os.path.join(VERIF, "lib/prelude.hpp")],
                  c=["-O2"], link=[]),
    # container bounds checks, address + UB sanitizers
    "asan": dict(cxx=["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-include", os.path.join(VERIF, "lib/prelude.hpp"), "-fsanitize=address,undefined",
                      "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,signed-integer-overflow"],
                 c=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                    "-fno-sanitize=alignment"],
                 link=[]),
    # data races between the worker threads
    "tsan": dict(cxx=["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
                 c=["-O1", "-g1", "-fsanitize=thread"], link=[]),
}


def driver(name):
    """File name of the shared library made from /verif/cpp/<name>.cpp."""
    h = hashlib.sha256()
    for f in (name + ".cpp", "driver.hpp", "problem.hpp"):
        with open(os.path.join(VERIF, "cpp", f), "rb") as fh:
            h.update(fh.read())
    return "drv_%s_%s.so" % (name, h.hexdigest()[:8])


class BuildError(Exception):
    pass


def sources():
    out = set()
    for p in PATTERNS:
        out.update(f for f in glob.glob(os.path.join(REPO, p), recursive=True) if os.path.isfile(f))
    # generated by Cython in place, ignored by git
    gen = {"_minorminer.cpp", "busclique.cpp", "subgraph.cpp", "_core.c"}
    return sorted(f for f in out if os.path.basename(f) not in gen and "__pycache__" not in f)


def digest(*extra):
    h = hashlib.sha256()
    for f in sources():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for e in extra:
        h.update(repr(e).encode())
    h.update(SELF)
    return h.hexdigest()[:16]


def _prune(keep=10):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
    ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


def _copy(dst):
    for f in sources():
        rel = os.path.relpath(f, REPO)
        to = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copyfile(f, to)


def _run(cmd, cwd, log):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("CFLAGS", "CXXFLAGS", "CPPDEBUG", "SAFE_COORDS", "XDG_DATA_HOME", "PYTHONPATH")}
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    return e


def build_python(flavour="opt", exts=None):
    """Returns the directory to put on sys.path."""
    exts = list(EXT) if exts is None else list(exts)
    os.makedirs(BUILD, exist_ok=True)
    name = f"{flavour}-{digest(flavour)}"
    dst = os.path.join(BUILD, name)
    lock = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if not os.path.exists(os.path.join(dst, "COPIED")):
            shutil.rmtree(dst, ignore_errors=True)
            os.makedirs(dst)
            _copy(dst)
            open(os.path.join(dst, "COPIED"), "w").close()
        os.utime(dst)
        fl = FLAVOURS[flavour]
        # drv.<name>: a C++ driver of /verif/cpp against the headers
        cs = []
        for e in [e for e in exts if e.startswith("drv.")]:
            name = e[4:]
            so = driver(name)
            if not os.path.exists(os.path.join(dst, "OK." + so)):
                flags = [f for f in fl["cxx"] if f != "-fno-rtti"]
                cmd = ["g++", *flags, "-fPIC", "-shared", "-include", "memory", "-I" + os.path.join(dst, "include"),
                       "-I" + os.path.join(dst, "include/find_embedding"), os.path.join(VERIF, "cpp", name + ".cpp"), "-o", so, *fl["link"]]
                cs.append((so, subprocess.Popen(cmd, cwd=dst, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        todo = [e for e in exts if not e.startswith("drv.") and not os.path.exists(os.path.join(dst, "OK." + e))]
        if not todo and not cs:
            return dst
        pyinc = sysconfig.get_paths()["include"]
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        # cythonize
        ps = []
        for e in todo:
            d = EXT[e]
            out = os.path.splitext(d["src"])[0] + (".cpp" if d["cxx"] else ".c")
            cmd = [VENV_PY, "-m", "cython", "-3"] if False else [VENV_PY, "-m", "cython"]
            if d["cxx"]:
                cmd.append("--cplus")
            cmd += [d["src"], "-o", out]
            ps.append((e, out, subprocess.Popen(cmd, cwd=dst, env=env(), stdout=subprocess.PIPE,
                                                stderr=subprocess.STDOUT, text=True)))
        for e, out, p in ps:
            txt, _ = p.communicate()
            if p.returncode:
                raise BuildError(f"cython failed for {e}:\n{txt[-4000:]}")
            d = EXT[e]
            so = e.replace(".", "/") + suffix
            if d["cxx"]:
                cmd = ["g++", *fl["cxx"], "-fPIC", "-shared", "-DNDEBUG" if flavour in ("opt", "o1", "tsan") else "-DVERIF_ASAN",
                       "-I" + pyinc, *["-I" + (os.path.join(dst, i)) for i in d["inc"]], out, *d["extra"],
                       "-o", so, *fl["link"]]
            else:
                cmd = ["gcc", *fl["c"], "-DNDEBUG", "-fPIC", "-shared", "-I" + pyinc,
                       *["-I" + os.path.join(dst, i) for i in d["inc"]], out, *d["extra"], "-o", so, *fl["link"]]
            cs.append((e, subprocess.Popen(cmd, cwd=dst, env=env(), stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True)))
        for e, p in cs:
            txt, _ = p.communicate()
            if p.returncode:
                raise BuildError(f"compiler failed for {e}:\n{txt[-4000:]}")
            open(os.path.join(dst, "OK." + e), "w").close()
        return dst
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
        _prune()


def pythonpath(dst):
    return ":".join([dst, os.path.join(VERIF, "lib"), os.path.join(VERIF, "checks"), VENV_SITE, TOOLS_SITE])


if __name__ == "__main__":
    t = time.time()
    for fl in sys.argv[1:] or ["opt"]:
        print(fl, build_python(fl), round(time.time() - t, 1))
