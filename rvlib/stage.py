"""Build the code under test from /repo's current working tree into a private staging directory.

Nothing is written inside /repo: the Python sources are copied, and the native extension is generated (f2py) and
compiled from the *current* ccblade/src/bem.f90.  Compiled objects are cached under /verif/.build (git-ignored),
keyed by the content of every native source and by the compiler flags, so a changed source is always rebuilt.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("CCV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

VARIANTS = {
    # what the package ships: meson's debugoptimized
    "opt": (["-O2", "-g"], ["-O2", "-g"]),
    # address + undefined behaviour sanitizers on Fortran and on the f2py C glue; traps are turned into reports
    "asan": (
        ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
        # the f2py glue calls through generic function pointers by design, hence no -fsanitize=function/alignment noise
        ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address"],
    ),
    # gfortran's own run-time checks: every array subscript, loop bounds, pointers, memory
    "fcheck": (["-O0", "-g", "-fcheck=all", "-fbacktrace"], ["-O0", "-g"]),
    # uninitialised reads become signalling/poison values
    "poison": (["-O0", "-g", "-finit-real=snan", "-finit-integer=-2147483647", "-fcheck=all"], ["-O0", "-g"]),
    # ... and with -frecursive/-fstack-arrays local arrays live on the stack instead of static storage, and every one of
    # them, also those whose size is an argument, is filled with a pattern at every call
    "poison2": (
        ["-O0", "-g", "-frecursive", "-fstack-arrays", "-ftrivial-auto-var-init=pattern", "-finit-real=snan", "-finit-derived", "-finit-integer=-2147483647", "-fcheck=all"],
        ["-O0", "-g"],
    ),
}


class BuildError(Exception):
    pass


def _run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def build_ext(variant="opt", repo=REPO):
    """Return the path of a compiled _bem extension for the current sources of `repo`."""
    srcs = sorted(glob.glob(os.path.join(repo, "ccblade", "src", "*.f90")))
    ff, cf = VARIANTS[variant]
    h = hashlib.sha256()
    for s in srcs:
        h.update(os.path.basename(s).encode())
        with open(s, "rb") as f:
            h.update(f.read())
    h.update(repr((ff, cf, sys.version)).encode())
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    cache = os.path.join(VERIF, ".build", variant + "-" + h.hexdigest()[:24])
    so = os.path.join(cache, "_bem" + ext)
    if os.path.exists(so):
        return so
    import numpy as np
    import numpy.f2py

    w = tempfile.mkdtemp(prefix="ccv_build_")
    try:
        names = []
        for s in srcs:
            shutil.copy(s, w)
            names.append(os.path.basename(s))
        _run([PY, "-m", "numpy.f2py"] + names + ["-m", "_bem", "--lower"], w)
        fsrc = os.path.join(os.path.dirname(numpy.f2py.__file__), "src")
        inc = ["-I" + fsrc, "-I" + np.get_include(), "-I" + sysconfig.get_path("include")]
        objs = []
        for s in names + [x for x in ("_bem-f2pywrappers.f", "_bem-f2pywrappers2.f90") if os.path.exists(os.path.join(w, x))]:
            _run(["gfortran", "-fPIC", "-c"] + ff + [s, "-o", s + ".o"], w)
            objs.append(s + ".o")
        for s in ("_bemmodule.c", os.path.join(fsrc, "fortranobject.c")):
            o = os.path.basename(s) + ".o"
            _run(["gcc", "-fPIC", "-c", "-DNPY_NO_DEPRECATED_API=NPY_1_9_API_VERSION"] + cf + inc + [s, "-o", o], w)
            objs.append(o)
        link = [x for x in ff if x.startswith("-fsanitize")]
        _run(["gfortran", "-shared"] + link + objs + ["-o", "_bem" + ext], w)
        os.makedirs(cache, exist_ok=True)
        tmp = so + ".%d" % os.getpid()
        shutil.copy(os.path.join(w, "_bem" + ext), tmp)
        os.replace(tmp, so)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return so


def stage(variant="opt", repo=REPO):
    """A fresh directory with an importable `ccblade` package made of /repo's current sources."""
    so = build_ext(variant, repo)
    d = tempfile.mkdtemp(prefix="ccv_stage_")
    pk = os.path.join(d, "ccblade")
    shutil.copytree(
        os.path.join(repo, "ccblade"), pk, ignore=shutil.ignore_patterns("*.so", "__pycache__", "*.f90", "*.pyc")
    )
    shutil.copy(so, pk)
    return d


def use(variant="opt"):
    """Stage, put it first on sys.path and check that it is what gets imported."""
    d = stage(variant)
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    import ccblade
    import ccblade._bem as b

    assert os.path.realpath(ccblade.__file__).startswith(os.path.realpath(d)), ccblade.__file__
    assert os.path.realpath(b.__file__).startswith(os.path.realpath(d)), b.__file__
    return d
