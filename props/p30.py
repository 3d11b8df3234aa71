"""Resources: repeated use does not accumulate memory, objects, files or threads, and leaves the process as it was."""
import contextlib
import gc
import io
import os
import resource
import shutil
import sys
import tempfile
import threading
import tracemalloc
import warnings as W

from .common import *
from .polars import gen_polar, make

QUICK, THOROUGH = 36, 180
RULE = (
    "one kind of use (loads, rotor quantities, gradients, refused inputs, airfoil evaluation, airfoil preparation, file reading and writing, direction vectors, sections without a solution) repeated 60-400 times in a process of its own rhythm after a warm-up; "
    "traced Python memory, native resident memory, live objects, open files, threads and process-wide settings compared before and after; non-trivial when every monitor was read"
)
MINIMA = {"memory": 28, "resident": 28, "objects": 28, "open files": 28, "process state": 28, "section without a solution": 1}
KINDS = ["loads", "rotor", "gradients", "refused", "airfoil", "prepare", "files", "vectors", "unsolved"]


def gen(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 17))))
    s["iterRe"] = 1
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(3, 10)), pitch=float(rng.uniform(-3, 8)))
    return dict(kind=kind, rotor=s, oper=o, polars=[gen_polar(rng, Re=1e6 * (k + 1), full=False, lo=-20.0, hi=25.0, grid="even") for k in range(2)], n=(80 if kind in KINDS[:3] else 200) * (1 if tier == "quick" else 6))


def use(spec, d):
    """one repetition"""
    from ccblade.airfoilprep import Airfoil
    from ccblade.ccblade import CCAirfoil
    from ccblade.csystem import DirectionVector

    s, o, kind = spec["rotor"], spec["oper"], spec["kind"]
    if kind in ("loads", "rotor", "gradients"):
        ro = G.build_rotor(s, derivatives=kind == "gradients", af=spec["afs"])
        if kind != "rotor":
            loads(ro, o)
        if kind != "loads":
            ro.evaluate([o["U"], o["U"] + 1], [o["Omega"]] * 2, [o["pitch"]] * 2, coefficients=True)
    elif kind == "unsolved":  # sections without a solution are reported with a warning and carry no load
        q = dict(s, usecd=False, B=8, chord=[c * 4 for c in s["chord"]])
        ro = G.build_rotor(q, af=spec["afs"])
        none = 0
        with contextlib.redirect_stdout(io.StringIO()):
            for tsr in (0.7, 6.0, 20.0):
                for pitch in (-70.0, -30.0, 15.0, 60.0):
                    L = loads(ro, dict(o, pitch=pitch, Omega=tsr * o["U"] / s["Rtip"] * 30 / np.pi))[0]
                    none += int(np.sum(L["W"] == 0))
        return none
    elif kind == "refused":
        for q in (dict(s, r=s["r"][:1]), dict(s, precurve=[0.0] * (len(s["r"]) - 1))):
            try:
                loads(G.build_rotor(q, af=spec["afs"]), o)
            except Exception:
                pass
    elif kind == "airfoil":
        a = CCAirfoil.initFromAerodynFile(os.path.join(d, "in.dat"))
        for x in (-0.3, 0.05, 0.2):
            a.evaluate(x, 2e6)
            a.derivatives(x, 2e6)
        a.max_eff(2e6)
        a.awayfromstall(2e6, 3.0)
    elif kind == "prepare":
        A = Airfoil([make(p) for p in spec["polars"]])
        A.correction3D(0.4, 0.1, 7.0).extrapolate(1.4).createDataGrid()
        A.blend(A, 0.3).getPolar(1.5e6).unsteadyparam()
    elif kind == "files":
        A = Airfoil.initFromAerodynFile(os.path.join(d, "in.dat"))
        A.writeToAerodynFile(os.path.join(d, "out.dat"))
        try:
            Airfoil.initFromAerodynFile(os.path.join(d, "broken.dat"))
        except Exception:
            pass
    else:
        v = DirectionVector(np.arange(5.0), np.ones(5), np.zeros(5))
        v.windToYaw(3.0).yawToHub(5.0).hubToAzimuth(np.arange(5.0)).azimuthToBlade(1.0).cross(v)


def state():
    return dict(
        cwd=os.getcwd(), umask=mask(), errors=np.geterr(), filters=[str(f) for f in W.filters], limit=sys.getrecursionlimit(), switch=sys.getswitchinterval(), threads=threading.active_count(), rng=hash(np.random.get_state()[1].tobytes()),
        path=list(sys.path), argv=list(sys.argv), env=dict(os.environ), printing=repr(sorted(np.get_printoptions().items(), key=str)), nofile=resource.getrlimit(resource.RLIMIT_NOFILE),
    )


def mask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def rss():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def fds():
    return sorted(os.readlink("/proc/self/fd/" + k) for k in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + k))


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil

    d = tempfile.mkdtemp(prefix="ccv_p30_")
    try:
        spec = dict(spec, afs=[G.build_airfoil(p) for p in spec["rotor"]["af"]])
        Airfoil([make(p) for p in spec["polars"]]).writeToAerodynFile(os.path.join(d, "in.dat"))
        with open(os.path.join(d, "in.dat")) as f:
            t = f.read()
        with open(os.path.join(d, "broken.dat"), "w") as f:
            f.write(t[: len(t) // 2])
        names = sorted(os.listdir(d))
        before = state()
        for _ in range(8):
            none = use(spec, d)
        if none:
            rec.ok("section without a solution", none)
        n = spec["n"]
        # one pass to let caches settle, then two equal windows
        for _ in range(n // 4):
            use(spec, d)
        gc.collect()
        tracemalloc.start()
        use(spec, d)
        gc.collect()
        files, objs, m0, r0 = fds(), len(gc.get_objects()), tracemalloc.get_traced_memory()[0], rss()
        for _ in range(n):
            use(spec, d)
        gc.collect()
        m1, r1, objs1, files1 = tracemalloc.get_traced_memory()[0], rss(), len(gc.get_objects()), fds()
        tracemalloc.stop()
        after = state()
        k = spec["kind"]
        rec.true("memory", m1 - m0 < 100 * n + 20000, "%s: %d bytes of traced memory more after %d repetitions" % (k, m1 - m0, n))
        rec.true("objects", objs1 - objs < max(40, n // 2), "%s: %d objects more after %d repetitions" % (k, objs1 - objs, n))
        # native memory is not traced: 2 kB per repetition would be lost by one forgotten array
        rec.true("resident", r1 - r0 < 2048 * n + (6 << 20), "%s: %d kB of resident memory more after %d repetitions" % (k, (r1 - r0) >> 10, n))
        rec.true("open files", files1 == files, "%s: open files %s instead of %s" % (k, files1, files))
        for q in before:
            rec.true("process state", before[q] == after[q], "%s: %s changed from %r to %r" % (k, q, before[q], after[q]))
        rec.true("open files", sorted(os.listdir(d)) == sorted(set(names) | ({"out.dat"} if k == "files" else set())), "files in the directory: %s" % os.listdir(d))
        rec.worst("traced bytes per repetition", (m1 - m0) / n)
        rec.worst("resident bytes per repetition", (r1 - r0) / n)
        rec.nontrivial = True
        rec.seen(k, len(spec["rotor"]["r"]))
        rec.sample = dict(traced=m1 - m0, resident=r1 - r0, objects=objs1 - objs)
    finally:
        shutil.rmtree(d, ignore_errors=True)
