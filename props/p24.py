"""The native code stays inside its arrays, reads nothing uninitialised and its results depend only on its arguments."""
import json
import os
import pickle
import shutil
import subprocess
import tempfile

from rvlib import stage

from .common import *

QUICK, THOROUGH = 90, 900
RULE = (
    "batches of random rotors (2-45 stations, straight and curved, all options and regimes, with and without gradients, inconsistent array lengths) run on four instrumented builds of the native extension in their own processes; "
    "non-trivial when all builds finished the batch"
)
MINIMA = {"asan run": 200, "bounds run": 200, "poison run": 200, "stack poison run": 200, "same result": 5000, "repeated": 150, "hostile": 30}
VARS = dict(opt="plain run", asan="asan run", fcheck="bounds run", poison="poison run", poison2="stack poison run")
_D = {}


def prepare(tier):
    for v in VARS:
        _D[v] = stage.stage(v)


def cleanup():
    for d in _D.values():
        shutil.rmtree(d, ignore_errors=True)


def gen(rng, idx, tier):
    jobs = []
    for j in range(8):
        n = int(rng.choice([2, 2, 3, 4, 5, 8, 13, 17, 30, 45]))
        s = G.gen_rotor(rng, n=n, family=str(rng.choice(["random", "small"])), iterRe=True)
        raise_hub(s)
        if rng.random() < 0.2:  # a station on the ends in every combination
            s["r"][0], s["r"][-1] = s["Rhub"], s["Rtip"]
        for k in ("precurve", "presweep"):
            if s[k] is not None and rng.random() < 0.15:
                s[k] = None
        tsr = float(rng.choice([rng.uniform(0.1, 2), rng.uniform(3, 10), rng.uniform(12, 25)]))
        o = G.gen_oper(rng, s, tsr=tsr, pitch=float(rng.choice([rng.uniform(-3, 10), rng.uniform(-60, 90)])))
        if rng.random() < 0.1:
            o["Omega"] = 0.0
        more = [[float(rng.uniform(2, 30)), float(rng.choice([o["Omega"], rng.uniform(0, 30)])), float(rng.uniform(-5, 20))] for _ in range(int(rng.integers(0, 4)))]
        h = None
        if j == 7:
            h = str(rng.choice(["r", "chord", "theta", "precurve", "presweep", "af"]))
            if s[h] is None:
                s[h] = [0.0] * n
            s[h] = list(s[h])[:-1] if rng.random() < 0.5 else list(s[h]) + list(s[h])[-1:]
        jobs.append(dict(rotor=s, oper=o, deriv=bool(rng.random() < 0.7) and s["iterRe"] == 1, more=more, hostile=h))
    jobs.append(dict(jobs[0], again=True))  # after all the others
    return dict(jobs=jobs)


def env(variant, d):
    e = dict(os.environ, PYTHONMALLOC="malloc", OPENBLAS_NUM_THREADS="1")
    if variant.startswith("poison"):  # heap blocks are born with a pattern too
        e["MALLOC_PERTURB_"] = "85" if variant == "poison" else "170"
        e["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
    if variant == "asan":
        lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        e["LD_PRELOAD"] = lib
        e["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=66:log_path=%s/san:detect_stack_use_after_return=1" % d
        e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:print_stacktrace=1:log_path=%s/san" % d
    return e


def equal(a, b):
    if "error" in a or "error" in b:
        return a.get("error") == b.get("error")
    return a.keys() == b.keys() and all(np.array_equal(a[k], b[k], equal_nan=True) for k in a)


def check(spec, rec):
    jobs = spec["jobs"]
    if not _D:
        prepare("quick")
    d = tempfile.mkdtemp(prefix="ccv_p24_")
    try:
        src = os.path.join(d, "jobs.json")
        with open(src, "w") as f:
            json.dump(jobs, f)
        base = None
        got = {}
        for v, name in VARS.items():
            dst = os.path.join(d, v)
            p = subprocess.run([stage.PY, os.path.join(stage.VERIF, "rvlib", "native_worker.py"), _D[v], src, dst], capture_output=True, text=True, errors="replace", env=env(v, d), cwd=d, timeout=250)
            logs = "".join(open(os.path.join(d, x), errors="replace").read() for x in sorted(os.listdir(d)) if x.startswith("san."))
            n = int(open(dst + ".progress").read()) if os.path.exists(dst + ".progress") else 0
            text = (logs + p.stderr)[:1500]
            if p.returncode or not os.path.exists(dst):
                if n == 0 and p.returncode > 0 and "Sanitizer" not in text and "ortran runtime" not in text:
                    raise RuntimeError("the %s worker did not start: %s" % (v, text))
                rec.bad(v, "the %s build stopped in job %d: %s" % (v, n, text), job=jobs[min(n, len(jobs) - 1)])
                continue
            rec.true(name, not logs, "report of the sanitizers: %s" % logs[:1500])
            rec.ok(name, len(jobs) - 1)
            with open(dst, "rb") as f:
                got[v] = pickle.load(f)
            if v == "opt":
                base = got[v]
            rec.true("repeated", equal(got[v][0], got[v][-1]), "%s build: a rotor gave other results after other rotors had been run" % v)
            if v == "opt" or base is None:
                continue
            for j, (a, b) in enumerate(zip(base, got[v])):
                if jobs[j]["hostile"]:
                    rec.ok("hostile")
                    rec.true("hostile", a.get("error") == b.get("error"), "inconsistent %s: %r on the %s build, %r on the shipped one" % (jobs[j]["hostile"], b.get("error"), v, a.get("error")))
                    continue
                if "error" in a or "error" in b:
                    rec.true("same result", a.get("error") == b.get("error"), "job %d: %r on the %s build, %r on the shipped one" % (j, b.get("error"), v, a.get("error")))
                    continue
                for k in a:
                    x, y = a[k], b[k]
                    sc = np.max(np.abs(x[np.isfinite(x)])) if np.any(np.isfinite(x)) else 0.0
                    # the builds round differently
                    ok = x.shape == y.shape and np.all((np.abs(x - y) <= 1e-6 * sc + 1e-12) | (np.isnan(x) & np.isnan(y)) | (x == y))
                    if not rec.true("same result", ok, "job %d: %s differs between the %s build and the shipped one by up to %s" % (j, k, v, np.max(np.abs(x - y)) if x.shape == y.shape else "shape")):
                        break
                rec.seen(v, len(jobs[j]["rotor"]["r"]), flags(jobs[j]["rotor"]), jobs[j]["deriv"])
        if "poison" in got and "fcheck" in got:
            for v in ("poison", "poison2"):
                for j in range(len(jobs)):
                    rec.true("same result", equal(got["fcheck"][j], got.get(v, got["fcheck"])[j]), "job %d: other results when uninitialised memory holds other values (%s)" % (j, v))
        rec.nontrivial = len(got) == len(VARS)
        rec.sample = dict(returned=[len(b) for b in base or []], errors=[b.get("error") for b in base or []])
    finally:
        shutil.rmtree(d, ignore_errors=True)
