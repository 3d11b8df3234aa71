"""Sensitivity audit of the oracles: perturb one public result at a time by a small relative amount in a scratch copy of the package
and see whether the check that judges it notices.   python3 tools/audit.py [EPS] [JOBS] [FILTER]
Nothing here is used by the checks; the table it prints is the measured resolution of the monitors."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

EPS = float(sys.argv[1]) if len(sys.argv) > 1 else 1e-3
JOBS = int(sys.argv[2]) if len(sys.argv) > 2 else 4
FILT = sys.argv[3] if len(sys.argv) > 3 else ""
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("CCV_REPO", "/repo")
V = "r chord theta precurve presweep Rhub Rtip precone tilt hubHt yaw shear Uinf Omega pitch".split()
WRAP = {
    "loads": "L[{k!r}] = np.asarray(L[{k!r}]) * (1 + {e})",
    "dload": "D and D[{q!r}].__setitem__({k!r}, D[{q!r}][{k!r}] * (1 + {e}))",
}


def code(meth, stmt):
    return "\n\n_audit = CCBlade.%s\n\n\ndef _audited(self, *a, **k):\n    L, D = _audit(self, *a, **k)\n    %s\n    return L, D\n\n\nCCBlade.%s = _audited\n" % (meth, stmt, meth)


def points():
    for k in "Np Tp a ap alpha Cl Cd Cn Ct W Re".split():
        yield "loads.%s" % k, "distributedAeroLoads", WRAP["loads"].format(k=k, e=EPS), ("P01", 300)
    for k in "T Y Z Q P My Mz Mb".split():
        yield "evaluate.%s" % k, "evaluate", WRAP["loads"].format(k=k, e=EPS), ("P04", 150)
        yield "evaluate.C%s" % k, "evaluate", "'C%s' in L and L.__setitem__('C%s', L['C%s'] * (1 + %r))" % (k, k, k, EPS), ("P05", 150)
    for q, k in itertools.product(("dNp", "dTp"), V + ["azimuth"]):
        yield "loads.%s.d%s" % (q, k), "distributedAeroLoads", WRAP["dload"].format(q=q, k="d" + k, e=EPS), ("P07", 64)
    for q, k in itertools.product("T Y Z Q P My Mz Mb CT CY CZ CQ CP CMy CMz CMb".split(), V + ["precurveTip", "presweepTip"]):
        yield "evaluate.d%s.d%s" % (q, k), "evaluate", "D and %r in D and D[%r].__setitem__(%r, D[%r][%r] * (1 + %r))" % ("d" + q, "d" + q, "d" + k, "d" + q, "d" + k, EPS), ("P08", 24)


def run(pt):
    name, meth, stmt, (prop, cases) = pt
    d = tempfile.mkdtemp(prefix="ccv_audit_")
    try:
        shutil.copytree(SRC + "/ccblade", d + "/ccblade", ignore=shutil.ignore_patterns("*.so", "__pycache__"))
        with open(d + "/ccblade/ccblade.py", "a") as f:
            f.write(code(meth, stmt))
        env = dict(os.environ, CCV_REPO=d, CCV_EVIDENCE=d + "/ev")
        o = subprocess.run(["./check", prop, "--cases", str(cases), "--jobs", "2"], cwd=ROOT, env=env, capture_output=True, text=True).stdout
        hit = "VIOLATION property=%s" % prop in o
        return name, prop, hit, "" if hit else o.strip().splitlines()[-1][:100]
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    pts = [p for p in points() if FILT in p[0]]
    miss = []
    with ThreadPoolExecutor(JOBS) as ex:
        for name, prop, hit, why in ex.map(run, pts):
            print("%-28s %s %s %s" % (name, prop, "seen" if hit else "MISSED", why), flush=True)
            if not hit:
                miss.append(name)
    print("%d of %d perturbations of %g seen; missed: %s" % (len(pts) - len(miss), len(pts), EPS, " ".join(miss) or "none"))
