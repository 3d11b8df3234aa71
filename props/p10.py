"""Results depend on the inputs only: not on earlier calls, on other rotors, on threads, nor on what the caller does with arrays."""
import json
import os
import pickle
import subprocess
import sys
import threading

from .common import *

QUICK, THOROUGH = 900, 10000
RULE = (
    "random histories of 3-10 calls (distributed loads, rotor evaluation, coefficients; ordinary, hostile, parked and reversed conditions) on 2-3 rotors "
    "that share airfoils, interleaved in one thread or run in 4 threads with a 1 us switch interval; each answer is compared with a freshly built rotor's, in some cases with that of a process which did nothing else, "
    "inputs and earlier answers are compared with copies taken at the time; non-trivial when >= 3 answers were compared"
)
MINIMA = {"answer": 2000, "threaded history": 60, "input array": 3000, "earlier answer": 1500, "fresh process": 60}


def gen(rng, idx, tier):
    a = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 9)), iterRe=True))
    b = dict(a)
    b["chord"] = [c * 1.1 for c in a["chord"]]
    b["theta"] = [t + 1.0 for t in a["theta"]]
    rotors = [a, b]
    if idx % 2:
        rotors.append(raise_hub(G.gen_rotor(rng, n=len(a["r"]))))
    deriv = [bool(rng.random() < 0.4) and s["iterRe"] == 1 for s in rotors]
    hist = []
    for _ in range(int(rng.integers(3, 11))):
        k = int(rng.integers(0, len(rotors)))
        kind = str(rng.choice(["loads", "loads", "eval", "coeff", "vector"]))
        m = int(rng.integers(2, 4)) if kind == "vector" else 1
        os_ = []
        for _ in range(m):
            o = G.gen_oper(rng, rotors[k], tsr=float(rng.uniform(1, 12)), pitch=float(rng.uniform(-6, 12)))
            u = rng.random()
            if u < 0.15:
                o["Omega"] = 0.0
            elif u < 0.25:
                o["pitch"] = float(rng.uniform(20, 90))
            elif u < 0.3:
                o["Omega"] = -o["Omega"]
            os_.append(o)
        hist.append(dict(rotor=k, kind=kind, opers=os_))
    hist.append(dict(hist[0]))  # the first question again at the end
    return dict(rotors=rotors, deriv=deriv, hist=hist, threads=idx % 4 == 3, process=idx % 40 == 6)


class Args:
    """constructor arguments kept by the caller"""

    def __init__(self, s, shared):
        self.v = {k: np.array(s[k], float) for k in ("r", "chord", "theta")}
        for k in ("precurve", "presweep"):
            self.v[k] = None if s[k] is None else np.array(s[k], float)
        self.copy = {k: None if v is None else v.copy() for k, v in self.v.items()}
        self.af = shared
        self.afcopy = list(shared)

    def build(self, s, d):
        from ccblade.ccblade import CCBlade

        kw = {k: s[k] for k in G.ROTOR_KEYS if k not in ("precurve", "presweep")}
        return CCBlade(
            self.v["r"], self.v["chord"], self.v["theta"], self.af, s["Rhub"], s["Rtip"], derivatives=d,
            precurve=self.v["precurve"], presweep=self.v["presweep"], **kw,
        )

    def unchanged(self, rec):
        for k, v in self.v.items():
            rec.ok("input array")
            if v is not None and not np.array_equal(v, self.copy[k]):
                rec.bad("input modified", "the caller's array %s was modified" % k)
        rec.true("input modified", len(self.af) == len(self.afcopy) and all(x is y for x, y in zip(self.af, self.afcopy)), "the caller's airfoil list was modified")


def ask(ro, h):
    os_ = h["opers"]
    if h["kind"] == "loads":
        return ro.distributedAeroLoads(os_[0]["U"], os_[0]["Omega"], os_[0]["pitch"], os_[0]["azimuth"])
    args = [np.array([o[k] for o in os_], float) for k in ("U", "Omega", "pitch")]
    keep = [a.copy() for a in args]
    res = ro.evaluate(*args, coefficients=h["kind"] == "coeff")
    for a, b in zip(args, keep):
        if not np.array_equal(a, b):
            raise AssertionError("the caller's condition array was modified")
    return res


def flat(res):
    out = {}
    for k, v in res[0].items():
        out[k] = np.array(v)
    for q, d in res[1].items():
        for k, v in d.items():
            out[q + "/" + k] = np.array(v)
    return out


def compare(rec, mech, what, got, want):
    ok = True
    for k in want:
        w, g = want[k], got.get(k)
        if g is None:
            rec.bad(mech, "%s: %s missing" % (what, k))
            return False
        sc = np.abs(w[np.isfinite(w)])
        ok &= rec.close(mech, what + " " + k, g, w, 1e-13, scale=sc.max() if sc.size else 0.0)
        if not ok:
            return False
    return ok


def alone(spec, h):
    """the answer of a rotor and airfoils of its own"""
    s, d = spec["rotors"][h["rotor"]], spec["deriv"][h["rotor"]]
    fresh = {repr(p): G.build_airfoil(p, cache=False) for p in s["af"]}
    return flat(ask(Args(s, [fresh[repr(p)] for p in s["af"]]).build(s, d), h))


def processes(spec):
    """every question to a process of its own that did nothing before"""
    import ccblade

    stage = os.path.dirname(os.path.dirname(os.path.abspath(ccblade.__file__)))
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([stage, verif]), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1")
    p = subprocess.run([sys.executable, "-m", "props.p10"], input=json.dumps(spec).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    res = pickle.loads(p.stdout) if p.returncode == 0 else p.stderr.decode(errors="replace")[-800:]
    if isinstance(res, str):
        raise RuntimeError("the process that should answer in isolation failed: %s" % res)
    return res


def isolated(spec):
    out = []
    for h in spec["hist"]:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            os.close(r)
            code = 1
            try:
                with os.fdopen(w, "wb") as f:
                    pickle.dump(alone(spec, h), f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        out.append(pickle.loads(b) if b else None)
    return out


def check(spec, rec):
    rot, hist = spec["rotors"], spec["hist"]
    shared = [[G.build_airfoil(p) for p in s["af"]] for s in rot]
    args = [Args(s, a) for s, a in zip(rot, shared)]
    ros = [a.build(s, d) for a, s, d in zip(args, rot, spec["deriv"])]
    # the reference: every question to a rotor of its own with airfoils of its own
    want = [alone(spec, h) for h in hist]
    if spec["process"]:
        for i, (a, b) in enumerate(zip(want, processes(spec))):
            if rec.true("process", b is not None, "answer %d: the process that did nothing else failed" % i):
                compare(rec, "process", "answer %d" % i, a, b)
                rec.ok("fresh process")
    if not spec["threads"]:
        raw, kept = [], []
        for i, h in enumerate(hist):
            res = ask(ros[h["rotor"]], h)
            raw.append(res)
            kept.append(flat(res))
            compare(rec, "history", "answer %d" % i, kept[-1], want[i])
            rec.ok("answer")
        for i, res in enumerate(raw):  # nothing returned earlier was overwritten by later calls
            now = flat(res)
            for k in now:
                rec.same("earlier result", "answer %d %s after later calls" % (i, k), now[k], kept[i][k])
            rec.ok("earlier answer")
        # the caller's later changes to the arrays it passed do not matter
        for a in args:
            a.unchanged(rec)
            for v in a.v.values():
                if v is not None:
                    v *= 1.37
        h = hist[0]
        compare(rec, "arrays kept", "answer after the caller changed its arrays", flat(ask(ros[h["rotor"]], h)), want[0])
    else:
        # one rotor per thread and question, airfoils shared by all of them
        old = sys.getswitchinterval()
        got = [[None] * len(hist) for _ in range(4)]

        def run(t):
            for j in range(len(hist)):
                i = (j + t) % len(hist)
                h = hist[i]
                try:
                    ro = args[h["rotor"]].build(rot[h["rotor"]], spec["deriv"][h["rotor"]])
                    got[t][i] = flat(ask(ro, h))
                except Exception as e:
                    got[t][i] = e

        sys.setswitchinterval(1e-6)
        try:
            th = [threading.Thread(target=run, args=(t,)) for t in range(4)]
            [t.start() for t in th]
            [t.join() for t in th]
        finally:
            sys.setswitchinterval(old)
        for t in range(4):
            for i in range(len(hist)):
                if isinstance(got[t][i], Exception):
                    rec.bad("threads", "answer %d in thread %d: %r" % (i, t, got[t][i]))
                    continue
                compare(rec, "threads", "answer %d in thread %d" % (i, t), got[t][i], want[i])
                rec.ok("answer")
        for a in args:
            a.unchanged(rec)
        rec.ok("threaded history")
    rec.nontrivial = len(hist) >= 3
    rec.seen("".join(h["kind"][0] + str(h["rotor"]) for h in hist))
    rec.sample = dict(history=[(h["rotor"], h["kind"]) for h in hist])


if __name__ == "__main__":
    import warnings

    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    out = os.fdopen(os.dup(1), "wb")  # the code under test may print
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        res = isolated(json.load(sys.stdin))
    except BaseException as e:
        res = repr(e)
    out.write(pickle.dumps(res))
    out.flush()
