"""A call that fails or is interrupted leaves rotors, airfoils, polars, vectors and components as if it had not been made."""
import ast
import os
import sys

from .common import *
from .p30 import state
from .polars import gen_polar, make, snapshot

QUICK, THOROUGH = 900, 16000
RULE = (
    "a use (section loads, rotor quantities, coefficients, gradients, inverse analysis, airfoil evaluation and preparation, direction vectors, OpenMDAO components) is made to fail - by an exception of an airfoil at its k-th lookup, "
    "by an interruption at a random line executed in the package, or by an impossible request - and the same objects are then asked again; non-trivial when the failure really happened and later answers were compared"
)
MINIMA = {"failure: interrupted": 400, "failure: airfoil": 120, "failure: refused": 60, "answer": 4000, "kind:inverse": 30, "stored": 60, "kind:twist": 8, "kind:loadscomp": 8, "kind:evalcomp": 8, "kind:prepare": 30, "kind:vector": 30, "process state": 3000, "earlier result": 1000}
ROTOR = ["loads", "eval", "coeff", "deriv", "inverse"]
KINDS = ROTOR * 4 + ["airfoil", "airfoil", "prepare", "prepare", "vector", "loadscomp", "evalcomp", "twist"]


class Interrupt(BaseException):
    """like KeyboardInterrupt: nobody may swallow it"""


class Fault(RuntimeError):
    """an airfoil's own failure"""


# ---- interruptions at a chosen line of the package -------------------------------------------------
_quiet = {}


def quiet(path):
    """lines at which even careful code cannot be interrupted without harm: clean-up clauses and the heads of with and try"""
    if path not in _quiet:
        out = set()
        with open(path) as f:
            tree = ast.parse(f.read())
        for nd in ast.walk(tree):
            if isinstance(nd, ast.Try):
                out.add(nd.lineno)
                for b in list(nd.finalbody) + [x for h in nd.handlers for x in [h] + h.body]:
                    out.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(nd, ast.With):
                out.update(range(nd.lineno, nd.body[0].lineno))
            elif isinstance(nd, ast.FunctionDef) and nd.name in ("__enter__", "__exit__", "__del__"):
                out.update(range(nd.lineno, nd.end_lineno + 1))
        _quiet[path] = out
    return _quiet[path]


class Tracer:
    def __init__(self, at=None):
        import ccblade

        self.root = os.path.dirname(os.path.abspath(ccblade.__file__)) + os.sep
        self.at, self.n, self.raised, self.where = at, 0, None, None

    def mine(self, fr):
        return fr.f_code.co_filename.startswith(self.root)

    def __call__(self, fr, event, arg):
        if not self.mine(fr):
            return None
        return self.line

    def line(self, fr, event, arg):
        if event == "line":
            f = fr
            while f is not None:
                if self.mine(f) and f.f_lineno in quiet(f.f_code.co_filename):
                    return self.line
                f = f.f_back
            self.n += 1
            if self.at is not None and self.n >= self.at:
                self.at = None
                self.raised, self.where = Interrupt("interrupted"), "%s:%d" % (os.path.basename(fr.f_code.co_filename), fr.f_lineno)
                raise self.raised
        return self.line

    def run(self, f):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return f()
        finally:
            sys.settrace(old)


class Faulty:
    """an airfoil that can be told to fail at its k-th lookup"""

    def __init__(self, af):
        self.af, self.k, self.exc, self.n = af, None, None, 0

    def _tick(self):
        self.n += 1
        if self.k is not None and self.n >= self.k:
            self.k = None
            raise self.exc

    def evaluate(self, *a, **k):
        self._tick()
        return self.af.evaluate(*a, **k)

    def derivatives(self, *a):
        self._tick()
        return self.af.derivatives(*a)


def gen(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(3, 8)), nSector=4, **(dict(af="syn") if kind in ("twist", "loadscomp", "evalcomp") else {})))
    mk = lambda: G.gen_oper(rng, s, tsr=float(rng.uniform(2, 11)), pitch=float(rng.uniform(-5, 10)))
    os_ = [mk() for _ in range(3)]
    if rng.random() < 0.2:
        os_[int(rng.integers(3))]["Omega"] = 0.0
    return dict(
        kind=kind, rotor=s, opers=os_, deriv=kind == "deriv" or bool(rng.random() < 0.3), how=str(rng.choice(["interrupted", "interrupted", "airfoil", "refused"])) if kind in ROTOR else "interrupted",
        us=[float(x) for x in rng.random(3)], exc=int(rng.integers(6)), polars=[gen_polar(rng, Re=1e6 * (k + 1), full=False, lo=-20.0 - k, hi=25.0 + k, grid="even") for k in range(2)],
        v=[float(x) for x in rng.normal(0, 1, 12)], seed=int(rng.integers(2**31)),
    )


EXC = [lambda: Fault("no data"), lambda: KeyboardInterrupt(), lambda: MemoryError("airfoil"), lambda: FloatingPointError("airfoil"), lambda: OSError("airfoil"), lambda: Interrupt("airfoil")]


def flat(res):
    out = {}
    for part in res:
        for k, v in part.items():
            if isinstance(v, dict):
                out.update({k + "/" + q: np.array(w, float) for q, w in v.items()})
            else:
                out[k] = np.array(v, float)
    return out


def compare(rec, mech, what, A, B):
    if not rec.true(mech, A.keys() == B.keys(), "%s: results %s instead of %s" % (what, sorted(B), sorted(A))):
        return
    for k in A:
        rec.close(mech, "%s: %s" % (what, k), B[k], A[k], 1e-13)


# ---- the uses: setup() gives objects, calls are functions of them ----------------------------------
def rotor_uses(spec):
    s, os_, kind = spec["rotor"], spec["opers"], spec["kind"]
    one = lambda o: (lambda x: flat(loads(x, o)))
    vec = lambda co: (lambda x: flat(x.evaluate(*[[o[k] for o in os_[:2]] for k in ("U", "Omega", "pitch")], coefficients=co)))

    def inverse(o):
        def f(x):
            x.inverse_analysis = True
            x.alpha, x.cl, x.cd = np.full(len(s["r"]), 0.08), np.full(len(s["r"]), 0.9), np.full(len(s["r"]), 0.012)
            try:
                out = flat(loads(x, dict(o, Omega=o["Omega"] or 5.0)))
                out["theta"] = np.array(x.theta)
                return out
            finally:
                # what a caller does who wants to go on with the rotor: back to the forward analysis with its own twist
                x.inverse_analysis = False
                x.theta = np.radians(np.array(s["theta"]))
                for k in ("alpha", "cl", "cd"):
                    delattr(x, k)

        return f

    if kind == "loads" or kind == "deriv":
        main = one(os_[0])
    elif kind == "eval":
        main = vec(False)
    elif kind == "coeff":
        main = vec(True)
    else:
        main = inverse(os_[0])
    after = [main, one(os_[2]), vec(True), one(os_[0])]
    return main, after


def build(spec):
    s = spec["rotor"]
    fs = {}
    afs = [fs.setdefault(repr(p), Faulty(G.build_airfoil(p))) for p in s["af"]]
    return G.build_rotor(s, derivatives=spec["deriv"], af=afs), list(fs.values())


REFUSED = [
    lambda x, o, n: x.distributedAeroLoads(np.linspace(5, 9, n + 1), o["Omega"], o["pitch"], o["azimuth"]),
    lambda x, o, n: x.evaluate([o["U"], o["U"] + 1, o["U"] + 2], [o["Omega"]], [o["pitch"], 0.0]),
    lambda x, o, n: x.evaluate([o["U"], "x"], [o["Omega"], 3.0], [0.0, 0.0]),
    lambda x, o, n: x.distributedAeroLoads(o["U"], o["Omega"], None, o["azimuth"]),
    lambda x, o, n: x.distributedAeroLoads(o["U"], o["Omega"], o["pitch"], "north"),
    lambda x, o, n: x.evaluate([o["U"], o["U"]], [o["Omega"], o["Omega"]], [o["pitch"], None], coefficients=True),
]


def check(spec, rec):
    kind = spec["kind"]
    if kind in ROTOR:
        case_rotor(spec, rec)
    elif kind in ("airfoil", "prepare", "vector"):
        case_objects(spec, rec)
    else:
        case_component(spec, rec)
    rec.seen(kind, spec["how"], spec["deriv"])


def fail(rec, how, f, raised):
    """run f, which has been made to fail; the failure has to come out as it was raised"""
    try:
        f()
    except BaseException as e:
        want = raised()
        if want is None:
            raise
        rec.true("exception passes", e is want, "%r came out instead of the exception %r raised inside" % (e, want))
        rec.ok("failure: " + how)
        return True
    want = raised()
    if want is not None:
        rec.bad("exception passes", "%r was raised inside and swallowed" % want)
        return True
    return False


def interrupt(rec, f_fresh, f, u):
    """interrupt f at a random line out of those executed by a whole run"""
    t = Tracer()
    t.run(f_fresh)
    if not t.n:
        return False
    t2 = Tracer(1 + int(u * t.n))
    done = fail(rec, "interrupted", lambda: t2.run(f), lambda: t2.raised)
    rec.seen("at", t2.where)
    return done


def case_rotor(spec, rec):
    s, os_, how = spec["rotor"], spec["opers"], spec["how"]
    main, after = rotor_uses(spec)
    want = [f(build(spec)[0]) for f in after]
    before = state()
    ro, afs = build(spec)
    raw = loads(ro, os_[1])
    first = flat(raw)
    failed = False
    for u in spec["us"]:
        if how == "interrupted":
            fresh = build(spec)[0]
            failed |= interrupt(rec, lambda: main(fresh), lambda: main(ro), u)
        elif how == "airfoil":
            r2, a2 = build(spec)
            main(r2)
            total = sum(a.n for a in a2)
            a = afs[int(u * len(afs))]
            a.n, a.k, a.exc = 0, 1 + int(u * total / len(afs)), EXC[spec["exc"]]()
            exc, k0 = a.exc, a.k
            fired = lambda: exc if a.k is None else None
            failed |= fail(rec, "airfoil", lambda: main(ro), fired)
            a.k = None
        else:
            f = REFUSED[int(u * len(REFUSED))]
            try:
                f(ro, os_[0], len(s["r"]))
            except Exception:
                failed = True
                rec.ok("failure: refused")
        for j, (g, w) in enumerate(zip(after, want)):
            compare(rec, "answer", "after a failed %s (%s), answer %d" % (spec["kind"], how, j), w, g(ro))
    now = flat(raw)
    for k in first:
        rec.same("earlier result", "%s of a result obtained before the failure" % k, now[k], first[k])
    judge_state(rec, before)
    rec.ok("kind:" + spec["kind"])
    rec.nontrivial = failed
    rec.sample = dict(how=how, failed=failed, kind=spec["kind"])


def judge_state(rec, before):
    now = state()
    for q in before:
        rec.true("process state", before[q] == now[q], "%s changed from %r to %r" % (q, before[q], now[q]))


def case_objects(spec, rec):
    from ccblade.airfoilprep import Airfoil
    from ccblade.ccblade import CCAirfoil
    from ccblade.csystem import DirectionVector

    kind = spec["kind"]
    q, v = spec["polars"], spec["v"]
    if kind == "airfoil":
        def new():
            return CCAirfoil(*G.airfoil_arrays(spec["rotor"]["af"][-1])[:4], cm=G.airfoil_arrays(spec["rotor"]["af"][-1])[4])

        x = np.linspace(-60.0, 60.0, 121)

        def un(a):
            a.eval_unsteady(x, 0.1 * np.clip(x, -12, 15) - 0.02 * np.sign(x) * np.maximum(np.abs(x) - 15, 0), 0.01 + 1e-4 * x * x, -0.05 - 0.002 * np.maximum(x - 10, 0) - 0.001 * np.maximum(-x - 12, 0))
            return {k: np.array(w, float) for k, w in a.unsteady.items() if not isinstance(w, str)}

        def stored(u):
            """coefficients kept on the airfoil: those of the last call that completed"""
            a, data = new(), (x, 0.11 * np.clip(x, -11, 14) - 0.02 * np.sign(x) * np.maximum(np.abs(x) - 14, 0), 0.012 + 1e-4 * x * x, -0.04 - 0.002 * np.maximum(x - 9, 0) - 0.001 * np.maximum(-x - 11, 0))
            look = lambda a: {k: w if isinstance(w, str) else np.array(w, float) for k, w in a.unsteady.items()}
            un(a)
            old = look(a)
            f2 = new()
            un(f2)
            f2.eval_unsteady(*data)
            whole = look(f2)
            bad = (x, data[1], data[2], data[3][: int(u * 100)])
            try:
                a.eval_unsteady(*bad)
            except Exception:
                pass
            else:
                return
            got = [look(a)]
            interrupt(rec, lambda: f2.eval_unsteady(*data), lambda: a.eval_unsteady(*data), u)
            got.append(look(a))
            for g in got:
                same = lambda p, q: p.keys() == q.keys() and all(np.array_equal(p[k], q[k]) for k in p)
                rec.true("stored", same(g, old) or same(g, whole), "unsteady coefficients kept on the airfoil are neither those before nor those after a call that failed")

        num = lambda f: (lambda a: {"v": np.array([float(np.ravel(t)[0]) for t in f(a)])})
        uses = [num(lambda a: a.max_eff(2e6)), num(lambda a: a.awayfromstall(2e6, 4.0)), num(lambda a: a.evaluate(0.1, 2e6, return_cm=True)), num(lambda a: a.derivatives(0.1, 2e6)), un]
    elif kind == "prepare":
        def new():
            return Airfoil([make(p) for p in q])

        snap = lambda A: {"p%d.%d" % (i, j): np.array(t, float) for i, p in enumerate(A.polars) for j, t in enumerate(snapshot(p))}
        B = lambda: Airfoil([make(q[1])])
        uses = [
            lambda A: snap(A.correction3D(0.4, 0.1, 7.0)), lambda A: snap(A.extrapolate(1.4)), lambda A: snap(A.blend(B(), 0.3)), lambda A: snap(A.interpToCommonAlpha()),
            lambda A: {"p": np.array(snapshot(A.getPolar(1.5e6))[1], float)}, lambda A: {"u": np.array(A.polars[0].unsteadyparam(), float)}, lambda A: {str(i): np.array(t, float) for i, t in enumerate(A.createDataGrid())}, snap,
        ]
    else:
        def new():
            return DirectionVector(np.array(v[0:3]), np.array(v[3:6]), np.array(v[6:9]))

        xyz = lambda w: {"x": np.array(w.x, float), "y": np.array(w.y, float), "z": np.array(w.z, float)}
        chain = lambda d: d.windToYaw(v[9]).yawToHub(v[10]).hubToAzimuth(v[11]).azimuthToBlade(v[0])
        uses = [lambda d: xyz(chain(d)), lambda d: xyz(d.cross(chain(d))), lambda d: xyz(d + chain(d)), lambda d: xyz(d.bladeToAzimuth(3.0).azimuthToHub(v[11]).hubToYaw(v[10]).yawToWind(v[9])), xyz, lambda d: xyz(-d * 2.0), lambda d: {"a": np.array(d.toArray(), float)}]
    want = [f(new()) for f in uses]
    before = state()
    obj = new()
    failed = False
    for u in spec["us"]:
        if kind == "airfoil":
            stored(u)
        f = uses[int(u * 7919) % len(uses)]
        fresh = new()
        failed |= interrupt(rec, lambda: f(fresh), lambda: f(obj), (u * 104729) % 1)
        for j, (g, w) in enumerate(zip(uses, want)):
            compare(rec, "answer", "%s after a failure, answer %d" % (kind, j), w, g(obj))
    judge_state(rec, before)
    rec.ok("kind:" + kind)
    rec.nontrivial = failed
    rec.sample = dict(kind=kind, failed=failed)


def component(spec):
    """a function that makes a fresh problem with the inputs of the case, and its outputs"""
    from . import omtools as O, p23

    rng = np.random.default_rng(spec["seed"])
    if spec["kind"] == "twist":
        c = p23.gen(rng, 1, "quick")
        c.update(inn=False, both=False)

        def new():
            p, *_ = p23.build(c, False, False)
            p23.feed(p, c, c["cases"][0])
            return p

        return new, ["theta", "Px_b", "Py_b", "Px_af", "Py_af", "cl", "cd", "a", "ap", "alpha", "CP", "CM"]
    from ccblade.ccblade_component import CCBladeEvaluate, CCBladeLoads

    ev = spec["kind"] == "evalcomp"
    s, o = dict(spec["rotor"]), spec["opers"][0]
    n = len(s["r"])
    for k in ("precurve", "presweep"):
        s[k] = s[k] or [0.0] * n
    afs = O.polars(rng, n)
    al, Re, cl, cd, cm = O.stack(afs, 1, 0, spec["seed"])

    def new():
        p = O.problem((CCBladeEvaluate if ev else CCBladeLoads)(modeling_options=O.modeling(n, len(al), len(Re), 1)))
        p.set_val("airfoils_aoa", al, units="deg")
        for k, v in (("Re", Re), ("cl", cl), ("cd", cd), ("cm", cm)):
            p.set_val("airfoils_" + k, v)
        v = dict(V_load=o["U"], Omega_load=o["Omega"] or 8.0, pitch_load=o["pitch"], hub_height=s["hubHt"])
        if not ev:
            v["azimuth_load"] = o["azimuth"]
        for k in ("r", "chord", "theta", "Rhub", "Rtip", "precone", "tilt", "yaw", "shearExp", "precurve", "precurveTip", "rho", "mu") + (("presweep", "presweepTip") if ev else ()):
            v[k] = s[k]
        for k in v:
            p.set_val(k, v[k])
        for k, q in (("nBlades", "B"), ("nSector", "nSector"), ("tiploss", "tiploss"), ("hubloss", "hubloss"), ("wakerotation", "wakerotation"), ("usecd", "usecd")):
            p.set_val(k, s[q])
        return p

    return new, ["P", "Mb", "Fhub", "Mhub", "CP", "CMb", "CFhub", "CMhub"] if ev else ["loads_Px", "loads_Py", "loads_Pz", "loads_r"]


def case_component(spec, rec):
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="ccv_p31_")
    cwd = os.getcwd()
    os.environ["OPENMDAO_WORKDIR"] = d
    try:
        os.chdir(d)
        new, outs = component(spec)

        def run(p):
            p.run_model()
            return {k: np.array(p.get_val(k), float) for k in outs}

        want = run(new())
        p = new()
        before = state()
        failed = False
        for u in spec["us"][:2]:
            t = Tracer()
            t.run(new().run_model)
            t2 = Tracer(1 + int(u * t.n))
            failed |= fail(rec, "interrupted", lambda: t2.run(p.run_model), lambda: t2.raised)
            rec.seen("at", t2.where)
            compare(rec, "answer", "%s run again after an interruption at %s" % (spec["kind"], t2.where), want, run(p))
        judge_state(rec, before)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    rec.ok("kind:" + spec["kind"])
    rec.nontrivial = failed
    rec.sample = dict(kind=spec["kind"], failed=failed)
