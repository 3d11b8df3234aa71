"""Copies of rotors, airfoils, polars and vectors (deep copies, pickles, other processes) behave like the original and are independent of it."""
import copy
import multiprocessing as mp
import pickle

from .common import *
from .polars import compare, gen_polar, make, snapshot

QUICK, THOROUGH = 700, 12000
RULE = (
    "random rotors copied before and after use by copy.deepcopy and by pickles of every protocol, sent to another process, and modified through their attributes; the same for airfoils, polars, airfoil collections and direction vectors; "
    "non-trivial when loads, rotor quantities and gradients of copy and original were compared"
)
MINIMA = {"rotor copy": 3000, "airfoil copy": 3000, "polar copy": 1000, "vector copy": 700, "independent": 1000, "process": 20}


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 9))))
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(3, 10)), pitch=float(rng.uniform(-3, 8)))
    return dict(rotor=s, oper=o, deriv=bool(rng.random() < 0.5) and s["iterRe"] == 1, proto=int(rng.integers(0, pickle.HIGHEST_PROTOCOL + 1)), used=bool(rng.random() < 0.5), polars=[gen_polar(rng, Re=1e6 * (k + 1)) for k in range(2)], v=[float(x) for x in rng.normal(0, 1, 3)], ang=float(rng.uniform(-90, 90)), proc=idx % 20 == 0)


OTHER = dict(kind="cyl", cd=0.7)


def answer(ro, o):
    L, D = loads(ro, o)
    E, F = ro.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=True)
    out = {"L" + k: np.array(v) for k, v in L.items()}
    out.update({"E" + k: np.array(v) for k, v in E.items()})
    for T in (D, F):
        for k in T:
            for q in T[k]:
                out[k + q] = np.array(T[k][q])
    return out


def eq(rec, mech, what, A, B):
    if not rec.true(mech, A.keys() == B.keys(), "%s: other results" % what):
        return
    for k in A:
        rec.same(mech, "%s: %s" % (what, k), B[k], A[k])


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil
    from ccblade.csystem import DirectionVector

    s, o = spec["rotor"], spec["oper"]
    ways = [("deep copy", copy.deepcopy), ("pickle %d" % spec["proto"], lambda x: pickle.loads(pickle.dumps(x, spec["proto"])))]
    ro = G.build_rotor(s, derivatives=spec["deriv"])
    ref_ = answer(G.build_rotor(s, derivatives=spec["deriv"]), o)
    if spec["used"]:
        answer(ro, dict(o, U=o["U"] * 1.3, pitch=o["pitch"] + 1))
    for name, f in ways:
        c = f(ro)
        eq(rec, "rotor copy", name, ref_, answer(c, o))
        # changing the copy leaves the original alone
        c.chord = np.asarray(c.chord) * 1.2
        np.asarray(c.theta)[:] += 0.05
        np.asarray(c.r)[:] *= 1.0 + 1e-3
        if isinstance(c.af, list):
            c.af[:] = [c.af[-1]] + c.af[:-1]
            c.af[0] = G.build_airfoil(OTHER, cache=False)
        if isinstance(getattr(c.af[-1], "use_cm", None), bool):
            c.af[-1].use_cm = not c.af[-1].use_cm
        for k, v in list(vars(c).items()):
            if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable and k not in ("r", "chord", "theta"):
                v *= 1.01
            elif isinstance(v, dict):
                v.clear()
            elif isinstance(v, list) and k != "af":
                v.clear()
        eq(rec, "independent", "original after its %s changed" % name, ref_, answer(ro, o))
    af = ro.af[0]
    for name, f in ways:
        c = f(af)
        for a, R in ((0.1, 1e6), (-0.4, 3e5), (1.2, 8e6)):
            rec.same("airfoil copy", name, np.array(c.evaluate(a, R)), np.array(af.evaluate(a, R)))
            rec.same("airfoil copy", name + " derivatives", np.array(c.derivatives(a, R), float), np.array(af.derivatives(a, R), float))
        before = {k: np.array(v, copy=True) for k, v in vars(af).items() if isinstance(v, (list, str, bool, float, np.ndarray))}
        c = f(af)
        x = np.linspace(-30.0, 30.0, 61)
        c.eval_unsteady(x, 0.1 * x, 0.01 + 1e-4 * x * x, -0.001 * np.abs(x) - 1e-5 * x**2)
        c.x, c.y, c.AFName, c.ctrl, c.use_cm = [0.5, 1.0], [0.1, 0.0], "other", 3.0, False
        np.asarray(c.alpha)[:] *= 0.5
        rec.true("independent", vars(af).keys() >= before.keys() and not hasattr(af, "unsteady") and not hasattr(af, "ctrl"), "airfoil got what was set on its %s" % name)
        rec.true("independent", all(np.array_equal(np.array(getattr(af, k)), v) for k, v in before.items()), "airfoil changed by its %s" % name)
    ps = [make(p) for p in spec["polars"]]
    for name, f in ways:
        for p, q in zip(ps, spec["polars"]):
            c = f(p)
            rec.true("polar copy", all(np.array_equal(x, y) for x, y in zip(snapshot(c), snapshot(p))), "%s of a polar" % name)
            np.asarray(c.cl)[:] += 1.0
            rec.true("independent", np.array_equal(p.cl, q["cl"]), "polar changed by its %s" % name)
        A = f(Airfoil(ps))
        rec.true("polar copy", all(np.array_equal(x, y) for a, b in zip(A.polars, Airfoil(ps).polars) for x, y in zip(snapshot(a), snapshot(b))), "%s of an airfoil" % name)
        d = DirectionVector(*spec["v"])
        c = f(d)
        for k in ("yawToWind", "hubToAzimuth", "azimuthToBlade"):
            x, y = getattr(d, k)(spec["ang"]), getattr(c, k)(spec["ang"])
            rec.same("vector copy", "%s %s" % (name, k), np.array([y.x, y.y, y.z]), np.array([x.x, x.y, x.z]))
    if spec["proc"]:
        ctx = mp.get_context("fork")
        a, b = ctx.Pipe()
        p = ctx.Process(target=child, args=(b, o))
        p.start()
        b.close()
        a.send(ro)
        got = a.recv() if a.poll(60) else None
        p.join(10)
        if rec.true("process", got is not None, "no answer of another process"):
            eq(rec, "process", "in another process", ref_, got)
    rec.nontrivial = True
    rec.seen(spec["proto"], spec["used"], spec["deriv"], flags(s))
    rec.sample = dict(T=ref_["ET"], keys=len(ref_))


def child(conn, o):
    import os

    ro = conn.recv()
    conn.send(answer(ro, o))
    conn.close()
    os._exit(0)
