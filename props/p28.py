"""Blade sections are analysed independently: a station's loads do not depend on other stations' chord, twist, polar or presence."""
from .common import *

QUICK, THOROUGH = 8000, 120000
RULE = (
    "random rotors; per case one station's chord, twist and polar are changed, stations are inserted (also right beside another one), removed and the curve of one station is moved, the other stations' loads compared; "
    "non-trivial when the changed station itself did change"
)
MINIMA = {"chord": 2000, "twist": 2000, "polar": 2000, "inserted": 1500, "close": 1500, "removed": 1500, "curve": 2000, "gradient": 400, "iterRe": 500, "changed": 6000}
KEYS = ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")


def strong(rng, p):
    """the polar with a Reynolds dependence that covers the rotor's own Reynolds numbers"""
    k = len(p["Re"])
    return dict(p, Re=[float(v) for v in np.geomspace(2e5, 2e7, k)], eRe=float(rng.uniform(0.03, 0.08)), dRe=float(rng.uniform(0.1, 0.25)))


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(5, 11)), ends=False))
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(2, 11)), pitch=float(rng.uniform(-4, 12)))
    if idx % 15 == 0:
        o["Omega"] = 0.0
    n = len(s["r"])
    if idx % 3 == 0:  # Reynolds-dependent polars, evaluated with the Reynolds number of the section itself
        s["iterRe"] = int(rng.choice([1, 2, 3]))
        pool = [strong(rng, G.syn_airfoil(rng, nRe=int(rng.integers(2, 5)))) for _ in range(int(rng.integers(1, 3)))]
        s["af"] = [pool[int(k)] for k in rng.integers(0, len(pool), n)]
    i = int(rng.integers(0, n))
    return dict(rotor=s, oper=o, i=i, f=float(rng.choice([0.5, 0.9, 1.1, 1.6])), dt=float(rng.choice([-2, -0.5, 1, 3])), af=G.syn_airfoil(rng), t=float(rng.uniform(0.2, 0.8)), j=int(rng.integers(0, n - 1)), dc=float(rng.uniform(0.002, 0.01)), deriv=idx % 5 == 0, near=float(10 ** rng.uniform(-6, -3)))


def check(spec, rec):
    s, o, i = spec["rotor"], spec["oper"], spec["i"]
    n = len(s["r"])
    Vx, Vy = inflow(s, G.build_rotor(s), o)
    W0 = np.hypot(Vx, Vy)
    if np.any(Vx < 0.02 * W0) or (o["Omega"] and np.any(Vy < 0.02 * W0)):
        raise Stop()
    afs = [G.build_airfoil(p) for p in s["af"]]
    new = G.build_airfoil(spec["af"])
    run = lambda q, af, d=False: loads(G.build_rotor(q, af=af, derivatives=d), o)
    L, _ = run(s, afs)
    moved = 0

    def others(mech, what, M, mine, theirs, tol=1e-12):
        for k in KEYS:
            A, B = np.asarray(L[k])[mine], np.asarray(M[k])[theirs]
            rec.close(mech, "%s: %s of the other stations" % (what, k), B, A, tol, scale=np.maximum(np.abs(L[k]).max(), 1e-12))

    rest = [k for k in range(n) if k != i]
    for mech, q, af in (
        ("chord", dict(s, chord=[c * (spec["f"] if k == i else 1) for k, c in enumerate(s["chord"])]), afs),
        ("twist", dict(s, theta=[c + (spec["dt"] if k == i else 0) for k, c in enumerate(s["theta"])]), afs),
        ("polar", s, [new if k == i else a for k, a in enumerate(afs)]),
    ):
        M, _ = run(q, af)
        others(mech, "%s of station %d changed" % (mech, i), M, rest, rest)
        if np.abs(M["Np"][i] - L["Np"][i]) > 1e-9 * np.abs(L["Np"]).max():
            moved += 1
            rec.ok("changed")
    # the curve of one station reaches its neighbours only
    pc = [0.0] * n if s["precurve"] is None else list(s["precurve"])
    tip = s["precurveTip"] if s["precurve"] is not None else 0.0
    ps = [0.0] * n if s["presweep"] is None else list(s["presweep"])
    ps = dict(presweep=ps, presweepTip=s["presweepTip"] + (1e-3 if ps[-1] == s["presweepTip"] else 0))
    c0 = dict(s, precurve=pc, precurveTip=tip + 0.02 * s["Rtip"], **ps)
    c1 = dict(c0, precurve=[v + (spec["dc"] * s["Rtip"] if k == i else 0) for k, v in enumerate(pc)])
    c2 = dict(c0, presweep=[v + (spec["dc"] * s["Rtip"] if k == i else 0) for k, v in enumerate(ps["presweep"])])
    L, _ = run(c0, afs)
    far = [k for k in range(n) if abs(k - i) > 1]
    others("curve", "curve of station %d changed" % i, run(c1, afs)[0], far, far)
    others("curve", "sweep of station %d changed" % i, run(c2, afs)[0], rest, rest)
    # more or fewer stations on a straight blade
    st = dict(s, precurve=None, presweep=None, precurveTip=0.0, presweepTip=0.0)
    L, _ = run(st, afs)
    j, t = spec["j"], spec["t"]
    ins = lambda v, x: list(v[: j + 1]) + [x] + list(v[j + 1 :])
    q = dict(st, r=ins(s["r"], (1 - t) * s["r"][j] + t * s["r"][j + 1]), chord=ins(s["chord"], s["chord"][j] * 0.8), theta=ins(s["theta"], s["theta"][j] + 1.0), af=ins(s["af"], s["af"][j]))
    others("inserted", "station inserted after %d" % j, run(q, ins(afs, new))[0], list(range(n)), [k for k in range(n + 1) if k != j + 1], 1e-9)
    # a station right beside another one, with a section of its own
    if spec["near"] * s["Rtip"] < 0.5 * (s["r"][j + 1] - s["r"][j]):
        near = dict(q, r=ins(s["r"], s["r"][j] + spec["near"] * s["Rtip"]))
        M = run(near, ins(afs, new))[0]
        others("close", "station inserted %.2g of the tip radius after %d" % (spec["near"], j), M, list(range(n)), [k for k in range(n + 1) if k != j + 1], 1e-9)
        keep = lambda v: list(v[:j]) + list(v[j + 1 :])
        alone = dict(near, **{k: keep(near[k]) for k in ("r", "chord", "theta", "af")})
        A = run(alone, keep(ins(afs, new)))[0]
        for k in KEYS:
            rec.close("close", "station %.2g of the tip radius after %d: %s without that one" % (spec["near"], j, k), M[k][j + 1], A[k][j], 1e-9, scale=max(np.abs(A[k]).max(), 1e-12))
    cut = lambda v: [x for k, x in enumerate(v) if k != i]
    q = dict(st, **{k: cut(s[k]) for k in ("r", "chord", "theta", "af")})
    others("removed", "station %d removed" % i, run(q, cut(afs))[0], rest, list(range(n - 1)), 1e-9)
    if spec["deriv"] and s["iterRe"] == 1:
        D = run(st, afs, True)[1]
        for q in ("dNp", "dTp"):
            for k in ("dchord", "dtheta"):
                A = np.asarray(D[q][k])
                rec.true("gradient", A.shape == (n, n) and np.all(A[~np.eye(n, dtype=bool)] == 0), "%s/%s has entries between different stations" % (q, k))
    if s["iterRe"] > 1:
        rec.ok("iterRe")
    rec.nontrivial = moved >= 2
    rec.seen(n, i, flags(s), s["family"], o["Omega"] == 0)
    rec.sample = dict(Np=L["Np"], changed=moved)
