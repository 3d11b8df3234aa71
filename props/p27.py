"""How inputs are passed does not matter: lists, tuples, integers, views, read-only and size-one arrays give the results of float arrays; impossible inputs are refused."""
from .common import *

QUICK, THOROUGH = 1500, 30000
RULE = (
    "random rotors and polars passed as lists, tuples, integer, single-precision-exact, non-contiguous, reversed-view, Fortran-ordered, read-only and size-one arrays against plain float arrays; "
    "rotors with one station, with missing entries and with lists of the wrong length; non-trivial when loads, rotor quantities and gradients were compared"
)
MINIMA = {"same": 15000, "airfoil": 1500, "refused": 1000, "untouched": 1500, "conditions": 1000}
VEC = ("r", "chord", "theta", "precurve", "presweep")
SC = ("Rhub", "Rtip", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "precurveTip", "presweepTip")


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 9)), family="random", ends=bool(idx % 4 == 0), af="syn"))
    whole = bool(idx % 3 == 0)
    if whole:  # inputs that are whole numbers, to be passed as integers
        n = len(s["r"])
        s["Rtip"] = float(int(s["Rtip"]) + 10)
        s["Rhub"] = float(max(1, int(s["Rhub"])))
        lo, hi = s["Rhub"] + (0 if s["r"][0] == s["Rhub"] else 1), s["Rtip"] - (0 if idx % 4 == 0 else 1)
        s["r"] = [float(v) for v in np.unique(np.round(np.linspace(lo, hi, n)))]
        s["chord"] = [float(v) for v in np.maximum(1, np.round(s["chord"]))][: len(s["r"])]
        s["theta"] = [float(round(v)) for v in s["theta"]]
        for k in ("precurve", "presweep"):
            if s[k] is not None:
                s[k] = [float(round(v)) for v in np.linspace(0, 6, len(s["r"]))]
                s[k + "Tip"] = 7.0 if s["r"][-1] < s["Rtip"] else s[k][-1]
        for k in ("precone", "tilt", "yaw"):
            s[k] = float(round(s[k]))
        s["hubHt"] = float(int(s["hubHt"]) + 30)
        s["rho"] = 1.0
    s["iterRe"] = 1
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(3, 10)), pitch=float(rng.uniform(-3, 8)))
    if whole:
        o.update(U=float(int(o["U"]) + 1), Omega=float(int(o["Omega"]) + 1), pitch=float(round(o["pitch"])), azimuth=float(round(o["azimuth"])))
    p = G.syn_airfoil(rng, nRe=int(rng.choice([0, 1, 3])))
    return dict(rotor=s, oper=o, af=p, whole=whole, styles=[str(v) for v in rng.choice(STYLES[: None if whole else -1], 8)], k=int(rng.integers(0, 5)))


def style(v, how):
    v = np.asarray(v, float)
    if how == "list":
        return [float(x) for x in v] if v.ndim == 1 else v.tolist()
    if how == "tuple":
        return tuple(float(x) for x in v) if v.ndim == 1 else tuple(tuple(x) for x in v.tolist())
    if how == "strided":
        w = np.full(v.shape[:-1] + (2 * v.shape[-1],), 99.0)
        w[..., ::2] = v
        return w[..., ::2]
    if how == "reversed":
        return v[::-1].copy()[::-1]
    if how == "fortran":
        return np.asfortranarray(v)
    if how == "readonly":
        w = v.copy()
        w.setflags(write=False)
        return w
    if how == "big":
        return v.astype(">f8")
    if how == "int":
        return v.astype(int) if np.all(v == np.round(v)) else v
    if how == "single":
        return v.astype(np.float32) if np.all(v == v.astype(np.float32)) else v
    return v


STYLES = ["list", "tuple", "strided", "reversed", "fortran", "readonly", "big", "single", "int"]


def scalar(v, how):
    if how in ("strided", "fortran"):
        return np.array([v])  # as OpenMDAO passes them
    if how == "readonly":
        return np.float64(v)
    if how == "int" and v == round(v):
        return int(v)
    return v


def flat(D):
    return {(k, q): np.asarray(v, float) for k in D for q, v in D[k].items()}


def check(spec, rec):
    from ccblade.ccblade import CCAirfoil, CCBlade

    s, o, st = spec["rotor"], spec["oper"], spec["styles"]
    al, Re, cl, cd, cm = [np.asarray(v, float) for v in G.airfoil_arrays(spec["af"])]
    af0 = CCAirfoil(al, Re, cl, cd, cm=cm)
    h = st[0] if st[0] != "int" else "list"
    given = [style(v, h) for v in (al, Re, cl, cd, cm)]
    af1 = CCAirfoil(*given[:4], cm=given[4])
    for a in (-1.1, -0.02, 0.1, 0.4):
        for R in (1e5, 2.3e6):
            x, y = ([float(np.ravel(v)[0]) for v in f.evaluate(a, R, return_cm=True)] for f in (af0, af1))
            rec.close("airfoil", "coefficients with %s data" % h, y, x, 1e-13, 1e-15)
    n = len(s["r"])

    af2, af3 = CCAirfoil(al, Re, 0.9 * cl, 1.1 * cd, cm=cm), CCAirfoil(al, Re, 0.8 * cl, 1.3 * cd, cm=cm)
    flag = (bool, np.bool_, int)[spec["k"] % 3]

    def rotor(how, sc, af, deriv):
        v = {k: (None if s[k] is None else style(s[k], how[i % len(how)])) for i, k in enumerate(VEC)}
        keep = {k: (None if x is None else np.array(x, copy=True)) for k, x in v.items()}
        q = {k: scalar(s[k], sc) for k in SC}
        ro = CCBlade(
            v["r"], v["chord"], v["theta"], af, q["Rhub"], q["Rtip"], s["B"], q["rho"], q["mu"], q["precone"], q["tilt"], q["yaw"], q["shearExp"], q["hubHt"], s["nSector"], v["precurve"], q["precurveTip"], v["presweep"],
            q["presweepTip"], flag(s["tiploss"]), flag(s["hubloss"]), flag(s["wakerotation"]), flag(s["usecd"]), s["iterRe"], derivatives=flag(deriv),
        )
        return ro, v, keep

    afs = lambda a: [(a, af2, af3)[(i * i + spec["k"]) % 3] for i in range(n)]
    plain, _, _ = rotor(["float"], "float", afs(af0), True)
    L0, D0 = loads(plain, o)
    E0, F0 = plain.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=True)
    other, v, keep = rotor(st[1:6], st[6], (afs(af1), tuple(afs(af1)), np.array(afs(af1), dtype=object))[spec["k"] % 3], True)
    w = lambda x: scalar(x, "int" if spec["whole"] and spec["k"] % 2 else "readonly")
    L1, D1 = other.distributedAeroLoads(w(o["U"]), w(o["Omega"]), w(o["pitch"]), w(o["azimuth"]))
    how = st[7]
    c = lambda x: style([x], how)
    E1, F1 = other.evaluate(c(o["U"]), c(o["Omega"]), c(o["pitch"]), coefficients=True)
    what = "%s/%s/%s" % (st[1:6], st[6], how)
    tot = max(np.abs(L0["Np"]).max(), np.abs(L0["Tp"]).max())
    for k in L0:
        rec.close("same", "%s with inputs as %s" % (k, what), L1[k], L0[k], 1e-11)
    for k in E0:
        rec.close("same", "%s with inputs as %s" % (k, what), E1[k], E0[k], 1e-10, scale=np.maximum(np.max(np.abs(E0[k])), 1e-9))
    A, B = {**flat(D0), **flat(F0)}, {**flat(D1), **flat(F1)}
    rec.true("same", A.keys() == B.keys(), "other gradients returned")
    for k in A:
        if k in B:
            big = np.max(np.abs(A[k])) if A[k].size else 0.0
            rec.close("same", "%s/%s with inputs as %s" % (k[0], k[1], what), B[k], A[k], 1e-8, 1e-9 * max(tot, 1e-9) if k[0][1] not in "C" else 1e-9, scale=big)
    for k in VEC:
        if v[k] is not None:
            rec.true("untouched", np.array_equal(np.array(v[k], float), np.array(keep[k], float)), "%s was changed by the rotor" % k)
    # several conditions at once, in any container
    E2, _ = other.evaluate(style([o["U"], o["U"] + 1], how), style([o["Omega"]] * 2, how), style([o["pitch"]] * 2, how))
    for k in ("T", "Q", "P"):
        rec.close("conditions", k, E2[k][:1], E0[k], 1e-10)
    # each condition in a form of its own: whole numbers in small types beside full-precision ones
    kind = ["int8", "uint8", "int16", "int32", "float16", "float32", "object"][(spec["k"] + int(o["U"])) % 7]
    pick = ("U", "Omega", "pitch")[int(1e3 * s["Rtip"]) % 3]
    q = dict(U=[o["U"], o["U"] + 1.25], Omega=[o["Omega"] + 1 / 3, o["Omega"] + 0.7], pitch=[o["pitch"] + 0.1234567, o["pitch"] - 1 / 7])
    q[pick] = [float(min(100, max(1, round(x)))) for x in q[pick]]
    E3, _ = other.evaluate(q["U"], q["Omega"], q["pitch"], coefficients=True)
    q[pick] = np.array([int(x) for x in q[pick]] if kind == "object" else q[pick], dtype=kind)
    E4, _ = other.evaluate(q["U"], q["Omega"], q["pitch"], coefficients=True)
    for k in E3:
        rec.close("conditions", "%s with %s as %s" % (k, pick, kind), E4[k], E3[k], 1e-10, scale=np.maximum(np.max(np.abs(E3[k])), 1e-9))
    refused(spec, rec, CCBlade, af0)
    rec.nontrivial = True
    rec.seen(spec["whole"], st[1], st[6], st[7])
    rec.sample = dict(how=what)


def refused(spec, rec, CCBlade, af):
    s, o, k = spec["rotor"], spec["oper"], spec["k"]
    n = len(s["r"])
    base = dict(r=list(s["r"]), chord=list(s["chord"]), theta=list(s["theta"]), af=[af] * n, precurve=s["precurve"], presweep=s["presweep"])
    bad = [
        ("one station", {q: (v[:1] if v is not None else None) for q, v in base.items()}),
        ("no station", {q: ([] if v is not None else None) for q, v in base.items()}),
        ("chord missing", dict(base, chord=base["chord"][:-1])),
        ("twist missing", dict(base, theta=base["theta"][:-1])),
        ("airfoil missing", dict(base, af=base["af"][:-1])),
        ("precurve missing", dict(base, precurve=[0.0] * (n - 1))),
        ("presweep missing", dict(base, presweep=[0.0] * (n - 1))),
        ("precurve too long", dict(base, precurve=[0.0] * (n + 1))),
    ]
    for name, q in (bad[k], bad[(k + 4) % len(bad)]):
        try:
            ro = CCBlade(q["r"], q["chord"], q["theta"], q["af"], s["Rhub"], s["Rtip"], s["B"], precurve=q["precurve"], presweep=q["presweep"], precurveTip=1.0, presweepTip=1.0, hubHt=s["hubHt"])
            L = loads(ro, o)[0]
            ro.evaluate([o["U"]], [o["Omega"]], [o["pitch"]])
        except Exception:
            rec.ok("refused")
            continue
        rec.bad("refused", "%s was accepted and gave %s" % (name, L["Np"]))
