"""Gradients of the distributed loads equal the change of the loads themselves."""
from .common import *
from .fd import Settle, ladder

QUICK, THOROUGH = 1200, 10000
RULE = (
    "random rotors with gradients on (explicit curve and sweep arrays, stations off the hub and the tip, angles, shear, all option flags, "
    "Reynolds-dependent and independent polars), each input perturbed over a ladder of steps and the loads re-solved; entries where the "
    "ladder itself does not converge (kinks of the model, roundoff) are counted as undecided; non-trivial when >= 80 % of the entries were decided"
)
MINIMA = {"entry decided": 20000, "states": 40, "off-diagonal decided": 500}
SCAL = ["Rhub", "Rtip", "precone", "tilt", "hubHt", "yaw", "shear", "azimuth", "Uinf", "Omega", "pitch"]
VEC = ["r", "chord", "theta", "precurve", "presweep"]
SPEC = dict(shear="shearExp")


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 8)), ends=False, curve=False, sweep=False))
    R = s["Rtip"]
    x = (np.array(s["r"]) - s["Rhub"]) / (R - s["Rhub"])
    for k in ("precurve", "presweep"):
        f = float(rng.choice([0.0, 0.02, 0.06])) * float(rng.choice([-1, 1]))
        s[k] = [float(v) for v in R * f * x ** 2]
        s[k + "Tip"] = float(R * f) if f else float(R * 1e-3)  # the tip differs from the last station
    raise_hub(s)
    lo, hi = [(2.5, 6), (4, 9), (7, 12)][idx % 3]
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(lo, hi)), pitch=float(rng.uniform(-2, 12)))
    if idx % 11 == 0:
        o["Omega"] = 0.0
    if idx % 6 == 1:  # one section far from the others, at any angle of attack
        s["theta"][int(rng.integers(0, len(s["r"])))] += float(rng.choice([-1, 1]) * rng.uniform(40, 170))
    if idx % 6 == 4:
        o["pitch"] = float(rng.uniform(-180, 180))
    return dict(rotor=s, oper=o)


def step(v, s, o):
    R = s["Rtip"]
    return dict(
        r=1e-4 * R, chord=1e-4 * max(s["chord"]), theta=1e-2, precurve=1e-4 * R, presweep=1e-4 * R, Rhub=1e-3 * s["Rhub"], Rtip=1e-5 * R, precone=1e-2,
        tilt=1e-2, hubHt=1e-3 * R, yaw=1e-2, shear=1e-3, azimuth=1e-2, Uinf=1e-3 * o["U"], Omega=1e-3 * max(abs(o["Omega"]), 1e-3), pitch=1e-2,
    )[v]


def perturbed(s, o, v, d, j=None):
    s, o = dict(s), dict(o)
    if j is not None:
        a = list(s[v])
        a[j] += d
        s[v] = a
    elif v in ("Uinf", "Omega", "pitch", "azimuth"):
        k = "U" if v == "Uinf" else v
        o[k] += d
    else:
        s[SPEC.get(v, v)] += d
    return s, o


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    ro = G.build_rotor(s, derivatives=True)
    L, D = loads(ro, o)
    Vx, Vy = inflow(s, ro, o)
    W0 = np.hypot(Vx, Vy)
    parked = o["Omega"] == 0.0
    if not parked and (np.any(Vx < 0.02 * W0) or np.any(Vy < 0.02 * W0)):
        raise Stop()
    n = len(s["r"])
    q0 = np.array([L["Np"], L["Tp"]])
    scale = np.abs(q0).max(axis=1)  # 2

    def f(v, d, j=None):
        s2, o2 = perturbed(s, o, v, d, j)
        Ls, _ = loads(G.build_rotor(s2), o2)
        return np.array([Ls["Np"], Ls["Tp"]])

    tot = dec = 0
    for v in SCAL + VEC:
        h = step(v, s, o)
        if v == "Omega" and parked:
            continue  # the parked model differs from the rotating one
        for q, nm in ((0, "dNp"), (1, "dTp")):
            a = np.asarray(D[nm]["d" + v])
            want = (n, n) if v in VEC else (n, 1)
            rec.true("shape", a.shape == want, "%s/d%s has shape %s instead of %s" % (nm, v, a.shape, want))
        for j in range(n) if v in VEC else [None]:
            fd, err = ladder(lambda d: f(v, d, j), h)
            settle = Settle(lambda d: f(v, d, j), h)
            for q, nm in ((0, "dNp"), (1, "dTp")):
                an = np.asarray(D[nm]["d" + v])
                an = an[:, 0] if j is None else an[:, j]
                for i in range(n):
                    g, w, e = an[i], fd[q][i], err[q][i]
                    floor = 2e-6 * scale[q] / (h * 100)  # negligible against the load over a 100-step change
                    tol = 1e-4 * abs(w) + 4 * e + floor
                    tot += 1
                    if not np.isfinite(e) or e > 2e-3 * abs(w) + floor:
                        rec.ok("entry undecided")
                        if not np.isfinite(g):
                            rec.bad("finite", "%s/d%s[%d] is %r" % (nm, v, i, g))
                        continue
                    dec += 1
                    if j is not None and i != j:
                        rec.ok("off-diagonal decided")
                    rec.worst("err:d" + v, abs(g - w) / (abs(w) + floor))
                    if not abs(g - w) <= tol:
                        if settle.agrees(g, lambda d: d[q][i], scale[q], w):
                            rec.ok("entry next to a kink")
                            continue
                        off = "" if j is None or i == j else " off-diagonal"
                        rec.bad("gradient d%s%s" % (v, off), "%s/d%s[%s]: %.8g, the load itself changes by %.8g (+- %.2g)" % (nm, v, i if j is None else (i, j), g, w, e), var=v, i=i, j=j)
    rec.ok("entry decided", dec)
    rec.nontrivial = dec >= 0.8 * tot
    if parked:
        rec.ok("parked")
    rec.seen(flags(s), s["family"], "parked%d" % parked, "cone%d" % (s["precone"] != 0), "curve%d" % (max(map(abs, s["precurve"])) > 0))
    rec.sample = dict(Np=L["Np"], decided=dec, of=tot)
