"""Gradients of the rotor quantities and coefficients equal the change of the quantities themselves."""
from .common import *
from .fd import Settle, ladder
from . import p07

QUICK, THOROUGH = 600, 6000
RULE = (
    "random rotors with gradients and coefficients on (curve, sweep and their tips, angles, shear, 1-8 sectors, all flags), 1-2 conditions; each input "
    "is perturbed over a ladder of steps and the whole rotor re-evaluated; entries where the ladder does not converge are undecided; non-trivial when "
    ">= 80 % of the entries were decided"
)
MINIMA = {"entry decided": 20000, "states": 20, "zero quantity": 5, "single sector": 8}
Q = ("T", "Y", "Z", "Q", "P", "My", "Mz", "Mb")
SCAL = [v for v in p07.SCAL if v != "azimuth"] + ["precurveTip", "presweepTip"]
VEC = p07.VEC


def gen(rng, idx, tier):
    c = p07.gen(rng, idx, tier)
    s, o = c["rotor"], c["oper"]
    s["nSector"] = int(rng.choice([1, 4, 4, 5, 6]))
    if idx % 9 == 0:
        s["tilt"] = s["yaw"] = s["shearExp"] = 0.0
    n = 1 if idx % 4 else 2
    os_ = [o]
    if n == 2:
        os_.append(G.gen_oper(rng, s, tsr=float(rng.uniform(4, 9)), pitch=float(rng.uniform(-2, 10))))
    return dict(rotor=s, opers=os_)


def check(spec, rec):
    s, os_ = spec["rotor"], spec["opers"]
    m = len(os_)
    vec = lambda: [np.array([o[k] for o in os_], float) for k in ("U", "Omega", "pitch")]
    ro = G.build_rotor(s, derivatives=True)
    single = s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0
    ns = 1 if single else max(4, s["nSector"])
    for o in os_:
        for k in range(ns):
            Vx, Vy = inflow(s, ro, dict(o, azimuth=360.0 * k / ns))
            W0 = np.hypot(Vx, Vy)
            if o["Omega"] and (np.any(Vx < 0.02 * W0) or np.any(Vy < 0.02 * W0)):
                raise Stop()
    out, D = ro.evaluate(*vec(), coefficients=True)
    n = len(s["r"])
    keys = list(Q) + ["C" + k for k in Q]
    # magnitude of the quantities, for what counts as negligible
    A = np.pi * s["Rtip"] ** 2
    big = {}
    for k in Q:
        f = np.array([0.5 * s["rho"] * o["U"] ** 2 * A for o in os_])
        if k in ("Q", "My", "Mz", "Mb"):
            f = f * s["Rtip"]
        if k == "P":
            f = f * np.array([o["U"] for o in os_])
        big[k] = np.maximum(1e-3 * f, np.abs(out[k]))
        with np.errstate(all="ignore"):
            big["C" + k] = np.maximum(1e-3, np.abs(out["C" + k]))
    if any(np.any(np.asarray(out[k]) == 0) for k in Q):
        rec.ok("zero quantity")

    def f(v, d, i=None, j=None):
        """all quantities with variable v perturbed (element j, condition i)"""
        s2, u = dict(s), vec()
        if i is not None:
            u[("Uinf", "Omega", "pitch").index(v)][i] += d
        elif j is not None:
            a = list(s[v])
            a[j] += d
            s2[v] = a
        else:
            s2[p07.SPEC.get(v, v)] += d
        r2, _ = G.build_rotor(s2).evaluate(*u, coefficients=True)
        return np.array([r2[k] for k in keys])  # quantity x condition

    tot = dec = 0
    for v in SCAL + VEC:
        oper = v in ("Uinf", "Omega", "pitch")
        ncol = n if v in VEC else (m if oper else 1)
        for k in keys:
            a = np.asarray(D["d" + k]["d" + v])
            rec.true("shape", a.shape == (m, ncol), "d%s/d%s has shape %s instead of %s" % (k, v, a.shape, (m, ncol)))
            rec.true("finite", np.all(np.isfinite(a)), "d%s/d%s is not finite" % (k, v))
        for j in range(ncol):
            o = os_[j] if oper else os_[0]
            if v == "Omega" and o["Omega"] == 0.0:
                continue
            if v in ("precurveTip", "presweepTip"):
                h = 1e-4 * s["Rtip"]
            else:
                h = p07.step(v, s, o)
            if v in VEC:
                fun = lambda d: f(v, d, j=j)
            elif oper:
                fun = lambda d: f(v, d, i=j)
            else:
                fun = lambda d: f(v, d)
            fd, err = ladder(fun, h)
            settle = Settle(fun, h)
            kf = single and v in ("tilt", "yaw", "shear")
            for q, k in enumerate(keys):
                for i in range(m):
                    g, w, e = np.asarray(D["d" + k]["d" + v])[i, j], fd[q][i], err[q][i]
                    floor = 2e-6 * big[k][i] / (h * 100)
                    tot += 1
                    if kf:
                        # the neighbouring points use four sectors, the point itself one
                        if not abs(g - w) <= 1e-3 * abs(w) + 4 * e + floor:
                            rec.bad("nsector1:gradient", "d%s/d%s = %.6g at zero tilt, yaw and shear" % (k, v, g))
                        continue
                    if not np.isfinite(e) or e > 2e-3 * abs(w) + floor:
                        rec.ok("entry undecided")
                        continue
                    dec += 1
                    rec.worst("err:d" + v, abs(g - w) / (abs(w) + floor))
                    if not abs(g - w) <= 1e-4 * abs(w) + 4 * e + floor:
                        if settle.agrees(g, lambda d: d[q][i], big[k][i], w):
                            rec.ok("entry next to a kink")
                            continue
                        rec.bad("gradient d%s/d%s" % (k, v), "d%s/d%s[%s]: %.8g, the quantity itself changes by %.8g (+- %.2g)" % (k, v, (i, j), g, w, e), var=v, i=i, j=j)
    rec.ok("entry decided", dec)
    rec.nontrivial = dec >= 0.7 * tot
    if single:
        rec.ok("single sector")
    rec.seen(flags(s), s["family"], "ns%d" % ns, "m%d" % m)
    rec.sample = dict(T=out["T"], decided=dec, of=tot)
