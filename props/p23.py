"""The twist component: prescribed twist is used as is, inverted twist puts sections at their angle of attack, and every output belongs to that twist."""
import os
import shutil
import tempfile

from . import omtools as O
from .common import *

QUICK, THOROUGH = 2000, 12000
RULE = (
    "random rotors and tip speed ratios, prescribed and inverted twist, angle of attack given per station or left to the stall margin, one or several airfoil tables and Reynolds numbers, smoothing on and off, "
    "inputs in other units, second run of the same problem; every output recomputed from a rotor with the twist the component returned"
)
MINIMA = {"output": 8000, "prescribed": 150, "target": 500, "cap": 20, "smoothing": 30, "spline grid": 500, "refused": 10, "second run": 300, "left unset": 500, "other airfoils in the second run": 300, "gradient": 500}
UNIT = dict(
    Uhub="m/s", pitch="deg", r="m", chord="m", theta_in="rad", aoa_op="rad", Rhub="m", Rtip="m", precurve="m", precurveTip="m", presweep="m", presweepTip="m", hub_height="m", precone="deg", tilt="deg", yaw="deg",
    rho="kg/m**3", mu="kg/(m*s)",
)
CAP = np.radians(20.0)


def grid(rng, n):
    """spline points over the whole span, evenly spaced or not"""
    if rng.random() < 0.3:
        return [float(v) for v in np.linspace(0, 1, n)]
    d = rng.uniform(0.3, 1, n - 1)
    return [0.0] + [float(v) for v in np.cumsum(d)[:-1] / d.sum()] + [1.0]


def gen(rng, idx, tier):
    n = int(rng.integers(4, 9))
    inverse = bool(idx % 2)
    axi = inverse and rng.random() < 0.7
    cases = []
    nopt = int(rng.integers(4, 9))
    nchord = nopt if rng.random() < 0.5 else int(rng.integers(4, 9))
    base = O.polars(rng, n, nRe=1 if inverse and rng.random() < 0.7 else None)
    for _ in range(2):
        s = G.gen_rotor(rng, n=n, family=str(rng.choice(["random", "small"])), ends=False, nSector=int(rng.choice([4, 6])))
        for k in ("precurve", "presweep"):
            if s[k] is None:
                s[k], s[k + "Tip"] = [0.0] * n, 0.0
        if axi:
            s["tilt"] = s["yaw"] = s["shearExp"] = 0.0
        s["iterRe"] = 1
        if not cases and idx % 5 == 2:  # inputs left at their defaults
            O.plain(rng, s, tilt=False)
        s["af"] = base if not cases or rng.random() < 0.4 else O.again(rng, base)
        raise_hub(s)
        aoa = [float(v) for v in np.radians(rng.uniform(0, 8, n))]
        for i in range(n):
            if rng.random() < 0.3:
                aoa[i] = float(np.pi)
        root = int(rng.choice([0, 0, 1, 2]))
        cases.append(dict(s=s, U=float(rng.uniform(4, 14)), tsr=float(rng.uniform(4, 10)), pitch=float(rng.choice([0.0, rng.uniform(-3, 5)])), aoa=aoa, so=grid(rng, nopt), sc=grid(rng, nchord), rthick=[100.0] * root + [float(v) for v in np.linspace(60, 18, n - root)]))
    return dict(cases=cases, unset=idx % 5 == 2, totals=idx % 10 == 4, inverse=inverse, inn=bool(inverse and idx % 8 == 3), nopt=nopt, nchord=nchord, nt=int(rng.integers(1, 5)), margin=float(np.radians(rng.uniform(1, 6))), both=idx % 40 == 21, seed=int(rng.integers(2**31)))


def check(spec, rec):
    d = tempfile.mkdtemp(prefix="ccv_p23_")
    cwd = os.getcwd()
    os.environ["OPENMDAO_WORKDIR"] = d
    try:
        os.chdir(d)
        twist(spec, rec)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def build(spec, inn, flag):
    from ccblade.ccblade_component import CCBladeTwist

    afs = spec["cases"][0]["s"]["af"]
    n = len(afs)
    al, Re, cl, cd, cm = O.stack(afs, spec["nt"], spec["nt"] // 2, spec["seed"])
    mo = O.modeling(n, len(al), len(Re), spec["nt"], inn_af=inn)
    oo = {
        "design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": spec["nchord"]}, "twist": {"n_opt": spec["nopt"], "inverse": spec["inverse"], "flag": flag}}}},
        "constraints": {"blade": {"stall": {"margin": spec["margin"]}}},
    }
    p = O.problem(CCBladeTwist(modeling_options=mo, opt_options=oo))
    O.feed_polars(p, (al, Re, cl, cd, cm))
    return p, al, cl[:, :, :, spec["nt"] // 2], cd[:, :, :, spec["nt"] // 2], cm[:, :, :, spec["nt"] // 2]


def feed(p, spec, c, rng=None, rec=None):
    s = c["s"]
    v = dict(Uhub=c["U"], pitch=c["pitch"], theta_in=np.radians(s["theta"]), aoa_op=np.array(c["aoa"]), hub_height=s["hubHt"])
    for k in ("r", "chord", "Rhub", "Rtip", "precurve", "precurveTip", "presweep", "presweepTip", "precone", "tilt", "yaw", "rho", "mu"):
        v[k] = s[k]
    for k, x in v.items():
        if rec and O.neutral(k, x):
            rec.ok("left unset")
            continue
        O.put(p, k, x, UNIT[k], rng)
    p.set_val("tsr", c["tsr"])
    p.set_val("shearExp", s["shearExp"])
    p.set_val("rthick", c["rthick"])
    so = np.array(c["so"])
    p.set_val("s_opt_theta", so)
    p.set_val("s_opt_chord", c["sc"])
    for k, q in (("nBlades", "B"), ("nSector", "nSector"), ("tiploss", "tiploss"), ("hubloss", "hubloss"), ("wakerotation", "wakerotation"), ("usecd", "usecd")):
        if rec and O.neutral(k, s[q]):
            rec.ok("left unset")
            continue
        p.set_val(k, s[q])
    return so


def twist(spec, rec):
    import warnings

    from scipy.interpolate import PchipInterpolator

    from ccblade.ccblade import CCAirfoil

    from .polars import lin

    inv = spec["inverse"]
    if spec["both"] and inv:
        p = build(spec, False, True)[0]
        feed(p, spec, spec["cases"][0])
        try:
            p.run_model()
            rec.bad("refused", "twist both optimised and inverted was accepted")
        except Exception:
            rec.ok("refused")
    p, al, cl, cd, cm = build(spec, spec["inn"], False)
    nRe = cl.shape[2]
    rng = np.random.default_rng(spec["seed"])
    for run, c in enumerate(spec["cases"]):
        s = c["s"]
        n = len(s["r"])
        if run and s["af"] != spec["cases"][0]["s"]["af"]:
            st = O.stack(s["af"], spec["nt"], spec["nt"] // 2, spec["seed"] + 1)
            O.feed_polars(p, st)
            al, cl, cd, cm = st[0], *(v[:, :, :, spec["nt"] // 2] for v in st[2:])
            rec.ok("other airfoils in the second run")
        so = feed(p, spec, c, rng if run else None, rec if spec["unset"] and not run else None)
        tol = 1e-6 if run else 1e-10
        # speed ratio is defined at the last station
        o = dict(U=c["U"], Omega=c["tsr"] * c["U"] / s["r"][-1] * 30 / np.pi, pitch=c["pitch"], azimuth=0.0)
        Vx, Vy = inflow(s, G.build_rotor(s), o)
        if np.any(Vx < 0.02 * np.hypot(Vx, Vy)) or np.any(Vy < 0.02 * np.hypot(Vx, Vy)):
            raise Stop()
        p.run_model()
        g = lambda k, u=None: np.array(p.get_val(k, units=u), float)
        th = g("theta", "rad")
        if not rec.true("finite", np.all(np.isfinite(th)), "twist %s" % th):
            return
        if not inv:
            rec.close("prescribed", "twist", th, np.radians(s["theta"]), 1e-12, 1e-15)
        s2 = dict(s, theta=[float(x) for x in np.degrees(th)])
        L = loads(G.build_rotor(s2), o)[0]
        E = G.build_rotor(s2).evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=True)[0]
        for k, q in dict(P="P", T="T", Q="Q", M="Mb", CP="CP", CM="CMb").items():
            rec.close("output", k, g(k), E[q], tol)
        W = np.nan_to_num(np.ravel(E["W"]))
        rec.close("output", "local velocities", g("local_airfoil_velocities"), W, tol)
        for k, q in dict(a="a", ap="ap", alpha="alpha", cl="Cl", cd="Cd").items():
            rec.close("output", k, g(k), L[q], tol, 1e-9 if run else 1e-12)
        Np, Tp = L["Np"], L["Tp"]
        F = np.abs(Np).max() + np.abs(Tp).max()
        ph = th + np.radians(L["alpha"] + c["pitch"])
        t = th
        rec.close("output", "lift", g("LiftF"), Np * np.cos(ph) + Tp * np.sin(ph), tol, scale=F)
        rec.close("output", "drag", g("DragF"), Np * np.sin(ph) - Tp * np.cos(ph), tol, scale=F)
        rec.close("output", "Px_b", g("Px_b"), Np, tol, scale=F)
        rec.close("output", "Py_b", g("Py_b"), -Tp, tol, scale=F)
        rec.close("output", "Pz_b", np.r_[g("Pz_b"), g("Pz_af")], np.zeros(2 * n), 0)
        rec.close("output", "airfoil loads", np.hypot(g("Px_af"), g("Py_af")), np.hypot(Np, Tp), tol, scale=F)
        rec.close("output", "lift from the polar", g("LiftF"), 0.5 * s["rho"] * L["W"] ** 2 * np.array(s["chord"]) * L["Cl"], max(tol, 1e-9), scale=F)
        rec.close("output", "drag from the polar", g("DragF"), 0.5 * s["rho"] * L["W"] ** 2 * np.array(s["chord"]) * L["Cd"], max(tol, 1e-9), scale=F)
        x = (np.array(s["r"]) - s["r"][0]) / (s["r"][-1] - s["r"][0])
        for k, q, v in (("cl_n_opt", "cl", L["Cl"]), ("cd_n_opt", "cd", L["Cd"]), ("L_n_opt", "lift", Np * np.cos(ph) + Tp * np.sin(ph)), ("D_n_opt", "drag", Np * np.sin(ph) - Tp * np.cos(ph))):
            rec.close("spline grid", k, g(k), lin(so, x, v), tol, 1e-9 if run else 1e-12, scale=F if k[0] in "LD" else None)
        if run:
            rec.ok("second run")
        elif spec["totals"]:
            totals(p, spec, c, rec, rng)
            p.run_model()
        if not inv:
            continue
        if spec["inn"]:
            q = build(spec, False, False)[0]
            if s["af"] != spec["cases"][0]["s"]["af"]:
                O.feed_polars(q, st)
            feed(q, spec, c)
            q.run_model()
            raw = np.array(q.get_val("theta", units="rad"))
            y = PchipInterpolator(x, raw)(so)
            rec.close("smoothing", "twist", th, PchipInterpolator(so, y)(x), max(tol, 1e-9), scale=np.abs(raw).max())
            continue
        # twist puts the sections at the wanted angle of attack
        rec.true("cap", np.all(th <= CAP + 1e-12), "twist %s above 20 degrees" % np.degrees(th))
        capped = np.nonzero(np.abs(th - CAP) < 1e-12)[0]
        free = 0
        if len(capped):
            free = capped[-1] + 1
            rec.close("cap", "twist inboard of the cap", th[:free], np.full(free, CAP), 1e-12)
            # the outermost capped section really asks for more than 20 degrees
            i = capped[-1]
            if s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0 and nRe == 1:
                root = [k for k, v in enumerate(c["rthick"]) if v < 95][0]
                want = target(spec, c, max(i, root), al, cl, cd, cm)
                raw = target(spec, c, i, al, cl, cd, cm)  # the section keeps the coefficients of its own airfoil
                rec.true("cap needed", exceeds(s2, o, i, want, raw, Vx[i], Vy[i]), "station %d is capped at 20 degrees although its inverse twist is smaller" % i)
        root = [i for i, v in enumerate(c["rthick"]) if v < 95][0]
        if s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0 and nRe == 1:
            for i in range(max(free, root), n):
                want = target(spec, c, i, al, cl, cd, cm)
                if not 0 < want < 14 and abs(c["aoa"][i] - np.pi) < 1e-3:  # out of the range where the section has one solution
                    continue
                # the section may have further solutions at this twist; then the wanted one must be one of them
                if abs(L["alpha"][i] - want) > 1e-6 and other_solution(s2, o, i, th[i], want, Vx[i], Vy[i]):
                    rec.ok("another solution")
                    continue
                rec.close("target", "angle of attack at station %d" % i, L["alpha"][i], want, 0, 1e-6 if not run else 2e-5)
    rec.nontrivial = True
    rec.seen(inv, spec["inn"], n, spec["nt"], nRe, flags(s))
    rec.sample = dict(theta=np.degrees(th), alpha=L["alpha"])


def other_solution(s, o, i, theta, want, Vx, Vy):
    """the section balances at the wanted angle of attack too"""
    ro = G.build_rotor(s)
    sec = ref.Section(s, ro.af[i].af if hasattr(ro.af[i], "af") else ro.af[i], s["r"][i], s["chord"][i], theta, np.radians(o["pitch"]), Vx, Vy)
    p = theta + np.radians(o["pitch"] + want)
    return sec.residual(p - 1e-6) * sec.residual(p + 1e-6) <= 0


def totals(p, spec, c, rec, rng):
    """gradients through the component against the change of its outputs when it is run with changed inputs"""
    s = c["s"]
    of = ["P", "T", "CP", "theta", "alpha", "Px_b"]
    H = dict(Uhub=1e-4 * c["U"], pitch=1e-3, theta_in=1e-5, chord=1e-4 * max(s["chord"]), precone=1e-3, tsr=1e-4 * c["tsr"])
    wrt = [str(x) for x in rng.choice(list(H), 2, replace=False)]
    T = p.compute_totals(of=of, wrt=wrt)
    for w in wrt:
        x0 = np.ravel(np.array(p.get_val(w), float))
        j = int(rng.integers(len(x0)))

        def f(d):
            x = x0.copy()
            x[j] += d
            p.set_val(w, x)
            p.run_model()
            return np.concatenate([np.ravel(p.get_val(q)) for q in of])

        base = f(0.0)
        size = np.concatenate([np.full(np.size(p.get_val(q)), np.max(np.abs(p.get_val(q)))) for q in of])
        # one-sided as well: the component differentiates itself by finite differences and may sit next to a kink
        D = [(f(h) - f(-h)) / (2 * h) for h in (H[w], H[w] / 4)] + [(f(h) - base) / h for h in (H[w], H[w] / 4, -H[w] / 4)]
        p.set_val(w, x0)
        t = np.concatenate([T[q, w][:, j] for q in of])
        lo, hi = np.min(D, axis=0), np.max(D, axis=0)
        gap = 0.02 * np.maximum(np.abs(lo), np.abs(hi)) + (hi - lo) + 1e-3 * size / (100 * H[w])
        dec = (hi - lo) < 0.05 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-3 * size / (100 * H[w])
        for i in np.flatnonzero(dec):
            rec.true("gradient", lo[i] - gap[i] <= t[i] <= hi[i] + gap[i], "total derivative %d with respect to %s[%d] is %.6g, the output changes by %.6g" % (i, w, j, t[i], D[1][i]))


def target(spec, c, i, al, cl, cd, cm):
    """angle of attack wanted at station i, degrees"""
    import warnings

    from ccblade.ccblade import CCAirfoil

    if abs(c["aoa"][i] - np.pi) > 1e-3:
        return np.degrees(c["aoa"][i])
    af = CCAirfoil(al, [1e6], cl[i, :, 0], cd[i, :, 0], cm=cm[i, :, 0])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        af.eval_unsteady(al, cl[i, :, 0], cd[i, :, 0], cm[i, :, 0])
    return af.unsteady["alpha1"] - np.degrees(spec["margin"])


class Fixed:
    def __init__(self, af, alpha):
        self.v = af.evaluate(np.radians(alpha), 1e6)

    def evaluate(self, *a):
        return self.v


def exceeds(s, o, i, want, raw, Vx, Vy):
    """the section with the coefficients of its wanted angle of attack balances for some twist above 20 degrees"""
    ro = G.build_rotor(s)
    af = Fixed(ro.af[i].af if hasattr(ro.af[i], "af") else ro.af[i], raw)
    p0 = CAP + np.radians(o["pitch"] + want)
    ps = np.r_[p0 - 1e-9, np.linspace(p0, p0 + np.pi / 2, 400)]
    ps = ps[(ps > 1e-6) & (ps < np.pi - 1e-6)]
    v = [ref.Section(s, af, stations(ro)[0][i], s["chord"][i], p - np.radians(o["pitch"] + want), np.radians(o["pitch"]), Vx, Vy).residual(p) for p in ps]
    return bool(np.any(np.sign(v[:-1]) != np.sign(v[1:])))
