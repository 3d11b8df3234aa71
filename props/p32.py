"""The compiled section and rotor routines, called directly: values, arc length and directional derivatives."""
import importlib
import warnings

from .common import *
from .fd import Settle, ladder

QUICK, THOROUGH = 24000, 400000
RULE = (
    "direct calls of the compiled routines (curvature, wind, induction, relative wind, integration) with random blades of 2-30 stations and random states on every branch; their derivative routines with 1-6 random directions at once, "
    "whole, sparse and zero; non-trivial when a value and a derivative were judged"
)
MINIMA = {"value:curvature": 5000, "value:wind": 3000, "value:induction": 4000, "value:relative": 5000, "value:integral": 8000, "arc length": 1500, "tangent": 500000, "adjoint": 15000, "directions apart": 30000, "primal": 25000}
KINDS = ["curv", "wind", "ind", "rel", "tt"]


def bem():
    import ccblade

    return importlib.import_module("ccblade._bem")


def blade(rng, n, straight=False):
    R = float(10 ** rng.uniform(0, 2))
    hub = R * float(rng.uniform(0.02, 0.2))
    r = hub + (R - hub) * np.cumsum(rng.uniform(0.2, 1.0, n + 1))[:n] / (n * 0.65 + 1.2)
    r = np.minimum.accumulate(np.r_[r[::-1]])[::-1]
    r = r / max(1.0, r[-1] / (0.98 * R))
    t = (r - hub) / (R - hub)
    if straight:
        return dict(n=n, r=r, pc=0 * r, ps=0 * r, hub=hub, R=R, pct=0.0, pst=0.0)
    c, s = rng.uniform(-0.15, 0.15, 2) * R
    k = rng.uniform(1.2, 3, 2)
    return dict(n=n, r=r, pc=c * t ** k[0] + 0.002 * R * rng.normal(0, 1, n), ps=s * t ** k[1] + 0.002 * R * rng.normal(0, 1, n), hub=hub, R=R, pct=float(c), pst=float(s))


def gen(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    n = int(rng.choice([2, 3, int(rng.integers(4, 31))], p=[0.15, 0.15, 0.7]))
    b = blade(rng, n, straight=rng.random() < 0.1)
    ang = lambda w: float(rng.choice([0.0, rng.uniform(-w, w)], p=[0.15, 0.85]))
    u = float(rng.random())
    phi = float(rng.uniform(0.02, 1.5)) if u < 0.6 else (float(-rng.uniform(0.02, 0.8)) if u < 0.8 else float(rng.uniform(1.65, 3.1)))
    r = float(b["hub"] + (b["R"] - b["hub"]) * rng.uniform(0.03, 0.97))
    return dict(
        kind=kind, b=b, cone=ang(0.3), yaw=ang(3.0), tilt=ang(0.4), az=ang(7.0), U=float(rng.uniform(0.5, 60)), Om=float(rng.choice([0.0, rng.uniform(-30, 40)], p=[0.1, 0.9])), hub=float(b["R"] * rng.uniform(1.7, 4)),
        sh=ang(0.5), flags=[bool(rng.random() < 0.75) for _ in range(4)], B=int(rng.integers(1, 9)), sec=dict(r=r, chord=float(b["R"] * 10 ** rng.uniform(-3, -0.6)), phi=phi, cl=float(rng.normal(0.3, 1)), cd=float(abs(rng.normal(0.05, 0.3))),
        Vx=float(rng.uniform(1, 60)), Vy=float(rng.uniform(1, 120)) * (1 if rng.random() < 0.9 else -1), a=float(rng.choice([rng.uniform(-1, 2), rng.uniform(-40, 40)], p=[0.75, 0.25])), ap=float(rng.choice([rng.uniform(-1, 2), rng.uniform(-40, 40)], p=[0.75, 0.25])), pitch=ang(1.0), theta=ang(1.0), rho=float(rng.uniform(0.8, 1.3)), mu=float(rng.uniform(1e-5, 2e-5))),
        Np=rng.normal(0, 1000, n), Tp=rng.normal(0, 300, n), nb=int(rng.integers(1, 7)), seed=int(rng.integers(2**31)), strided=bool(rng.random() < 0.2),
    )


def cat(parts):
    return np.concatenate([np.atleast_1d(np.asarray(p, float)) for p in parts])


class Routine:
    """a compiled routine as a function of a list of arguments (arrays or scalars), with its derivative routine"""

    def __init__(self, plain, tangent, args, outs, touts, scale):
        self.plain, self.tangent, self.args, self.outs, self.touts, self.scale = plain, tangent, [np.array(a, float) if np.ndim(a) else float(a) for a in args], outs, touts, scale

    def at(self, dirs, h):
        return [a + h * d for a, d in zip(self.args, dirs)]

    def values(self, args):
        return cat([self.plain(*args)[k] for k in self.outs])


def directions(rng, rt, nb):
    """one array per argument: (nb, n) for vectors and (nb,) for scalars"""
    out = []
    style = [str(rng.choice(["full", "one", "some", "zero"], p=[0.4, 0.3, 0.25, 0.05])) for _ in range(nb)]
    pick = [int(rng.integers(len(rt.args))) for _ in range(nb)]
    for i, (a, s) in enumerate(zip(rt.args, rt.scale)):
        d = rng.normal(0, 1, (nb,) + np.shape(a)) * s
        for k in range(nb):
            if style[k] == "zero" or (style[k] == "one" and pick[k] != i) or (style[k] == "some" and rng.random() < 0.6):
                d[k] = 0.0
        out.append(d)
    return out


def interleave(args, dirs):
    out = []
    for a, d in zip(args, dirs):
        out += [a, d]
    return out


def forward(rec, rt, rng, nb, name):
    dirs = directions(rng, rt, nb)
    got = rt.tangent(*interleave(rt.args, dirs))
    prim = rt.plain(*rt.args)
    for j, k in rt.touts["primal"]:
        rec.close("primal", "%s: value %d beside the derivative" % (name, k), got[j], prim[k], 1e-12)
    T = [np.asarray(got[j], float).reshape(nb, -1) for j, _ in rt.touts["tangent"]]
    T = np.concatenate(T, axis=1)
    rec.true("finite", np.all(np.isfinite(T)), "%s: derivative is not finite" % name)
    outs = [k for _, k in rt.touts["tangent"]]
    val = lambda args: cat([rt.plain(*args)[k] for k in outs])
    base = np.abs(val(rt.args))
    blk = np.concatenate([np.full(np.size(prim[k]), np.max(np.abs(prim[k])) if np.size(prim[k]) else 0.0) for k in outs])
    base = np.maximum(base, blk)
    # each direction alone gives what all of them give together
    if nb > 1:
        k = int(rng.integers(nb))
        alone = rt.tangent(*interleave(rt.args, [d[k : k + 1] for d in dirs]))
        for j, _ in rt.touts["tangent"]:
            rec.close("directions apart", "%s: output %d, direction %d of %d" % (name, j, k, nb), np.asarray(alone[j]).reshape(-1), np.asarray(got[j]).reshape(nb, -1)[k], 1e-12)
    for k in range(nb):
        d = [x[k] for x in dirs]
        f = lambda h: val(rt.at(d, h))
        best, err = ladder(f, 2e-3)
        sc = np.maximum(np.abs(best), 1e-3 * base)
        dec = err <= 1e-6 * sc
        second = Settle(f, 2e-3)
        for i in np.flatnonzero(dec):
            tol = 1e-5 * abs(best[i]) + 20 * err[i] + 1e-9 * base[i]
            rec.ok("tangent")
            if abs(T[k, i] - best[i]) <= tol:
                continue
            if second.agrees(T[k, i], lambda D: D[i], 1e-5 * base[i], best[i]):
                continue
            rec.bad("tangent", "%s: direction %d, output element %d: derivative %r, the routine itself changes by %r" % (name, k, i, float(T[k, i]), float(best[i])))
        rec.ok("undecided", int(np.sum(~dec)))
    return True


def check(spec, rec):
    m = bem()
    b, s, kind = spec["b"], spec["sec"], spec["kind"]
    rng = np.random.default_rng(spec["seed"])
    R = b["R"]
    A = lambda v: np.array(v, float)
    if spec["strided"]:
        A = lambda v: np.repeat(np.array(v, float), 3)[::3]
    r, pc, ps = A(b["r"]), A(b["pc"]), A(b["ps"])
    nb = spec["nb"]
    judged = True
    if kind == "curv":
        out = m.definecurvature(r, pc, ps, spec["cone"])
        xyz = ref.az_coords(np.array(b["r"]), np.array(b["pc"]), np.array(b["ps"]), spec["cone"])
        for k in range(3):
            rec.close("value:curvature", "%s of the blade axis" % "xyz"[k], out[k], xyz[k], 1e-12, scale=R)
        rec.close("value:curvature", "total cone angle", out[3], ref.cone_angles(xyz), 1e-11, scale=1.0)
        sl = np.sqrt(np.diff(b["r"]) ** 2 + np.diff(b["pc"]) ** 2 + np.diff(b["ps"]) ** 2)
        rec.close("arc length", "distance along the blade", out[4], np.r_[0.0, np.cumsum(sl)], 1e-12, scale=R)
        args, scale = [r, pc, ps, spec["cone"]], [0.01 * R / b["n"], 0.01 * R / b["n"], 0.01 * R / b["n"], 0.1]
        for nm, touts in (
            ("definecurvature_dv", dict(primal=[(0, 0), (2, 1), (4, 2), (6, 3), (8, 4)], tangent=[(1, 0), (3, 1), (5, 2), (7, 3)])),
            ("definecurvature_dv2", dict(primal=[(0, 0), (2, 1), (4, 2), (6, 3), (8, 4)], tangent=[(1, 0), (3, 1), (5, 2), (7, 3), (9, 4)])),
        ):
            if hasattr(m, nm):
                forward(rec, Routine(m.definecurvature, getattr(m, nm), args, None, touts, scale), rng, nb, nm)
    elif kind == "wind":
        Vx, Vy = m.windcomponents(r, pc, ps, spec["cone"], spec["yaw"], spec["tilt"], spec["az"], spec["U"], spec["Om"], spec["hub"], spec["sh"])
        wx, wy = ref.inflow(np.array(b["r"]), np.array(b["pc"]), np.array(b["ps"]), spec["cone"], spec["tilt"], spec["yaw"], spec["az"], spec["U"], spec["Om"], spec["hub"], spec["sh"])
        sc = spec["U"] + abs(spec["Om"]) * np.pi / 30 * R
        rec.close("value:wind", "Vx", Vx, wx, 1e-11, scale=sc)
        rec.close("value:wind", "Vy", Vy, wy, 1e-11, scale=sc)
        args = [r, pc, ps, spec["cone"], spec["yaw"], spec["tilt"], spec["az"], spec["U"], spec["Om"], spec["hub"], spec["sh"]]
        scale = [0.01 * R / b["n"]] * 3 + [0.1, 0.1, 0.1, 0.1, 1.0, 1.0, 0.1 * R, 0.05]
        forward(rec, Routine(m.windcomponents, m.windcomponents_dv, args, None, dict(primal=[(0, 0), (2, 1)], tangent=[(1, 0), (3, 1)]), scale), rng, nb, "windcomponents_dv")
    elif kind == "ind":
        cd, hl, tl, wk = spec["flags"]
        x = [s["r"], s["chord"], b["hub"], b["R"], s["phi"], s["cl"], s["cd"], s["Vx"], s["Vy"]]
        plain = lambda r_, c_, h_, R_, p_, l_, d_, X, Y: m.inductionfactors(r_, c_, h_, R_, p_, l_, d_, spec["B"], X, Y, usecd=cd, hubloss=hl, tiploss=tl, wakerotation=wk)

        def tangent(*q):
            q = list(q)
            return m.inductionfactors_dv(*(q[:14] + [spec["B"]] + q[14:]), usecd=cd, hubloss=hl, tiploss=tl, wakerotation=wk)

        f, a, ap = plain(*x)
        with np.errstate(all="ignore"):
            Rf, ra, rap, F, k, kp, aok = ref.induction(s["phi"], s["cl"], s["cd"], s["r"], s["chord"], b["hub"], b["R"], spec["B"], s["Vx"], s["Vy"], tl, hl, wk, cd)
        # away from the poles of the momentum equations (k = -1, k' = 1), where the numbers mean nothing
        if not (abs(1 + k) > 1e-3 and abs(1 - (kp if wk else 0)) > 1e-3 and abs(k) < 1e6 and abs(k - 1) > 1e-3 and F > 1e-6):
            raise Stop("pole")
        g3 = 2 * F * k - (25.0 / 9 - 2 * F)
        tol = 1e-6 if abs(g3) < 1e-4 else 1e-9
        amp = max(1.0, abs(k), abs(kp)) / min(1.0, abs(1 + k) if s["phi"] > 0 else abs(1 - k), abs(1 - kp))
        rec.close("value:induction", "residual", f, Rf, tol, scale=max(abs(Rf), 1e-6 * amp, 1e-4))
        if aok:
            rec.close("value:induction", "a", a, ra, tol, scale=max(abs(ra), 1e-3))
        rec.close("value:induction", "ap", ap, rap, 1e-8, scale=max(abs(rap), 1e-3))
        if k <= 2 / 3 or s["phi"] < 0 or abs(g3) > 1e-2:
            sc = [0.005 * min(s["r"] - b["hub"], b["R"] - s["r"]), 0.02 * s["chord"], 0.005 * min(b["hub"], s["r"] - b["hub"]), 0.005 * (b["R"] - s["r"]), 0.01 * min(abs(s["phi"]), 0.1), 0.1, 0.05, 0.1, 0.1]
            outs = [(1, 0), (5, 2)] + ([(3, 1)] if s["phi"] > 0 or k > 1 else [])
            forward(rec, Routine(plain, tangent, x, None, dict(primal=[(0, 0), (2, 1), (4, 2)], tangent=outs), sc), rng, nb, "inductionfactors_dv (phi %.3g, k %.3g, k' %.3g)" % (s["phi"], k, kp))
        else:
            judged = False
        rec.seen("ind", s["phi"] > 0, s["phi"] > 1.6, k > 2 / 3, k > 1, cd, hl, tl, wk, spec["B"])
    elif kind == "rel":
        x = [s["phi"], s["a"], s["ap"], s["Vx"], s["Vy"], s["pitch"], s["chord"], s["theta"]]
        plain = lambda *q: m.relativewind(*(list(q) + [s["rho"], s["mu"]]))
        tangent = lambda *q: m.relativewind_dv(*(list(q) + [s["rho"], s["mu"]]))
        al, W, Re = plain(*x)
        w = np.hypot(s["Vx"] * (1 - s["a"]), s["Vy"] * (1 + s["ap"]))
        # a runaway induction factor is not used: the speed follows from the other leg of the triangle at that angle
        if abs(s["a"]) > 10:
            w = s["Vy"] * (1 + s["ap"]) / np.cos(s["phi"])
        elif abs(s["ap"]) > 10:
            w = s["Vx"] * (1 - s["a"]) / np.sin(s["phi"])
        if min(abs(abs(s["a"]) - 10), abs(abs(s["ap"]) - 10)) < 0.01:
            raise Stop("edge")
        rec.close("value:relative", "angle of attack", al, s["phi"] - s["theta"] - s["pitch"], 1e-13, scale=4.0)
        rec.close("value:relative", "relative speed", W, w, 1e-12)
        rec.close("value:relative", "Reynolds number", Re, s["rho"] * w * s["chord"] / s["mu"], 1e-12)
        forward(rec, Routine(plain, tangent, x, None, dict(primal=[(0, 0), (2, 1), (4, 2)], tangent=[(1, 0), (3, 1), (5, 2)]), [0.02 * min(1.0, abs(np.sin(2 * s["phi"]))), 0.05, 0.05, 0.3, 0.3, 0.1, 0.02 * s["chord"], 0.1]), rng, nb, "relativewind_dv")
    else:
        Np, Tp = A(spec["Np"]), A(spec["Tp"])
        x = [Np, Tp, r, pc, ps, spec["cone"], b["hub"], b["R"], b["pct"], b["pst"]]
        out = m.thrusttorque(*x)
        want = ref.integrate(np.array(spec["Np"]), np.array(spec["Tp"]), np.array(b["r"]), np.array(b["pc"]), np.array(b["ps"]), spec["cone"], b["hub"], b["R"], b["pct"], b["pst"])
        tot = 2 * R * max(np.max(np.abs(spec["Np"])), np.max(np.abs(spec["Tp"])))
        for k, q in enumerate("TYZQM"):
            rec.close("value:integral", q, out[k], want[k], 1e-12, scale=tot * (R if k > 2 else 1))
        seeds = rng.normal(0, 1, (5, nb))
        for k in range(nb):
            if rng.random() < 0.3:
                seeds[:, k] = np.eye(5)[int(rng.integers(5))]
        keep = [np.array(v, copy=True) for v in x]
        bv = m.thrusttorque_bv(*(x + [seeds[j].copy() for j in range(5)]))
        rec.true("inputs", all(np.array_equal(p, q) for p, q in zip(keep, x)), "thrusttorque_bv changed its inputs")
        if nb > 1:
            k = int(rng.integers(nb))
            al = m.thrusttorque_bv(*(x + [seeds[j, k : k + 1].copy() for j in range(5)]))
            for j in range(10):
                rec.close("directions apart", "thrusttorque_bv: output %d, direction %d of %d" % (j, k, nb), np.asarray(al[j]).reshape(-1), np.asarray(bv[j]).reshape(nb, -1)[k], 1e-12)
        rt = Routine(m.thrusttorque, None, x, None, None, [300.0, 300.0] + [0.01 * R / b["n"]] * 3 + [0.1, 0.01 * b["hub"], 0.01 * (R - b["r"][-1]), 0.05 * R / b["n"], 0.05 * R / b["n"]])
        val = lambda args: cat(m.thrusttorque(*args))
        for _ in range(3):
            dirs = [d[0] for d in directions(rng, rt, 1)]
            best, err = ladder(lambda h: val(rt.at(dirs, h)), 2e-3)
            for k in range(nb):
                wantd = float(np.dot(seeds[:, k], best))
                e = float(np.dot(np.abs(seeds[:, k]), err))
                got = sum(float(np.sum(np.asarray(bv[j]).reshape(nb, -1)[k] * dirs[j])) for j in range(10))
                sc = float(np.dot(np.abs(seeds[:, k]), np.abs(best)))
                if e > 1e-6 * sc + 1e-9 * tot:
                    rec.ok("undecided")
                    continue
                rec.ok("adjoint")
                if abs(got - wantd) > 1e-5 * sc + 20 * e + 1e-12 * tot * R:
                    second = Settle(lambda h: val(rt.at(dirs, h)), 2e-3)
                    if not second.agrees(got, lambda D: float(np.dot(seeds[:, k], D)), tot * R * 1e-7, wantd):
                        rec.bad("adjoint", "thrusttorque_bv: seed %d of %d along a direction: %r, the routine itself changes by %r" % (k, nb, got, wantd))
    rec.nontrivial = judged
    rec.seen(kind, min(b["n"], 4), nb, spec["strided"])
