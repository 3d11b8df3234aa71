"""Rotational (3-D) stall delay correction of polars."""
from .common import *
from .polars import *

QUICK, THOROUGH = 2500, 40000
RULE = "polars over partial and full ranges with noise, r/R 0.01-1, c/r 0.01-3, tip speed ratio 0.5-80, default and other angle limits; non-trivial when lift changes by more than 1e-3 and data reach beyond the full-correction angle"
MINIMA = {"lift": 2500, "drag": 2500, "kept": 2500, "beyond": 800, "defaults": 2500, "airfoil": 2500}


def gen(rng, idx, tier):
    ps = [gen_polar(rng) for _ in range(int(rng.integers(1, 4)))]
    d = dict(ps=ps, rR=float(rng.uniform(0.05, 1.0)), cr=float(rng.uniform(0.01, 0.6)), tsr=float(rng.uniform(0.5, 15)))
    if rng.random() < 0.2:  # far from the usual
        d[str(rng.choice(["rR", "cr", "tsr"]))] = 0.0
        for k, lo, hi in (("rR", 0.01, 0.05), ("cr", 0.6, 3.0), ("tsr", 15.0, 80.0)):
            d[k] = d[k] or float(rng.uniform(lo, hi))
    d["lim"] = [30.0, -5.0, 5.0] if rng.random() < 0.4 else [float(rng.uniform(12, 60)), float(rng.uniform(-8, -3)), float(rng.uniform(3, 9))]
    return d


def fit(a, cl, lo, hi):
    """least-squares line through the linear range"""
    k = (a >= lo - 1e-12) & (a <= hi + 1e-12)
    x, y = a[k], cl[k]
    if len(x) < 2:
        raise Stop
    xm, ym = x.mean(), y.mean()
    m = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
    return m, xm - ym / m


def reference(p, rR, cr, tsr, lim):
    a = np.radians(np.array(p["alpha"], float))
    cl, cd = np.array(p["cl"]), np.array(p["cd"])
    full, lo, hi = np.radians(lim)
    m, a0 = fit(a, cl, lo, hi)
    lam = tsr / np.sqrt(1 + tsr * tsr)
    # Du & Selig with a = b = d = 1
    e = 1 / (lam * rR)
    ratio = 1.6 * cr / 0.1267
    fl = (ratio * (1 - cr ** e) / (1 + cr ** e) - 1) / m
    fd = (ratio * (1 - cr ** (e / 2)) / (1 + cr ** (e / 2)) - 1) / m
    # the correction vanishes beyond the full-correction angle, as in AirfoilPrep
    taper = np.where(a > full, ((np.pi / 2 - a) / (np.pi / 2 - full)) ** 2, 1.0)
    cl3 = cl + fl * (m * (a - a0) - cl) * taper
    cd3 = cd + fd * (cd - lin([0.0], a, cd)[0])
    return cl3, cd3, taper


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil

    ps, rR, cr, tsr, lim = (spec[k] for k in ("ps", "rR", "cr", "tsr", "lim"))
    for p in ps:  # a straight line needs two angles between the limits
        reference(p, rR, cr, tsr, lim), reference(p, rR, cr, tsr, [30.0, -5.0, 5.0])
    pols = [make(p) for p in ps]
    before = [snapshot(x) for x in pols]
    got = []
    for p, x in zip(ps, pols):
        c3 = x.correction3D(rR, cr, tsr, *lim)
        got.append(c3)
        cl, cd, taper = reference(p, rR, cr, tsr, lim)
        rec.close("lift", "corrected lift", c3.cl, cl, 1e-9, 1e-10)
        rec.close("drag", "corrected drag", c3.cd, cd, 1e-9, 1e-10)
        if np.any(taper < 1):
            rec.ok("beyond")
        rec.close("kept", "Reynolds number", c3.Re, p["Re"], 0)
        rec.close("kept", "angles of attack", c3.alpha, p["alpha"], 1e-13, 1e-12)
        rec.close("kept", "moment coefficient", c3.cm, p["cm"], 0)
        rec.nontrivial |= bool(np.max(np.abs(cl - p["cl"])) > 1e-3 and np.any(taper < 1))
        d = x.correction3D(rR, cr, tsr)
        cl, cd, _ = reference(p, rR, cr, tsr, [30.0, -5.0, 5.0])
        rec.close("defaults", "lift with default limits", d.cl, cl, 1e-9, 1e-10)
        rec.close("defaults", "drag with default limits", d.cd, cd, 1e-9, 1e-10)
    af = Airfoil(pols)
    c = af.correction3D(rR, cr, tsr, alpha_max_corr=lim[0], alpha_linear_min=lim[1], alpha_linear_max=lim[2])
    order = np.argsort([p["Re"] for p in ps], kind="stable")
    rec.true("airfoil", len(c.polars) == len(ps), "%d polars out of %d" % (len(c.polars), len(ps)))
    for k, g in zip(order, c.polars):
        for q in ("Re", "alpha", "cl", "cd", "cm"):
            rec.close("airfoil", "%s of the corrected airfoil" % q, getattr(g, q), getattr(got[k], q), 1e-12, 1e-13)
    g = af.correction3D(rR, cr, tsr).polars[0]
    cl, cd, _ = reference(ps[order[0]], rR, cr, tsr, [30.0, -5.0, 5.0])
    rec.close("airfoil", "lift of the airfoil with default limits", g.cl, cl, 1e-9, 1e-10)
    for x, s in zip(pols, before):
        rec.true("mutation", all(np.array_equal(u, v) for u, v in zip(snapshot(x), s)), "the source polar was changed")
    rec.seen(len(ps), round(rR, 1), round(cr, 1), round(tsr))
    rec.sample = dict(dcl=float(np.max(np.abs(got[0].cl - ps[0]["cl"]))))
