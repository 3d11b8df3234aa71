"""Workload: polars (angle of attack, cl, cd, cm at one Reynolds number) and a reference for operations on them."""
import numpy as np


def gen_polar(rng, Re=None, full=None, lo=None, hi=None, grid=None):
    """plain lists, so that the case can be replayed; attached flow, stall, sometimes noise, sometimes a cylinder"""
    full = rng.random() < 0.2 if full is None else full
    if full:
        lo, hi = -180.0, 180.0
    lo = float(rng.uniform(-40, -6)) if lo is None else lo
    hi = float(rng.uniform(8, 60)) if hi is None else hi
    grid = str(rng.choice(["even", "uneven", "integer"])) if grid is None else grid
    n = int(rng.integers(60, 140)) if full else int(rng.integers(12, 60))
    if grid == "even":
        a = np.linspace(lo, hi, n)
    elif grid == "uneven":
        a = np.sort(np.r_[lo, hi, rng.uniform(lo, hi, n)])
        a = 0.5 * a + 0.5 * np.linspace(lo, hi, len(a))
    else:
        a = np.arange(np.ceil(lo), np.floor(hi) + 1)
        if full:
            a = a[:: int(rng.choice([2, 3, 5]))]
            a[-1] = 180.0
    m, a0, st, w = rng.uniform(4.5, 6.6), rng.uniform(-5, 1), rng.uniform(9, 18), rng.uniform(1.5, 4)
    cd0, kcd, cm0 = rng.uniform(0.005, 0.02), rng.uniform(0.05, 0.4), rng.uniform(-0.12, 0.02)
    x = np.radians(a)
    s = 1 / (1 + np.exp(np.clip((np.abs(a - a0) - st) / w, -60, 60)))
    cl = s * m * np.sin(x - np.radians(a0)) + (1 - s) * 1.0 * np.sin(2 * x)
    cd = s * (cd0 + kcd * (x - np.radians(a0)) ** 2) + (1 - s) * (cd0 + 1.5 * np.sin(x) ** 2)
    cm = s * cm0 - (1 - s) * 0.4 * np.sin(x)
    if rng.random() < 0.4:
        cl = cl + rng.normal(0, 0.01, len(a))
        cd = cd * np.exp(rng.normal(0, 0.03, len(a)))
        cm = cm + rng.normal(0, 0.003, len(a))
    if rng.random() < 0.15:
        cm = 0.0 * cm
    Re = float(10 ** rng.uniform(4.5, 7.8)) if Re is None else Re
    return dict(Re=Re, alpha=a.tolist(), cl=cl.tolist(), cd=cd.tolist(), cm=cm.tolist())


def lin(x, xp, fp):
    """piecewise linear interpolation, constant outside, written out independently of numpy.interp"""
    xp, fp = np.asarray(xp, float), np.asarray(fp, float)
    out = []
    for v in np.ravel(np.asarray(x, float)):
        if v <= xp[0]:
            out.append(fp[0])
        elif v >= xp[-1]:
            out.append(fp[-1])
        else:
            j = int(np.searchsorted(xp, v, side="right")) - 1
            t = (v - xp[j]) / (xp[j + 1] - xp[j])
            out.append((1 - t) * fp[j] + t * fp[j + 1])
    return np.array(out)


def make(p, cls=None):
    from ccblade.airfoilprep import Polar

    return (cls or Polar)(p["Re"], p["alpha"], p["cl"], p["cd"], p["cm"])


def ref_blend(p, q, w):
    a = np.unique(np.r_[p["alpha"], q["alpha"]])
    lo, hi = max(p["alpha"][0], q["alpha"][0]), min(p["alpha"][-1], q["alpha"][-1])
    a = a[(a >= lo) & (a <= hi)]
    out = dict(Re=(1 - w) * p["Re"] + w * q["Re"], alpha=a)
    for k in ("cl", "cd", "cm"):
        out[k] = (1 - w) * lin(a, p["alpha"], p[k]) + w * lin(a, q["alpha"], q[k])
    return out


def ref_get(ps, Re):
    ps = sorted(ps, key=lambda p: p["Re"])
    if Re <= ps[0]["Re"]:
        return ps[0]
    if Re >= ps[-1]["Re"]:
        return ps[-1]
    i = [p["Re"] < Re for p in ps].index(False)
    if ps[i]["Re"] == Re:
        return ps[i]
    return ref_blend(ps[i - 1], ps[i], (Re - ps[i - 1]["Re"]) / (ps[i]["Re"] - ps[i - 1]["Re"]))


def compare(rec, mech, what, got, want, tol=1e-10):
    rec.close(mech, what + ": Reynolds number", got.Re, want["Re"], 1e-12)
    if rec.close(mech, what + ": angles of attack", got.alpha, want["alpha"], 0, 1e-10):
        for k in ("cl", "cd", "cm"):
            rec.close(mech, what + ": " + k, getattr(got, k), want[k], tol, tol)


def snapshot(pol):
    return [np.array(getattr(pol, k)) for k in ("Re", "alpha", "cl", "cd", "cm")]
