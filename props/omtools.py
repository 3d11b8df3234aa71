"""Building OpenMDAO problems around the components, silently and without files left behind."""
import os
import warnings

os.environ.setdefault("OPENMDAO_REPORTS", "0")
os.environ.setdefault("OPENMDAO_USE_MPI", "0")
import numpy as np

from rvlib import gen as G

ALT = {"m": [("m", 1.0), ("ft", 0.3048), ("km", 1000.0), ("cm", 0.01)], "deg": [("deg", 1.0), ("rad", 180 / np.pi)], "rad": [("rad", 1.0), ("deg", np.pi / 180)], "rpm": [("rpm", 1.0), ("rad/s", 30 / np.pi)], "m/s": [("m/s", 1.0), ("km/h", 1 / 3.6)]}


def problem(comp):
    import openmdao.api as om

    p = om.Problem(reports=False)
    p.model.add_subsystem("comp", comp, promotes=["*"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p.setup()
    return p


def modeling(n, na, nr, nt, **kw):
    return {"WISDEM": {"RotorSE": dict(n_span=n, n_aoa=na, n_Re=nr, n_tab=nt, **kw)}}


NEUTRAL = dict(tiploss=True, hubloss=True, wakerotation=True, usecd=True, precone=0.0, tilt=0.0, yaw=0.0, shearExp=0.0, precurveTip=0.0, presweepTip=0.0, precurve=0.0, presweep=0.0, azimuth_load=0.0, pitch_load=0.0, pitch=0.0)


def neutral(name, val):
    """the value that an input documented as optional has when nobody sets it"""
    return name in NEUTRAL and bool(np.all(np.asarray(val) == NEUTRAL[name]))


def plain(rng, s, tilt=True):
    """give many options the value they have when nobody sets them"""
    for k, v in NEUTRAL.items():
        if k in s and rng.random() < 0.7 and (tilt or k != "tilt"):
            s[k] = [v] * len(s["r"]) if k in ("precurve", "presweep") else v
    for k in ("precurve", "presweep"):
        if not np.any(s[k]):
            s[k + "Tip"] = 0.0


def put(p, name, val, unit, rng=None):
    """set an input, in a unit drawn by rng"""
    alts = ALT.get(unit)
    if unit is None:
        p.set_val(name, val)
    elif alts is None or rng is None:
        p.set_val(name, val, units=unit)
    else:
        u, f = alts[int(rng.integers(len(alts)))]
        p.set_val(name, np.asarray(val, float) / f, units=u)


def polars(rng, n, nRe=None):
    """parameters of n polars on one grid and one set of Reynolds numbers"""
    base = G.syn_airfoil(rng, nRe=int(rng.choice([1, 1, 2, 3, 4])) if nRe is None else nRe)
    out = []
    for _ in range(n):
        q = G.syn_airfoil(rng, nRe=base["nRe"])
        out.append(dict(q, Re=base["Re"], grid=base["grid"]))
    return out


def again(rng, base):
    """other polars with arrays of the same shapes"""
    out, f = polars(rng, len(base), base[0]["nRe"]), float(rng.uniform(0.5, 2))
    return [dict(q, Re=[v * f for v in base[0]["Re"]], grid=base[0]["grid"]) for q in out]


def feed_polars(p, st):
    p.set_val("airfoils_aoa", st[0], units="deg")
    for k, v in zip(("Re", "cl", "cd", "cm"), st[1:]):
        p.set_val("airfoils_" + k, v)


def stack(afs, nt, tab, seed):
    """aoa, Re, cl, cd, cm as (station, aoa, Re, tab); tables other than `tab` hold something else"""
    rng = np.random.default_rng(seed)
    t = [G.airfoil_arrays(q) for q in afs]
    al, Re = np.asarray(t[0][0], float), np.asarray(t[0][1], float)
    out = [al, Re]
    for k in (2, 3, 4):
        a = np.array([x[k] for x in t])
        b = np.repeat((a * rng.uniform(0.6, 0.9) + 0.01)[:, :, :, None], nt, axis=3)
        b[:, :, :, tab] = a
        out.append(b)
    return out
