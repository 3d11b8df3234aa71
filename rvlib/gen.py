"""Workload generators.  Every case is a JSON-able dict, so a replay file holds the complete input."""
import os

import numpy as np

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data")
FILES = ["Cylinder1", "Cylinder2", "DU40_A17", "DU35_A17", "DU30_A17", "DU25_A17", "DU21_A17", "NACA64_A17"]


# ---------------------------------------------------------------- airfoils
def syn_airfoil(rng, nRe=None, thick=None):
    """parameters of a synthetic full-range polar: attached flow blended into a flat plate, optional Re dependence"""
    if nRe is None:
        nRe = int(rng.choice([0, 1, 1, 2, 3, 4, 5]))
    Re = sorted(float(x) for x in 10 ** rng.uniform(4.8, 7.6, size=max(nRe, 1)))
    if nRe > 1:  # keep the Reynolds numbers apart
        Re = [float(x) for x in np.geomspace(Re[0], max(Re[-1], Re[0] * 4.0), nRe)]
    return dict(
        kind="syn",
        nRe=nRe,
        Re=Re,
        m=float(rng.uniform(4.5, 6.6)),
        a0=float(rng.uniform(-5.0, 1.0)),
        stall=float(rng.uniform(9.0, 18.0)),
        width=float(rng.uniform(1.5, 4.0)),
        cd0=float(rng.uniform(0.005, 0.02)),
        kcd=float(rng.uniform(0.05, 0.4)),
        cd90=float(rng.uniform(1.2, 2.0)),
        c45=float(rng.uniform(0.8, 1.2)),
        cm0=float(rng.uniform(-0.12, 0.0)),
        eRe=float(rng.uniform(0.0, 0.08)) if nRe > 1 else 0.0,
        dRe=float(rng.uniform(0.05, 0.25)) if nRe > 1 else 0.0,
        grid=str(rng.choice(["fine", "coarse", "uneven"])),
    )


def airfoil_arrays(p):
    """alpha(deg), Re, cl, cd, cm arrays for the specification p"""
    if p["kind"] == "file":
        from . import ref

        return ref.read_aerodyn_grid(os.path.join(DATA, p["name"] + ".dat"))
    if p["kind"] == "cyl":
        al = np.linspace(-180.0, 180.0, 37)
        o = np.ones((37, 1))
        return al, [1e6], 0.0 * o, p["cd"] * o, 0.0 * o
    g = p["grid"]
    if g == "fine":
        al = np.linspace(-180, 180, 181)
    elif g == "coarse":
        al = np.r_[np.arange(-180, -30, 10.0), np.arange(-30, 30, 2.0), np.arange(30, 181, 10.0)]
    else:
        al = np.r_[np.arange(-180, -45, 15.0), np.arange(-45, -12, 3.0), np.arange(-12, 22, 1.0), np.arange(22, 60, 4.0), np.arange(60, 181, 12.0)]
    a = np.radians(al)
    a0 = np.radians(p["a0"])
    Res = p["Re"]
    cl = np.zeros((len(al), len(Res)))
    cd = np.zeros_like(cl)
    cm = np.zeros_like(cl)
    for j, R in enumerate(Res):
        x = np.log10(R / 1e6)
        m = p["m"] * (1 + p["eRe"] * x)
        cd0 = p["cd0"] * 10 ** (-p["dRe"] * x)
        st = p["stall"] * (1 + 0.5 * p["eRe"] * x)
        s = 1.0 / (1.0 + np.exp(np.clip((np.abs(al - p["a0"]) - st) / p["width"], -60, 60)))
        cl[:, j] = s * m * np.sin(a - a0) + (1 - s) * p["c45"] * np.sin(2 * a)
        cd[:, j] = s * (cd0 + p["kcd"] * (a - a0) ** 2) + (1 - s) * (cd0 + p["cd90"] * np.sin(a) ** 2)
        cm[:, j] = s * p["cm0"] - (1 - s) * 0.4 * np.sin(a)
    if p["nRe"] == 0:
        Res = []
    return al, Res, cl, cd, cm


_cache = {}


def build_airfoil(p, cache=True):
    from ccblade.ccblade import CCAirfoil

    key = repr(sorted(p.items()))
    if cache and key in _cache:
        return _cache[key]
    al, Re, cl, cd, cm = airfoil_arrays(p)
    af = CCAirfoil(al, Re, cl, cd, cm=cm)
    if cache:
        if len(_cache) > 400:
            _cache.clear()
        _cache[key] = af
    return af


# ---------------------------------------------------------------- rotors
def fl(x):
    return [float(v) for v in np.asarray(x).ravel()]


def gen_rotor(
    rng,
    n=None,
    family=None,
    options=True,
    ends=True,
    curve=True,
    sweep=True,
    angles=True,
    shear=True,
    af="mix",
    iterRe=False,
    nSector=None,
    B=None,
    low_hub=True,
    usecd=None,
    unusual=0.1,
):
    """a physically valid rotor; a fraction of them unusual in some respect (see below)"""
    odd = set()
    if rng.random() < unusual:
        odd = set(str(k) for k in rng.choice(["stations", "size", "solidity", "blades", "density", "precone", "tilt", "yaw", "shear", "curve", "sweep"], size=int(rng.integers(1, 4))))
    if family is None:
        family = str(rng.choice(["nrel", "random", "random", "small"]))
    if n is None:
        n = int(rng.integers(4, 13)) if rng.random() > 0.06 else int(rng.integers(2, 4))
        if "stations" in odd:
            n = int(rng.integers(16, 45))
    if family == "nrel":
        Rhub, Rtip = 1.5, 63.0
        rr = np.array([2.8667, 5.6, 8.3333, 11.75, 15.85, 19.95, 24.05, 28.15, 32.25, 36.35, 40.45, 44.55, 48.65, 52.75, 56.1667, 58.9, 61.6333])
        cc = np.array([3.542, 3.854, 4.167, 4.557, 4.652, 4.458, 4.249, 4.007, 3.748, 3.502, 3.256, 3.010, 2.764, 2.518, 2.313, 2.086, 1.419])
        tt = np.array([13.308, 13.308, 13.308, 13.308, 11.480, 10.162, 9.011, 7.795, 6.544, 5.361, 4.188, 3.125, 2.319, 1.526, 0.863, 0.370, 0.106])
        ai = [0, 0, 1, 2, 3, 3, 4, 5, 5, 6, 6, 7, 7, 7, 7, 7, 7]
        r = np.sort(np.r_[rr[0], rr[-1], rng.uniform(rr[0] + 0.3, rr[-1] - 0.3, size=max(n - 2, 0))])[:n]
        r = spread(r)
        chord = np.interp(r, rr, cc)
        theta = np.interp(r, rr, tt)
        afs = [dict(kind="file", name=FILES[ai[int(np.argmin(abs(rr - x)))]]) for x in r]
        if af == "syn":
            base = syn_airfoil(rng)
            afs = [base] * n
    else:
        Rtip = float(rng.uniform(20, 110)) if family == "random" else float(rng.uniform(0.8, 8.0))
        if "size" in odd:
            Rtip = float(rng.choice([10 ** rng.uniform(-1.5, 0), rng.uniform(110, 400)]))
        Rhub = Rtip * float(rng.uniform(0.02, 0.18))
        lo = Rhub + (Rtip - Rhub) * float(rng.uniform(0.01, 0.08))
        hi = Rtip - (Rtip - Rhub) * float(rng.uniform(0.005, 0.06))
        u = np.sort(rng.uniform(0, 1, size=n))
        r = lo + (hi - lo) * (0.35 * (u - u[0]) / (u[-1] - u[0]) + 0.65 * np.linspace(0, 1, n))
        x = (r - Rhub) / (Rtip - Rhub)
        sol = float(rng.uniform(0.03, 0.1))
        chord = Rtip * sol * (1.15 - 0.75 * x) * (0.7 + 0.5 * np.sin(np.pi * np.minimum(x * 2.2, 1) / 2)) * (1 + 0.05 * rng.uniform(-1, 1, n))
        if "solidity" in odd:
            chord = chord * float(rng.choice([rng.uniform(0.15, 0.6), rng.uniform(1.5, 3.0)]))
        tw = float(rng.uniform(6, 25))
        theta = tw * (1 - x) ** float(rng.uniform(1.0, 2.5)) + float(rng.uniform(-2, 3)) + 0.3 * rng.uniform(-1, 1, n)
        if af == "file":
            pool = [dict(kind="file", name=k) for k in FILES[2:]]
        elif af == "syn":
            pool = [syn_airfoil(rng) for _ in range(int(rng.integers(1, 4)))]
        else:
            pool = [dict(kind="file", name=str(k)) for k in rng.choice(FILES[2:], 2)] + [syn_airfoil(rng) for _ in range(2)]
        k = rng.integers(0, len(pool), size=n)
        afs = [pool[int(i)] for i in k]
        if af == "mix" and rng.random() < 0.3:
            afs[0] = dict(kind="cyl", cd=float(rng.uniform(0.3, 1.1)))
    spec = dict(
        family=family,
        r=fl(r),
        chord=fl(chord),
        theta=fl(theta),
        af=afs,
        Rhub=float(Rhub),
        Rtip=float(Rtip),
        B=int(B if B is not None else rng.choice([1, 2, 3, 3, 3, 4, 5])),
        rho=float(rng.choice([1.225, rng.uniform(0.7, 1.4), 1025.0], p=[0.5, 0.4, 0.1])),
        mu=float(rng.choice([1.81206e-5, rng.uniform(1e-5, 3e-5), 1.8e-5 * 10 ** rng.uniform(-2.5, 2.3)], p=[0.5, 0.35, 0.15])),
        precone=0.0,
        tilt=0.0,
        yaw=0.0,
        shearExp=0.0,
        hubHt=float(Rtip * rng.uniform(1.15, 2.5)),
        nSector=int(nSector if nSector is not None else rng.choice([4, 4, 5, 6, 8])),
        precurve=None,
        precurveTip=0.0,
        presweep=None,
        presweepTip=0.0,
        tiploss=True,
        hubloss=True,
        wakerotation=True,
        usecd=True,
        iterRe=1,
    )
    if angles:
        if rng.random() < 0.7:
            spec["precone"] = float(rng.uniform(-6, 6))
        if rng.random() < 0.7:
            spec["tilt"] = float(rng.uniform(-8, 8))
        if rng.random() < 0.6:
            spec["yaw"] = float(rng.uniform(-25, 25))
    if shear and rng.random() < 0.7:
        spec["shearExp"] = float(rng.uniform(0.02, 0.35))
    sg = lambda: float(rng.choice([-1, 1]))
    if "blades" in odd and B is None:
        spec["B"] = int(rng.integers(6, 21))
    if "density" in odd:
        spec["rho"] = float(10 ** rng.uniform(-2, 3.2))
    if angles:
        if "precone" in odd:
            spec["precone"] = sg() * float(rng.uniform(6, 30))
        if "tilt" in odd:
            spec["tilt"] = sg() * float(rng.uniform(8, 40))
        if "yaw" in odd:
            spec["yaw"] = sg() * float(rng.uniform(25, 75))
    if shear and "shear" in odd:
        spec["shearExp"] = float(rng.choice([rng.uniform(-0.3, 0), rng.uniform(0.35, 1.2), 1e-4]))
    x = (np.array(spec["r"]) - Rhub) / (Rtip - Rhub)
    if curve and rng.random() < 0.6:
        c = Rtip * float(rng.uniform(-0.06, 0.06)) * (4 if "curve" in odd else 1)
        e = float(rng.uniform(1.5, 3))
        spec["precurve"] = fl(c * x ** e)
        spec["precurveTip"] = float(c)
    if sweep and rng.random() < 0.5:
        c = Rtip * float(rng.uniform(-0.06, 0.06)) * (4 if "sweep" in odd else 1)
        e = float(rng.uniform(1.5, 3))
        spec["presweep"] = fl(c * x ** e)
        spec["presweepTip"] = float(c)
    if ends:
        if rng.random() < 0.25:  # station exactly at the hub / tip, as WISDEM passes them
            spec["r"][0] = spec["Rhub"]
            if spec["precurve"]:
                spec["precurve"][0] = 0.0
            if spec["presweep"]:
                spec["presweep"][0] = 0.0
        if rng.random() < 0.25:
            spec["r"][-1] = spec["Rtip"]
            if spec["precurve"]:
                spec["precurve"][-1] = spec["precurveTip"]
            if spec["presweep"]:
                spec["presweep"][-1] = spec["presweepTip"]
    if options:
        for k in ("tiploss", "hubloss", "wakerotation"):
            if rng.random() < 0.2:
                spec[k] = False
        if rng.random() < 0.15:
            spec["usecd"] = False
    if usecd is not None:
        spec["usecd"] = usecd
    if iterRe and rng.random() < 0.3:
        spec["iterRe"] = int(rng.choice([2, 2, 3, 5]))
    return spec


def spread(r, mind=0.02):
    """enforce a minimum relative spacing (stations are distinct and increasing)"""
    r = np.array(r, float)
    L = r[-1] - r[0]
    n = len(r)
    return r[0] + (0.5 * (r - r[0]) / L + 0.5 * np.linspace(0, 1, n)) * L


ROTOR_KEYS = [
    "B", "rho", "mu", "precone", "tilt", "yaw", "shearExp", "hubHt", "nSector", "precurve", "precurveTip",
    "presweep", "presweepTip", "tiploss", "hubloss", "wakerotation", "usecd", "iterRe",
]


def build_rotor(spec, derivatives=False, af=None, **over):
    from ccblade.ccblade import CCBlade

    s = dict(spec)
    s.update(over)
    if af is None:
        af = [build_airfoil(p) for p in s["af"]]
    kw = {k: s[k] for k in ROTOR_KEYS}
    for k in ("precurve", "presweep"):
        if kw[k] is not None:
            kw[k] = np.array(kw[k], dtype=float)
    return CCBlade(
        np.array(s["r"], dtype=float),
        np.array(s["chord"], dtype=float),
        np.array(s["theta"], dtype=float),
        af,
        s["Rhub"],
        s["Rtip"],
        derivatives=derivatives,
        **kw,
    )


def gen_oper(rng, spec, tsr=None, pitch=None, U=None):
    """an operating condition: wind speed, rpm, pitch, azimuth"""
    if U is None:
        U = float(rng.uniform(3, 25)) if rng.random() > 0.06 else float(rng.choice([10 ** rng.uniform(-2, 0.5), rng.uniform(25, 150)]))
    t = float(rng.uniform(2, 11)) if tsr is None else tsr
    R = spec["Rtip"]
    return dict(
        U=U,
        Omega=float(t * U / R * 30 / np.pi),
        pitch=float(rng.uniform(-3, 8)) if pitch is None else pitch,
        azimuth=float(rng.uniform(0, 360)),
        tsr=float(t),
    )


def safe_height(spec):
    """lowest point reached by the blade stays above ground (the power law is undefined below it)"""
    return spec["hubHt"] > 1.1 * (spec["Rtip"] + abs(spec["precurveTip"]) + abs(spec["presweepTip"]))
