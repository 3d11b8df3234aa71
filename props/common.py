import numpy as np

from rvlib import gen as G, ref
from rvlib.run import Stop


def stations(ro):
    """the stations the rotor analyses (public attributes)"""
    return np.array(ro.r, float), np.array(ro.precurve, float), np.array(ro.presweep, float)


def inflow(spec, ro, o):
    r, pc, ps = stations(ro)
    rad = np.radians
    return ref.inflow(r, pc, ps, rad(spec["precone"]), rad(spec["tilt"]), rad(spec["yaw"]), rad(o["azimuth"]), o["U"], o["Omega"], spec["hubHt"], spec["shearExp"])


def raise_hub(spec):
    """keep the whole rotor above ground, where the wind profile is defined"""
    m = spec["Rtip"] + abs(spec["precurveTip"]) + abs(spec["presweepTip"])
    if spec["hubHt"] < 1.12 * m:
        spec["hubHt"] = float(1.12 * m)
    return spec


def loads(ro, o):
    return ro.distributedAeroLoads(o["U"], o["Omega"], o["pitch"], o["azimuth"])


def phis(spec, L, o):
    return np.radians(np.asarray(L["alpha"]) + np.array(spec["theta"]) + o["pitch"])


def flags(spec):
    return "".join(c if spec[k] else "-" for c, k in zip("thwd", ("tiploss", "hubloss", "wakerotation", "usecd"))) + str(spec["iterRe"])


def unsolvable(s, sec, e=1e-6):
    """no branch of the section equations brackets a solution although the inflow is ordinary: only with negative
    drag or, when drag is left out of the induction, with extreme solidity and pitch"""
    if s["usecd"] and sec.coeffs(e)[1] > 0:
        return False
    a, b = sec.residual(np.pi / 2), sec.residual(np.pi - e)
    return bool(sec.residual(e) * a > 0 and a * b > 0 and not (sec.residual(-np.pi / 4) < 0 < sec.residual(-e)))
