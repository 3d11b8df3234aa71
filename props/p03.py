"""The wind a blade section sees follows the documented frames, shear profile and rotation."""
from .common import *

QUICK, THOROUGH = 8000, 100000
RULE = (
    "rotors with vanishing chord (so that the relative wind is the inflow itself) in cone/tilt/yaw up to 15/15/55 deg, curve and sweep up to 12 % "
    "of the radius, shear, any azimuth incl. beyond a full turn, scalar and per-station wind; parked rotors give the speed for every yaw; "
    "non-trivial when a component or a speed was compared at every station"
)
MINIMA = {"rotating station": 10000, "parked station": 2000, "per-station wind": 500, "end station": 1200, "close end station": 250, "end station on the axis": 300, "states": 20}


def cluster(rng, s):
    """an end station on the hub / tip with a neighbour much closer than one percent of the span"""
    r = s["r"]
    old = list(r)
    L = r[-1] - r[0]
    if rng.random() < 0.5:
        r[0] = s["Rhub"]
        r[1] = r[0] + L * float(10 ** rng.uniform(-3.5, -1.9))
    else:
        r[-1] = s["Rtip"]
        r[-2] = r[-1] - L * float(10 ** rng.uniform(-3.5, -1.9))
    for k in ("precurve", "presweep"):
        if s[k]:
            s[k] = [float(v) for v in np.interp(r, old, s[k])]
            if r[-1] == s["Rtip"]:
                s[k][-1] = s[k + "Tip"]
                s[k][-2] = s[k][-3] + (s[k][-1] - s[k][-3]) * (r[-2] - r[-3]) / (r[-1] - r[-3])


def gen(rng, idx, tier):
    s = G.gen_rotor(rng, options=False, B=3)
    s["precone"] = float(rng.uniform(-15, 15)) if rng.random() < 0.8 else 0.0
    s["tilt"] = float(rng.uniform(-15, 15)) if rng.random() < 0.8 else 0.0
    s["yaw"] = float(rng.uniform(-55, 55)) if rng.random() < 0.8 else 0.0
    s["shearExp"] = float(rng.uniform(-0.1, 0.5)) if rng.random() < 0.7 else 0.0
    R = s["Rtip"]
    x = (np.array(s["r"]) - s["Rhub"]) / (R - s["Rhub"])
    for k in ("precurve", "presweep"):
        if rng.random() < 0.7:
            c = R * float(rng.uniform(-0.12, 0.12))
            s[k + "Tip"] = float(c)
            w = 0.02 * R * np.sin(float(rng.uniform(2, 9)) * x) * float(rng.random() < 0.5)
            s[k] = [float(v) for v in c * x ** float(rng.uniform(1, 3)) + w]
            if s["r"][-1] == R:
                s[k][-1] = s[k + "Tip"]
    if idx % 4 == 1 and len(s["r"]) > 3:
        cluster(rng, s)
    raise_hub(s)
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(1.5, 12)), pitch=float(rng.uniform(-5, 30)), U=float(rng.uniform(2, 40)))
    o["azimuth"] = float(rng.uniform(-400, 800))
    parked = idx % 5 == 0
    if parked:
        o["Omega"] = 0.0
        s["yaw"] = float(rng.uniform(-180, 180))
    if idx % 3 == 0:
        o["Uarr"] = [float(v) for v in o["U"] * rng.uniform(0.6, 1.3, len(s["r"]))]
    return dict(rotor=s, oper=o)


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    e = 1e-9
    thin = dict(s, chord=[e * v for v in s["chord"]])
    ro = G.build_rotor(thin)
    r, pc, ps = stations(ro)
    # ---- station placement: interior untouched, an end station on hub / tip strictly inside its interval ----
    r0 = np.array(s["r"])
    rec.same("interior stations", "interior stations", r[1:-1], r0[1:-1])
    for k, edge, sg in ((0, s["Rhub"], 1), (-1, s["Rtip"], -1)):
        if r0[k] != edge:
            rec.true("station kept", r[k] == r0[k], "end station %r moved to %r although it is not on the hub/tip" % (r0[k], r[k]))
        else:
            h = abs(r0[1] - r0[0]) if k == 0 else abs(r0[-1] - r0[-2])
            d = (r[k] - r0[k]) * sg
            if h < 0.0125 * (r0[-1] - r0[0]):
                rec.ok("close end station")
            rec.true("end station", 0 < d <= 0.5 * h * (1 + 1e-9), "station on the %s moved by %r (interval %r)" % ("hub" if k == 0 else "tip", d, h))
    if s["precurve"]:
        rec.same("interior stations", "precurve", pc[:-1], np.array(s["precurve"])[:-1])
    if s["presweep"]:
        rec.same("interior stations", "presweep", ps[:-1], np.array(s["presweep"])[:-1])
    # an end station moved off the tip stays on the user's blade axis
    for k, v in (("precurve", pc), ("presweep", ps)):
        if s[k] and r0[-1] == s["Rtip"] and s[k][-1] == s[k + "Tip"]:
            rec.close("end station on the axis", k, v[-1], np.interp(r[-1], r0, s[k]), 1e-12, scale=max(1e-300, np.abs(s[k]).max()))
    U = np.array(o["Uarr"]) if "Uarr" in o else o["U"]
    o2 = dict(o, U=U)
    L, _ = loads(ro, o2)
    Vx, Vy = inflow(s, ro, o2)
    W0 = np.hypot(Vx, Vy)
    if o["Omega"] == 0.0:
        rec.close("parked speed", "parked speed", L["W"], W0, 1e-9)
        rec.close("parked direction", "parked inflow angle", np.asarray(L["alpha"]) + np.array(s["theta"]) + o["pitch"], 90.0 + 0 * r, 1e-9)
        rec.ok("parked station", len(r))
        rec.nontrivial = True
    else:
        phi = phis(s, L, o)
        W = np.asarray(L["W"])
        for i in range(len(r)):
            if Vx[i] < 0.02 * W0[i] or Vy[i] < 0.02 * W0[i] or abs(L["a"][i]) > 1e-4 or abs(L["ap"][i]) > 1e-4:
                rec.ok("station skipped")
                continue
            tag = "station %d at r=%.4g" % (i, r[i])
            a, ap = L["a"][i], L["ap"][i]
            rec.close("axial wind", tag, W[i] * np.sin(phi[i]) / (1 - a), Vx[i], 1e-7, scale=W0[i])
            rec.close("tangential wind", tag, W[i] * np.cos(phi[i]) / (1 + ap), Vy[i], 1e-7, scale=W0[i])
            rec.ok("rotating station")
            rec.nontrivial = True
    if "Uarr" in o:
        rec.ok("per-station wind")
    rec.seen("cone%d" % (s["precone"] != 0), "tilt%d" % (s["tilt"] != 0), "yaw%d" % (s["yaw"] != 0), "shear%d" % (s["shearExp"] != 0), "curve%d" % bool(s["precurve"]), "sweep%d" % bool(s["presweep"]), "parked%d" % (o["Omega"] == 0))
    rec.sample = dict(Vx=Vx, Vy=Vy, W=L["W"])
