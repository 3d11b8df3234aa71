"""Rotor thrust, torque, power, side/vertical force and moments are the azimuthal average of the integrated blade loads."""
from .common import *

QUICK, THOROUGH = 2000, 20000
RULE = (
    "random rotors (all angles, curve, sweep, shear, 1-5 blades, 1-199 requested sectors) at random conditions; the rotor quantities are compared "
    "with an independent integration of the distributed loads the same rotor reports at each sector; non-trivial when the thrust is nonzero"
)
MINIMA = {"rotor compared": 600, "single sector": 30, "states": 20}
KEYS = ("T", "Y", "Z", "Q", "P", "My", "Mz", "Mb")


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, iterRe=True, nSector=int(rng.choice([1, 2, 3, 4, 5, 6, 8, 12]) if idx % 8 else rng.choice([61, 122, 161, 175, 197, rng.integers(4, 200), rng.integers(4, 70), rng.integers(4, 70)]))))
    if idx % 12 == 0:
        s["tilt"] = s["yaw"] = s["shearExp"] = 0.0
    elif idx % 12 in (1, 2, 3):  # exactly one source of asymmetry
        v = {1: ("tilt", 5.0), 2: ("yaw", -12.0), 3: ("shearExp", 0.2)}[idx % 12]
        for k in ("tilt", "yaw", "shearExp"):
            s[k] = v[1] if k == v[0] else 0.0
    if idx % 9 == 0:
        s["precone"] = float(rng.uniform(-20, 20))
        raise_hub(s)
    o = G.gen_oper(rng, s)
    if idx % 25 == 0:
        o["Omega"] = 0.0
    return dict(rotor=s, oper=o)


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    ro = G.build_rotor(s)
    out, _ = ro.evaluate([o["U"]], [o["Omega"]], [o["pitch"]])
    single = s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0
    ns = 1 if single else max(4, s["nSector"])
    ro2 = G.build_rotor(s)
    tot = np.zeros(2)

    def at(az):
        L, _ = ro2.distributedAeroLoads(o["U"], o["Omega"], o["pitch"], az)
        tot[:] += np.sum(np.abs(L["Np"])), np.sum(np.abs(L["Tp"]))
        return np.asarray(L["Np"]), np.asarray(L["Tp"])

    d = ref.rotor_reference(s, stations(ro2), at, o["U"], o["Omega"], ns)
    R = max(s["Rtip"], 1.0)
    F = s["B"] * (tot.sum() / ns) * (s["Rtip"] - s["Rhub"]) + 1e-300
    scales = dict(T=F, Y=F, Z=F, Q=F * R, My=F * R, Mz=F * R, Mb=F * R / s["B"], P=F * R * max(abs(o["Omega"]), 1e-9) * np.pi / 30)
    for k in KEYS:
        got = np.asarray(out[k])
        rec.true("shape", got.shape == (1,), "%s has shape %s for one condition" % (k, got.shape))
        if single and k in ("Y", "Z", "My", "Mz"):
            continue
        rec.close("rotor " + k, k, got[0], d[k], 3e-11, scale=scales[k])
    rec.close("power", "P = Q Omega", out["P"][0], out["Q"][0] * o["Omega"] * np.pi / 30, 1e-12)
    if single:
        # every azimuth is alike, so the true average over a turn has no in-plane force and no tilting moment
        for k in ("Y", "Z", "My", "Mz"):
            if not abs(out[k][0]) <= 1e-9 * scales[k]:
                rec.bad("nsector1:inplane", "%s = %.4g for an axisymmetric inflow (one-sector shortcut)" % (k, out[k][0]))
        rec.ok("single sector")
    rec.ok("rotor compared")
    rec.seen("ns%d" % ns, "B%d" % s["B"], "cone%d" % (s["precone"] != 0), "curve%d" % bool(s["precurve"]), "sweep%d" % bool(s["presweep"]))
    rec.nontrivial = abs(d["T"]) > 0
    rec.sample = {k: out[k] for k in KEYS}
