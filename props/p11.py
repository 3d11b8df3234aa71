"""Physical symmetries and scaling laws of the rotor: related inputs give exactly related outputs."""
from .common import *

QUICK, THOROUGH = 2500, 50000
RULE = (
    "random rotors and conditions; per case every applicable relation (full turn, axisymmetric inflow, geometric / speed / density scaling at equal Reynolds "
    "number, pitch against twist, blade count against chord, mirror and half-turn symmetries) is applied with random factors; non-trivial when >= 4 relations "
    "were compared on nonzero loads"
)
RELS = ("full turn", "axisymmetric", "size", "speed", "density", "pitch-twist", "blades-chord", "shear mirror", "yaw half turn", "tilt-yaw quarter turn", "rotor size", "rotor speed", "rotor density")
MINIMA = dict({"relation:" + k: 60 for k in RELS}, states=20)


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(3, 8)), iterRe=True))
    k = idx % 6
    if k == 0:
        s["tilt"] = s["yaw"] = s["shearExp"] = 0.0
    elif k == 1:
        s["tilt"] = s["yaw"] = 0.0
        s["shearExp"] = float(rng.uniform(0.05, 0.3))
        s["presweep"], s["presweepTip"] = None, 0.0
    elif k == 2:
        s["tilt"] = s["shearExp"] = 0.0
        s["yaw"] = float(rng.uniform(-25, 25))
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(2, 11)), pitch=float(rng.uniform(-4, 15)))
    if idx % 13 == 0:
        o["Omega"] = 0.0
    return dict(rotor=s, oper=o, f=float(10 ** (rng.uniform(-1, 1) if idx % 4 else rng.uniform(-5, 4))), g=float(10 ** (rng.uniform(-0.7, 0.7) if idx % 5 else rng.uniform(-5, 4))), d=float(rng.uniform(-5, 5)), turns=int(rng.choice([-2, -1, 1, 3])), lam=float(rng.uniform(0, 360)))


def scaled(s, **k):
    s2 = dict(s)
    for key, f in k.items():
        v = s2[key]
        s2[key] = None if v is None else ([x * f for x in v] if isinstance(v, list) else v * f)
    return s2


LEN = ("r", "chord", "Rhub", "Rtip", "precurve", "precurveTip", "presweep", "presweepTip", "hubHt")


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    f, g = spec["f"], spec["g"]
    ro = G.build_rotor(s)
    Vx, Vy = inflow(s, ro, o)
    W0 = np.hypot(Vx, Vy)
    if o["Omega"] and (np.any(Vx < 0.02 * W0) or np.any(Vy < 0.02 * W0)):
        raise Stop()
    L, _ = loads(ro, o)
    nrel = [0]
    base = np.maximum(np.hypot(L["Np"], L["Tp"]), 1e-300)

    def cmp(name, s2, o2, kN, ang=0.0):
        """loads of (s2, o2) must be kN times the loads of the base case, with the same induction and angle of attack"""
        L2, _ = loads(G.build_rotor(s2), o2)
        mech = "relation " + name
        rec.close(mech, name + ": Np", np.asarray(L2["Np"]) / kN, L["Np"], 2e-8, scale=base)
        rec.close(mech, name + ": Tp", np.asarray(L2["Tp"]) / kN, L["Tp"], 2e-8, scale=base)
        rec.close(mech, name + ": a", L2["a"], L["a"], 1e-7, scale=1 + np.abs(L["a"]) ** 2)
        rec.close(mech, name + ": ap", L2["ap"], L["ap"], 1e-7, scale=1 + np.abs(L["ap"]) ** 2)
        rec.close(mech, name + ": alpha", L2["alpha"], np.asarray(L["alpha"]) + ang, 1e-7, scale=10.0)
        rec.close(mech, name + ": Re", L2["Re"], L["Re"], 2e-7)
        rec.ok("relation:" + name)
        nrel[0] += 1

    cmp("full turn", s, dict(o, azimuth=o["azimuth"] + 360.0 * spec["turns"]), 1.0)
    if s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0:
        cmp("axisymmetric", s, dict(o, azimuth=spec["lam"]), 1.0)
    big = scaled(s, mu=f, **{k: f for k in LEN})
    fast = scaled(s, mu=g)
    dense = scaled(s, rho=g, mu=g)
    cmp("size", big, dict(o, Omega=o["Omega"] / f), f)
    cmp("speed", fast, dict(o, U=o["U"] * g, Omega=o["Omega"] * g), g * g)
    cmp("density", dense, o, g)
    tw = dict(s, theta=[t + spec["d"] for t in s["theta"]])
    cmp("pitch-twist", tw, dict(o, pitch=o["pitch"] - spec["d"]), 1.0)
    bare = dict(s, tiploss=False, hubloss=False)
    if s["tiploss"] or s["hubloss"]:
        keep, base0, L0 = L, base, L
        L, _ = loads(G.build_rotor(bare), o)
        base = np.maximum(np.hypot(L["Np"], L["Tp"]), 1e-300)
    B2 = s["B"] + 2 if s["B"] < 4 else s["B"] - 2
    q = s["B"] / B2
    cmp("blades-chord", scaled(dict(bare, B=B2), chord=q, mu=q), o, q)
    if s["tiploss"] or s["hubloss"]:
        L, base = keep, base0
    if s["tilt"] == 0 and s["yaw"] == 0 and s["presweep"] is None:
        cmp("shear mirror", s, dict(o, azimuth=-o["azimuth"]), 1.0)
    if s["tilt"] == 0 and s["shearExp"] == 0:
        cmp("yaw half turn", dict(s, yaw=-s["yaw"]), dict(o, azimuth=o["azimuth"] + 180.0), 1.0)
        # an inclined inflow is the same whichever axis it is inclined about, a quarter turn later
        cmp("tilt-yaw quarter turn", dict(s, yaw=0.0, tilt=s["yaw"]), dict(o, azimuth=o["azimuth"] - 90.0), 1.0)
    # the rotor quantities scale accordingly, their coefficients stay
    e, _ = ro.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=True)
    F = np.abs(np.asarray(e["T"])).max() + 1e-9 * 0.5 * s["rho"] * o["U"] ** 2 * np.pi * s["Rtip"] ** 2
    ref1 = dict(T=F, Y=F, Z=F, Q=F * s["Rtip"], My=F * s["Rtip"], Mz=F * s["Rtip"], Mb=F * s["Rtip"], P=F * o["U"])
    C = 0.5 * s["rho"] * o["U"] ** 2 * np.pi * ref.rotor_radius(s) ** 2
    for name, s2, o2, pf, pg in (
        ("rotor size", big, dict(o, Omega=o["Omega"] / f), dict(T=2, Y=2, Z=2, Q=3, My=3, Mz=3, Mb=3, P=2), f),
        ("rotor speed", fast, dict(o, U=o["U"] * g, Omega=o["Omega"] * g), dict(T=2, Y=2, Z=2, Q=2, My=2, Mz=2, Mb=2, P=3), g),
        ("rotor density", dense, o, dict.fromkeys(ref1, 1), g),
    ):
        e2, _ = G.build_rotor(s2).evaluate([o2["U"]], [o2["Omega"]], [o2["pitch"]], coefficients=True)
        for k in ref1:
            rec.close("relation " + name, "%s: %s" % (name, k), np.asarray(e2[k]) / pg ** pf[k], e[k], 1e-8, scale=ref1[k])
            rec.close("relation " + name, "%s: C%s" % (name, k), e2["C" + k], e["C" + k], 1e-8, scale=max(F / C, float(np.abs(e["C" + k]).max())))
        rec.ok("relation:" + name)
        nrel[0] += 1
    rec.nontrivial = nrel[0] >= 4 and bool(np.any(np.asarray(L["Np"]) != 0))
    rec.seen(flags(s), s["family"], "k%d" % nrel[0], "parked%d" % (o["Omega"] == 0))
    rec.sample = dict(relations=nrel[0], Np=L["Np"])
