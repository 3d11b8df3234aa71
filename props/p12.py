"""Every model option does exactly what it documents: nothing else changes, and the documented defaults apply."""
from .common import *

QUICK, THOROUGH = 2500, 50000
RULE = (
    "random rotors and conditions; each case switches the options one at a time and perturbs what the switched-off model would depend on "
    "(tip radius, hub radius, drag of the polars, Reynolds iterations), plus rotors built without any option; non-trivial when a dependence was also seen with the option on"
)
MINIMA = {"tip loss off": 500, "hub loss off": 500, "wake rotation off": 500, "drag off": 500, "iterations": 500, "iterations counted": 3000, "iterations matter": 400, "defaults": 500, "sensitive": 500}


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 8)), ends=False, af="syn"))
    s["af"] = [G.syn_airfoil(rng, nRe=int(rng.choice([0, 1])))] * len(s["r"])
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(3, 10)), pitch=float(rng.uniform(-3, 8)))
    return dict(rotor=s, oper=o, x=float(rng.uniform(0.001, 0.05)), cd=float(rng.uniform(1.5, 6)), it=int(rng.choice([2, 3, 4, 5])), re_af=G.syn_airfoil(rng, nRe=int(rng.choice([2, 3, 5]))))


DEFAULTS = dict(
    B=3, rho=1.225, mu=1.81206e-5, precone=0.0, tilt=0.0, yaw=0.0, shearExp=0.2, hubHt=80.0, nSector=8, precurve=None, precurveTip=0.0, presweep=None,
    presweepTip=0.0, tiploss=True, hubloss=True, wakerotation=True, usecd=True, iterRe=1,
)


def check(spec, rec):
    from ccblade.ccblade import CCAirfoil, CCBlade

    s, o, x = spec["rotor"], spec["oper"], spec["x"]
    Vx, Vy = inflow(s, G.build_rotor(s), o)
    W0 = np.hypot(Vx, Vy)
    if np.any(Vx < 0.02 * W0) or np.any(Vy < 0.02 * W0):
        raise Stop()
    run = lambda s2, **k: loads(G.build_rotor(s2, **k), o)[0]

    def eq(mech, what, A, B, keys=("Np", "Tp", "a", "ap", "alpha", "W", "Cl", "Cd"), tol=1e-12):
        for k in keys:
            sc = max(np.abs(A[k]).max(), 1e-12)
            rec.close(mech, "%s: %s" % (what, k), B[k], A[k], tol, scale=sc)

    sens = 0
    # tip loss
    off = dict(s, tiploss=False)
    far = dict(off, Rtip=s["Rtip"] * (1 + x))
    eq("tip loss off", "tip radius changed with tip loss off", run(off), run(far))
    A, B = run(dict(s, tiploss=True)), run(dict(s, tiploss=True, Rtip=s["Rtip"] * (1 + x)))
    sens += np.abs(A["Np"] - B["Np"]).max() > 1e-9 * np.abs(A["Np"]).max()
    # hub loss
    off = dict(s, hubloss=False)
    eq("hub loss off", "hub radius changed with hub loss off", run(off), run(dict(off, Rhub=s["Rhub"] * (1 - 5 * x))))
    A, B = run(dict(s, hubloss=True)), run(dict(s, hubloss=True, Rhub=s["Rhub"] * (1 - 5 * x)))
    sens += np.abs(A["Np"] - B["Np"]).max() > 1e-9 * np.abs(A["Np"]).max()
    # wake rotation
    A = run(dict(s, wakerotation=False))
    rec.true("wake rotation off", np.all(np.asarray(A["ap"]) == 0), "tangential induction %s with wake rotation off" % A["ap"])
    sens += np.abs(run(dict(s, wakerotation=True))["ap"]).max() > 1e-9
    # drag in the induction
    af = {}
    for p in s["af"]:
        if repr(p) not in af:
            al, Re, cl, cd, cm = G.airfoil_arrays(p)
            al = np.asarray(al)
            # the same lift, much more drag
            af[repr(p)] = (CCAirfoil(al, Re, cl, cd, cm=cm), CCAirfoil(al, Re, cl, spec["cd"] * np.asarray(cd), cm=cm))
    a1, a2 = ([af[repr(p)][j] for p in s["af"]] for j in (0, 1))
    off = dict(s, usecd=False)
    A, B = run(off, af=a1), run(off, af=a2)
    eq("drag off", "drag changed with drag left out of the induction", A, B, keys=("a", "ap", "alpha", "W", "Cl"), tol=1e-9)
    d = np.asarray(B["Cd"]) - np.asarray(A["Cd"])
    q = 0.5 * s["rho"] * np.asarray(A["W"]) ** 2 * np.array(s["chord"])
    ph = phis(s, A, o)
    sc = np.abs(A["Np"]).max() + np.abs(B["Tp"]).max()
    rec.close("drag in loads", "normal load with more drag", B["Np"], A["Np"] + q * d * np.sin(ph), 1e-8, scale=sc)
    rec.close("drag in loads", "tangential load with more drag", B["Tp"], A["Tp"] - q * d * np.cos(ph), 1e-8, scale=sc)
    on = dict(s, usecd=True)
    sens += np.abs(np.asarray(run(on, af=a1)["a"]) - run(on, af=a2)["a"]).max() > 1e-9
    # Reynolds iterations only matter for Reynolds-dependent polars
    eq("iterations", "Reynolds iterations with a single polar", run(dict(s, iterRe=1)), run(dict(s, iterRe=spec["it"])))
    # ... and with those, as many are made as asked for
    s2 = dict(s, iterRe=spec["it"], af=[spec["re_af"]] * len(s["r"]))
    ro = G.build_rotor(s2)
    L = loads(ro, o)[0]
    ph = phis(s2, L, o)
    less = loads(G.build_rotor(dict(s2, iterRe=spec["it"] - 1)), o)[0]
    rec.ok("iterations matter", np.abs(np.asarray(less["Cl"]) - L["Cl"]).max() > 1e-7)
    for i in range(len(ph)):
        sec = ref.Section(s2, ro.af[i], ro.r[i], s["chord"][i], np.radians(s["theta"][i]), np.radians(o["pitch"]), Vx[i], Vy[i])
        if not unsolvable(s2, sec):
            cl, cd = sec.coeffs(ph[i])[:2]
            rec.close("iterations counted", "station %d, %d Reynolds iterations: Cl" % (i, spec["it"]), L["Cl"][i], cl, 1e-6, 1e-8)
            rec.close("iterations counted", "station %d, %d Reynolds iterations: Cd" % (i, spec["it"]), L["Cd"][i], cd, 1e-6, 1e-8)
            rec.true("iterations counted", sec.residual(ph[i] - 1e-7) * sec.residual(ph[i] + 1e-7) <= 0, "station %d: the answer is no root of the section equations with %d Reynolds iterations" % (i, spec["it"]))
    # documented defaults
    args = (np.array(s["r"]), np.array(s["chord"]), np.array(s["theta"]), a1, s["Rhub"], min(s["Rtip"], 70.0) if s["r"][-1] < 70 else s["Rtip"])
    R = args[-1]
    if R < 75:  # above ground with the default hub height
        A = loads(CCBlade(*args), o)
        B = loads(CCBlade(*args, derivatives=False, **DEFAULTS), o)
        eq("defaults", "defaults", B[0], A[0], tol=1e-13)
        e1, _ = CCBlade(*args).evaluate([o["U"]], [o["Omega"]], [o["pitch"]])
        e2, _ = CCBlade(*args, derivatives=False, **DEFAULTS).evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=False)
        for k in ("T", "Y", "Z", "Q", "P", "My", "Mz", "Mb"):
            rec.close("defaults", "default " + k, e1[k], e2[k], 1e-13)
        rec.true("defaults", not A[1], "gradients returned by default")
    rec.ok("sensitive", sens >= 3)
    rec.nontrivial = sens >= 3
    rec.seen(flags(s), s["family"])
    rec.sample = dict(a=A["a"] if isinstance(A, dict) else A[0]["a"], sensitive=int(sens))
