"""A stopped rotor is loaded by the undisturbed wind, broadside to its sections, whatever the orientation."""
from .common import *

QUICK, THOROUGH = 6000, 60000
RULE = "random stopped rotors: yaw to 180 deg, exactly aligned rotors, all options, pitch -10..100 deg, Reynolds-dependent polars, with gradients and without; non-trivial when some section is loaded"
MINIMA = {"station": 8000, "aligned": 300, "rotor": 1500, "still air": 100, "gradient": 800}


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, iterRe=True))
    s["yaw"] = float(rng.choice([0.0, rng.uniform(-180, 180), 90.0, 180.0], p=[0.2, 0.6, 0.1, 0.1]))
    if idx % 4 == 0:
        s["tilt"] = s["yaw"] = s["shearExp"] = 0.0
        if idx % 8 == 0:
            s["precone"], s["precurve"], s["precurveTip"] = 0.0, None, 0.0
    o = G.gen_oper(rng, s, tsr=0.0, pitch=float(rng.uniform(-10, 100)), U=float(rng.uniform(0.5, 70)))
    o["Omega"] = 0.0
    if idx % 15 == 0:
        o["U"] = 0.0
    return dict(rotor=s, oper=o, deriv=idx % 3 == 0)


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    dv = spec["deriv"]
    ro = G.build_rotor(s, derivatives=dv)
    L, D = loads(ro, o)
    Vx, Vy = inflow(s, ro, o)
    W = np.hypot(Vx, Vy)
    r = stations(ro)[0]
    c = np.array(s["chord"])
    if o["U"] == 0.0:
        for k in L:
            if k not in ("alpha", "phi"):
                rec.true("still air", np.all(np.asarray(L[k]) == 0), "%s = %s in still air" % (k, L[k]))
        rec.true("still air", np.all(np.isfinite(L["alpha"])), "alpha = %s in still air" % L["alpha"])
        e, _ = ro.evaluate([0.0], [0.0], [o["pitch"]], coefficients=False)
        for k in ("P", "T", "Q", "Mb"):
            rec.true("still air", np.all(np.asarray(e[k]) == 0), "%s = %s in still air" % (k, e[k]))
        if dv:
            for q in D:
                for v in D[q]:
                    rec.true("still air", np.all(np.asarray(D[q][v]) == 0), "%s/%s = %s in still air" % (q, v, D[q][v]))
        return
    Re = s["rho"] * W * c / s["mu"]
    for k in ("a", "ap"):
        rec.true("no induction", np.all(np.asarray(L[k]) == 0), "%s = %s on a stopped rotor" % (k, L[k]))
    al = 90.0 - np.array(s["theta"]) - o["pitch"]
    rec.close("angle of attack", "alpha", L["alpha"], al, 1e-12, scale=90.0)
    rec.close("speed", "W", L["W"], W, 1e-9)
    rec.close("reynolds", "Re", L["Re"], Re, 1e-9)
    for i in range(len(r)):
        cl, cd = ro.af[i].evaluate(np.radians(al[i]), Re[i])
        q = 0.5 * s["rho"] * W[i] ** 2 * c[i]
        sc = q * (abs(cl) + abs(cd))
        tag = "station %d (wind %.3g, %.3g)" % (i, Vx[i], Vy[i])
        rec.close("polar", tag + " Cl", L["Cl"][i], cl, 1e-7, 1e-9)
        rec.close("polar", tag + " Cd", L["Cd"][i], cd, 1e-7, 1e-9)
        rec.close("load", tag + " Np", L["Np"][i], q * cd, 1e-7, scale=sc)
        rec.close("load", tag + " Tp", L["Tp"][i], q * cl, 1e-7, scale=sc)
        rec.close("coefficient", tag + " Cn", L["Cn"][i], cd, 1e-7, 1e-9)
        rec.close("coefficient", tag + " Ct", L["Ct"][i], cl, 1e-7, 1e-9)
        rec.ok("station")
        if min(abs(Vx[i]), abs(Vy[i])) < 1e-12 * W[i]:
            rec.ok("aligned")
    e, De = ro.evaluate([o["U"]], [0.0], [o["pitch"]], coefficients=True)
    rec.true("power", e["P"][0] == 0 and e["CP"][0] == 0, "a stopped rotor produces %r W (CP %r)" % (e["P"][0], e["CP"][0]))
    for k in e:
        rec.true("finite", np.all(np.isfinite(e[k])), "%s of a stopped rotor is %s" % (k, e[k]))
    rec.ok("rotor")
    if dv:
        for DD in (D, De):
            for q in DD:
                for v in DD[q]:
                    rec.true("finite gradient", np.all(np.isfinite(DD[q][v])), "%s/%s of a stopped rotor is not finite" % (q, v))
        # the loads do not depend on radii, hub and tip (nothing is induced) beyond the wind they see
        for v in ("dRhub", "dRtip"):
            rec.true("no loss", np.all(np.abs(D["dNp"][v]) == 0) and np.all(np.abs(D["dTp"][v]) == 0), "load of a stopped rotor depends on %s" % v[1:])
        # load gradient with wind speed for Reynolds-independent polars: N ~ U^2
        if all(p["kind"] != "syn" or p["nRe"] < 2 for p in s["af"]):
            rec.close("quadratic", "dNp/dUinf", D["dNp"]["dUinf"][:, 0] * o["U"], 2 * np.asarray(L["Np"]), 1e-8)
            rec.close("quadratic", "dTp/dUinf", D["dTp"]["dUinf"][:, 0] * o["U"], 2 * np.asarray(L["Tp"]), 1e-8)
        rec.ok("gradient")
    rec.nontrivial = bool(np.any(np.asarray(L["Np"]) != 0))
    rec.seen(flags(s), s["family"], "yaw%d" % int(s["yaw"] // 45), "tilt%d" % (s["tilt"] != 0), "d%d" % dv)
    rec.sample = dict(Np=L["Np"], Tp=L["Tp"])
