"""The inverse analysis returns the twist at which the forward analysis meets the requested angle of attack, lift and drag."""
from .common import *

QUICK, THOROUGH = 2500, 50000
RULE = (
    "round trips (forward solution -> its angle of attack, lift and drag -> inverse -> twist) and arbitrary targets on random rotors of every option combination, "
    "pitch, azimuth and parked conditions; sections with several solutions are judged by their equations only; non-trivial when the twist was recovered at every station"
)
MINIMA = {"round trip station": 3000, "target station": 3000, "forward agrees": 2000, "restored": 500}


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(3, 9))))
    if idx % 2:
        s["af"] = [G.syn_airfoil(rng, nRe=int(rng.choice([0, 1])))] * len(s["r"])
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(3, 10)), pitch=float(rng.uniform(-4, 8)))
    if idx % 17 == 0:
        o["Omega"] = 0.0
    return dict(rotor=s, oper=o, target=bool(idx % 2), alpha=[float(v) for v in rng.uniform(1, 11, len(s["r"]))])


def inverse(s, o, alpha, cl, cd):
    ro = G.build_rotor(s)
    ro.inverse_analysis = True
    ro.alpha, ro.cl, ro.cd = np.radians(alpha), np.array(cl, float), np.array(cd, float)
    L, _ = loads(ro, o)
    return ro, L


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    n = len(s["r"])
    fwd = G.build_rotor(s)
    Vx, Vy = inflow(s, fwd, o)
    W0 = np.hypot(Vx, Vy)
    if o["Omega"] and (np.any(Vx < 0.02 * W0) or np.any(Vy < 0.02 * W0)):
        raise Stop()
    r = stations(fwd)[0]
    c = np.array(s["chord"])
    if not spec["target"]:
        L0, _ = loads(fwd, o)
        al, cl, cd = (np.asarray(L0[k]) for k in ("alpha", "Cl", "Cd"))
    else:
        al = np.array(spec["alpha"])
        cl, cd = np.array([[float(v) for v in fwd.af[i].evaluate(np.radians(al[i]), 1e6)] for i in range(n)]).T
    ro, L = inverse(s, o, al, cl, cd)
    th = np.degrees(np.asarray(ro.theta, float))
    rec.true("shape", th.shape == (n,), "twist has shape %s" % (th.shape,))
    rec.true("finite", np.all(np.isfinite(th)), "twist %s" % th)
    phi = np.radians(th + al + o["pitch"])
    rec.close("target alpha", "angle of attack in inverse mode", L["alpha"], al, 1e-9, scale=10.0)
    good = 0
    for i in range(n):
        tag = "station %d" % i
        if not o["Omega"]:
            rec.close("parked", tag + " twist of a stopped rotor", th[i], 90.0 - al[i] - o["pitch"], 1e-9, scale=90.0)
            good += 1
            continue
        # the section equations hold at the returned twist, with the requested lift and drag
        f = lambda p: ref.induction(p, cl[i], cd[i], r[i], c[i], s["Rhub"], s["Rtip"], s["B"], Vx[i], Vy[i], s["tiploss"], s["hubloss"], s["wakerotation"], s["usecd"])[0]
        d = 1e-7
        # no solution with these targets? (judge nothing then)
        e = 1e-6
        has = f(e) * f(np.pi / 2) < 0 or (f(-np.pi / 4) < 0 < f(-e)) or f(np.pi / 2) * f(np.pi - e) < 0
        if not has:
            rec.ok("target without a solution")
            continue
        rec.true("root", f(phi[i] - d) * f(phi[i] + d) <= 0, "%s: twist %.6f deg does not solve the section for the requested lift and drag (%.3g, %.3g)" % (tag, th[i], f(phi[i] - d), f(phi[i] + d)), i=i)
        if not spec["target"]:
            # a stalled section may have several solutions; two certified ones are not a contradiction
            p0 = np.radians(al[i] + s["theta"][i] + o["pitch"])
            if abs(th[i] - s["theta"][i]) > 1e-6 and f(p0 - d) * f(p0 + d) <= 0:
                rec.ok("several solutions")
            else:
                rec.close("round trip", tag + " twist", th[i], s["theta"][i], 1e-7, scale=10.0)
        good += 1
        rec.ok("target station" if spec["target"] else "round trip station")
    # the forward analysis of a blade with that twist meets the target and the loads
    s2 = dict(s, theta=[float(v) for v in th])
    L2, _ = loads(G.build_rotor(s2), o)
    for i in range(n):
        if o["Omega"]:
            sec = ref.Section(s, fwd.af[i], r[i], c[i], np.radians(th[i]), np.radians(o["pitch"]), Vx[i], Vy[i])
            p2 = np.radians(L2["alpha"][i] + th[i] + o["pitch"])
            d = 1e-7
            root = lambda p: sec.residual(p - d) * sec.residual(p + d) <= 0
            if abs(p2 - phi[i]) > 1e-8 and root(phi[i]) and root(p2):
                rec.ok("several forward solutions")
                continue
            if not (1e-6 < phi[i] < np.pi / 2):
                continue
        q = 0.5 * s["rho"] * W0[i] ** 2 * c[i]
        rec.close("forward", "station %d: angle of attack at the returned twist" % i, L2["alpha"][i], al[i], 1e-7, scale=10.0)
        for k in ("Np", "Tp", "a", "ap", "Cl", "Cd"):
            sc = {"Np": q, "Tp": q}.get(k, 1.0)
            rec.close("forward", "station %d: %s in inverse mode against forward mode" % (i, k), L[k][i], L2[k][i], 1e-7, scale=sc * (1 + L2["a"][i] ** 2))
        rec.ok("forward agrees")
    # switching the inverse analysis off gives the forward analysis with that twist, for any further condition
    ro.inverse_analysis = False
    o2 = dict(o, U=o["U"] * 0.93, azimuth=o["azimuth"] + 31.0)
    A, _ = loads(ro, o2)
    B, _ = loads(G.build_rotor(dict(s, theta=[float(v) for v in th])), o2)
    for k in ("Np", "Tp"):
        rec.close("restored", k + " after switching the inverse analysis off", A[k], B[k], 1e-8, scale=np.abs(B["Np"]).max())
    rec.ok("restored")
    rec.nontrivial = good == n
    rec.seen(flags(s), "t%d" % spec["target"], s["family"])
    rec.sample = dict(theta=th, alpha=al)
