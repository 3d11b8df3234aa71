"""Every solved section satisfies the blade-element and the momentum equations at once."""
from .common import *

QUICK, THOROUGH = 12000, 60000
RULE = (
    "random rotors (NREL-like, random utility scale, small; 4-12 stations, real and synthetic Re-dependent polars, all option "
    "flags, tilt/yaw/cone/curve/sweep/shear) at tip-speed ratios 1-13 and pitch -8..30 deg; a case is non-trivial when at least one "
    "rotating station with nonzero inflow was decided by every oracle"
)
MINIMA = {"station": 2000, "regime:momentum": 500, "regime:buhl": 30, "states": 12}
ASSUMPTIONS = ["polars are read through the airfoil object's own evaluate()", "ground clearance is positive"]


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, iterRe=True))
    lo, hi = (-25, 40) if idx % 3 == 0 else (-4, 8)
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(1, 13)), pitch=float(rng.uniform(lo, hi)))
    return dict(rotor=s, oper=o)


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    ro = gen_build(s)
    L, _ = loads(ro, o)
    r = stations(ro)[0]
    Vx, Vy = inflow(s, ro, o)
    phi = phis(s, L, o)
    c = np.array(s["chord"])
    W0 = np.hypot(Vx, Vy)
    for i in range(len(r)):
        if Vx[i] < 1e-6 * W0[i] or Vy[i] < 1e-6 * W0[i]:
            rec.ok("station skipped: inflow not from upwind and against rotation")
            continue
        a, ap, W = L["a"][i], L["ap"][i], L["W"][i]
        p = phi[i]
        tag = "station %d phi=%.4f deg a=%.4g ap=%.4g" % (i, np.degrees(p), a, ap)
        sec = ref.Section(s, ro.af[i], r[i], c[i], np.radians(s["theta"][i]), np.radians(o["pitch"]), Vx[i], Vy[i])
        if unsolvable(s, sec):
            rec.ok("station skipped: no solution")
            continue
        # --- the solver's answer is a root of the reference residual (located, not just small) ---
        d = 1e-7
        R1, R2 = sec.residual(p - d), sec.residual(p + d)
        rec.true("root", R1 * R2 <= 0, "%s: no root of the BEM residual within 1e-7 rad (%.3g, %.3g)" % (tag, R1, R2), i=i)
        cl, cd, ReUsed, (R, ra, rap, F, k, kp, aok) = sec.coeffs(p)
        # --- polar consistency ---
        rec.close("polar", tag + " Cl", L["Cl"][i], cl, 1e-6, 1e-8)
        rec.close("polar", tag + " Cd", L["Cd"][i], cd, 1e-6, 1e-8)
        # --- velocity triangle ---
        # near a = 1 or |ap| >> 1 the triangle amplifies the rounding of the inflow angle
        amp = 1 + abs(ap) + abs(a) + 1 / max(abs(np.sin(p)), 1e-4) + 1 / max(abs(1 - kp), 1e-4) + abs(rap)
        tol = 1e-8 * amp * amp
        rec.close("triangle", tag + " W", W, np.hypot(Vx[i] * (1 - a), Vy[i] * (1 + ap)), 1e-9 if max(abs(a), abs(ap)) < 10 else tol)
        rec.close("triangle", tag + " axial", W * np.sin(p), Vx[i] * (1 - a), tol, scale=W)
        rec.close("triangle", tag + " tangential", W * np.cos(p), Vy[i] * (1 + ap), tol, scale=W)
        rec.close("reynolds", tag + " Re", L["Re"][i], s["rho"] * W * c[i] / s["mu"], 1e-9)
        # --- section forces always contain drag ---
        cn = L["Cl"][i] * np.cos(p) + L["Cd"][i] * np.sin(p)
        ct = L["Cl"][i] * np.sin(p) - L["Cd"][i] * np.cos(p)
        sc = abs(L["Cl"][i]) + abs(L["Cd"][i])
        rec.close("force", tag + " Cn", L["Cn"][i], cn, 1e-9, scale=sc)
        rec.close("force", tag + " Ct", L["Ct"][i], ct, 1e-9, scale=sc)
        q = 0.5 * s["rho"] * W * W * c[i]
        rec.close("force", tag + " Np", L["Np"][i], q * cn, 1e-9, scale=q * sc)
        rec.close("force", tag + " Tp", L["Tp"][i], q * ct, 1e-9, scale=q * sc)
        # --- momentum balance in physical form: blade-element thrust = CT(a), torque = rotation of the wake ---
        cnm = L["Cl"][i] * np.cos(p) + (L["Cd"][i] * np.sin(p) if s["usecd"] else 0)
        ctm = L["Cl"][i] * np.sin(p) - (L["Cd"][i] * np.cos(p) if s["usecd"] else 0)
        sol = s["B"] * c[i] / (2 * np.pi * r[i])
        thrust = sol * cnm * (1 - a) ** 2 / np.sin(p) ** 2
        CT = ref.thrust_coefficient(a, F)
        rec.close("thrust balance", tag + " F=%.4g" % F, thrust, CT, 1e-6 * amp, 1e-9 * amp, scale=max(abs(CT), abs(thrust)))
        if s["wakerotation"]:
            lhs = sol * ctm / (4 * F * np.sin(p) * np.cos(p))
            rec.close("torque balance", tag + " F=%.4g" % F, lhs * (1 + ap), ap, 1e-7 * amp, 1e-9 * amp, scale=abs(ap) + abs(lhs))
        else:
            rec.true("no wake rotation", ap == 0.0, tag + ": ap=%r although wake rotation is off" % ap)
        reg = "brake" if p < 0 else ("beyond90" if p > np.pi / 2 else ("buhl" if a > 0.4 else "momentum"))
        rec.ok("station")
        rec.ok("regime:" + reg)
        rec.seen(reg, flags(s), s["family"])
        rec.nontrivial = True
    rec.sample = dict(phi_deg=np.degrees(phi), a=L["a"], Np=L["Np"])


def gen_build(s):

    return G.build_rotor(s)
