"""Coefficients are the dimensional rotor quantities over the documented reference values, for every condition."""
from .common import *

QUICK, THOROUGH = 1500, 20000
RULE = "random rotors, 1-5 conditions per call (incl. parked ones and repeated ones); non-trivial when some coefficient is nonzero"
MINIMA = {"condition": 1500, "curved and coned": 100}
POW = dict(P=(0, 1), T=(0, 0), Y=(0, 0), Z=(0, 0), Q=(1, 0), My=(1, 0), Mz=(1, 0), Mb=(1, 0))


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, iterRe=True))
    if idx % 2:
        s["precone"] = float(rng.uniform(-15, 15))
        raise_hub(s)
    n = int(rng.integers(1, 6))
    os_ = [G.gen_oper(rng, s) for _ in range(n)]
    if idx % 8 == 0:
        os_[0]["Omega"] = 0.0
    return dict(rotor=s, opers=os_)


def check(spec, rec):
    s, os_ = spec["rotor"], spec["opers"]
    U, Om, pi = (np.array([o[k] for o in os_]) for k in ("U", "Omega", "pitch"))
    ro = G.build_rotor(s)
    out, _ = ro.evaluate(U, Om, pi, coefficients=True)
    dim, _ = G.build_rotor(s).evaluate(U, Om, pi, coefficients=False)
    dflt, _ = G.build_rotor(s).evaluate(U, Om, pi)
    R = ref.rotor_radius(s)
    q = 0.5 * s["rho"] * U ** 2
    A = np.pi * R ** 2
    for k, (e, p) in POW.items():
        want = np.asarray(dim[k]) / (q * A * R ** e * U ** p)
        sc = max(1e-30, np.abs(want).max())
        rec.close("coefficient " + k, "C" + k, out["C" + k], want, 1e-11, scale=sc)
        rec.close("dimensional", k + " with coefficients=True", out[k], dim[k], 1e-12)
        rec.close("dimensional", k + " by default", dflt[k], dim[k], 1e-12)
        rec.true("shape", np.shape(out["C" + k]) == (len(U),), "C%s has shape %s" % (k, np.shape(out["C" + k])))
        rec.nontrivial |= bool(np.any(want != 0))
    rec.close("CP = CQ * tsr", "CP against CQ", out["CP"], np.asarray(out["CQ"]) * Om * np.pi / 30 * R / U, 1e-11)
    rec.true("keys", not any(k.startswith("C") for k in dim), "coefficients returned although not asked for")
    rec.ok("condition", len(U))
    if s["precone"] and s["precurve"]:
        rec.ok("curved and coned")
    rec.seen("n%d" % len(U), "ns" + str(s["nSector"]), s["family"])
    rec.sample = {k: out["C" + k] for k in POW}
