"""The solver terminates with a finite, warning-free answer on the documented branch for every physical condition."""
import warnings

from .common import *

QUICK, THOROUGH = 9000, 60000
RULE = (
    "hostile rotors and operating points: tip-speed ratio 0.2-25, pitch -30..90 deg, 1-8 blades, high and low solidity, stations on the hub "
    "and the tip, tiny hubs, air and water; every polar lookup is recorded by a wrapped airfoil; non-trivial when a rotating station with "
    "inflow from upwind and against rotation was solved"
)
MINIMA = {"station": 8000, "branch:+": 5000, "branch:-": 20, "states": 10}
ASSUMPTIONS = ["inflow at a station comes from upwind and against rotation and the section has a solution (elsewhere only termination and finite loads are judged)"]


class Counting:
    """airfoil wrapper that records the lookups made through it"""

    def __init__(self, af):
        self.af, self.n, self.nonfinite = af, 0, 0

    def evaluate(self, alpha, Re, *a, **k):
        self.n += 1
        if not (np.isfinite(alpha).all() and np.isfinite(Re).all()):
            self.nonfinite += 1
        return self.af.evaluate(alpha, Re, *a, **k)

    def derivatives(self, alpha, Re):
        return self.af.derivatives(alpha, Re)

    def __getattr__(self, k):
        return getattr(self.af, k)


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, iterRe=True, B=int(rng.integers(1, 9)), usecd=True))
    k = idx % 4
    tsr = [float(rng.uniform(0.2, 3)), float(rng.uniform(3, 12)), float(rng.uniform(8, 25)), float(10 ** rng.uniform(-1, 1.3))][k]
    lo, hi = [(-10, 90), (-12, 40), (-30, 10), (-20, 60)][(idx // 4) % 4]
    if idx % 3 == 0:
        f = float(rng.choice([0.15, 0.4, 2.5]))
        s["chord"] = [c * f for c in s["chord"]]
    if idx % 7 == 0:
        s["r"][0] = s["Rhub"]
        s["r"][-1] = s["Rtip"]
        for k1, k2 in (("precurve", "precurveTip"), ("presweep", "presweepTip")):
            if s[k1]:
                s[k1][0], s[k1][-1] = 0.0, s[k2]
    if idx % 10 == 9:  # without drag in the induction the branch choice has more outcomes
        s["usecd"] = False
        lo, hi = [(-80, -50), (-20, 60)][idx // 10 % 2]
        tsr = float(rng.uniform(4, 25))
        if lo == -80:
            s["B"] = int(rng.integers(5, 9))
            s["chord"] = [c * 1.5 for c in s["chord"]]
    o = G.gen_oper(rng, s, tsr=tsr, pitch=float(rng.uniform(lo, hi)), U=float(rng.uniform(0.5, 60)))
    return dict(rotor=s, oper=o, deriv=bool(idx % 2) and s["iterRe"] == 1)


def check(spec, rec):
    import contextlib
    import io

    s, o = spec["rotor"], spec["oper"]
    afs = [Counting(G.build_airfoil(p)) for p in s["af"]]
    ro = G.build_rotor(s, derivatives=spec["deriv"], af=afs)
    Vx, Vy = inflow(s, ro, o)
    W0 = np.hypot(Vx, Vy)
    dom = (Vx > 1e-6 * W0) & (Vy > 1e-6 * W0)
    r = stations(ro)[0]
    c = np.array(s["chord"])
    e = 1e-6
    for i in range(len(r)):
        sec = ref.Section(s, ro.af[i].af, r[i], c[i], np.radians(s["theta"][i]), np.radians(o["pitch"]), Vx[i], Vy[i])
        if dom[i] and unsolvable(s, sec):
            dom[i] = False
            rec.ok("section without a solution")
    buf = io.StringIO()
    with warnings.catch_warnings(record=True) as wl, contextlib.redirect_stdout(buf):
        warnings.simplefilter("always")
        L, D = loads(ro, o)
    if dom.all():
        ws = [w for w in wl if not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, FutureWarning))]
        rec.true("no warning", not ws, "warning raised: %s" % (ws[0].message if ws else ""))
        rec.true("no output", buf.getvalue() == "", "unexpected output: %r" % buf.getvalue()[:120])
    phi = phis(s, L, o)
    for i in range(len(r)):
        vals = [L[k][i] for k in ("Np", "Tp", "a", "ap", "alpha", "Cl", "Cd", "Cn", "Ct", "W", "Re")]
        tag = "station %d (Vx=%.4g, Vy=%.4g)" % (i, Vx[i], Vy[i])
        if not dom[i]:
            vals = vals[:5] + vals[-2:]  # a section without a solution has no coefficients, but loads, speed and Reynolds number stay finite
            rec.true("finite loads", np.all(np.isfinite(vals)), "%s: non-finite load %s" % (tag, vals), i=i)
            rec.ok("station outside the domain")
            continue
        rec.true("finite", np.all(np.isfinite(vals)), "%s: non-finite output %s" % (tag, vals), i=i)
        rec.true("finite lookups", afs[i].nonfinite == 0, "%s: the polar was looked up at a non-finite point" % tag)
        n = afs[i].n / s["iterRe"]
        rec.true("lookups bounded", n <= 300, "%s: %d polar lookups per Reynolds iteration" % (tag, n))
        rec.worst("polar lookups", n)
        rec.ok("polar lookups", afs[i].n)
        # the documented choice of branch
        sec = ref.Section(s, ro.af[i].af, r[i], c[i], np.radians(s["theta"][i]), np.radians(o["pitch"]), Vx[i], Vy[i])
        lo, hi = sec.residual(e), sec.residual(np.pi / 2)
        sc = 1e-9
        if lo * hi < 0 and min(abs(lo), abs(hi)) > sc:
            want = "+"
        elif lo * hi > 0 and min(abs(lo), abs(hi)) > sc:
            b1, b2 = sec.residual(-np.pi / 4), sec.residual(-e)
            if min(abs(b1), abs(b2)) < sc:
                rec.ok("branch undecided")
                continue
            want = "-" if b1 < 0 < b2 else "beyond"
        else:
            rec.ok("branch undecided")
            continue
        p = phi[i]
        got = "+" if 0 < p <= np.pi / 2 + 1e-9 else ("-" if -np.pi / 4 - 1e-9 <= p < 0 else ("beyond" if np.pi / 2 - 1e-9 <= p < np.pi else "none"))
        rec.true("branch", got == want, "%s: inflow angle %.5f deg is on branch %s, expected branch %s" % (tag, np.degrees(p), got, want), i=i)
        # and the answer solves the section there
        d = 1e-7
        R1, R2 = sec.residual(p - d), sec.residual(p + d)
        rec.true("root", R1 * R2 <= 0, "%s: phi=%.6f deg does not solve the section (%.3g, %.3g)" % (tag, np.degrees(p), R1, R2), i=i)
        rec.ok("station")
        rec.ok("branch:" + want)
        rec.seen(want, flags(s), "B%d" % s["B"])
        rec.nontrivial = True
    if spec["deriv"] and dom.all():
        for q in ("dNp", "dTp"):
            for k, v in D[q].items():
                rec.true("finite gradient", np.all(np.isfinite(v)), "%s/%s: non-finite gradient" % (q, k))
    rec.sample = dict(phi_deg=np.degrees(phi), lookups=[x.n for x in afs])
