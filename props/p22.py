"""The OpenMDAO components return what CCBlade returns for the same inputs, in the declared units, with matching derivatives."""
import os
import shutil
import tempfile

from . import omtools as O
from .common import *
from .fd import Settle, ladder

QUICK, THOROUGH = 400, 3600
RULE = "random rotors with several polars per station table, inputs set in other units, flags, second run of the same problem with other inputs, total derivatives against the gradients of the rotor and against re-runs; non-trivial when the derivatives of the component were compared"
MINIMA = {"output": 800, "total": 10000, "geometry": 100, "second run": 120, "unit": 120, "finite difference": 150, "station at an end": 20, "left unset": 300, "other airfoils in the second run": 60}
SC = ["Rhub", "Rtip", "precone", "tilt", "yaw", "shearExp", "hub_height", "V_load", "Omega_load", "pitch_load"]
KEY = dict(hub_height="dhubHt", shearExp="dshear", V_load="dUinf", Omega_load="dOmega", pitch_load="dpitch", azimuth_load="dazimuth")
VEC = ["r", "chord", "theta", "precurve"]
UNIT = dict(
    Rhub="m", Rtip="m", precone="deg", tilt="deg", yaw="deg", shearExp=None, hub_height="m", V_load="m/s", Omega_load="rpm", pitch_load="deg", azimuth_load="deg", r="m", chord="m", theta="deg",
    precurve="m", presweep="m", precurveTip="m", presweepTip="m", rho="kg/m**3", mu="kg/(m*s)",
)


def gen(rng, idx, tier):
    kind = ["geometry", "loads", "loads", "evaluate", "evaluate"][idx % 5]
    n = int(rng.integers(4, 9))
    cases = []
    for _ in range(2):
        s = G.gen_rotor(rng, n=n, family=str(rng.choice(["random", "small"])), ends=False, nSector=int(rng.choice([4, 5, 6])))
        for k in ("precurve", "presweep"):
            if s[k] is None:
                s[k] = [0.0] * n
        if kind != "evaluate":
            s["presweep"], s["presweepTip"] = [0.0] * n, 0.0
        if s["tilt"] == 0 and s["yaw"] == 0 and s["shearExp"] == 0:
            s["tilt"] = 4.0
        s["iterRe"] = 1
        if not cases and idx % 3 == 1:  # inputs left at their defaults
            O.plain(rng, s, tilt=False)
            s["tilt"] = s["tilt"] or 3.0
        raise_hub(s)
        if kind != "geometry" and not cases and idx % 4 == 0:  # stations exactly at the ends (only where no unit conversion rounds them apart)
            for e, k in ((0, "Rhub"), (-1, "Rtip")):
                if rng.random() < 0.7:
                    s["r"][e] = s[k]
                    for c in ("precurve", "presweep"):
                        s[c][e] = s[c + "Tip"] if e else 0.0
        cases.append(dict(s=s, o=G.gen_oper(rng, s, tsr=float(rng.uniform(3, 9)))))
    base = O.polars(rng, n)
    for c in cases:
        c["s"]["af"] = base
    if idx % 2:
        cases[1]["s"]["af"] = O.again(rng, base)
    return dict(kind=kind, cases=cases, unset=idx % 3 == 1, nt=int(rng.integers(1, 4)), seed=int(rng.integers(2**31)))


def check(spec, rec):
    d = tempfile.mkdtemp(prefix="ccv_p22_")
    cwd = os.getcwd()
    os.environ["OPENMDAO_WORKDIR"] = d
    try:
        os.chdir(d)
        (geometry if spec["kind"] == "geometry" else rotor)(spec, rec)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def geometry(spec, rec):
    from ccblade.ccblade_component import CCBladeGeometry

    rng = np.random.default_rng(spec["seed"])
    n = len(spec["cases"][0]["s"]["r"])
    p = O.problem(CCBladeGeometry(n_span=n))
    for c in spec["cases"]:
        s = c["s"]
        sw = np.linspace(0, 0.3, n) * s["Rtip"] * 0.1
        pc = np.array(s["precurve"]) + np.linspace(0, 0.02, n) * s["Rtip"]
        for k, v, u in (("Rtip", s["Rtip"], "m"), ("precone", s["precone"], "deg"), ("precurve_in", pc, "m"), ("presweep_in", sw, "m")):
            O.put(p, k, v, u, rng)
        p.run_model()
        t = np.radians(s["precone"])
        R = s["Rtip"] * np.cos(t) + pc[-1] * np.sin(t)
        dR = (-s["Rtip"] * np.sin(t) + pc[-1] * np.cos(t)) * np.pi / 180
        for k, w in (("R", R), ("diameter", 2 * R), ("precurveTip", pc[-1]), ("presweepTip", sw[-1])):
            rec.close("geometry", k, p.get_val(k, units="m"), [w], 1e-12)
        T = p.compute_totals(of=["R", "diameter", "precurveTip", "presweepTip"], wrt=["Rtip", "precone", "precurve_in", "presweep_in"])
        e, z = np.eye(n)[-1], np.zeros(n)
        for f, of in ((1, "R"), (2, "diameter")):
            rec.close("geometry", "d%s/dRtip" % of, T[of, "Rtip"], [[f * np.cos(t)]], 1e-12)
            rec.close("geometry", "d%s/dprecone" % of, T[of, "precone"], [[f * dR]], 1e-11, 1e-12)
            rec.close("geometry", "d%s/dprecurve" % of, T[of, "precurve_in"], [f * np.sin(t) * e], 1e-12, 1e-14)
            rec.close("geometry", "d%s/dpresweep" % of, T[of, "presweep_in"], [z], 0)
        rec.close("geometry", "tip derivatives", np.r_[T["precurveTip", "precurve_in"][0], T["presweepTip", "presweep_in"][0], T["precurveTip", "presweep_in"][0], T["presweepTip", "precurve_in"][0]], np.r_[e, e, z, z], 0)
        # the radius the rotor itself uses
        ro = G.build_rotor(dict(s, precurve=[float(v) for v in pc], precurveTip=float(pc[-1])))
        rec.close("geometry", "radius of the rotor", ro.rotorR, R, 1e-12)
    rec.nontrivial = True
    rec.seen("geometry", n)


def rotor(spec, rec):
    from ccblade.ccblade_component import CCBladeEvaluate, CCBladeLoads

    ev = spec["kind"] == "evaluate"
    rng = np.random.default_rng(spec["seed"])
    n = len(spec["cases"][0]["s"]["r"])
    afs = spec["cases"][0]["s"]["af"]
    al, Re, cl, cd, cm = O.stack(afs, spec["nt"], 0, spec["seed"])
    p = O.problem((CCBladeEvaluate if ev else CCBladeLoads)(modeling_options=O.modeling(n, len(al), len(Re), spec["nt"])))
    O.feed_polars(p, (al, Re, cl, cd, cm))
    wrt = SC + VEC + (["precurveTip", "presweep", "presweepTip"] if ev else ["azimuth_load"])
    of = ["P", "Mb", "Fhub", "Mhub", "CP", "CMb", "CFhub", "CMhub"] if ev else ["loads_Px", "loads_Py", "loads_Pz", "loads_r"]

    def values(s, o):
        v = dict(V_load=o["U"], Omega_load=o["Omega"], pitch_load=o["pitch"], hub_height=s["hubHt"])
        if not ev:
            v["azimuth_load"] = o["azimuth"]
        for k in ("r", "chord", "theta", "Rhub", "Rtip", "precone", "tilt", "yaw", "shearExp", "precurve", "precurveTip", "rho", "mu") + (("presweep", "presweepTip") if ev else ()):
            v[k] = s[k]
        return v

    def direct(s, o, der):
        ro = G.build_rotor(s, derivatives=der)
        if ev:
            L, D = ro.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=True)
            f = lambda *k: np.array([float(np.ravel(L[q])[0]) for q in k])
            out = dict(P=f("P"), Mb=f("Mb"), CP=f("CP"), CMb=f("CMb"), Fhub=f("T", "Y", "Z"), Mhub=f("Q", "My", "Mz"), CFhub=f("CT", "CY", "CZ"), CMhub=f("CQ", "CMy", "CMz"))
        else:
            L, D = loads(ro, o)
            out = dict(loads_Px=L["Np"], loads_Py=-L["Tp"], loads_Pz=0 * L["Np"], loads_r=np.array(s["r"]))
        return out, D

    for run, c in enumerate(spec["cases"]):
        s, o = c["s"], c["o"]
        alt = run == 1
        unset = spec["unset"] and not run
        if run and s["af"] != afs:
            O.feed_polars(p, O.stack(s["af"], spec["nt"], 0, spec["seed"] + 1))
            rec.ok("other airfoils in the second run")
        for k, v in values(s, o).items():
            if unset and O.neutral(k, v):
                rec.ok("left unset")
                continue
            O.put(p, k, v, UNIT[k], rng if alt else None)
        for k, q in (("nBlades", "B"), ("nSector", "nSector"), ("tiploss", "tiploss"), ("hubloss", "hubloss"), ("wakerotation", "wakerotation"), ("usecd", "usecd")):
            if unset and O.neutral(k, s[q]):
                rec.ok("left unset")
                continue
            p.set_val(k, s[q])
        want, D = direct(s, o, True)
        p.run_model()
        tol = 1e-7 if alt else 1e-11  # other units round the inputs
        for k in want:
            rec.close("output", "%s (run %d)" % (k, run), np.ravel(p.get_val(k)), np.ravel(want[k]), tol, 1e-12 * max(1.0, np.max(np.abs(list(want.values())[0]))))
        if run:
            rec.ok("second run")
        if ev:
            for k, u, f in (("P", "kW", 1e-3), ("Mb", "kN*m", 1e-3), ("Fhub", "kN", 1e-3), ("Mhub", "kN*m", 1e-3)):
                rec.close("unit", "%s in %s" % (k, u), np.ravel(p.get_val(k, units=u)), np.ravel(want[k]) * f, tol, scale=np.max(np.abs(want["Mb"])) * f)
        else:
            rec.close("unit", "load in kN/m", p.get_val("loads_Px", units="kN/m"), want["loads_Px"] / 1e3, tol)
        T = p.compute_totals(of=of, wrt=wrt)
        tt = 1e-5 if alt else 1e-9
        step = dict(Rhub=s["Rhub"], Rtip=s["Rtip"], hub_height=s["hubHt"], V_load=o["U"], Omega_load=max(abs(o["Omega"]), 1.0), r=s["Rtip"], chord=max(s["chord"]), precurve=s["Rtip"], presweep=s["Rtip"], precurveTip=s["Rtip"], presweepTip=s["Rtip"], shearExp=1.0)
        for w in wrt:
            k = KEY.get(w, "d" + w)
            m = n if w in VEC + ["presweep"] else 1
            if ev:
                g = lambda *q: np.array([np.ravel(D["d" + x][k]) for x in q])
                exp = dict(P=g("P"), Mb=g("Mb"), CP=g("CP"), CMb=g("CMb"), Fhub=g("T", "Y", "Z"), Mhub=g("Q", "My", "Mz"), CFhub=g("CT", "CY", "CZ"), CMhub=g("CQ", "CMy", "CMz"))
            else:
                z = np.zeros((n, m))
                exp = dict(loads_Px=np.reshape(D["dNp"][k], (n, m)), loads_Py=-np.reshape(D["dTp"][k], (n, m)), loads_Pz=z, loads_r=np.eye(n) if w == "r" else z)
            for q in of:
                rec.close("total", "d%s/d%s (run %d)" % (q, w, run), T[q, w], exp[q], tt, scale=np.max(np.abs(exp[q])) + 1e-5 * np.max(np.abs(want[q])) / step.get(w, 57.0))
                rec.ok("total", np.size(exp[q]))
        if run:
            continue
        # the component against re-runs of itself
        R = s["Rtip"]
        H = dict(
            Rhub=1e-3 * s["Rhub"], Rtip=1e-5 * R, hub_height=1e-3 * R, shearExp=1e-3, V_load=1e-3 * o["U"], Omega_load=1e-3 * o["Omega"], r=1e-4 * R, chord=1e-4 * max(s["chord"]), precurve=1e-4 * R, presweep=1e-4 * R,
            precurveTip=1e-4 * R, presweepTip=1e-4 * R, rho=1e-3 * s["rho"], mu=1e-3 * s["mu"],
        )
        # a station that coincides with the tip is moved inward with its neighbour's curve: no derivative there
        free = [w for w in wrt if not (w[:4] == "prec" and w != "precone" and s["precurve"][-1] == s["precurveTip"]) and not (w[:4] == "pres" and s["presweep"][-1] == s["presweepTip"])]
        if s["r"][0] == s["Rhub"] or s["r"][-1] == s["Rtip"]:
            free = [w for w in free if w not in ("r", "Rhub", "Rtip", "precurve", "presweep", "precurveTip", "presweepTip")]
            rec.ok("station at an end")
        for w in [str(x) for x in rng.choice(free, 2, replace=False)] + ["rho", "mu"]:
            x0 = np.ravel(np.asarray(values(s, o)[w], float))
            j = int(rng.integers(len(x0)))
            h = H.get(w, 1e-2)

            def f(dx):
                x = x0.copy()
                x[j] += dx
                p.set_val(w, x)
                p.run_model()
                return np.concatenate([np.ravel(p.get_val(q)) for q in of])

            base = f(0.0)
            fd, err = ladder(f, h)
            settle = Settle(f, h)
            p.set_val(w, x0)
            p.run_model()
            t = np.concatenate([np.ravel(p.compute_totals(of=of, wrt=[w])[q, w][:, j]) for q in of])
            big = np.concatenate([np.full(np.size(want[q]), max(np.max(np.abs(want[q])), 1e-9)) for q in of])
            floor = 2e-6 * big / (h * 100)
            for i in range(len(t)):
                if not err[i] <= 2e-3 * abs(fd[i]) + floor[i]:
                    rec.ok("undecided")
                    continue
                rec.ok("finite difference")
                if not abs(t[i] - fd[i]) <= 2e-4 * abs(fd[i]) + 4 * err[i] + floor[i]:
                    if settle.agrees(t[i], lambda d: d[i], big[i], fd[i]):
                        rec.ok("entry next to a kink")
                        continue
                    mech = "partial:" + w if w in ("rho", "mu") and t[i] == 0 else "partial"
                    rec.bad(mech, "%s: total derivative %d with respect to %s[%d] is %.6g, the output changes by %.6g (+- %.2g)" % (spec["kind"], i, w, j, t[i], fd[i], err[i]))
            p.set_val(w, x0)
            p.run_model()
    rec.nontrivial = True
    rec.seen(spec["kind"], n, spec["nt"], len(Re), flags(s))
    rec.sample = dict(outputs={k: np.ravel(v)[:3] for k, v in want.items()})
