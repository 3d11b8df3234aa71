"""Extrapolation of polars to the full circle (Viterna)."""
from .common import *
from .polars import *

QUICK, THOROUGH = 5000, 40000
RULE = "polars with ranges between -80 and 80 deg (negative end above, at and below minus the positive end, also starting above zero), cdmax given or from the aspect ratio, cdmin, segment sizes 5-30; non-trivial when the polar has lift, drag and moment beyond its ends"
MINIMA = {"kept": 2500, "lift": 2500, "drag": 2500, "moment": 2500, "grid": 2500, "refused": 500, "airfoil": 2500, "low>-high": 500, "low<-high": 500, "low=-high": 200, "several zero-lift angles": 300}


def gen(rng, idx, tier):
    k = idx % 4
    hi = float(rng.uniform(9, 80)) if rng.random() < 0.9 else float(rng.integers(1, 8) * 10)
    lo = -hi if k == 0 else (float(rng.uniform(-min(hi, 80) + 1, 4)) if k == 1 else float(rng.uniform(-85, -hi - 1)) if hi < 80 else -84.0) if k < 3 else float(rng.uniform(-40, -5))
    ps = [gen_polar(rng, lo=lo, hi=hi, full=False, grid=str(rng.choice(["even", "uneven"])))]
    if rng.random() < 0.3:
        # lift that crosses zero several times within 20 degrees (stalled reversed flow, noisy data)
        p = ps[0]
        near = [i for i, a in enumerate(p["alpha"]) if abs(a) < 19 and 0 < i < len(p["alpha"]) - 1]
        for i in near[: int(rng.integers(2, 8))]:
            p["cl"][i] = float(rng.choice([-1, 1]) * rng.uniform(0.02, 0.3))
    while rng.random() < 0.4 and len(ps) < 3:
        ps.append(gen_polar(rng, full=False, grid="even"))
    return dict(
        ps=ps,
        cdmax=float(rng.uniform(0.2, 2.0) if rng.random() < 0.9 else rng.uniform(0.02, 4.0)),
        AR=float(rng.uniform(2, 40) if rng.random() < 0.85 else rng.uniform(0.2, 300)) if rng.random() < 0.4 else None,
        cdmin=float(rng.choice([0.001, 0.0, rng.uniform(0, 0.03)])),
        nalpha=int(rng.choice([15, rng.integers(5, 31)])),
        bad=str(rng.choice(["high", "low", "cdmin"])),
    )


ADJ = 0.7  # lift loss of the reversed airfoil


def viterna(p, cdmax, a):
    """lift and drag outside the data at angle a (rad); cl and cd at the upper end anchor the curve"""
    A = np.radians(np.array(p["alpha"]))
    h, l, clh, cdh = A[-1], A[0], p["cl"][-1], p["cd"][-1]
    k1 = (clh - cdmax * np.sin(h) * np.cos(h)) * np.sin(h) / np.cos(h) ** 2
    k2 = (cdh - cdmax * np.sin(h) ** 2) / np.cos(h)

    def curve(x):
        x = max(x, 1e-4)
        return cdmax * np.sin(x) * np.cos(x) + k1 * np.cos(x) ** 2 / np.sin(x), cdmax * np.sin(x) ** 2 + k2 * np.cos(x)

    pi = np.pi
    if a > pi - h:
        return (a - pi) / h * clh * ADJ, curve(pi - a)[1]
    if a > pi / 2:
        c, d = curve(pi - a)
        return -ADJ * c, d
    if a > h:
        return curve(a)
    if a < -pi + h:
        return (a + pi) / h * clh * ADJ, curve(a + pi)[1]
    if a < -pi / 2:
        c, d = curve(a + pi)
        return ADJ * c, d
    if a < -h or l <= -h:
        c, d = curve(-a)
        return -ADJ * c, d
    t = (a + h) / (l + h)  # between minus the upper end and the lower end
    return -ADJ * clh + t * (p["cl"][0] + ADJ * clh), cdh + t * (p["cd"][0] - cdh)


def moment(p, e):
    """moment coefficient at e.alpha: table every 10 deg outside the data, linear between"""
    al, cl, cd, cm = (np.array(p[k]) for k in ("alpha", "cl", "cd", "cm"))
    if not np.any(cm):
        return np.zeros(len(e.alpha))
    cm0 = None
    for i in range(len(al) - 1):
        if abs(al[i]) < 20 and cl[i] <= 0 <= cl[i + 1]:
            cm0 = cm[i] - cl[i] / (cl[i + 1] - cl[i]) * (cm[i + 1] - cm[i])
            break
    if cm0 is None:
        cm0 = cm[0] - cl[0] / (cl[1] - cl[0]) * (cm[1] - cm[0])
    h = np.radians(al[-1])
    x = (cm0 - cm[-1]) / (cl[-1] * np.cos(h) + cd[-1] * np.sin(h))
    coef = (x - 0.25) / np.tan(h - np.pi / 2)
    tab = {180: 0.0, 170: -0.5, -170: 0.4, -180: 0.0}
    xs, ys = list(al), list(cm)
    for a in range(-180, 190, 10):
        if al[0] <= a <= al[-1]:
            continue
        s = 1 if a > 0 else -1
        if a in tab:
            v = tab[a]
        elif a == 0:
            v = cm0
        else:
            r = np.radians(abs(a))
            L, D = np.interp(a, e.alpha, e.cl), np.interp(a, e.alpha, e.cd)
            arm = coef * np.tan(r - np.pi / 2) + 0.25
            v = s * (cm0 - arm * (s * L * np.cos(r) + D * np.sin(r)))
        xs.append(float(a))
        ys.append(v)
    o = np.argsort(xs)
    return lin(e.alpha, np.array(xs)[o], np.array(ys)[o])


def judge(rec, p, e, cdmax, cdmin, nalpha):
    al = np.array(p["alpha"])
    rec.close("kept", "Reynolds number", e.Re, p["Re"], 0)
    rec.true("grid", np.all(np.diff(e.alpha) > 0), "angles of attack do not increase: smallest step %.3g" % np.diff(e.alpha).min())
    rec.true("grid", abs(e.alpha[0] + 180) < 1e-9 and abs(e.alpha[-1] - 180) < 1e-9, "angles from %.6f to %.6f" % (e.alpha[0], e.alpha[-1]))
    gaps = np.diff(e.alpha[(e.alpha < al[0] + 1e-9) | (e.alpha > al[-1] - 1e-9)])
    gaps = gaps[gaps < al[-1] - al[0] - 1e-6] if len(gaps) else gaps
    rec.true("grid", gaps.max() <= 3.01 * 90.0 / (nalpha - 1) or len(gaps) == 0, "gap of %.2f deg with %d angles per segment" % (gaps.max(), nalpha))
    j = np.array([int(np.argmin(np.abs(e.alpha - a))) for a in al])
    if not rec.close("kept", "angles of the data", e.alpha[j], al, 0, 1e-9):
        return
    rec.true("kept", np.array_equal(j, np.arange(j[0], j[0] + len(al))), "other angles between those of the data")
    rec.close("kept", "cl inside the data", e.cl[j], p["cl"], 1e-12)
    rec.close("kept", "cd inside the data", e.cd[j], np.maximum(p["cd"], cdmin), 1e-12)
    rec.close("kept", "cm inside the data", e.cm[j], p["cm"], 1e-8, 1e-9)
    rec.true("cdmin", e.cd.min() >= cdmin, "drag %.6g below the minimum %.6g" % (e.cd.min(), cdmin))
    top = max(max(p["cd"]), cdmax)
    out = np.ones(len(e.alpha), bool)
    out[j] = False
    ref_ = np.array([viterna(p, top, np.radians(a)) for a in e.alpha[out]])
    rec.close("lift", "extrapolated cl", e.cl[out], ref_[:, 0], 1e-8, 1e-9)
    rec.close("drag", "extrapolated cd", e.cd[out], np.maximum(ref_[:, 1], cdmin), 1e-8, 1e-9)
    rec.close("moment", "cm", e.cm, moment(p, e), 1e-7, 1e-8)
    l, h = al[0], al[-1]
    rec.ok("low=-high" if abs(l + h) < 1e-9 else "low>-high" if l > -h else "low<-high")


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil

    ps = spec["ps"]
    for p in ps:  # adjacent zero-lift angles leave the zero-lift moment undefined
        c = np.array(p["cl"])
        if c[0] == c[1] or np.any((c[:-1] == 0) & (c[1:] == 0)):
            raise Stop
    pols = [make(p) for p in ps]
    before = [snapshot(x) for x in pols]
    cdmax = spec["cdmax"] if spec["AR"] is None else 1.11 + 0.018 * spec["AR"]
    kw = {} if spec["AR"] is None else dict(AR=spec["AR"])
    e = pols[0].extrapolate(spec["cdmax"], cdmin=spec["cdmin"], nalpha=spec["nalpha"], **kw)
    judge(rec, ps[0], e, cdmax, spec["cdmin"], spec["nalpha"])
    judge(rec, ps[0], pols[0].extrapolate(spec["cdmax"]), spec["cdmax"], 0.001, 15)
    again = pols[0].extrapolate(spec["cdmax"], cdmin=spec["cdmin"], nalpha=spec["nalpha"], **kw)
    rec.true("history", all(np.array_equal(u, v) for u, v in zip(snapshot(again), snapshot(e))), "a second extrapolation differs")
    af = Airfoil(pols)
    x = af.extrapolate(spec["cdmax"], cdmin=spec["cdmin"], **kw)
    rec.true("airfoil", len(x.polars) == len(ps), "%d polars out of %d" % (len(x.polars), len(ps)))
    for p, g in zip(sorted(ps, key=lambda p: p["Re"]), x.polars):
        judge(rec, p, g, cdmax, spec["cdmin"], 15)
    for q, s in zip(pols, before):
        rec.true("mutation", all(np.array_equal(u, v) for u, v in zip(snapshot(q), s)), "the source polar was changed")
    p = dict(ps[0])
    if spec["bad"] != "cdmin":
        a = np.array(p["alpha"])
        p["alpha"] = list(a + (100 - a[-1] if spec["bad"] == "high" else -100 - a[0]))
    try:
        make(p).extrapolate(spec["cdmax"], cdmin=-0.01 if spec["bad"] == "cdmin" else 0.001)
        rec.bad("refused", {"cdmin": "negative minimum drag", "high": "data beyond 90 deg", "low": "data below -90 deg"}[spec["bad"]] + " accepted")
    except Exception:
        rec.ok("refused")
    c = np.array(ps[0]["cl"])[np.abs(ps[0]["alpha"]) < 20]
    if np.count_nonzero((c[:-1] <= 0) & (c[1:] >= 0)) > 1:
        rec.ok("several zero-lift angles")
    rec.nontrivial = bool(np.any(ps[0]["cm"]))
    rec.seen(len(ps), int(ps[0]["alpha"][0] / 5), int(ps[0]["alpha"][-1] / 5), spec["nalpha"])
    rec.sample = dict(n=len(e.alpha), cdmax=float(e.cd.max()))
