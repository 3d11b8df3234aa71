"""The airfoil object reproduces its polar data smoothly and its derivatives are those of the coefficients it returns."""
import tempfile

from .common import *
from .fd import Settle, ladder

SPLINE = True
QUICK, THOROUGH = 4000, 30000
RULE = (
    "synthetic polars (0-6 Reynolds numbers, 4-181 uneven angles, full and partial range, with and without moment data, few-point tables) and the 5 MW files; "
    "evaluated on the data, between, across the knots, and outside the range; non-trivial when the fit was compared at every data point"
)
MINIMA = {"data point": 50000, "derivative decided": 5000, "outside": 2000, "C1": 2000, "one Re": 300, "two Re": 100, "few points": 30, "file": 20}
S = dict(cl=0.1, cd=0.001, cm=0.0001)


def gen(rng, idx, tier):
    if idx % 40 == 0:
        p = dict(kind="file", name=G.FILES[(idx // 40) % len(G.FILES)])
    else:
        p = G.syn_airfoil(rng, nRe=int(rng.choice([0, 1, 2, 3, 4, 5, 6])))
    few = idx % 20 == 7
    sub = None
    if few:
        sub = sorted(int(v) for v in rng.choice(30, int(rng.integers(2, 6)), replace=False))
    cut = [float(rng.uniform(-180, -20)), float(rng.uniform(25, 180))] if idx % 4 == 1 else None
    return dict(
        af=p, cut=cut, sub=sub, cm=bool(idx % 3), lists=bool(idx % 2), al=[float(v) for v in rng.uniform(-180, 180, 12)], near=[float(v) for v in rng.uniform(-15, 25, 12)],
        Re=[float(v) for v in 10 ** rng.uniform(4.3, 8, 6)],
    )


def unfittable(al, Re, data):
    """FITPACK very rarely gives up on a data set; asked directly, without the code under test"""
    from scipy.interpolate import RectBivariateSpline

    for k in data:
        v = data[k]
        x, y = np.radians(al), Re
        if len(Re) < 2:
            y, v = [1e1, 1e15], np.c_[v, v]
        try:
            RectBivariateSpline(x, y, v, kx=min(len(x) - 1, 3), ky=min(len(y) - 1, 3), s=S[k])
        except ValueError:
            return True
    return False


def check(spec, rec):
    from ccblade.ccblade import CCAirfoil

    p = spec["af"]
    al, Re, cl, cd, cm = G.airfoil_arrays(p)
    al = np.asarray(al, float)
    if spec["cut"]:
        k = (al >= spec["cut"][0]) & (al <= spec["cut"][1])
        al, cl, cd, cm = al[k], cl[k], cd[k], cm[k]
    if spec["sub"]:
        k = np.array(spec["sub"]) % len(al)
        k = np.unique(k)
        if len(k) < 2:
            raise Stop()
        al, cl, cd, cm = al[k], cl[k], cd[k], cm[k]
        rec.ok("few points")
    Re = np.asarray(Re, float)
    data = dict(cl=np.asarray(cl), cd=np.asarray(cd), cm=np.asarray(cm))
    keep = [al.copy(), Re.copy()] + [v.copy() for v in data.values()]
    conv = (lambda v: v.tolist()) if spec["lists"] else (lambda v: v)
    kw = dict(cm=data["cm"] if not spec["lists"] else data["cm"].tolist()) if spec["cm"] else {}
    try:
        af = CCAirfoil(conv(al), conv(Re), conv(data["cl"]), conv(data["cd"]), **kw)
    except ValueError:
        if unfittable(al, Re, data):
            rec.ok("data scipy cannot fit")
            raise Stop()
        raise
    for a, b in zip(keep, [al, Re] + list(data.values())):
        rec.true("inputs", np.array_equal(a, b), "the caller's polar arrays were modified")
    one = len(Re) < 2
    rec.ok("one Re", one)
    rec.ok("two Re", len(Re) == 2)
    a = np.radians(al)
    # ---- fidelity on the data ----
    ncol = max(len(Re), 1)
    got = {k: np.zeros_like(data[k]) for k in data}
    for j in range(ncol):
        R = Re[j] if len(Re) else 1e6
        for i in range(len(a)):
            out = af.evaluate(a[i], R, return_cm=True)
            rec.true("outputs", len(out) == (3 if spec["cm"] else 2), "%d coefficients returned" % len(out))
            for k, v in zip(("cl", "cd", "cm"), out):
                got[k][i, j] = v
        rec.ok("data point", len(a))
    rec.true("outputs", len(af.evaluate(0.1, 1e6)) == 2, "cm returned without being asked for")
    mult = 2.0 if one else 1.0  # a single polar is fitted as two identical columns
    for k in ("cl", "cd") + (("cm",) if spec["cm"] else ()):
        ss = mult * np.sum((got[k] - data[k]) ** 2)
        rec.worst("fit:" + k, ss / S[k])
        rec.true("fidelity", ss <= S[k] * 1.0015, "%s: squared deviation from the data %.5g exceeds the smoothing %.5g" % (k, ss, S[k]))
    lo, hi = a[0], a[-1]
    Rlo, Rhi = (Re[0], Re[-1]) if len(Re) > 1 else (1e1, 1e15)
    pts = [np.clip(np.radians(x), lo, hi) for x in spec["al"] + spec["near"]]
    kx = min(len(a) - 1, 3)
    # ---- vectorised = scalar ----
    Rv = np.array([spec["Re"][i % 6] for i in range(len(pts))])
    ask = (lambda x, R: af.evaluate(x, R, return_cm=True)) if spec["cm"] else af.evaluate
    what = range(3 if spec["cm"] else 2)
    every = np.r_[np.radians(spec["al"] + spec["near"])[: len(pts)], lo - 0.2, hi + 0.1]  # inside and outside the data
    Rw = np.r_[Rv, Rv[:2]]
    v = ask(every, Rw)
    sc = [np.abs(data[k]).max() + 1e-3 for k in ("cl", "cd", "cm")]
    for i, x in enumerate(every):
        w = ask(float(x), Rw[i])
        for q in what:
            rec.close("vectorised", "element %d" % i, np.ravel(v[q])[i], np.ravel(w[q])[0], 1e-12, scale=sc[q])
    for i, x in enumerate(pts):
        w = ask(x, Rv[i])
        if one:  # a single polar does not depend on the Reynolds number
            w2 = ask(x, spec["Re"][0] * 3.7)
            for q in what:
                rec.close("one polar", "at two Reynolds numbers", w2[q], w[q], 1e-12, scale=sc[q])
    # ---- constant beyond the data ----
    for x, R, xc, Rc in (
        (hi + 0.4, Rv[0], hi, Rv[0]), (lo - 0.3, Rv[1], lo, Rv[1]), (pts[0], Rhi * 2.5, pts[0], Rhi), (pts[1], Rlo / 3, pts[1], Rlo), (hi + 1, Rhi * 9, hi, Rhi),
    ):
        w, w0 = ask(x, R), ask(xc, Rc)
        d = np.array([float(z) for z in af.derivatives(x, R)])
        for q in what:
            rec.close("outside", "alpha %.4g Re %.3g" % (np.degrees(x), R), w[q], w0[q], 1e-10, scale=sc[q])
        if x != xc:
            rec.true("outside derivative", d[0] == 0 and d[2] == 0, "slope %s beyond the angles of the data" % d)
        if R != Rc:
            rec.true("outside derivative", d[1] == 0 and d[3] == 0, "Re slope %s beyond the Reynolds numbers of the data" % d)
        rec.ok("outside")
    # ---- derivatives ----
    for i, x in enumerate(pts):
        R = float(np.clip(Rv[i], Rlo * 1.02, Rhi / 1.02))
        if min(x - lo, hi - x) < 0.02:
            continue
        d = np.array([float(np.ravel(z)[0]) for z in af.derivatives(x, R)])
        rec.true("finite", np.all(np.isfinite(d)), "derivatives %s" % d)
        f = lambda h: np.array([float(np.ravel(z)[0]) for z in af.evaluate(x + h, R)])
        g = lambda h: np.array([float(np.ravel(z)[0]) for z in af.evaluate(x, R * (1 + h))])
        fa, ea = ladder(f, 2e-3)
        fr, er = ladder(g, 1e-2)
        sa, sr = Settle(f, 2e-3), Settle(g, 1e-2)
        for q in (0, 1):
            for nm, dv, w, e, st in (("alpha", d[2 * q], fa[q], ea[q], sa), ("Re", d[2 * q + 1] * R, fr[q], er[q], sr)):
                if not e <= 1e-3 * abs(w) + 1e-6 * sc[q]:
                    rec.ok("derivative undecided")
                    continue
                rec.ok("derivative decided")
                rec.worst("err:d" + nm, abs(dv - w) / (abs(w) + 1e-4 * sc[q]))
                rec.true("derivative d" + nm, abs(dv - w) <= 2e-4 * abs(w) + 6 * e + 2e-7 * sc[q] or st.agrees(dv, lambda D: D[q], 1e-5 * sc[q], w), "d%s/d%s at %.4f deg, Re %.4g: %.8g, the coefficient itself changes by %.8g" % (("cl", "cd")[q], nm, np.degrees(x), R, dv, w))
    # ---- continuous derivative across the data angles (where the knots are) ----
    if kx >= 2:
        h = 1e-7
        for x in a[1:-1][:: max(1, len(a) // 12)]:
            d1, d2 = (np.array([float(np.ravel(z)[0]) for z in af.derivatives(x + s * h, Rv[0])]) for s in (-1, 1))
            for q in (0, 2):
                rec.ok("C1")
                # second derivative of the data bounds how much the slope may change over 2e-7 rad
                rec.true("C1", abs(d1[q] - d2[q]) <= 2e-3 * sc[q // 2] / max(np.diff(a).min(), 1e-3), "slope jumps from %.8g to %.8g at %.4f deg" % (d1[q], d2[q], np.degrees(x)))
    if p["kind"] == "file":
        import os

        other = CCAirfoil.initFromAerodynFile(os.path.join(G.DATA, p["name"] + ".dat"))
        raw = CCAirfoil(*G.airfoil_arrays(p)[:4], cm=G.airfoil_arrays(p)[4])
        for x in pts:
            for q, (u, w) in enumerate(zip(other.evaluate(x, 1e6, True), raw.evaluate(x, 1e6, True))):
                rec.close("file", "coefficient %d from the file" % q, u, w, 1e-10, 1e-12)
        rec.ok("file")
    rec.nontrivial = True
    rec.seen("Re%d" % len(Re), "cm%d" % spec["cm"], "n%d" % (len(a) // 20), "cut%d" % bool(spec["cut"]))
    rec.sample = dict(n=len(a), Re=Re)
