"""Blending polars and airfoils, interpolation over Reynolds number, common angles of attack."""
from .common import *
from .polars import *

QUICK, THOROUGH = 1500, 25000
RULE = "pairs of airfoils with 1-4 polars each, partly overlapping ranges, different grids, weights in and outside the ends, Reynolds numbers at, between and beyond the data; non-trivial when the angles of the two polars differ"
MINIMA = {"blend": 3000, "getPolar:between": 300, "getPolar:outside": 300, "getPolar:exact": 300, "airfoil-blend": 1500, "common": 3000, "grid": 1500, "mutation": 1500}


def gen(rng, idx, tier):
    ps = [gen_polar(rng) for _ in range(int(rng.integers(1, 5)))]
    qs = [gen_polar(rng) for _ in range(int(rng.integers(1, 5) if rng.random() < 0.95 else rng.integers(5, 20)))]
    if rng.random() < 0.05:
        ps = [gen_polar(rng) for _ in range(int(rng.integers(5, 20)))]
    if rng.random() < 0.3:  # the same Reynolds number in both
        qs[0]["Re"] = ps[0]["Re"]
    lo, hi = min(p["Re"] for p in ps), max(p["Re"] for p in ps)
    Res = [lo * 0.4, hi * 3.0, ps[int(rng.integers(len(ps)))]["Re"]] + [float(v) for v in rng.uniform(lo, hi, 2)]
    w = float(rng.choice([0.0, 1.0, rng.uniform(0, 1)], p=[0.15, 0.15, 0.7]))
    return dict(ps=ps, qs=qs, w=w, Res=Res, at=sorted(float(v) for v in rng.uniform(-60, 60, 30)))


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil, Polar

    class Sub(Polar):
        pass

    ps, qs, w = spec["ps"], spec["qs"], spec["w"]
    A, Bp = [make(p, Sub) for p in ps], [make(q, Sub) for q in qs]
    before = [snapshot(x) for x in A + Bp]
    b = A[0].blend(Bp[0], w)
    compare(rec, "blend", "blend with weight %.3f" % w, b, ref_blend(ps[0], qs[0], w))
    compare(rec, "blend", "blend with itself", A[0].blend(A[0], w), ps[0])
    r = Bp[0].blend(A[0], 1 - w)
    compare(rec, "blend", "blend from the other side", r, ref_blend(ps[0], qs[0], w))
    rec.true("type", type(b) is Sub, "blend returns %s instead of the type of the polar" % type(b).__name__)

    af = Airfoil(list(A))
    rev = Airfoil(list(A[::-1]))
    srt = sorted(ps, key=lambda p: p["Re"])
    for Re in spec["Res"]:
        want = ref_get(ps, Re)
        got = af.getPolar(Re)
        kind = "exact" if any(p["Re"] == Re for p in ps) else ("between" if srt[0]["Re"] < Re < srt[-1]["Re"] else "outside")
        compare(rec, "getPolar:" + kind, "polar at Re=%.6g" % Re, got, want)
        compare(rec, "getPolar:" + kind, "polar at Re=%.6g, polars given in another order" % Re, rev.getPolar(Re), want)
        got.cl[:] = 99.0  # what the caller does with the result is his business
        got.alpha[:] = 0.0
    oth = Airfoil(list(Bp))
    bl = af.blend(oth, w)
    Rs = np.unique([p["Re"] for p in ps + qs])
    if rec.close("airfoil-blend", "Reynolds numbers of the blend", [p.Re for p in bl.polars], Rs, 1e-12):
        for k, Re in enumerate(Rs):
            compare(rec, "airfoil-blend", "blended airfoil at Re=%.6g" % Re, bl.polars[k], ref_blend(ref_get(ps, Re), ref_get(qs, Re), w) | dict(Re=Re))
    un = np.unique(np.concatenate([p["alpha"] for p in ps]))
    for alpha, name in ((None, "union"), (np.array(spec["at"]), "given")):
        c = af.interpToCommonAlpha() if alpha is None else af.interpToCommonAlpha(alpha)
        want = un if alpha is None else alpha
        rec.true("common", len(c.polars) == len(ps), "%d polars out of %d" % (len(c.polars), len(ps)))
        for p, got in zip(srt, c.polars):
            compare(rec, "common", "common angles (%s)" % name, got, dict(Re=p["Re"], alpha=want, **{k: lin(want, p["alpha"], p[k]) for k in ("cl", "cd", "cm")}))
            rec.true("type", type(got) is Sub, "common angles return %s instead of the type of the polar" % type(got).__name__)
    al, Re, cl, cd, cm = af.createDataGrid()
    rec.close("grid", "angles of the grid", al, un, 0, 1e-12)
    rec.close("grid", "Reynolds numbers of the grid", Re, [p["Re"] for p in srt], 1e-12)
    for k, v in (("cl", cl), ("cd", cd), ("cm", cm)):
        rec.close("grid", k + " of the grid", v, np.array([lin(un, p["alpha"], p[k]) for p in srt]).T, 1e-10, 1e-10)
    for x, s, p in zip(A + Bp, before, ps + qs):
        rec.true("mutation", all(np.array_equal(u, v) for u, v in zip(snapshot(x), s)), "the source polar was changed")
    rec.nontrivial = ps[0]["alpha"] != qs[0]["alpha"]
    rec.seen(len(ps), len(qs), "w%g" % w if w in (0, 1) else "w", len(b.alpha))
    rec.sample = dict(alpha=[float(b.alpha[0]), float(b.alpha[-1])], n=len(b.alpha))


