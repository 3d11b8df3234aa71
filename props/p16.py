"""Most efficient angle and distance-to-stall operating point of an airfoil."""
from .common import *

QUICK, THOROUGH = 6000, 60000
RULE = "synthetic polars with 0-5 Reynolds numbers, the 5 MW files and cylinders, partial ranges; Reynolds numbers inside and outside the data, margins -5 to 45 deg; non-trivial when the window -20..40 deg holds a real optimum"
MINIMA = {"optimum": 4800, "stall": 4800, "cylinder": 150, "coarse": 200}


def gen(rng, idx, tier):
    if idx % 15 == 0:
        p = dict(kind="file", name=str(rng.choice(G.FILES)))
        if p["name"].startswith("Cylinder"):  # three angles only, no lift
            p = dict(kind="cyl3", cd=0.35 if p["name"].endswith("2") else 0.5)
    elif idx % 15 == 1:
        p = dict(kind="cyl3", cd=float(rng.uniform(0.2, 1.2)))
    else:
        p = G.syn_airfoil(rng)
        if idx % 5 == 0:
            p["keep"] = [int(v) for v in rng.integers(2, 9, 2)]  # few angles in the window
    return dict(af=p, Re=float(10 ** rng.uniform(4.5, 8)), margin=float(rng.choice([rng.uniform(0, 10), rng.uniform(0, 10), 0.0, rng.uniform(-5, 0), rng.uniform(10, 45)])), cut=[float(rng.uniform(-180, -25)), float(rng.uniform(45, 180))])


def sc(v):
    return float(np.ravel(v)[0])


def check(spec, rec):
    from ccblade.ccblade import CCAirfoil

    p, Re, m = spec["af"], spec["Re"], spec["margin"]
    if p["kind"] == "cyl3":
        al, Rs, cl, cd = [-180.0, 0.0, 180.0], [], np.zeros((3, 1)), np.full((3, 1), p["cd"])
    else:
        al, Rs, cl, cd, _ = G.airfoil_arrays(p)
        k = (al >= spec["cut"][0]) & (al <= spec["cut"][1])
        al, cl, cd = al[k], cl[k], cd[k]
        if "keep" in p:
            k = np.unique(np.r_[0, np.arange(len(al))[:: p["keep"][0]], len(al) - 1])
            al, cl, cd = al[k], cl[k], cd[k]
            inside = np.flatnonzero((al >= -20) & (al <= 40))
            k = np.setdiff1d(np.arange(len(al)), inside[1:-1][np.arange(max(len(inside) - 2, 0)) % p["keep"][1] != 0])
            al, cl, cd = al[k], cl[k], cd[k]
            rec.ok("coarse", int(np.sum((al >= -20) & (al <= 40)) < 6))
    af = CCAirfoil(al, Rs, cl, cd)
    E, a, c, d = (sc(v) for v in af.max_eff(Re))
    grid = np.radians(np.linspace(-20.0, 40.0, 201))
    v = [af.evaluate(x, Re) for x in grid]
    gl, gd = (np.array([sc(z[q]) for z in v]) for q in (0, 1))
    rl, rd = (sc(z) for z in af.evaluate(a, Re))
    rec.close("point", "cl at the most efficient angle", c, rl, 1e-10, 1e-12)
    rec.close("point", "cd at the most efficient angle", d, rd, 1e-10, 1e-12)
    rec.close("ratio", "efficiency", E, rl / rd, 1e-10, 1e-12)
    E2, a2, c2, d2 = (sc(z) for z in af.awayfromstall(Re, m))
    rl2, rd2 = (sc(z) for z in af.evaluate(a2, Re))
    rec.close("point", "cl at the operating point", c2, rl2, 1e-10, 1e-12)
    rec.close("point", "cd at the operating point", d2, rd2, 1e-10, 1e-12)
    rec.close("ratio", "efficiency at the operating point", E2, rl2 / rd2, 1e-10, 1e-12)
    if p["kind"] == "cyl3":
        rec.true("cylinder", a == 0.0 and a2 == 0.0, "angles %r and %r for a cylinder" % (a, a2))
        return
    rec.true("window", np.radians(-20) - 1e-9 <= a <= np.radians(40) + 1e-9, "most efficient angle %.4f deg outside -20..40" % np.degrees(a))
    best = (gl / gd).max()
    rec.true("optimum", E >= best - 1e-9 * abs(best), "efficiency %.8g at %.3f deg although %.8g is reached at %.3f deg" % (E, np.degrees(a), best, np.degrees(grid[np.argmax(gl / gd)])))
    st = a2 + np.radians(m)
    rec.true("window", np.radians(-20) - 1e-9 <= st <= np.radians(40) + 1e-9, "stall angle %.4f deg outside -20..40" % np.degrees(st))
    cs = sc(af.evaluate(st, Re)[0])
    rec.true("stall", cs >= gl.max() - 1e-9, "operating point + margin = %.4f deg has cl %.8g although the largest is %.8g at %.3f deg" % (np.degrees(st), cs, gl.max(), np.degrees(grid[np.argmax(gl)])))
    rec.nontrivial = best > 1 and 0 < np.argmax(gl / gd) < 200
    rec.seen(p["kind"], len(Rs), int(np.degrees(a)), int(np.degrees(st)))
    rec.sample = dict(E=E, alpha=np.degrees(a), stall=np.degrees(st))
