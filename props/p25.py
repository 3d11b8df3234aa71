"""Unsteady (dynamic stall) parameters of polars and airfoils: zero lift, slopes, separation and stall points."""
from .common import *
from .polars import gen_polar, lin, make

QUICK, THOROUGH = 8000, 160000
RULE = (
    "synthetic polars over partial and full ranges with and without noise, cylinders, the 5 MW files; linear range default and random; "
    "non-trivial when lift slope and separation points of both methods were judged"
)
MINIMA = {"slope": 2000, "deviation": 2000, "minimum drag": 2000, "cylinder": 300, "zero lift": 800, "separation": 800, "stall point": 600, "table": 1500}


def gen(rng, idx, tier):
    if idx % 30 == 0:
        p = dict(kind="file", name=G.FILES[(idx // 30) % len(G.FILES)])
    elif idx % 8 == 1:
        a = np.linspace(-180, 180, int(rng.integers(15, 80)))
        p = dict(Re=1e6, alpha=a.tolist(), cl=[float(rng.choice([0.0, 0.0, 0.1]))] * len(a), cd=[float(rng.uniform(0.2, 1.1))] * len(a), cm=[0.0] * len(a))
    else:
        p = gen_polar(rng, full=bool(rng.random() < 0.6))
    lim = None if rng.random() < 0.5 else [float(rng.uniform(-9, -3)), float(rng.uniform(3, 9))]
    return dict(p=p, lim=lim)


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil
    from ccblade.ccblade import CCAirfoil

    p = spec["p"]
    if p.get("kind") == "file":
        al, Re, l, d, m = ref.read_aerodyn_grid(G.DATA + "/" + p["name"] + ".dat")
        p = dict(Re=Re[0], alpha=list(al), cl=list(l[:, 0]), cd=list(d[:, 0]), cm=list(m[:, 0]))
    a, cl, cd, cm = (np.array(p[k], float) for k in ("alpha", "cl", "cd", "cm"))
    ok1 = polar(spec, p, a, cl, cd, cm, rec)
    ok2 = airfoil(p, a, cl, cd, cm, rec)
    rec.nontrivial = bool(ok1 and ok2)
    rec.seen(len(a), bool(ok1), bool(ok2))


def polar(spec, p, a, cl, cd, cm, rec):
    lim = spec["lim"] or [-5, 5]
    pol = make(p)
    before = [np.array(getattr(pol, k)) for k in ("alpha", "cl", "cd", "cm")]
    inside = (a >= lim[0] - 1e-9) & (a <= lim[1] + 1e-9)
    edge = np.any(np.abs(a - lim[0]) < 1e-9) or np.any(np.abs(a - lim[1]) < 1e-9)
    if len(np.unique(cl)) >= 10 and (np.count_nonzero(inside) < 3 or (edge and spec["lim"])):
        return False
    got = pol.unsteadyparam() if spec["lim"] is None else pol.unsteadyparam(*lim)
    got = [float(x) for x in got]
    for k, b in zip(("alpha", "cl", "cd", "cm"), before):
        rec.same("slope", "%s of the polar" % k, getattr(pol, k), b)
    if not rec.true("slope", len(got) == 8, "%d parameters" % len(got)):
        return False
    if len(np.unique(cl)) < 10:
        rec.close("cylinder", "parameters of a cylinder", got, np.zeros(8), 0)
        return False
    ctl, aU, a0, m, cnU, cnL, amin, cdmin = got
    x = np.radians(a)
    cn = cl * np.cos(x) + cd * np.sin(x)
    # least squares, written out
    sel = (a >= lim[0]) & (a <= lim[1]) if not edge else inside
    xs, ys = x[sel], cn[sel]
    mm = np.sum((xs - xs.mean()) * (ys - ys.mean())) / np.sum((xs - xs.mean()) ** 2)
    a0r = np.degrees(xs.mean() - ys.mean() / mm)
    if abs(mm) < 0.5 or abs(a0r) > 40:
        return False
    rec.close("slope", "control setting", ctl, 0.0, 0)
    rec.close("slope", "slope of the normal force", m, mm, 1e-9)
    rec.close("slope", "zero normal force angle", a0, a0r, 1e-9, 1e-9)
    k = int(np.argmin(cd))
    rec.close("minimum drag", "minimum drag", cdmin, cd.min(), 1e-12)
    rec.close("minimum drag", "angle of minimum drag", lin([amin], a, cd)[0], cd.min(), 1e-9, 1e-12)
    rec.close("minimum drag", "angle of minimum drag is a data point", np.min(np.abs(a - amin)), 0.0, 0, 1e-9)
    # stall points: where the normal force has left the line by 0.05
    dev = lambda deg: mm * (np.radians(deg) - np.radians(a0r)) - lin(np.atleast_1d(deg), a, cn)
    up = np.arange(0.0, 40.0)
    d = dev(up)
    s = crossing(up, d)
    if s == "between":
        rec.close("deviation", "deviation of the normal force at the upper stall angle", lin([aU], up, d)[0], 0.05, 0, 1e-9)
    elif s:
        rec.close("deviation", "upper stall angle", aU, s[0], 0, 1e-9)
    rec.close("deviation", "normal force of the line at the upper stall angle", cnU, mm * np.radians(aU - a0r), 1e-8, 1e-9)
    lo = np.arange(5.0, -40.0, -1.0)
    d = -dev(lo)
    s = crossing(lo, d)
    aL = a0r + np.degrees(cnL / mm)  # the lower stall angle is not returned itself
    if s == "between":
        rec.close("deviation", "deviation of the normal force at the lower stall angle", lin([-aL], -lo, d)[0], 0.05, 0, 1e-8)
    elif s:
        rec.close("deviation", "lower stall angle", aL, s[0], 0, 1e-8)
    return True


def crossing(g, d):
    """the documented look-up: the grid ends when 0.05 is not reached between them"""
    if d[0] > 0.05 + 1e-9:  # already left at the first angle; undocumented when it comes back
        return [g[0]] if d[-1] > 0.05 else None
    if d[-1] < 0.05 - 1e-9:
        return [g[-1]]
    if d[0] < 0.05 - 1e-9 and d[-1] > 0.05 + 1e-9:
        return "between"
    return None


def near(a, v):
    return int(np.argmin(np.abs(a - v)))


def airfoil(p, a, cl, cd, cm, rec):
    from ccblade.ccblade import CCAirfoil

    if len(a) < 8 or a[0] > -31 or a[-1] < 36:
        return False
    g = np.linspace(-180, 180, 9)
    af = CCAirfoil(g, [1e6], np.zeros((9, 1)), np.full((9, 1), 0.5), cm=np.zeros((9, 1)))
    x = np.radians(a)
    cn = cl * np.cos(x) + cd * np.sin(x)
    steady = np.all(cm == cm[0])
    cyl = np.all(cl == cl[0])
    i0, i1 = near(a, -30.0), near(a, 30.0)
    if not cyl and not (cl[i0] < -1e-6 and cl[i1 - 1] > 1e-6):
        return False
    pts = None
    if not steady:
        if cyl or np.any(np.diff(cm) == 0):
            return False
        pts = stall_points(a, cl, cd, cm, cn, rec)
        if pts is None:
            return False
    data = [v.copy() for v in (a, cl, cd, cm)]
    af.eval_unsteady(*data)
    u = af.unsteady
    for v, w, k in zip(data, (a, cl, cd, cm), ("Alpha", "Cl", "Cd", "Cm")):
        rec.same("table", k, np.array(u[k]), w)
        rec.same("table", "input array", v, w)
    if cyl:
        rec.close("cylinder", "zero-lift angle and moment", [u["alpha0"], u["Cm0"]], [0, 0], 0)
        rec.close("cylinder", "drag", u["Cd0"], cd[0], 1e-12)
    else:
        a0 = float(u["alpha0"])
        sc = np.abs(cl).max()
        rec.close("zero lift", "lift at the zero-lift angle", lin([a0], a, cl)[0], 0.0, 0, 1e-9 * sc)
        rec.close("zero lift", "drag at the zero-lift angle", u["Cd0"], lin([a0], a, cd)[0], 1e-7, 1e-9)
        rec.close("zero lift", "moment at the zero-lift angle", u["Cm0"], lin([a0], a, cm)[0], 1e-7, 1e-9)
        rec.true("zero lift", a[i0] <= a0 <= a[i1], "zero-lift angle %s" % a0)
    for k in ("eta_e", "S1", "S2", "S3", "S4", "k0", "k1", "k2", "k3", "k1_hat"):
        rec.true("table", u[k] == (1 if k == "eta_e" else 0), "%s = %r" % (k, u[k]))
    for k in ("T_f0", "T_V0", "T_p", "T_VL", "b1", "b2", "b5", "A1", "A2", "A5", "St_sh", "x_cp_bar", "UACutout", "filtCutOff"):
        rec.true("table", u[k] == "Default", "%s = %r" % (k, u[k]))
    rec.close("stall point", "alpha2", u["alpha2"], -u["alpha1"], 0)
    if steady:
        rec.close("cylinder", "separation without moment data", [u["Cn1"], u["Cn2"], u["C_nalpha"], u["alpha1"]], np.zeros(4), 0)
        return False
    for k, (v, lo, hi) in pts.items():
        rec.close("stall point" if k == "alpha1" else "separation", k, u[k], v, 1e-9, 1e-12)
    return True


def farthest(x, y, i, j, sign):
    """grid point in [i, j) farthest from the straight line between the points i and j (on one side, or on both when sign is 0)"""
    line = y[i] + (y[j] - y[i]) * (x[i:j] - x[i]) / (x[j] - x[i])
    d = y[i:j] - line
    d = np.abs(d) if sign == 0 else sign * d
    k = int(np.argmax(d))
    top = np.sort(d)[::-1]
    tie = len(top) > 1 and top[0] - top[1] < 1e-12
    return i + k, top[0] > 1e-12 and not tie


def minimum(cm, i, j):
    """last local minimum of the moment in [i, j), ends included"""
    c = cm[i:j]
    for k in range(len(c) - 1, -1, -1):
        if (k == 0 or c[k] < c[k - 1]) and (k == len(c) - 1 or c[k] < c[k + 1]):
            return i + k
    return None


def stall_points(a, cl, cd, cm, cn, rec):
    """separation at positive and negative angles (from the moment) and the stall angle (from the drag); None when they are not well defined"""
    i0, i1 = near(a, -30.0), near(a, 30.0)
    a0 = [k for k in range(i0, i1 - 1) if cl[k] <= 0 < cl[k + 1]]
    if len(a0) != 1:
        return None
    k = a0[0]
    z = a[k] - cl[k] * (a[k + 1] - a[k]) / (cl[k + 1] - cl[k])
    if abs(abs(z - a[k]) - abs(z - a[k + 1])) < 1e-9:
        return None
    iz = near(a, z)
    clear = lambda v: np.diff(np.sort(np.abs(a - v))[:2])[0] > 1e-9
    if not clear(-30.0) or not clear(30.0) or not clear(a[iz] + 35.0) or not clear(0.0):
        return None
    h = minimum(cm, i0, near(a, a[iz] + 35.0))
    if h is None or h <= iz + 1:
        return None
    n1, ok = farthest(a, cm, iz, h, +1)
    if not ok or n1 < iz + 2:
        return None
    v = 0.5 * (a[iz] + a[n1]) - 30.0
    if not clear(v):
        return None
    lo = near(a, v)
    if lo >= iz - 1:
        return None
    n2, ok = farthest(a, cm, lo, iz, 0)
    if not ok:
        return None
    s = near(a, 0.0)
    if s >= n1:
        return None
    al1, ok = farthest(a, cd, s, n1, -1)
    if not ok:
        return None
    x = np.radians(a[iz:n1])
    slope = np.max(np.gradient(cn[iz:n1], x))
    return dict(Cn1=(cn[n1], 0, 0), Cn2=(cn[n2], 0, 0), C_nalpha=(slope, 0, 0), alpha1=(a[al1], 0, 0))
