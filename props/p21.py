"""Direction vectors: rotations between the documented coordinate systems, their derivatives, and vector arithmetic."""
from .common import *

QUICK, THOROUGH = 4000, 80000
RULE = "chains of 1-6 random transformations (names repeated), scalars, arrays and array angles, angles up to several turns; non-trivial when the chain has at least two different rotations"
MINIMA = {"rotation": 4000, "inverse": 4000, "norm": 4000, "derivative:angle": 4000, "derivative:component": 4000, "cross": 4000, "operator": 20000, "untouched": 4000}

# name, axis of rotation, sign of the passive rotation, name in the derivatives, inverse
T = dict(
    windToInertial=(2, -1, "beta", "inertialToWind"),
    inertialToWind=(2, +1, "beta", "windToInertial"),
    yawToWind=(2, -1, "yaw", "windToYaw"),
    windToYaw=(2, +1, "yaw", "yawToWind"),
    hubToYaw=(1, -1, "tilt", "yawToHub"),
    yawToHub=(1, +1, "tilt", "hubToYaw"),
    hubToAzimuth=(0, +1, "azimuth", "azimuthToHub"),
    azimuthToHub=(0, -1, "azimuth", "hubToAzimuth"),
    azimuthToBlade=(1, -1, "precone", "bladeToAzimuth"),
    bladeToAzimuth=(1, +1, "precone", "azimuthToBlade"),
    airfoilToBlade=(2, +1, "theta", "bladeToAirfoil"),
    bladeToAirfoil=(2, -1, "theta", "airfoilToBlade"),
    airfoilToProfile=(None, 0, None, "profileToAirfoil"),
    profileToAirfoil=(None, 0, None, "airfoilToProfile"),
)
SWAP = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.0]])


def mat(name, deg):
    """matrix and its derivative with respect to the angle in degrees"""
    ax, s, _, _ = T[name]
    if ax is None:
        return SWAP, 0 * SWAP
    t = np.radians(deg) * s
    c, n = np.cos(t), np.sin(t)
    i, j = (ax + 1) % 3, (ax + 2) % 3
    M, D = np.eye(3), np.zeros((3, 3))
    M[i, i] = M[j, j] = c
    M[i, j], M[j, i] = n, -n
    D[i, i] = D[j, j] = -n
    D[i, j], D[j, i] = c, -c
    return M, D * s * np.pi / 180


def gen(rng, idx, tier):
    n = int(rng.integers(1, 7))
    k = int(rng.choice([0, 0, 1, 3, 5]))  # 0: scalars
    chain = [(str(rng.choice(list(T))), [float(v) for v in rng.choice([rng.uniform(-40, 40), rng.uniform(-720, 720), 90.0, 0.0], size=max(k, 1))], bool(rng.random() < 0.5)) for _ in range(n)]
    v = rng.normal(0, 1, (3, max(k, 1))) * 10 ** rng.uniform(-2, 2)
    w = rng.normal(0, 1, (3, max(k, 1)))
    return dict(k=k, chain=chain, v=v.tolist(), w=w.tolist(), s=float(rng.uniform(0.3, 3) * rng.choice([-1, 1])), ints=rng.integers(-9, 10, (3, max(k, 1))).tolist())


def check(spec, rec):
    from ccblade.csystem import DirectionVector as DV

    k, n = spec["k"], max(spec["k"], 1)
    V, W = np.array(spec["v"]), np.array(spec["w"])
    mk = lambda A: DV(*(A[i, 0] if k == 0 else A[i] for i in range(3)))
    arr = lambda d: np.array([np.broadcast_to(np.ravel(c), (n,)) for c in (d.x, d.y, d.z)])
    d = mk(V)
    src = (V.copy(), mk(V))
    M = [np.eye(3) for _ in range(n)]
    D = [{} for _ in range(n)]  # angle -> derivative of the matrix product
    for name, ang, per in spec["chain"]:
        ax, _, key, inv = T[name]
        a = np.array(ang) if per and k > 1 else np.full(n, ang[0])
        before = arr(d)
        if ax is None:
            e = getattr(d, name)()
            b = getattr(e, inv)()
        else:
            x = a if per and k > 1 else ang[0]
            e = getattr(d, name)(x)
            b = getattr(e, inv)(x)
        rec.close("inverse", "%s after %s" % (inv, name), arr(b), before, 1e-12)
        rec.close("norm", "length after " + name, np.sqrt((arr(e) ** 2).sum(0)), np.sqrt((before ** 2).sum(0)), 1e-12)
        rec.same("untouched", name + " changed its source", arr(d), before)
        d = e
        for i in range(n):
            R, dR = mat(name, a[i])
            D[i] = {q: R @ m for q, m in D[i].items()}
            if key:
                D[i][key] = D[i].get(key, 0) + dR @ M[i]
            M[i] = R @ M[i]
    names = ">".join(c[0] for c in spec["chain"])
    size = np.sqrt((V ** 2).sum(0).max())
    rec.close("rotation", names, arr(d), np.array([M[i] @ V[:, i] for i in range(n)]).T, 1e-12, scale=size)
    for r, comp in enumerate("xyz"):
        g = getattr(d, "d" + comp)
        for c, cc in enumerate("xyz"):
            rec.close("derivative:component", "d%s/d%s of %s" % (comp, cc, names), np.broadcast_to(np.ravel(g["d" + cc]), (n,)), [M[i][r, c] for i in range(n)], 1e-12, 1e-12)
        for q in D[0]:
            if rec.true("derivative:angle", "d" + q in g, "no derivative of %s with respect to %s after %s" % (comp, q, names)):
                rec.close("derivative:angle", "d%s/d%s of %s" % (comp, q, names), np.broadcast_to(np.ravel(g["d" + q]), (n,)), [(D[i][q] @ V[:, i])[r] for i in range(n)], 1e-11, scale=size)

    # arithmetic
    a, b, s = mk(V), mk(W), spec["s"]
    cr = a.cross(b)
    want = np.cross(V.T, W.T).T
    rec.close("cross", "cross product", arr(cr), want, 1e-12, scale=size * np.abs(W).max())
    for nm, got, w in (
        ("+", a + b, V + W), ("-", a - b, V - W), ("*", a * b, V * W), ("/", a / b, V / W), ("+s", a + s, V + s), ("-s", a - s, V - s), ("*s", a * s, V * s), ("/s", a / s, V / s), ("neg", -a, -V),
    ):
        rec.close("operator", "operator " + nm, arr(got), w, 1e-13)
    for nm, o, w in (("+=", b, V + W), ("-=", b, V - W), ("*=", b, V * W), ("+=s", s, V + s), ("-=s", s, V - s), ("*=s", s, V * s), ("/=", b, V / W), ("/=s", s, V / s)):
        c = mk(V)
        c0 = c
        if nm[0] == "+":
            c += o
        elif nm[0] == "-":
            c -= o
        elif nm[0] == "*":
            c *= o
        else:
            c /= o
        rec.close("operator", "operator " + nm, arr(c), w, 1e-13)
        if nm[0] != "/":
            rec.true("operator", c is c0, "operator %s returned another object" % nm)
    # vectors made from whole numbers
    I = np.array(spec["ints"])
    mi = lambda: DV(*(int(I[i, 0]) if k == 0 else I[i] for i in range(3)))
    for nm, o, w in (("+=", b, I + W), ("-=", b, I - W), ("*=", b, I * W), ("+=s", s, I + s), ("-=s", s, I - s), ("*=s", s, I * s), ("/=", b, I / W), ("/=s", s, I / s), ("*=2", 2, I * 2), ("+", b, I + W), ("*", s, I * s), ("/", b, I / W)):
        c = mi()
        if nm == "+=" or nm == "+=s":
            c += o
        elif nm[:2] == "-=":
            c -= o
        elif nm[:2] == "*=":
            c *= o
        elif nm[:2] == "/=":
            c /= o
        else:
            c = c + o if nm == "+" else (c * o if nm == "*" else c / o)
        rec.close("operator", "operator %s of whole numbers" % nm, arr(c), w, 1e-13)
    rec.close("cross", "cross product of whole numbers", arr(mi().cross(b)), np.cross(I.T, W.T).T, 1e-12, scale=9 * max(np.abs(W).max(), 1e-300))
    rec.same("untouched", "operands", np.r_[arr(a), arr(b)], np.r_[V, W])
    t = a.toArray()
    rec.close("operator", "toArray", t, V.T, 0)
    rec.close("operator", "fromArray", arr(DV.fromArray(V[:, 0] if k == 0 else V)), V, 0)
    eye = np.eye(3)
    if k == 0:
        g = a.cross_deriv(b, "p", "q")
        for r in range(3):
            ja = [np.cross(eye[c], W[:, 0])[r] for c in range(3)]
            jb = [np.cross(V[:, 0], eye[c])[r] for c in range(3)]
            rec.close("cross", "derivative by the first vector", np.ravel(g[r]["p"]), ja, 1e-13)
            rec.close("cross", "derivative by the second vector", np.ravel(g[r]["q"]), jb, 1e-13)
    g = a.cross_deriv_array(b, "p", "q")
    for r in range(3):
        for c, cc in enumerate("xyz"):
            ja = [np.cross(eye[c], W[:, i])[r] for i in range(n)]
            jb = [np.cross(V[:, i], eye[c])[r] for i in range(n)]
            rec.close("cross", "derivative by the first vector", np.broadcast_to(np.ravel(g[r]["dp" + cc]), (n,)), ja, 1e-13)
            rec.close("cross", "derivative by the second vector", np.broadcast_to(np.ravel(g[r]["dq" + cc]), (n,)), jb, 1e-13)
    rec.nontrivial = len(set(T[c[0]][2] for c in spec["chain"])) > 1
    rec.seen(names[:200], k)
    rec.sample = dict(chain=names, v=arr(d)[:, 0])
