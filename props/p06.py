"""A vector of operating conditions gives exactly what the conditions give one by one, in any order."""
from .common import *

QUICK, THOROUGH = 1200, 10000
RULE = "random rotors, 2-7 conditions per call, shuffled, duplicated, as lists / arrays / 2-D tables in several memory layouts, with and without gradients; non-trivial when >= 2 different conditions"
MINIMA = {"condition": 1500, "gradient compared": 300, "permuted": 300, "grid": 150, "nearly equal conditions": 120}
KEYS = ("T", "Y", "Z", "Q", "P", "My", "Mz", "Mb")


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng, n=int(rng.integers(4, 8))))
    n = int(rng.integers(2, 8))
    os_ = [G.gen_oper(rng, s) for _ in range(n)]
    if idx % 3 == 0:
        os_.append(dict(os_[0]))
    if idx % 3 == 1:  # conditions that differ by very little are still different conditions
        k = int(rng.integers(0, n))
        o, key = dict(os_[k]), str(rng.choice(["U", "Omega", "pitch"]))
        o[key] += float(rng.choice([-1, 1]) * 10 ** rng.uniform(-9, -2))
        os_.insert(int(rng.integers(0, n + 1)), o)
    if idx % 6 == 0:
        os_[1]["Omega"] = 0.0
    return dict(rotor=s, opers=os_, perm=[int(v) for v in rng.permutation(len(os_))], deriv=idx % 2 == 0, coeff=idx % 4 < 2)


def check(spec, rec):
    s, os_, co = spec["rotor"], spec["opers"], spec["coeff"]
    U, Om, pi = (np.array([o[k] for o in os_]) for k in ("U", "Omega", "pitch"))
    n = len(U)
    ro = G.build_rotor(s, derivatives=spec["deriv"])
    out, D = ro.evaluate(U, Om, pi, coefficients=co)
    p = np.array(spec["perm"])
    outp, Dp = G.build_rotor(s, derivatives=spec["deriv"]).evaluate(list(U[p]), list(Om[p]), list(pi[p]), coefficients=co)
    rows = max(k for k in range(1, n) if n % k == 0 and (k * k <= n or k == 1))
    grid = (rows, n // rows)
    # the same table of conditions, laid out differently in memory
    out2, _ = ro.evaluate(U.reshape(grid), np.asfortranarray(Om.reshape(grid)), np.repeat(pi, 2)[::2].reshape(grid), coefficients=co)
    out3, _ = ro.evaluate([list(v) for v in U.reshape(grid)], Om.reshape(grid), pi.reshape(grid), coefficients=co)
    if rows > 1:
        rec.ok("grid")
    keys = [k for k in out if k != "W"]
    rec.true("keys", set(KEYS) <= set(keys), "missing outputs: %s" % (set(KEYS) - set(keys)))
    for k in keys:
        v = np.asarray(out[k])
        sc = max(np.abs(v).max(), 1e-300)
        rec.true("shape", v.shape == (n,), "%s has shape %s for %d conditions" % (k, v.shape, n))
        rec.close("permutation", k + " permuted", outp[k], v[p], 1e-12, scale=sc)
        rec.close("2-D conditions", k + " from 2-D arrays", out2[k], v, 1e-12, scale=sc)
        rec.close("2-D conditions", k + " from nested lists", out3[k], v, 1e-12, scale=sc)
    rec.ok("permuted")
    for i in range(n):
        for j in range(i):
            if 0 < max(abs(U[i] - U[j]), abs(Om[i] - Om[j]), abs(pi[i] - pi[j])) < 0.011:
                rec.ok("nearly equal conditions")
        one, D1 = G.build_rotor(s, derivatives=spec["deriv"]).evaluate(U[i], Om[i], pi[i], coefficients=co)
        for k in keys:
            rec.close("one by one", "%s, condition %d" % (k, i), np.asarray(one[k]).ravel()[0], out[k][i], 1e-12, scale=max(abs(out[k][i]), 1e-9 * np.abs(out[k]).max()))
        rec.ok("condition")
        if spec["deriv"]:
            for q in D:
                for v in D[q]:
                    a, b = np.asarray(D[q][v]), np.asarray(D1[q][v])
                    if v in ("dUinf", "dOmega", "dpitch"):
                        rec.true("condition independence", a.shape == (n, n) and np.all(a[i, np.arange(n) != i] == 0), "%s/%s couples conditions" % (q, v))
                        a = a[i, i]
                        b = b[0, 0]
                    else:
                        a, b = a[i], b[0]
                    rec.close("gradient one by one", "%s/%s condition %d" % (q, v, i), b, a, 1e-10, scale=max(np.abs(a).max(), 1e-300) if np.size(a) else 1)
            rec.ok("gradient compared")
    rec.nontrivial = len({tuple(o.values()) for o in os_}) > 1
    rec.seen("n%d" % n, "d%d" % spec["deriv"], "c%d" % co)
    rec.sample = dict(T=out["T"])
