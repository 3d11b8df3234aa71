"""One rotor job: everything the package returns for it, flattened."""
import numpy as np

from . import gen as G


def flat(d, pre=""):
    out = {}
    for k in sorted(d):
        v = d[k]
        if isinstance(v, dict):
            out.update(flat(v, pre + k + "/"))
        else:
            out[pre + k] = np.array(v, float)
    return out


def run(job):
    """results, or the exception when the package refuses the input"""
    s, o = job["rotor"], job["oper"]
    out = {}
    try:
        ro = G.build_rotor(s, derivatives=job["deriv"])
        L, D = ro.distributedAeroLoads(o["U"], o["Omega"], o["pitch"], o["azimuth"])
        out.update(flat(dict(L), "loads/"))
        out.update(flat(dict(D), "dloads/"))
        k = len(job["more"])
        U = [o["U"]] + [m[0] for m in job["more"]]
        Om = [o["Omega"]] + [m[1] for m in job["more"]]
        pi = [o["pitch"]] + [m[2] for m in job["more"]]
        R, D = ro.evaluate(U, Om, pi, coefficients=bool(k % 2))
        out.update(flat(dict(R), "rotor/"))
        out.update(flat(dict(D), "drotor/"))
    except Exception as e:
        return dict(error=type(e).__name__, text=str(e)[:200])
    return out
