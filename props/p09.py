"""Asking for gradients changes no result, and gradients that would be wrong are refused."""
from .common import *

QUICK, THOROUGH = 2500, 30000
RULE = "random rotors of every option combination, at ordinary, hostile and parked conditions, with gradients on and off; non-trivial when loads are nonzero"
MINIMA = {"loads compared": 1000, "rotor compared": 1000, "refused": 100}
KEYS = ("T", "Y", "Z", "Q", "P", "My", "Mz", "Mb")


def gen(rng, idx, tier):
    s = raise_hub(G.gen_rotor(rng))
    o = G.gen_oper(rng, s, tsr=float(rng.uniform(0.5, 14)), pitch=float(rng.uniform(-15, 40)))
    if idx % 10 == 0:
        o["Omega"] = 0.0
    return dict(rotor=s, oper=o, coeff=idx % 2 == 0, refuse=idx % 7 == 0)


def check(spec, rec):
    s, o = spec["rotor"], spec["oper"]
    if spec["refuse"] and o["Omega"]:  # a parked rotor has no induction, thus nothing to iterate
        for it in (2, 3):
            s2 = dict(s, iterRe=it)
            rec.ok("refused")
            try:
                r2 = G.build_rotor(s2, derivatives=True)
            except ValueError:
                continue
            try:
                r2.evaluate([o["U"]], [o["Omega"]], [o["pitch"]])
                loads(r2, o)
            except ValueError:
                continue
            rec.bad("refused", "gradients are returned with %d Reynolds iterations although they are not differentiated" % it)
    a, b = G.build_rotor(s), G.build_rotor(s, derivatives=True)
    La, Da = loads(a, o)
    Lb, Db = loads(b, o)
    rec.true("keys", set(La) == set(Lb), "distributed outputs differ: %s" % (set(La) ^ set(Lb)))
    rec.true("no gradients", not Da, "gradients returned although not requested")
    rec.true("gradients", set(Db) == {"dNp", "dTp"}, "gradient keys %s" % sorted(Db))
    for k in La:
        rec.close("loads", k, Lb[k], La[k], 1e-13, scale=max(1e-300, np.nanmax(np.abs(La[k]))))
    rec.ok("loads compared")
    ea, Da = a.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=spec["coeff"])
    eb, Db = b.evaluate([o["U"]], [o["Omega"]], [o["pitch"]], coefficients=spec["coeff"])
    want = ["d" + k for k in KEYS] + (["dC" + k for k in KEYS] if spec["coeff"] else [])
    rec.true("keys", set(ea) == set(eb), "rotor outputs differ: %s" % (set(ea) ^ set(eb)))
    rec.true("no gradients", not Da, "gradients returned although not requested")
    rec.true("gradients", set(want) <= set(Db), "missing gradients %s" % (set(want) - set(Db)))
    for k in ea:
        rec.close("rotor", k, eb[k], ea[k], 1e-13, scale=max(1e-300, np.nanmax(np.abs(ea[k]))))
    rec.ok("rotor compared")
    rec.nontrivial = bool(np.any(np.asarray(La["Np"]) != 0))
    rec.seen(flags(s), s["family"], "parked%d" % (o["Omega"] == 0))
    rec.sample = dict(T=ea["T"])
