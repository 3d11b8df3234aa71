"""Flapped airfoil coordinates: what is handed to XFOIL, what is taken back, and the files in between."""
import json
import multiprocessing as mp
import os
import shutil
import stat
import tempfile

from rvlib import stage

from .common import *

QUICK, THOROUGH = 240, 3000
RULE = (
    "random airfoil outlines, flap angles, hinges, node counts and names, run in a scratch directory against a stand-in for XFOIL that records what it is asked and answers with a known outline; repeated calls, "
    "an XFOIL that fails or is missing after one that worked, and 2-4 processes at once in one directory; non-trivial when the outline handed over and the one taken back were compared"
)
MINIMA = {"request": 200, "answer": 200, "files": 200, "failure": 60, "parallel": 60}

STUB = '''#!%s -S
import json, os, sys, time
L = [s.strip() for s in sys.stdin.read().split("\\n")]
log = os.environ["CCV_XFOIL_LOG"]
i = L.index("LOAD"); src, name = L[i + 1], L[i + 2]
j = L.index("FLAP"); hinge, tag, yt, df = L[j + 1 : j + 5]
nodes = L[L.index("N") + 1]
out = L[L.index("PSAV") + 1]
xy = [[float(v) for v in s.split()] for s in open(src)]
time.sleep(float(os.environ.get("CCV_XFOIL_SLEEP", "0")))
with open(log + ".%%d" %% os.getpid(), "w") as f:
    json.dump(dict(src=src, name=name, hinge=hinge, yt=yt, df=df, nodes=nodes, out=out, xy=xy, listing=sorted(os.listdir("."))), f)
if os.environ.get("CCV_XFOIL_FAIL") != "1":
    with open(out, "w") as f:
        for x, y in xy:
            f.write("%%.7f %%.7f\\n" %% (x + 1e-3 * float(df), y - 2e-3 * float(df) + float(hinge)))
'''


def gen(rng, idx, tier):
    def one():
        n = int(rng.integers(5, 60))
        t = np.linspace(0, 2 * np.pi, n)
        x, y = 0.5 + 0.5 * np.cos(t), rng.uniform(0.05, 0.2) * np.sin(t) + rng.normal(0, 1e-3, n)
        return dict(
            x=[float(v) for v in x], y=[float(v) for v in y], df=float(rng.choice([12.0, 0.0, -5.5, rng.uniform(-15, 15)])), hinge=float(rng.choice([0.8, rng.uniform(0.6, 0.9)])), yt=float(rng.choice([0.5, rng.uniform(0.1, 0.9)])),
            nodes=int(rng.integers(50, 400)), name="af%d" % rng.integers(1000), defaults=bool(rng.random() < 0.2),
        )

    return dict(runs=[one() for _ in range(int(rng.integers(1, 4)))], multi=bool(rng.random() < 0.5), mpi=bool(rng.random() < 0.3), mode=["plain", "failure", "parallel"][idx % 3], same=bool(rng.random() < 0.5))


def airfoil(q):
    from ccblade.ccblade import CCAirfoil

    a = np.linspace(-180, 180, 9)
    return CCAirfoil(a, [1e6], np.zeros((9, 1)), np.full((9, 1), 0.5), x=np.array(q["x"]), y=np.array(q["y"]), AFName=q["name"])


def call(af, q, stub, kw):
    if q["defaults"]:
        return af.af_flap_coords(stub, **kw)
    return af.af_flap_coords(stub, delta_flap=q["df"], xc_hinge=q["hinge"], yt_hinge=q["yt"], numNodes=q["nodes"], **kw)


def expect(q):
    df, h = (12.0, 0.8) if q["defaults"] else (q["df"], q["hinge"])
    return df, h, 0.5 if q["defaults"] else q["yt"], 250 if q["defaults"] else q["nodes"]


def judge(rec, mech, q, af):
    df, h, _, _ = expect(q)
    rec.close(mech, "flapped x", np.asarray(af.af_flap_xcoords, float), np.array(q["x"]) + 1e-3 * df, 0, 2e-6)
    rec.close(mech, "flapped y", np.asarray(af.af_flap_ycoords, float), np.array(q["y"]) - 2e-3 * df + h, 0, 2e-6)
    rec.close(mech, "control setting", af.ctrl, df, 0, 1e-12)
    rec.close(mech, "outline of the airfoil", np.r_[af.x, af.y], np.r_[q["x"], q["y"]], 0)


def check(spec, rec):
    d = tempfile.mkdtemp(prefix="ccv_p26_")
    cwd = os.getcwd()
    keep = {k: os.environ.get(k) for k in ("CCV_XFOIL_LOG", "CCV_XFOIL_FAIL", "CCV_XFOIL_SLEEP")}
    try:
        w = os.path.join(d, "work")
        os.mkdir(w)
        os.chdir(w)
        stub = os.path.join(d, "xfoil")
        with open(stub, "w") as f:
            f.write(STUB % stage.PY)
        os.chmod(stub, os.stat(stub).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        os.environ["CCV_XFOIL_LOG"] = os.path.join(d, "log")
        os.environ["CCV_XFOIL_FAIL"] = "0"
        os.environ["CCV_XFOIL_SLEEP"] = "0.02" if spec["mode"] == "parallel" else "0"
        run(spec, rec, d, w, stub)
    finally:
        os.chdir(cwd)
        for k, v in keep.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        shutil.rmtree(d, ignore_errors=True)


def logs(d):
    out = []
    for n in sorted(os.listdir(d)):
        if n.startswith("log."):
            with open(os.path.join(d, n)) as f:
                out.append(json.load(f))
            os.remove(os.path.join(d, n))
    return out


def snapshot(w):
    return {n: open(os.path.join(w, n), "rb").read() for n in sorted(os.listdir(w))}


def run(spec, rec, d, w, stub):
    open("polar_of_the_user.txt", "w").write("keep\n")
    open("notes.dat", "w").write("keep\n")
    had = snapshot(w)
    kw = dict(multi_run=spec["multi"], MPI_run=spec["mpi"])
    if spec["mode"] == "parallel":
        kw["multi_run"] = True
        qs = (spec["runs"] * 4)[:3]
        if spec["same"]:
            qs = [dict(q, name=qs[0]["name"], df=qs[0]["df"], defaults=qs[0]["defaults"]) for q in qs]
        qs = [dict(q, y=[v + 0.001 * k for v in q["y"]]) for k, q in enumerate(qs)]
        ctx = mp.get_context("fork")
        ps = []
        for q in qs:
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, q, stub, kw))
            p.start()
            b.close()
            ps.append((a, p, q))
        for a, p, q in ps:
            got = None
            if a.poll(60):
                try:
                    got = a.recv()
                except EOFError:
                    pass
            p.join(10)
            if not rec.true("parallel", got is not None and got["error"] is None, "a process of several failed: %s" % (got and got["error"])):
                continue
            rec.close("parallel", "outline of a process of several", np.array(got["xy"]), np.array([np.array(q["x"]) + 1e-3 * expect(q)[0], np.array(q["y"]) - 2e-3 * expect(q)[0] + expect(q)[1]]), 0, 2e-6)
        logs(d)
        rec.true("files", snapshot(w) == had, "files left, lost or changed: %s instead of %s" % (sorted(snapshot(w)), sorted(had)))
        rec.nontrivial = True
        rec.seen("parallel", len(qs), spec["same"])
        return
    for q in spec["runs"]:
        af = airfoil(q)
        call(af, q, stub, kw)
        judge(rec, "answer", q, af)
        lg = logs(d)
        if not rec.true("request", len(lg) == 1, "XFOIL was run %d times" % len(lg)):
            return
        lg = lg[0]
        df, h, yt, nodes = expect(q)
        rec.close("request", "outline handed to XFOIL", np.array(lg["xy"]).T, np.array([q["x"], q["y"]]), 0, 1e-6)
        rec.close("request", "hinge, height, angle and nodes", [float(lg[k]) for k in ("hinge", "yt", "df", "nodes")], [h, yt, df, nodes], 1e-12)
        rec.true("request", q["name"] in lg["name"], "name %r" % lg["name"])
        rec.true("files", snapshot(w) == had, "files left, lost or changed: %s instead of %s" % (sorted(snapshot(w)), sorted(had)))
        rec.sample = dict(request={k: lg[k] for k in ("name", "hinge", "yt", "df", "nodes", "out")})
    if spec["mode"] == "failure":
        # an XFOIL that does not answer must not leave the answer of an earlier run in its place
        q = spec["runs"][0]
        df = expect(q)[0]
        for f in ("%s_%s_Airfoil.txt" % (q["name"], df), "%s_%s_Airfoil_p%d.txt" % (q["name"], df, os.getpid())):
            with open(f, "w") as g:  # of an interrupted run
                g.write("0.1 0.2\n0.3 0.4\n")
        for how in ("fails", "missing"):
            af = airfoil(q)
            os.environ["CCV_XFOIL_FAIL"] = "1"
            try:
                call(af, q, stub if how == "fails" else os.path.join(d, "nothing") + " 2>/dev/null", kw)
            except Exception:
                rec.ok("failure")
                continue
            rec.bad("failure", "XFOIL %s, but coordinates were returned: %s" % (how, np.asarray(af.af_flap_xcoords)[:3]))
    rec.nontrivial = True
    rec.seen(spec["mode"], kw["multi_run"], kw["MPI_run"], len(spec["runs"]))


def child(conn, q, stub, kw):
    out = dict(error=None)
    try:
        af = airfoil(q)
        call(af, q, stub, kw)
        out["xy"] = [np.asarray(af.af_flap_xcoords, float).tolist(), np.asarray(af.af_flap_ycoords, float).tolist()]
    except BaseException as e:
        out["error"] = repr(e)
    conn.send(out)
    conn.close()
    os._exit(0)
