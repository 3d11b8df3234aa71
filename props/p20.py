"""AeroDyn airfoil files: what is written is read back, hand-made files are read as they stand, and the command line applies the documented operation."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

from .common import *
from .polars import *

QUICK, THOROUGH = 1600, 10000
RULE = "airfoils with 1-4 polars on common and different angles; hand-written files with other spacing, header texts, signs and exponents; all command-line operations with and without output name and common angles; non-trivial when the written polars differ in their angles"
MINIMA = {"round trip": 600, "handmade": 600, "header": 500, "refused": 300, "cut off": 3000, "cli:stall3D": 100, "cli:extrap": 100, "cli:blend": 100, "ccairfoil": 100, "process": 3, "cli: tables with different angles": 100}


def gen(rng, idx, tier):
    n = int(rng.integers(1, 5))
    same = rng.random() < 0.5
    lo, hi, g = float(rng.uniform(-40, -8)), float(rng.uniform(12, 60)), str(rng.choice(["even", "integer"]))
    ps = []
    for k in range(n):
        p = gen_polar(rng, Re=float(10 ** rng.uniform(4.8, 7.6)), full=False, **(dict(lo=lo, hi=hi, grid=g) if same else {}))
        ps.append(p)
    qs = [gen_polar(rng, full=False) for _ in range(int(rng.integers(1, 3)))]
    return dict(
        ps=ps, qs=qs, hand=int(rng.integers(0, 2**31)), op=["stall3D", "extrap", "blend"][idx % 3], common=bool(rng.random() < 0.5), out=bool(rng.random() < 0.5),
        args=[round(float(v), 3) for v in (rng.uniform(0.1, 0.9), rng.uniform(0.05, 0.4), rng.uniform(2, 10))], cdmax=round(float(rng.uniform(1.0, 1.8)), 3), w=round(float(rng.uniform(0, 1)), 2), proc=idx < 6,
        src=bool(rng.random() < 0.6),
    )


def cols(p):
    return np.column_stack([p["alpha"], p["cl"], p["cd"], p["cm"]])


def write_hand(path, ps, seed):
    """an AeroDyn file as people write them: free text, tabs, exponents, comments after the numbers"""
    rng = np.random.default_rng(seed)
    sep = str(rng.choice([" ", "  ", "\t", "   \t "]))
    fm = [lambda v: "%.4f" % v, lambda v: "%.5e" % v, lambda v: "%+.6f" % v, lambda v: repr(float(v))][int(rng.integers(4))]
    vals = []
    with open(path, "w") as f:
        f.write("Round root section, EOF 3 tables 12.0\n7 Reynolds numbers of a NACA 63(2)-415 section\n\n")
        f.write("%s%d%sNumber of airfoil tables in this file\n" % (sep, len(ps), sep))
        for p in ps:
            f.write("%s%s%sReynolds numbers in millions 2.0\n" % (sep, fm(p["Re"] / 1e6), sep))
            for _ in range(8):
                f.write("%s%s%ssome parameter (deg) 5\n" % (sep, fm(float(rng.uniform(-20, 20))), sep))
            t = []
            for row in cols(p):
                s = [fm(v) for v in row]
                t.append([float(v) for v in s])
                f.write(sep.join([""] + s) + "\n")
            f.write(str(rng.choice(["EOT\n", "  EOT\n", "EOT \n"])))
            vals.append((float(fm(p["Re"] / 1e6)) * 1e6, np.array(t)))
    return vals


def match(rec, mech, what, af, want, tolRe, tol):
    want = sorted(want, key=lambda t: t[0])
    if not rec.true(mech, len(af.polars) == len(want), "%s: %d tables instead of %d" % (what, len(af.polars), len(want))):
        return
    for p, (Re, t) in zip(af.polars, want):
        rec.close(mech, what + ": Reynolds number", p.Re, Re, 1e-12, tolRe)
        for k, q in enumerate(("alpha", "cl", "cd", "cm")):
            rec.close(mech, what + ": " + q, getattr(p, q), t[:, k], 1e-12, tol)


def table(ps, union=True):
    un = np.unique(np.concatenate([p["alpha"] for p in ps]))
    return [(p["Re"], np.column_stack([un] + [lin(un, p["alpha"], p[k]) for k in ("cl", "cd", "cm")])) for p in ps]


def obj_table(af):
    return [(p.Re, np.column_stack([p.alpha, p.cl, p.cd, p.cm])) for p in af.interpToCommonAlpha().polars]


def header(path):
    """parameter lines of every table"""
    L = open(path).read().splitlines()
    n, i, out = int(L[3].split()[0]), 4, []
    for _ in range(n):
        out.append([float(x.split()[0]) for x in L[i + 1 : i + 9]])
        while "EOT" not in L[i]:
            i += 1
        i += 1
    return out, L[i:]


def check(spec, rec):
    d = tempfile.mkdtemp(prefix="ccv_p20_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        run(spec, rec, d)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(spec, rec, d):
    from ccblade.airfoilprep import Airfoil
    from ccblade.ccblade import CCAirfoil

    ps, qs = spec["ps"], spec["qs"]
    for p in ps + qs:  # the linear range of the unsteady parameters needs angles in it
        a = np.array(p["alpha"])
        if np.count_nonzero(np.abs(a) < 4.9) < 3:
            raise Stop
    af = Airfoil([make(p) for p in ps])
    af.writeToAerodynFile("a.dat")
    back = Airfoil.initFromAerodynFile("a.dat")
    match(rec, "round trip", "read back", back, table(ps), 0.51, 5.1e-7)
    t = ref.read_aerodyn("a.dat")
    match(rec, "round trip", "independent reader", back, [(x[0], x[2]) for x in t], 1e-3, 1e-12)
    back.writeToAerodynFile("b.dat")
    b2 = Airfoil.initFromAerodynFile("b.dat")
    match(rec, "round trip", "written twice", b2, obj_table(back), 0.51, 5.1e-7)
    h, rest = header("a.dat")
    rec.true("header", not "".join(rest).strip(), "text after the last table: %r" % rest[:2])
    for p, got in zip(af.interpToCommonAlpha().polars, h):
        rec.close("header", "unsteady parameters in the file", got, np.array(p.unsteadyparam(), float), 1e-9, 5.1e-7)

    vals = write_hand("h.dat", ps, spec["hand"])
    hand = Airfoil.initFromAerodynFile("h.dat")
    match(rec, "handmade", "hand-written file", hand, vals, 1e-6, 1e-12)
    rows = open("h.dat").read().splitlines()
    i = next(k for k, s in enumerate(rows) if "EOT" in s) - 2
    rows[i] = " ".join(rows[i].split()[:3])
    open("short.dat", "w").write("\n".join(rows) + "\n")
    try:
        Airfoil.initFromAerodynFile("short.dat")
        rec.bad("refused", "a table row with three columns was accepted")
    except ValueError:
        rec.ok("refused")

    # a file cut off anywhere before its last table is complete (a disk that was full, a copy that was interrupted)
    whole = open("h.dat", "rb").read()
    last = whole.rindex(b"EOT")
    cuts = [int(v) for v in np.random.default_rng(spec["hand"] + 7).integers(0, last + 3, 6)]
    first = whole.find(b"EOT")
    cuts += [last, last - 1, last + 2] + ([first + 3, first + 4] if first != last else [])
    for k in cuts:
        with open("cut.dat", "wb") as f:
            f.write(whole[:k])
        try:
            got = Airfoil.initFromAerodynFile("cut.dat")
            rec.bad("cut off", "a file cut off after %d of %d bytes (inside its tables) was read as %s" % (k, len(whole), [(p.Re, len(p.alpha)) for p in got.polars]))
        except Exception:
            rec.ok("cut off")

    if len(set(p["Re"] for p in ps)) == len(ps):
        g = hand.createDataGrid()
        try:
            c1 = CCAirfoil(*g[:4], cm=g[4])
        except ValueError:
            c1 = None  # data the spline fit refuses are the business of another property
        if c1 is not None:
            c2 = CCAirfoil.initFromAerodynFile("h.dat")
            for a in (-0.2, 0.03, 0.21):
                rec.close("ccairfoil", "coefficients from the file", [float(np.ravel(v)[0]) for v in c2.evaluate(a, 2e6, return_cm=True)], [float(np.ravel(v)[0]) for v in c1.evaluate(a, 2e6, return_cm=True)], 1e-12, 1e-13)

    # command line
    os.mkdir("sub")
    if spec["src"]:  # tables with angles of their own
        write_hand("src.one.dat", ps, spec["hand"] + 1)
        write_hand("sub/other.dat", qs, spec["hand"] + 2)
        if len(set(len(p["alpha"]) for p in ps)) > 1:
            rec.ok("cli: tables with different angles")
    else:
        af.writeToAerodynFile("src.one.dat")
        Airfoil([make(q) for q in qs]).writeToAerodynFile("sub/other.dat")
    A, O = Airfoil.initFromAerodynFile("src.one.dat"), Airfoil.initFromAerodynFile("sub/other.dat")
    argv = ["src.one.dat"]
    op = spec["op"]
    if op == "stall3D":
        argv += ["--stall3D"] + [repr(v) for v in spec["args"]]
        want, name = A.correction3D(*spec["args"]), "src.one_3D.dat"
    elif op == "extrap":
        argv += ["--extrap", repr(spec["cdmax"])]
        want, name = A.extrapolate(spec["cdmax"]), "src.one_extrap.dat"
    else:
        argv += ["--blend", "sub/other.dat", repr(spec["w"])]
        want, name = A.blend(O, spec["w"]), "src.one+other_blend%r.dat" % spec["w"]
    if spec["common"]:
        argv.append("--common")
        want = want.interpToCommonAlpha()
    if spec["out"]:
        name = "sub/result.txt"
        argv += ["--out", name]
    had = {n: open(n, "rb").read() for n in ("src.one.dat", "sub/other.dat")}
    if spec["proc"]:
        e = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(sys.modules["ccblade"].__file__)), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-m", "ccblade.airfoilprep"] + argv, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rec.true("process", r.returncode == 0, "exit status %d: %s" % (r.returncode, r.stdout[-500:]))
    else:
        old = sys.argv
        try:
            sys.argv = ["airfoilprep"] + argv
            runpy.run_module("ccblade.airfoilprep", run_name="__main__", alter_sys=False)
        except SystemExit as x:
            rec.true("cli:" + op, not x.code, "command line %r ended with %r" % (argv, x.code))
        finally:
            sys.argv = old
    if rec.true("cli:" + op, os.path.exists(name), "command line %r wrote no %s: %s" % (argv, name, sorted(os.listdir(".")))):
        match(rec, "cli:" + op, "file of %s" % op, Airfoil.initFromAerodynFile(name), obj_table(want), 0.51, 5.1e-7)
    for n in had:
        rec.true("cli:" + op, open(n, "rb").read() == had[n], "%s was changed" % n)
    rec.nontrivial = len(set(len(p["alpha"]) for p in ps)) > 1
    rec.seen(len(ps), op, spec["common"], spec["out"], len(qs))
    rec.sample = dict(argv=argv, file=name)
