"""Plots show the polars' own data: every curve drawn is one of the documented coefficients over its angles of attack."""
import os
import runpy
import shutil
import sys
import tempfile
import types

from .common import *
from .p20 import obj_table, table
from .polars import *

QUICK, THOROUGH = 1500, 20000
RULE = "airfoils with 1-4 polars on common and different angles, extrapolated and not, plotted polar by polar, on shared and on separate figures, and by every command-line operation with --plot; non-trivial when every curve expected was found"
MINIMA = {"curve": 9000, "polar figures": 1000, "shared figures": 1000, "separate figures": 1000, "cli:stall3D": 300, "cli:extrap": 300, "cli:blend": 300, "file": 1000, "unchanged": 1500, "legend": 3000, "whole turn": 300}
WORDS = [("lift", "cl"), ("drag", "cd"), ("moment", "cm")]


# ---- a stand-in for matplotlib that only remembers what was drawn ----------------------------------
class Anything:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter(())


class Line(Anything):
    def __init__(self, x, y, label):
        self.x, self.y, self.label = x, y, label

    def set_label(self, s):
        self.label = s


class Axes(Anything):
    transAxes = "axes"

    def __init__(self, fig):
        self.fig, self.lines, self.xlabel, self.ylabel, self.texts, self.legends = fig, [], "", "", [], []

    def plot(self, *a, label="", **k):
        out, a = [], list(a)
        while a:
            x = np.array(a.pop(0), float)
            y = np.array(a.pop(0), float) if a and not isinstance(a[0], str) else None
            if y is None:
                x, y = np.arange(len(x), dtype=float), x
            if a and isinstance(a[0], str):
                a.pop(0)
            if x.shape != y.shape:
                raise ValueError("x and y must have same first dimension, but have shapes %s and %s" % (x.shape, y.shape))
            out.append(Line(x, y, label))
        self.lines += out
        return out

    def set_xlabel(self, s, **k):
        self.xlabel = s

    def set_ylabel(self, s, **k):
        self.ylabel = s

    def set(self, **k):
        self.xlabel, self.ylabel = k.get("xlabel", self.xlabel), k.get("ylabel", self.ylabel)

    def legend(self, *a, **k):
        hs, ls = (a[0], a[1]) if len(a) > 1 else (k.get("handles", self.lines), k.get("labels", a[0] if a else None))
        self.legends.append([(h, l) for h, l in zip(hs, ls)] if ls is not None else [(h, h.label) for h in hs])

    def text(self, x, y, s, **k):
        self.texts.append(s)


class Figure(Anything):
    def __init__(self):
        self.axes = []

    def add_subplot(self, *a, **k):
        self.axes.append(Axes(self))
        return self.axes[-1]

    def gca(self, **k):
        return self.axes[-1] if self.axes else self.add_subplot()

    def subplots(self, *a, **k):
        return self.add_subplot()

    def add_axes(self, *a, **k):
        return self.add_subplot()


class Board:
    """pyplot"""

    def __init__(self):
        self.figs, self.shown = [], []
        m = types.ModuleType("matplotlib.pyplot")
        m.figure, m.gcf, m.gca, m.subplots, m.show, m.subplot = self.figure, self.gcf, lambda **k: self.gcf().gca(), self.subplots, self.show, lambda *a, **k: self.gcf().add_subplot()
        for nm, to in (("plot", "plot"), ("xlabel", "set_xlabel"), ("ylabel", "set_ylabel"), ("legend", "legend"), ("text", "text")):
            setattr(m, nm, (lambda to: lambda *a, **k: getattr(self.gcf().gca(), to)(*a, **k))(to))
        m.__getattr__ = lambda k: Anything()
        self.pyplot = m
        self.top = types.ModuleType("matplotlib")
        self.top.pyplot = m
        self.top.__path__ = []
        self.top.use = lambda *a, **k: None

    def figure(self, *a, **k):
        self.figs.append(Figure())
        return self.figs[-1]

    def gcf(self):
        return self.figs[-1] if self.figs else self.figure()

    def subplots(self, *a, **k):
        f = self.figure()
        return f, f.add_subplot()

    def show(self, *a, **k):
        self.shown.append(len(self.figs))

    def __enter__(self):
        self.old = {k: sys.modules.get(k) for k in ("matplotlib", "matplotlib.pyplot")}
        sys.modules["matplotlib"], sys.modules["matplotlib.pyplot"] = self.top, self.pyplot
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def gen(rng, idx, tier):
    n = int(rng.integers(1, 5))
    same = rng.random() < 0.4
    lo, hi = float(rng.uniform(-40, -8)), float(rng.uniform(12, 60))
    Re = np.sort(10 ** rng.uniform(4.8, 7.6, n))
    if rng.random() < 0.3:
        Re = Re[::-1]
    ps = [gen_polar(rng, Re=float(Re[k]), full=False, **(dict(lo=lo, hi=hi, grid="even") if same else {})) for k in range(n)]
    return dict(ps=ps, qs=[gen_polar(rng, full=False)], op=["stall3D", "extrap", "blend"][idx % 3], common=bool(rng.random() < 0.5), args=[round(float(v), 3) for v in (rng.uniform(0.1, 0.9), rng.uniform(0.05, 0.4), rng.uniform(2, 10))],
        cdmax=round(float(rng.uniform(1.0, 1.8)), 3), w=round(float(rng.uniform(0, 1)), 2))


def curves(ax):
    return [(l.x, l.y) for l in ax.lines]


def quantity(ax):
    hit = [q for w, q in WORDS if w in ax.ylabel.lower()]
    return hit[0] if len(hit) == 1 else None


def same(a, b, tol):
    return len(a) == len(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) <= tol))


def figure(rec, mech, fig, q, want, tol=1e-12, what=""):
    """a figure with exactly the curves `want` [(alpha, values)] of quantity q"""
    axs = [a for a in fig.axes if a.lines]
    if not rec.true(mech, len(axs) == 1 and quantity(axs[0]) == q and "angle" in axs[0].xlabel.lower(), "%s: axes labelled %s instead of one of %s over the angle of attack" % (what, [(a.xlabel, a.ylabel) for a in axs], q)):
        return None
    got = curves(axs[0])
    if not rec.true(mech, len(got) == len(want), "%s: %d curves of %s instead of %d" % (what, len(got), q, len(want))):
        return None
    left = list(range(len(got)))
    for x, y in want:
        hit = [k for k in left if same(got[k][0], x, tol) and same(got[k][1], y, tol)]
        if rec.true("curve", hit, "%s: no curve of %s with the data of the polar" % (what, q)):
            left.remove(hit[0])
    return axs[0]


def legend(rec, ax, polars, q, what):
    """the legend names the Reynolds number of each curve"""
    if ax is None:
        return
    last = ax.legends[-1] if ax.legends else []
    for p in polars:
        hit = [l for h, l in last if isinstance(h, Line) and same(h.x, p.alpha, 1e-12) and same(h.y, getattr(p, q), 1e-12)]
        if not rec.true("legend", hit, "%s: curve of Re = %g is not in the legend" % (what, p.Re)):
            continue
        nums = []
        for l in hit:
            for w in l.replace("=", " ").split():
                try:
                    nums.append(float(w))
                except ValueError:
                    pass
        rec.true("legend", any(abs(v * 1e6 - p.Re) <= 1e-3 * p.Re for v in nums), "%s: curve of Re = %g is labelled %s" % (what, p.Re, hit))


def check(spec, rec):
    from ccblade.airfoilprep import Airfoil

    for p in spec["ps"] + spec["qs"]:
        if np.count_nonzero(np.abs(np.array(p["alpha"])) < 4.9) < 3:
            raise Stop
    af = Airfoil([make(p) for p in spec["ps"]])
    library(rec, af)
    if spec["op"] == "extrap":
        library(rec, af.extrapolate(spec["cdmax"]))
        rec.ok("whole turn")
    d = tempfile.mkdtemp(prefix="ccv_p33_")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        command(spec, rec, af)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    rec.nontrivial = not rec.violations
    rec.seen(len(spec["ps"]), spec["op"], spec["common"], len(set(len(p["alpha"]) for p in spec["ps"])))
    rec.sample = dict(op=spec["op"], polars=len(spec["ps"]))


def library(rec, af):
    before = [[np.array(getattr(p, k), copy=True) for k in ("Re", "alpha", "cl", "cd", "cm")] for p in af.polars]
    qs = [q for _, q in WORDS]
    for p in af.polars[:2]:
        with Board() as b:
            figs = p.plot()
        if rec.true("polar figures", len(figs) == 3 and all(isinstance(f, Figure) for f in figs) and len(b.figs) == 3, "Polar.plot returned %d figures and made %d" % (len(figs), len(b.figs))):
            for f, q in zip(figs, qs):
                legend(rec, figure(rec, "polar figures", f, q, [(p.alpha, getattr(p, q))], what="Polar.plot"), [p], q, "Polar.plot")
    with Board() as b:
        figs = af.plot()
    if rec.true("shared figures", len(figs) == 3 == len(b.figs) and all(isinstance(f, Figure) for f in figs), "Airfoil.plot returned %d figures and made %d" % (len(figs), len(b.figs))):
        for f, q in zip(figs, qs):
            legend(rec, figure(rec, "shared figures", f, q, [(p.alpha, getattr(p, q)) for p in af.polars], what="Airfoil.plot"), af.polars, q, "Airfoil.plot")
    with Board() as b:
        figs = af.plot(single_figure=False)
    n = 3 * len(af.polars)
    if rec.true("separate figures", len(figs) == n == len(b.figs), "Airfoil.plot(single_figure=False) returned %d figures and made %d instead of %d" % (len(figs), len(b.figs), n)):
        for k, p in enumerate(af.polars):
            for f, q in zip(figs[3 * k : 3 * k + 3], qs):
                legend(rec, figure(rec, "separate figures", f, q, [(p.alpha, getattr(p, q))], what="Airfoil.plot(single_figure=False)"), [p], q, "separate")
    for p, old in zip(af.polars, before):
        rec.true("unchanged", all(np.array_equal(np.asarray(getattr(p, k)), v) for k, v in zip(("Re", "alpha", "cl", "cd", "cm"), old)), "plotting changed the polar")


def command(spec, rec, af):
    from ccblade.airfoilprep import Airfoil

    af.writeToAerodynFile("a.dat")
    Airfoil([make(q) for q in spec["qs"]]).writeToAerodynFile("o.dat")
    A, O = Airfoil.initFromAerodynFile("a.dat"), Airfoil.initFromAerodynFile("o.dat")
    op = spec["op"]
    argv = ["a.dat"]
    if op == "stall3D":
        argv += ["--stall3D"] + [repr(v) for v in spec["args"]]
        want = A.correction3D(*spec["args"])
    elif op == "extrap":
        argv += ["--extrap", repr(spec["cdmax"])]
        want = A.extrapolate(spec["cdmax"])
    else:
        argv += ["--blend", "o.dat", repr(spec["w"])]
        want = A.blend(O, spec["w"])
    if spec["common"]:
        argv.append("--common")
        want = want.interpToCommonAlpha()

    def go(extra):
        old = sys.argv
        try:
            sys.argv = ["airfoilprep"] + argv + extra
            with Board() as b:
                runpy.run_module("ccblade.airfoilprep", run_name="__main__", alter_sys=False)
        except SystemExit as x:
            rec.true("cli:" + op, not x.code, "command line %r ended with %r" % (argv + extra, x.code))
        finally:
            sys.argv = old
        return b

    go(["--out", "plain.dat"])
    b = go(["--plot", "--out", "plotted.dat"])
    rec.true("file", os.path.exists("plain.dat") and os.path.exists("plotted.dat") and open("plain.dat").read() == open("plotted.dat").read(), "asking for a plot changed the file written")
    rec.true("cli:" + op, b.shown == [len(b.figs)] and b.figs, "%d figures made, shown %s" % (len(b.figs), b.shown))
    # what each figure has to show, in any order of the figures
    todo = []
    for k, p in enumerate(want.polars):
        for q in ("cl", "cd", "cm"):
            new = (p.alpha, getattr(p, q))
            if op == "blend":
                todo.append((q, [new]))
            elif not (op == "stall3D" and q == "cm"):
                todo.append((q, [(A.polars[k].alpha, getattr(A.polars[k], q)), new]))
    figs = list(b.figs)
    for q, ws in todo:
        hit = [f for f in figs if len(f.axes) >= 1 and fits(f, q, ws)]
        if rec.true("cli:" + op, hit, "%r: no figure shows %s of the %s polar with its own data" % (argv, q, "new" if len(ws) == 1 else "old and the new")):
            figs.remove(hit[0])
            rec.ok("curve", len(ws))
            named(rec, op, hit[0], ws)
    rec.true("cli:" + op, not [f for f in figs if any(a.lines for a in f.axes) and not (op == "stall3D" and any(quantity(a) == "cm" for a in f.axes))], "%r: figures with other curves than the documented ones" % argv)


def fits(f, q, ws):
    axs = [a for a in f.axes if a.lines]
    if len(axs) != 1 or quantity(axs[0]) != q or len(axs[0].lines) != len(ws):
        return False
    left = curves(axs[0])
    for x, y in ws:
        k = [i for i, c in enumerate(left) if same(c[0], x, 1e-9) and same(c[1], y, 1e-9)]
        if not k:
            return False
        left.pop(k[0])
    return True


def named(rec, op, f, ws):
    """the legend does not swap the original with the new curve"""
    ax = [a for a in f.axes if a.lines][0]
    if op != "blend" and ax.legends:
        for h, l in ax.legends[-1]:
            if isinstance(h, Line) and l:
                old = l.lower() in ("orig", "2d", "original")
                if not old and l.lower() not in ("3d", "extrap", "extrapolated", "corrected"):
                    continue
                rec.true("legend", same(h.x, ws[0 if old else 1][0], 1e-9) and same(h.y, ws[0 if old else 1][1], 1e-9), "curve labelled %r is not that one" % l)
