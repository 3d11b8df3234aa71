"""Runner: generates cases, runs them under the monitors in worker processes, aggregates what the monitors observed,
writes evidence and replay files, and turns it all into the verdict."""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("CCV_EVIDENCE") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
HANG = {"quick": 300, "thorough": 1800}
WATCHDOG = {"quick": 800, "thorough": 6 * 3600}


def jsonable(x):
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, float) and not np.isfinite(x):
        return repr(x)
    return x


class Rec:
    """what the monitors saw in one case"""

    def __init__(self):
        self.violations = []
        self.counts = collections.Counter()
        self.states = set()
        self.maxima = {}
        self.nontrivial = False
        self.sample = None

    def bad(self, mech, msg, **data):
        if len(self.violations) < 40:
            self.violations.append(dict(mech=mech, msg=msg, data=jsonable(data)))

    def ok(self, name, n=1):
        self.counts[name] += int(n)

    def seen(self, *key):
        self.states.add("|".join(str(k) for k in key))

    def worst(self, name, val):
        val = float(val)
        if not val <= self.maxima.get(name, float("-inf")):
            self.maxima[name] = val

    # ---- oracles ----
    def close(self, mech, what, got, want, rtol, atol=0.0, scale=None, **data):
        """|got - want| <= atol + rtol * scale (elementwise, scale defaults to max(|want|))"""
        import numpy as np

        got = np.asarray(got, float)
        want = np.asarray(want, float)
        self.ok(mech)
        if got.shape != want.shape:
            try:
                np.broadcast_shapes(got.shape, want.shape)
                same = got.size == want.size
            except ValueError:
                same = False
            if not same:
                self.bad(mech, "%s: shape %s instead of %s" % (what, got.shape, want.shape), **data)
                return False
            got = got.reshape(want.shape)
        if scale is None:
            fin = np.abs(want[np.isfinite(want)]) if want.size else np.zeros(1)
            scale = float(fin.max()) if fin.size else 0.0
        tol = atol + rtol * np.abs(scale)
        d = np.abs(got - want)
        okm = (d <= tol) | ((~np.isfinite(want)) & ((got == want) | (np.isnan(got) & np.isnan(want))))
        if got.size:
            with np.errstate(all="ignore"):
                rel = d / np.where(np.asarray(scale) != 0, np.abs(scale), 1.0)
            rel = rel[np.isfinite(rel)]
            if rel.size:
                self.worst("err:" + mech, rel.max())
        if not np.all(okm):
            i = int(np.argmax(np.where(okm, -1, np.where(np.isnan(d), np.inf, d)).ravel()))
            t = np.broadcast_to(tol, d.shape).ravel()[i]
            self.bad(
                mech,
                "%s: got %r, expected %r (|diff| %.3g > %.3g), element %d of shape %s"
                % (what, float(got.ravel()[i]), float(want.ravel()[i]), float(d.ravel()[i]), float(t), i, want.shape),
                **data,
            )
            return False
        return True

    def same(self, mech, what, got, want, **data):
        """bitwise equality of arrays / dicts of arrays (NaN equals NaN)"""
        import numpy as np

        self.ok(mech)
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
            with np.errstate(all="ignore"):
                dd = float(np.nanmax(np.abs(g - w))) if g.shape == w.shape and g.size else None
            self.bad(mech, "%s: values differ (max diff %s)" % (what, dd), **data)
            return False
        return True

    def true(self, mech, cond, msg, **data):
        self.ok(mech)
        if not bool(cond):
            self.bad(mech, msg, **data)
            return False
        return True


class Stop(Exception):
    """raised by a case that is outside the property's domain; counted as skipped"""


def case_rng(pid, seed, idx, tier):
    import numpy as np

    return np.random.default_rng([int(seed) & 0x7FFFFFFF, zlib.crc32(pid.encode()), int(idx), 0 if tier == "quick" else 1])


def load(pid):
    return importlib.import_module("props." + pid.lower())


def run_spec(mod, spec):
    rec = Rec()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            mod.check(spec, rec)
        except Stop:
            rec.ok("skipped")
            rec.nontrivial = False
        except Exception as e:
            if isinstance(e, ValueError) and "maximal number of iterations maxit" in str(e) and not getattr(mod, "SPLINE", False):
                # FITPACK gives up on one random data set in 1e4; P15 asks it directly whether it really does
                rec.ok("skipped: spline refused by FITPACK")
                rec.nontrivial = False
                return rec
            # a crash on a valid input breaks the property
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if os.sep + "ccblade" + os.sep in f.filename]
            loc = where[-1] if where else tb[-1]
            rec.bad(
                "exception:%s" % type(e).__name__,
                "%s: %s (in %s, %s)" % (type(e).__name__, e, os.path.basename(loc.filename), loc.name),
                tb=[("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)) for f in tb][-8:],
            )
    return rec


_MOD = None


def _work(args):
    pid, seed, idx, tier = args
    spec = None
    try:
        spec = _MOD.gen(case_rng(pid, seed, idx, tier), idx, tier)
    except Exception:
        return idx, None, None, traceback.format_exc()
    rec = run_spec(_MOD, spec)
    spec = jsonable(spec)
    h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
    small = None
    if rec.violations or idx < 3:
        small = spec
    return idx, small, (rec.violations, dict(rec.counts), sorted(rec.states), rec.maxima, rec.nontrivial, rec.sample, h), None


def _serve(conn):
    try:
        while True:
            task = conn.recv()
            if task is None:
                break
            conn.send(_work(task))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    os._exit(0)


def _lost(task, what):
    """a case whose process died or did not come back"""
    pid, seed, idx, tier = task
    rec = Rec()
    rec.bad(what[0], what[1])
    spec = jsonable(_MOD.gen(case_rng(pid, seed, idx, tier), idx, tier))
    return idx, spec, (rec.violations, {}, [], {}, False, None, ""), None


def pooled(tasks, jobs, limit):
    """like imap_unordered, but a worker that dies (native crash) or hangs is itself an observation"""
    from multiprocessing.connection import wait

    ctx = mp.get_context("fork")
    todo = iter(tasks)
    live = {}
    lost = 0

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(b,), daemon=False)
        p.start()
        b.close()
        return [a, p, None, 0.0]

    def feed(w):
        w[2] = next(todo, None) if lost < 6 else None
        w[3] = time.time()
        try:
            w[0].send(w[2])
        except (BrokenPipeError, OSError):
            pass  # noticed below
        if w[2] is not None:
            live[w[0]] = w
        else:
            live.pop(w[0], None)
            w[1].join(30)
            w[0].close()

    for w in [start() for _ in range(jobs)]:
        feed(w)
    while live:
        for c in wait(list(live), timeout=5):
            w = live[c]
            try:
                out = c.recv()
            except (EOFError, OSError):
                w[1].join(30)
                lost += 1
                live.pop(c)
                c.close()
                yield _lost(w[2], ("crash", "the process running this case died (exit code %s)" % w[1].exitcode))
                feed(start())
                continue
            feed(w)
            yield out
        for c, w in list(live.items()):
            if time.time() - w[3] > limit and not c.poll():
                w[1].kill()
                w[1].join(30)
                lost += 1
                live.pop(c)
                c.close()
                yield _lost(w[2], ("hang", "this case did not finish within %d s" % limit))
                feed(start())


def known_findings(pid):
    """lines 'KNOWN-FINDING: property=P12 mech=<regex> <what fails>'"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) mech=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2) + r"\Z"), m.group(3).strip(), m.group(2)))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int, help="run one case index, in this process")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("CCV_JOBS", "0")) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    pid = a.property.upper()
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)

    def onalarm(*_):
        print("INCONCLUSIVE property=%s watchdog fired after %ds" % (pid, WATCHDOG[tier]), flush=True)
        os.killpg(0, signal.SIGKILL) if os.getpgrp() == os.getpid() else os._exit(3)

    try:
        os.setpgrp()
    except OSError:
        pass
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(WATCHDOG[tier])

    from . import stage

    try:
        d = stage.use("opt")
    except stage.BuildError as e:
        print("ERROR property=%s the native extension does not build:\n%s" % (pid, e))
        return 2
    try:
        return _main(a, tier, pid, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _main(a, tier, pid, t0):
    global _MOD
    mod = _MOD = load(pid)
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    try:
        return _main2(a, tier, pid, t0, mod)
    finally:
        if hasattr(mod, "cleanup"):
            mod.cleanup()


def _main2(a, tier, pid, t0, mod):
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        rec = run_spec(mod, rp["spec"])
        for v in rec.violations:
            print("  [%s] %s" % (v["mech"], v["msg"]))
        known = known_findings(pid)
        new = [v for v in rec.violations if not any(k[0].match(v["mech"]) for k in known)]
        if new:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("replay: no violation" if not rec.violations else "replay: known finding only")
        return 0

    if a.only is not None:
        spec = mod.gen(case_rng(pid, a.seed, a.only, tier), a.only, tier)
        rec = run_spec(mod, spec)
        print(json.dumps(jsonable(spec))[:3000])
        print(dict(rec.counts), rec.maxima)
        for v in rec.violations:
            print("  [%s] %s %s" % (v["mech"], v["msg"], v["data"]))
        return 1 if rec.violations else 0

    n = a.cases or (mod.QUICK if tier == "quick" else mod.THOROUGH)
    jobs = max(1, min(a.jobs, getattr(mod, "JOBS", 99)))
    counts = collections.Counter()
    states = set()
    maxima = {}
    hashes = set()
    viols = []
    samples = []
    errors = []
    done = 0
    tasks = [(pid, a.seed, i, tier) for i in range(n)]
    if jobs == 1:
        it = map(_work, tasks)
    else:
        it = pooled(tasks, jobs, HANG[tier])
    for idx, small, out, err in it:
        done += 1
        if err:
            errors.append((idx, err))
            continue
        v, c, s, mx, nontriv, sample, h = out
        counts.update(c)
        states.update(s)
        for k, val in mx.items():
            if not val <= maxima.get(k, float("-inf")):
                maxima[k] = val
        if nontriv:
            hashes.add(h)
        for x in v:
            viols.append((idx, small, x))
        if idx < 3:
            samples.append((idx, dict(case=small, observed=sample)))
    if hasattr(mod, "finish"):
        fr = Rec()
        try:
            mod.finish(fr, tier, a.seed)
        except Exception:
            errors.append(("finish", traceback.format_exc()))
        counts.update(fr.counts)
        states.update(fr.states)
        for k, val in fr.maxima.items():
            if not val <= maxima.get(k, float("-inf")):
                maxima[k] = val
        for x in fr.violations:
            viols.append(("finish", None, x))

    viols.sort(key=lambda t: (str(type(t[0])), t[0]))
    known = known_findings(pid)
    kf = collections.Counter()
    new = []
    for idx, spec, x in viols:
        hit = [k for k in known if k[0].match(x["mech"])]
        if hit:
            kf[hit[0][2]] += 1
        else:
            new.append((idx, spec, x))

    # what must have been observed for the run to count at all
    inconclusive = []
    for k, m in mod.MINIMA.items():
        need = m if tier == "quick" or not isinstance(m, int) else m
        if a.cases:
            need = min(need, 1)
        got = counts.get(k, 0) if k != "states" else len(states)
        if got < need:
            inconclusive.append("%s observed %d times, at least %d needed" % (k, got, need))

    samples = [s for _, s in sorted(samples, key=lambda t: t[0])] or [{"note": "no case"}]
    ev = dict(
        property=pid,
        tier=tier,
        seed=a.seed,
        level="exploration",
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(hashes),
            rule=mod.RULE,
            samples=samples[:2],
            monitor_decisions={k: int(counts[k]) for k in sorted(counts)},
            distinct_states=len(states),
            states_sample=sorted(states)[:40],
            largest_deviation={k: maxima[k] for k in sorted(maxima)},
            known_findings_observed={k: int(v) for k, v in kf.items()},
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1, allow_nan=False)
        f.write("\n")

    for rx, what, key in known:
        print("KNOWN-FINDING: property=%s mech=%s %s (observed %d times in this run)" % (pid, key, what, kf.get(key, 0)))
    print(
        "%s %s seed=%d: %d cases, %d distinct non-trivial, %d monitor decisions, %d distinct states, %.1fs"
        % (pid, tier, a.seed, done, len(hashes), sum(counts.values()), len(states), time.time() - t0)
    )
    if os.environ.get("CCV_VERBOSE"):
        for k in sorted(counts):
            print("   count", k, counts[k])
        for k in sorted(maxima):
            print("   max", k, maxima[k])
    if new:
        shown = collections.Counter()
        k = 0
        for idx, spec, x in new:
            shown[x["mech"]] += 1
            if shown[x["mech"]] > 2 or k >= 12:
                continue
            path = os.path.join(EVID, "replay-%s-%d-%d.json" % (pid, a.seed, k))
            with open(path, "w") as f:
                json.dump(jsonable(dict(property=pid, seed=a.seed, tier=tier, index=idx, spec=spec, violation=x)), f, indent=1)
            print("  case %s [%s] %s" % (idx, x["mech"], x["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, VERIF)))
            k += 1
        print("   all mechanisms: %s" % dict(collections.Counter(x["mech"] for _, _, x in new)))
        return 1
    if errors:
        print("ERROR property=%s %d cases failed in the harness itself; first: case %s\n%s" % (pid, len(errors), errors[0][0], errors[0][1]))
        return 2
    if inconclusive:
        print("INCONCLUSIVE property=%s: %s" % (pid, "; ".join(inconclusive)))
        return 2
    print("HELD property=%s on everything observed in this run" % pid)
    return 0
