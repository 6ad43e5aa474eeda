"""Shared machinery of the checks that are not about the model equations: path exploration of a
piece of the real code on symbolic inputs, one SMT query per obligation, numeric replay."""
from __future__ import annotations

import contextlib
import multiprocessing as mp
import os
import shutil
import tempfile
import time
import traceback
from fractions import Fraction

from . import funcs, smt, values
from . import sym as S
from .replay import neg_margin
from .report import Enough, Report
from .sym import const


def exc_text(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    last = [f for f in tb if "/repo/" in f.filename]
    where = f" at {os.path.basename(last[-1].filename)}:{last[-1].name}" if last else ""
    return f"{type(exc).__name__}: {' '.join(str(exc).split())[:160]}{where}"


class Harness:
    def __init__(self, prop, tier, explanation):
        self.rep = Report(prop, tier)
        self.prop, self.tier = prop, tier
        self.thorough = tier == "thorough"
        self.rep.cov["explanation"] = explanation
        self.fset = set()
        self.paths = 0
        for k in smt.STATS:
            smt.STATS[k] = 0
        self.failed_keys = set()
        self.unreproduced = {}

    # ------------------------------------------------------------------ exploring the code
    def explore(self, fn, assumptions=(), max_paths=20000, label="", seconds=None, limit_ok=False):
        """All feasible paths of fn; [(result, exception, path condition, choices)].  With limit_ok,
        None when there are more paths than max_paths (the caller has another way to decide)."""
        ex = S.Explorer(list(assumptions), max_paths=max_paths)
        out, t0 = [], time.time()
        seconds = seconds or (20 if self.rep.new() else 1000 if self.thorough else 150)
        with funcs.traced(self.fset):
            try:
                for path in ex.run(fn):
                    out.append(path)
                    self.rep.enough(90)
                    if time.time() - t0 > seconds:
                        raise S.TooManyPaths(f"exploration stopped after {seconds} s and {len(out)} paths")
            except S.TooManyPaths as e:
                if limit_ok:
                    return None
                self.rep.undecided(f"{label}: {e}")
                return out if self.rep.new() else []
        self.paths += ex.paths
        for _, exc, _, _ in out:
            if isinstance(exc, (AttributeError, NameError, KeyError, IndexError, AssertionError)):
                last = traceback.extract_tb(exc.__traceback__)[-1]
                if os.path.dirname(last.filename) == os.path.dirname(os.path.abspath(__file__)) and os.path.basename(last.filename) in ("sym.py", "smt.py", "values.py"):
                    self.rep.undecided(f"{label}: internal error of the check: {exc_text(exc)} ({os.path.basename(last.filename)}:{last.lineno})")
        return out

    @contextlib.contextmanager
    def tracing(self):
        with funcs.traced(self.fset):
            yield

    # ------------------------------------------------------------------ several processes
    def parallel(self, items, fn, workers=8):
        """fn(item) for every item, in forked processes; their obligations, violations and
        undecided items are merged into this check's."""
        items = list(items)
        ctx = mp.get_context("fork")
        nxt, stop = ctx.Value("i", 0), ctx.Event()
        self.rep.stop = stop
        procs = []
        for _ in range(min(workers, len(items))):
            r, w = ctx.Pipe(duplex=False)
            pr = ctx.Process(target=self._work, args=(items, fn, nxt, w))
            pr.start()
            w.close()
            procs.append((pr, r))
        enough = False
        for pr, r in procs:
            try:
                out = r.recv()
            except EOFError:
                out = None
            pr.join()
            if out is None:
                self.rep.undecided(f"a worker process ended early (exit code {pr.exitcode})")
                continue
            for v in out["violations"]:
                self.rep.violation(*v)
                self.failed_keys.add(v[0])
            for u in out["undecided"]:
                self.rep.undecided(u)
            for k in ("obligations", "discharged", "vacuity_witnesses"):
                self.rep.cov[k] += out[k]
            self.rep.cov["samples"] = (self.rep.cov["samples"] + out["samples"])[:6]
            for k, v in out["stats"].items():
                smt.STATS[k] = smt.STATS.get(k, 0) + v
            self.fset |= out["fset"]
            self.paths += out["paths"]
            enough |= out["enough"]
        self.rep.stop = None
        if enough:
            raise Enough

    def _work(self, items, fn, nxt, w):
        rep = self.rep
        rep.violations, rep.inconclusive = [], []
        for k in ("obligations", "discharged", "vacuity_witnesses"):
            rep.cov[k] = 0
        rep.cov["samples"] = []
        for k in smt.STATS:
            smt.STATS[k] = 0
        self.fset, self.paths, enough = set(), 0, False
        try:
            while True:
                with nxt.get_lock():
                    i = nxt.value
                    nxt.value += 1
                if i >= len(items):
                    break
                fn(items[i])
        except Enough:
            enough = True
        except Exception as e:  # noqa: BLE001
            traceback.print_exc()
            rep.undecided(f"the check stopped: {exc_text(e)}")
        out = {"violations": rep.violations, "undecided": rep.inconclusive, "samples": rep.cov["samples"], "stats": dict(smt.STATS), "fset": self.fset, "paths": self.paths, "enough": enough}
        out.update({k: rep.cov[k] for k in ("obligations", "discharged", "vacuity_witnesses")})
        w.send(out)
        w.close()
        os._exit(0)

    # ------------------------------------------------------------------ deciding
    def holds(self, key, text, ok, replay=None):
        """An obligation whose condition is already concrete on this path (the path condition was
        decided by the solver)."""
        self.rep.cov["obligations"] += 1
        if isinstance(ok, S.SymBool):
            if smt.prove([], ok).status != "unsat":
                self.rep.undecided(f"{text}: depends on symbolic values outside a path")
                return False
            ok = True
        if ok:
            self.rep.cov["discharged"] += 1
        else:
            self.fail(key, text, replay)
        return ok

    def fail(self, key, text, replay=None):
        self.failed_keys.add(key)
        self.rep.violation(key, text, replay if isinstance(replay, dict) else {})

    def prove(self, key, text, assume, goal, replay=None, timeout=5000, points=(), nominal=None):
        """goal for all values satisfying assume.  replay(env) runs the real code on numbers and
        returns a description when it breaks the property there, None when it does not."""
        rep = self.rep
        rep.cov["obligations"] += 1
        if key in self.failed_keys:
            rep.cov["same_finding_again"] = rep.cov.get("same_finding_again", 0) + 1
            return False
        rep.enough(90)
        assume = [S._lb(a) for a in assume]
        goal = S._lb(goal)
        r = smt.prove(assume, goal, timeout=timeout)
        if r.status == "unsat":
            rep.cov["discharged"] += 1
            if len(rep.cov["samples"]) < 6:
                rep.cov["samples"].append(f"{text}: unsat in {r.time:.3f}s")
            if self.thorough and rep.cov.get("_cross", 0) < 40:
                rep.cov["_cross"] = rep.cov.get("_cross", 0) + 1
                c = smt.cvc5_check(assume + [S.not_(goal)])
                if c == "sat":
                    rep.undecided(f"{text}: cvc5 disagrees")
            return True
        if self.unreproduced.get(key, 0) >= 6:  # the outcome is "no answer" anyway
            rep.undecided(f"{text}: {r.status} ({r.reason})")
            return False
        names = sorted(S.variables(goal) | set().union(*[S.variables(a) for a in assume]) if assume else S.variables(goal))
        tried = []

        def attempt(env):
            e = {n: env.get(n, Fraction(1)) for n in names}
            if e in tried:
                return False
            tried.append(e)
            if replay is None:
                self.fail(key, f"{text}; counterexample {fmt(e)}", {"values": {k: str(v) for k, v in e.items()}})
                return True
            try:
                what = replay(e)
            except Exception as exc:  # noqa: BLE001
                what = None
                tried.append(exc_text(exc))
            if what:
                self.fail(key, f"{text}: {what} [{fmt(e)}]", {"values": {k: str(v) for k, v in e.items()}, "what": what})
                return True
            return False

        # first a counterexample at the usual values of the inputs
        usual = {n: Fraction(str(nominal[n])) for n in names if n in nominal and nominal[n] == nominal[n]} if nominal else {}
        if usual:
            sub = {n: S.const(v) for n, v in usual.items()}
            try:
                fixed = [S._lb(S.substitute(a, sub)) for a in assume]
                g = S._lb(S.substitute(goal, sub))
            except ZeroDivisionError:  # a setting of zero
                fixed = [S.bconst(False)]
            for m in (Fraction(1, 10), Fraction(1, 1000), None):
                q = smt.check(fixed + [S.not_(g) if m is None else neg_margin(g, const(m))], timeout=timeout)
                if q.status == "sat" and q.model is not None and attempt({**q.model, **usual}):
                    return False
        for m, box in ((Fraction(1, 10), 100), (Fraction(1, 1000), 1000), (Fraction(1, 1000), None), (Fraction(1, 10**7), None), (None, None)):
            ng = S.not_(goal) if m is None else neg_margin(goal, const(m))
            bx = [] if box is None else [S.and_(S.le(const(-box), S.var(v)), S.le(S.var(v), const(box))) for v in names]
            q = smt.check(assume + [ng] + bx, timeout=timeout)
            if q.status == "sat" and q.model is not None and attempt(q.model):
                return False
        # a value the code rounds is free within the rounding: numbers that are not round
        for d in (Fraction(4649, 10000), Fraction(78641, 100000)):
            odd = [S.eq(S.sub(S.var(v), S.fn("floor", S.var(v))), const(d + Fraction(n, 977))) for n, v in enumerate(names[:40]) if not v.startswith("written ")]
            q = smt.check(assume + [S.not_(goal)] + odd, timeout=timeout)
            if q.status == "sat" and q.model is not None and attempt(q.model):
                return False
        for env in points:
            if attempt(env):
                return False
        self.unreproduced[key] = self.unreproduced.get(key, 0) + 1
        rep.undecided(f"{text}: {r.status} ({r.reason}); tried {len(tried)} points without reproducing it {tried[-1] if tried and isinstance(tried[-1], str) else ''}")
        return False

    def no_answer(self, key, text, exc, replay=None, points=()):
        """The code needs a plain number where the check has a symbol: try the given points on the
        real code; a violation found there is real, otherwise nothing is claimed."""
        if key in self.failed_keys:
            return
        for env in points:
            try:
                what = replay(env)
            except Exception as e:  # noqa: BLE001
                what = None
                text += f" ({exc_text(e)})"
            if what:
                self.fail(key, f"{text}: {what}", {"values": {k: str(v) for k, v in env.items()}, "what": what})
                return
        self.rep.undecided(f"{text}: {exc_text(exc)}")

    def prove_texts(self, cases, timeout=10000):
        """cases: [(key, text, got, want)]: both texts, with the markers of values.MARKERS standing for
        arbitrary texts, are equal whatever those texts are.  One query over the string theory."""
        self.rep.cov["obligations"] += len(cases)
        todo = list(cases)
        while todo:
            r, i, env = smt.texts_equal([(values.text_parts(g), values.text_parts(w)) for _, _, g, w in todo], timeout)
            if r == "unsat":
                self.rep.cov["discharged"] += len(todo)
                if len(self.rep.cov["samples"]) < 6:
                    self.rep.cov["samples"].append(f"{todo[0][1]}: {len(todo)} texts equal, unsat")
                return
            if r != "sat":
                self.rep.undecided(f"{todo[0][1]}: {r} (string query)")
                return
            key, text, got, want = todo.pop(i)
            self.fail(key, f"{text}: gives {got!r} instead of {want!r}", {"values": env})

    def witness(self, assume, text="", timeout=5000):
        """The assumptions of a group of obligations must be satisfiable."""
        r = smt.satisfiable(list(assume), timeout=timeout)
        if r == "unsat":
            self.rep.undecided(f"{text}: assumptions are contradictory")
        else:
            self.rep.cov["vacuity_witnesses"] += 1

    def done(self, bounds, outside, assumptions):
        rep = self.rep
        rep.cov.pop("_cross", None)
        rep.add_stats(smt.STATS)
        rep.cov["paths"] = self.paths
        rep.cov["functions_encoded"] = sorted(self.fset)
        rep.cov["bounds"] = list(bounds)
        rep.cov["outside_bounds"] = list(outside)
        rep.assumptions = list(assumptions) + ["trusted: z3, CPython, the symbolic number type of vf/sym.py (counterexamples are replayed on the real code with plain numbers)"]
        if not rep.cov["obligations"]:
            rep.undecided("no obligation was produced")
        return rep


def fmt(e):
    return ", ".join(f"{k}={float(v):.9g}" for k, v in list(e.items())[:12])


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(pairs):
    """Temporarily set attributes: [(obj, name, value)]."""
    saved = []
    try:
        for obj, name, val in pairs:
            saved.append((obj, name, getattr(obj, name, None), name in vars(obj)))
            setattr(obj, name, val)
        yield
    finally:
        for obj, name, val, own in reversed(saved):
            if own:
                setattr(obj, name, val)
            else:
                delattr(obj, name)
