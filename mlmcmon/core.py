"""
Core of the monitoring framework: scenarios, the per-case monitor (ctx) and its counters.

A *scenario* is a function (ctx, rng) that drives the real mlmc code with a workload generated from
rng and reports to ctx what it observed; the oracles are ctx.check*/ctx.close calls. It is executed many
times, every execution (a *case*) with its own generator seeded from (VERIF_SEED, property, scenario, index).
"""
import os
import hashlib
import json
import shutil
import tempfile
import traceback
from collections import Counter

import numpy as np


class Violation(Exception):
    """An oracle refuted the property. key names the mechanism (stable, no random values)."""

    def __init__(self, key, detail):
        super().__init__("{}: {}".format(key, detail))
        self.key = key
        self.detail = detail


SCENARIOS = {}


def scenario(prop, quick, thorough, timeout=60, confirm=False):
    """
    Register scenario of a property
    :param quick, thorough: number of cases of the tiers
    :param timeout: generous watchdog of one case in seconds
    :param confirm: the oracle depends on wall clock times; a violation has to be observed again in a repeated case
    """
    def deco(fn):
        SCENARIOS.setdefault(prop, []).append(
            dict(name=fn.__name__, fn=fn, quick=quick, thorough=thorough, timeout=timeout, confirm=confirm))
        return fn
    return deco


def case_seed(seed, prop, name, index):
    digest = hashlib.sha256("{}|{}|{}|{}".format(seed, prop, name, index).encode()).digest()
    return int.from_bytes(digest[:8], "little")


class Ctx:
    """Monitor of one case: counts the observed events, records distinct non-trivial states, holds the scratch dir."""

    def __init__(self, prop, name, index):
        self.prop = prop
        self.name = name
        self.index = index
        self.n_checks = 0
        self.events = Counter()
        self.states = set()
        self.note_lines = []
        self._scratch = None

    # --- evidence
    def event(self, name, n=1):
        self.events[name] += int(n)

    def state(self, *sig):
        """Record the signature of a distinct non-trivial configuration/state/interleaving that was reached."""
        self.states.add(hashlib.sha1(repr((self.name,) + sig).encode()).hexdigest()[:16])

    def note(self, text):
        if len(self.note_lines) < 5:
            self.note_lines.append(str(text)[:600])

    # --- oracles
    def check(self, cond, key, detail=""):
        self.n_checks += 1
        if not cond:
            raise Violation(key, detail() if callable(detail) else detail)

    def equal(self, a, b, key, detail=""):
        self.n_checks += 1
        if not (a == b):
            raise Violation(key, "{} observed: {!r} expected: {!r}".format(detail, _short(a), _short(b)))

    def same(self, a, b, key, detail=""):
        """Bitwise equal arrays (NaN equals NaN)"""
        self.n_checks += 1
        a, b = np.asarray(a), np.asarray(b)
        ok = a.shape == b.shape
        if ok:
            if a.dtype.kind in "fc" or b.dtype.kind in "fc":
                ok = bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))
            else:
                ok = bool(np.all(a == b))
        if not ok:
            raise Violation(key, "{} observed (shape {}): {} expected (shape {}): {}".format(
                detail, a.shape, _short(a), b.shape, _short(b)))

    def close(self, a, b, key, detail="", rtol=1e-9, atol=1e-12):
        self.n_checks += 1
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        ok = a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
        if not ok:
            diff = np.nanmax(np.abs(a - b)) if a.shape == b.shape and a.size else None
            raise Violation(key, "{} max difference {} observed (shape {}): {} expected (shape {}): {}".format(
                detail, diff, a.shape, _short(a), b.shape, _short(b)))

    def raises(self, fn, key, detail=""):
        self.n_checks += 1
        try:
            value = fn()
        except Exception as e:
            return e
        raise Violation(key, "{} no error, returned {}".format(detail, _short(value)))

    # --- scratch
    @property
    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="mlmcmon_")
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def _short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:350] + " ... " + s[-350:]


def run_case(prop, name, index, seed):
    """Execute one case, return a JSON-able record."""
    sc = next(s for s in SCENARIOS[prop] if s["name"] == name)
    ctx = Ctx(prop, name, index)
    rng = np.random.default_rng(case_seed(seed, prop, name, index))
    cwd = os.getcwd()
    record = dict(scenario=name, index=index, violation=None)
    # The code under test uses the global generators as well; make the case reproducible
    np.random.seed(int(rng.integers(2 ** 32)))
    try:
        import mlmc.quantity.quantity as _q
        if hasattr(_q, "RNG"):
            _q.RNG = np.random.default_rng(int(rng.integers(2 ** 32)))
    except Exception:
        pass
    try:
        sc["fn"](ctx, rng)
    except Violation as v:
        record["violation"] = dict(key=v.key, detail=str(v.detail)[:3000])
    except Exception as e:
        # The workloads are valid, so nothing may be raised
        record["violation"] = dict(key="exception:" + _origin(e), detail=traceback.format_exc()[-3000:])
    finally:
        os.chdir(cwd)
        ctx.cleanup()
    record.update(checks=ctx.n_checks, events=dict(ctx.events), states=sorted(ctx.states), notes=ctx.note_lines)
    return record


def _origin(e):
    """Exception type and innermost function of mlmc on the traceback"""
    where = "harness"
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code
        if "/repo/mlmc/" in f.co_filename or f.co_filename.startswith("mlmc/"):
            where = f.co_name
        tb = tb.tb_next
    return "{}@{}".format(type(e).__name__, where)
