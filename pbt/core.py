"""Sub-check registry, oracles' helpers and the hypothesis loop.

A property is decided by a list of sub-checks. A sub-check is
    strategy of JSON-able cases  +  function(case) -> tags
The function raises Violation when the oracle rejects what the code did and
otherwise returns the tags (list of str) of the non-trivial class(es) the case
belongs to, or None / [] when the case is trivial.
"""
import json
import math
import os
import random
import time
import traceback
import zlib

import numpy as np

SUBS = {}           # property -> list of Sub
KNOWN = {}          # property -> list of (key, probe)


class Violation(AssertionError):
    """The oracle rejects the behaviour of the code under test."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class Sub:
    def __init__(self, prop, name, strategy, quick, thorough, rule, fn,
                 budget):
        self.prop, self.name, self.strategy = prop, name, strategy
        self.quick, self.thorough, self.rule, self.fn = (
            quick, thorough, rule, fn)
        self.budget = budget


def sub(prop, name, strategy, quick=200, thorough=4000, rule="", budget=150):
    """Register a sub-check (budget: soft seconds cap in the quick tier)."""
    def deco(fn):
        SUBS.setdefault(prop, []).append(
            Sub(prop, name, strategy, quick, thorough, rule, fn, budget))
        return fn
    return deco


def known(prop, key, text):
    """Register a probe for a known finding: probe() -> True if it shows."""
    def deco(fn):
        KNOWN.setdefault(prop, []).append((key, text, fn))
        return fn
    return deco


# ------------------------------------------------------------------ oracles
def req(cond, msg="", *args):
    if not cond:
        raise Violation(msg % args if args else str(msg))


def as_list(x):
    return np.asarray(x).tolist()


def req_equal(got, want, what="value"):
    """Exact equality of arrays / scalars / strings (NaN equals NaN)."""
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s (got %s, expected %s)" % (
            what, g.shape, w.shape, short(g), short(w)))
    if g.dtype.kind in "fc" and w.dtype.kind in "fciub":
        ok = np.array_equal(g, w, equal_nan=True)
    elif w.dtype.kind in "fc" and g.dtype.kind in "iub":
        ok = np.array_equal(g, w)
    else:
        ok = bool(np.all(g == w))
    if not ok:
        raise Violation("%s: got %s, expected %s" % (what, short(g), short(w)))


def req_close(got, want, what="value", rtol=1e-9, atol=1e-9):
    try:
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
    except (TypeError, ValueError) as e:
        raise Violation("%s: not numeric (%s): %s" % (what, e, short(got)))
    if g.shape != w.shape:
        raise Violation("%s: shape %s, expected %s (got %s, expected %s)" % (
            what, g.shape, w.shape, short(g), short(w)))
    if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
        raise Violation("%s: got %s, expected %s" % (what, short(g), short(w)))


def short(a, n=400):
    s = repr(np.asarray(a).tolist()) if isinstance(a, np.ndarray) else repr(a)
    return s if len(s) <= n else s[:n] + "..."


def raises(excs, fn, *args, **kwargs):
    """True if fn raises one of excs (any other exception propagates)."""
    try:
        fn(*args, **kwargs)
    except excs:
        return True
    return False


def gtest_pvalue(counts, probs):
    """p-value of a G-test of counts against probs (zero probs excluded)."""
    from scipy.stats import chi2
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    keep = probs * n >= 5
    if n == 0:
        return 1.0
    c = np.append(counts[keep], counts[~keep].sum())
    p = np.append(probs[keep], probs[~keep].sum())
    if p[-1] * n < 5:
        if len(c) < 2:
            return 1.0
        j = int(np.argmax(p[:-1])) if len(p) > 1 else 0
        c[j] += c[-1]
        p[j] += p[-1]
        c, p = c[:-1], p[:-1]
    if len(c) < 2:
        return 1.0
    e = p / p.sum() * n
    stat = float(((c - e) ** 2 / e).sum())
    return float(chi2.sf(stat, len(c) - 1))


# Statistical oracles reject only below this p-value: with a fixed seed a run
# is deterministic, and over all the statistical cases of a campaign the
# chance that correct code is rejected stays below 1e-6.
P_REJECT = 1e-11


# --------------------------------------------------------------- the runner
def case_key(case):
    return json.dumps(case, sort_keys=True, default=repr)


def seed_everything(case):
    s = zlib.crc32(case_key(case).encode()) & 0x7FFFFFFF
    np.random.seed(s)
    random.seed(s)


def run_case(sub_, case):
    """Run one case. Any exception of the case is a Violation."""
    seed_everything(case)
    with np.errstate(all="ignore"):
        try:
            tags = sub_.fn(case)
        except (Violation, HarnessError, MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.format_exc(limit=-6)
            v = Violation("unexpected %s: %s\n%s" % (
                type(e).__name__, e, tb))
            v.__cause__ = None
            raise v from None
    if tags is None:
        return []
    if isinstance(tags, str):
        return [tags]
    return list(tags)


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.tags = {}
        self.samples = []


def explore(sub_, n_cases, seed, budget_s, shrink_s=45):
    """Hypothesis search; returns (stats, failing case or None, message)."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    stats = Stats()
    failing = []                   # (len, order, case, message)
    t0 = time.monotonic()
    t_fail = [None]

    def body(case):
        now = time.monotonic()
        if t_fail[0] is None and now - t0 > budget_s:
            stats.skipped += 1
            return
        if t_fail[0] is not None and now - t_fail[0] > shrink_s:
            return                 # stop shrinking: inconclusive from here on
        stats.evaluations += 1
        try:
            tags = run_case(sub_, case)
        except Violation as v:
            if t_fail[0] is None:
                t_fail[0] = now
            key = case_key(case)
            failing.append((len(key), len(failing), json.loads(key), str(v)))
            raise
        if t_fail[0] is None and tags:
            k = case_key(case)
            h = zlib.crc32(k.encode()) | (len(k) << 32)
            if h not in stats.nontrivial:
                stats.nontrivial.add(h)
                for t in tags:
                    stats.tags[t] = stats.tags.get(t, 0) + 1
                if len(stats.samples) < 3:
                    stats.samples.append({
                        "check": sub_.name, "tags": tags,
                        "case": json.loads(k) if len(k) < 1500 else k[:1500],
                    })

    test = hypothesis.seed(seed)(settings(
        max_examples=n_cases, deadline=None, database=None,
        derandomize=False, print_blob=False, report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink])(given(sub_.strategy)(body)))
    try:
        test()
    except Violation:
        pass
    except HarnessError:
        raise
    except Exception:
        if not failing:
            raise
    if failing:
        # the smallest failing case that fails again when run alone
        for _, _, case, msg in sorted(failing)[:20]:
            try:
                run_case(sub_, case)
            except Violation as v:
                return stats, case, str(v)
        f = failing[0]
        return stats, f[2], f[3] + "\n(not reproduced when run alone)"
    return stats, None, ""
