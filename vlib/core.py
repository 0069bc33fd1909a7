"""Monitoring core: units, observations, three-valued verdicts.

A *check* module (``checks/cXX_*.py``) declares ``PROP``, ``RULE`` and a list of
units registered through :func:`unit`.  A unit drives the real bijx code and
hands everything it observed to a :class:`Ctx`, whose oracle methods compare the
observation with an independent reference and record a violation when the two
disagree.  Nothing in here imports jax: workers do that after the fork.
"""

from __future__ import annotations

import hashlib
import json
import traceback

import numpy as np

UNITS: dict[str, list] = {}


class Inconclusive(Exception):
    """The monitor could not observe what it needs in order to decide."""


def unit(prop, name=None, cost=1.0):
    def deco(fn):
        UNITS.setdefault(prop, []).append((name or fn.__name__, fn, cost))
        return fn

    return deco


def _fp(obj):
    return hashlib.sha1(repr(obj).encode()).hexdigest()[:16]


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in o]
    try:
        a = np.asarray(o)
        if a.dtype == object:
            return repr(o)[:400]
        if a.size > 64:
            return {
                "shape": list(a.shape),
                "head": jsonable(a.ravel()[:16].tolist(), depth + 1),
            }
        if np.iscomplexobj(a):
            return repr(a.tolist())
        return a.tolist()
    except Exception:
        return repr(o)[:400]


class Ctx:
    """Observation log and oracle of one unit run."""

    MAX_PER_KEY = 3
    MAX_SAMPLES = 3

    def __init__(self, prop, unit_name, seed, tier):
        self.prop, self.unit, self.seed, self.tier = prop, unit_name, seed, tier
        h = int(hashlib.sha256(f"{prop}/{unit_name}/{seed}".encode()).hexdigest(), 16)
        self.rng = np.random.default_rng(h % (2**63))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self._perkey = {}
        self._case = None
        self.counters = {}

    # ---- workload size ------------------------------------------------
    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def key(self):
        import jax

        return jax.random.key(int(self.rng.integers(2**31)))

    # ---- observations -------------------------------------------------
    def case(self, desc, count=1, nontrivial=True, sig=None):
        """Announce the case being observed (``desc`` must describe it fully)."""
        self._case = desc
        self.evaluations += int(count)
        if nontrivial:
            self.distinct.add(_fp((self.unit, sig if sig is not None else desc)))
        if len(self.samples) < self.MAX_SAMPLES:
            self.samples.append(jsonable({"unit": self.unit, "case": desc}))

    def saw(self, what, k=1):
        self.counters[what] = self.counters.get(what, 0) + int(k)

    # ---- verdicts -----------------------------------------------------
    def violate(self, key, **detail):
        c = self._perkey.get(key, 0)
        self._perkey[key] = c + 1
        if c < self.MAX_PER_KEY:
            self.violations.append(
                {
                    "key": key,
                    "unit": self.unit,
                    "seed": self.seed,
                    "tier": self.tier,
                    "case": jsonable(self._case),
                    "detail": jsonable(detail),
                }
            )

    def ok(self, cond, key, **detail):
        """Oracle on a boolean observation."""
        if not bool(cond):
            self.violate(key, **detail)
            return False
        return True

    def close(self, got, want, key, atol=1e-9, rtol=1e-9, scale=None, **detail):
        """Oracle: observed array equals the reference within a bound.

        ``scale`` (broadcastable) adds a per-element allowed absolute error.
        """
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violate(
                key, why="shape", got_shape=got.shape, want_shape=want.shape, **detail
            )
            return False
        with np.errstate(all="ignore"):
            tol = atol + rtol * np.abs(want)
            if scale is not None:
                tol = tol + scale
            diff = np.abs(got - want)
            bad = ~(diff <= tol) & ~(got == want)
        bad &= ~(np.isnan(got) & np.isnan(want))
        if np.any(bad):
            flat = np.flatnonzero(bad)
            i = flat[np.nanargmax(np.where(np.isnan(diff.ravel()[flat]), np.inf, diff.ravel()[flat]))] if flat.size else 0
            self.violate(
                key,
                why="value",
                n_bad=int(bad.sum()),
                n=int(bad.size),
                got=got.ravel()[i],
                want=want.ravel()[i],
                tol=np.broadcast_to(tol, diff.shape).ravel()[i] if np.ndim(tol) else tol,
                index=[int(v) for v in np.unravel_index(i, got.shape)],
                **detail,
            )
            return False
        return True

    def call(self, key, fn, *a, **k):
        """Run repository code on a valid input: raising is itself a violation.

        An exception whose traceback never enters /repo/src is the harness's
        problem (inconclusive), one that does is the repository's.
        Returns (ok, value).
        """
        try:
            return True, fn(*a, **k)
        except Inconclusive:
            raise
        except Exception as e:
            # a TypeError without further frames: the callee rejected the arguments
            unbound = isinstance(e, TypeError) and e.__traceback__.tb_next is None
            if in_repo(e) or unbound:
                self.violate(
                    key + ":raised",
                    error=f"{type(e).__name__}: {e}"[:600],
                    where=repo_frames(e),
                )
                return False, None
            raise

    def result(self):
        return {
            "unit": self.unit,
            "evaluations": self.evaluations,
            "distinct": sorted(self.distinct),
            "samples": self.samples,
            "violations": self.violations,
            "violation_counts": self._perkey,
            "counters": self.counters,
        }


# wrong shape, length, type or range of an observed value; never raised on conforming outputs
UNUSABLE = (ValueError, TypeError, LookupError, ArithmeticError)


def repo_frames(e):
    out = []
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        for f in traceback.extract_tb(x.__traceback__):
            if "/repo/src/" in f.filename:
                out.append(f"{f.filename.split('/repo/')[-1]}:{f.name}")
        stack += [x.__cause__, x.__context__]
    return out[-6:]


def in_repo(e):
    return bool(repo_frames(e))


def run_unit(prop, name, fn, seed, tier):
    """Run one unit; returns a JSON-able result (with 'error' if inconclusive)."""
    ctx = Ctx(prop, name, seed, tier)
    try:
        fn(ctx)
    except Inconclusive as e:
        r = ctx.result()
        r["error"] = f"inconclusive: {e}"
        return r
    except Exception as e:
        if in_repo(e):
            ctx.violate(
                f"{name}:raised",
                error=f"{type(e).__name__}: {e}"[:600],
                where=repo_frames(e),
                tb=traceback.format_exc()[-1500:],
            )
        elif isinstance(e, UNUSABLE) and ctx.evaluations:
            # an oracle could not digest what the observed call handed out
            ctx.violate(
                f"{name}:unusable-output",
                error=f"{type(e).__name__}: {e}"[:600],
                tb=traceback.format_exc()[-1500:],
            )
        else:
            r = ctx.result()
            r["error"] = traceback.format_exc()[-3000:]
            return r
    r = ctx.result()
    if r["evaluations"] == 0 and not r["violations"]:
        r["error"] = "unit observed nothing"
    json.dumps(r)
    return r
