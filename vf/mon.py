"""The monitor: collects observations and violations of one run."""
import hashlib
import json

import numpy as np


def jsonable(x, depth=0):
    if depth > 6:
        return str(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, np.ndarray):
        if x.size > 24:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:6])}
        return jsonable(x.tolist())
    if isinstance(x, (np.floating, float)):
        return float(x) if np.isfinite(x) else str(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    return str(x)


class Skip(Exception):
    """The workload did not reach what the check is about."""


class Monitor:
    MAX_VIOL = 12

    def __init__(self):
        self.counters = {}
        self.violations = []
        self.distinct = set()
        self.samples = []
        self.margins = {}
        self.case = None
        self.record = None

    # -- observations ------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def nontrivial(self, sig):
        h = hashlib.sha1(json.dumps(jsonable(sig), sort_keys=True).encode()).hexdigest()[:16]
        self.distinct.add(h)

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    # -- verdicts ----------------------------------------------------------
    def fail(self, mech, **detail):
        self.count("violations:" + mech)
        if sum(1 for v in self.violations if v["mechanism"] == mech) < 2 \
                and len(self.violations) < self.MAX_VIOL * 4:
            self.violations.append(
                {"mechanism": mech, "case": jsonable(self.case), "detail": jsonable(detail)})

    def ok(self, cond, mech, **detail):
        self.count("checked:" + mech)
        if not bool(cond):
            self.fail(mech, **detail)
            return False
        return True

    def close(self, got, want, mech, atol=0.0, rtol=0.0, scale=None, **detail):
        """|got-want| <= atol + rtol*scale, elementwise; scale defaults to max|want|."""
        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        if got.shape != want.shape:
            self.count("checked:" + mech)
            self.fail(mech, why="shape", got=got.shape, want=want.shape, **detail)
            return False
        self.count("checked:" + mech)
        self.count("values:" + mech, got.size)
        if got.size == 0:
            return True
        if scale is None:
            f = np.abs(want[np.isfinite(want)])
            scale = f.max() if f.size else 0.0
        tol = np.broadcast_to(np.asarray(atol + rtol * np.asarray(scale, dtype=float)), got.shape)
        both_nan = np.isnan(got) & np.isnan(want)
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
        err = np.where(both_nan | (got == want), 0.0, err)
        bad = ~(err <= tol)
        with np.errstate(all="ignore"):
            ratio = np.where(tol > 0, err / tol, np.where(err > 0, np.inf, 0.0))
        m = float(np.nanmax(ratio)) if np.isfinite(ratio).any() else 0.0
        self.margins[mech] = max(self.margins.get(mech, 0.0), m)
        if bad.any():
            score = np.where(np.isnan(err), np.inf, err)
            idx = np.unravel_index(int(np.argmax(np.where(bad, score, -1))), got.shape)
            self.fail(mech, index=list(map(int, idx)), got=got[idx], want=want[idx],
                      tol=float(tol[idx]), n_bad=int(bad.sum()), n=int(got.size), **detail)
            return False
        return True

    def within(self, got, lo, hi, mech, tol=0.0, **detail):
        """lo - tol <= got <= hi + tol, elementwise."""
        got = np.asarray(got, dtype=float)
        lo = np.broadcast_to(np.asarray(lo, dtype=float), got.shape)
        hi = np.broadcast_to(np.asarray(hi, dtype=float), got.shape)
        tol = np.broadcast_to(np.asarray(tol, dtype=float), got.shape)
        self.count("checked:" + mech)
        self.count("values:" + mech, got.size)
        bad = ~((got >= lo - tol) & (got <= hi + tol))
        if bad.any():
            idx = tuple(int(i) for i in np.argwhere(bad)[0])
            self.fail(mech, index=idx, got=got[idx], lo=lo[idx], hi=hi[idx], tol=tol[idx],
                      n_bad=int(bad.sum()), n=int(got.size), **detail)
            return False
        return True

    def equal(self, got, want, mech, **detail):
        """Bit-for-bit equality (NaN equal to NaN)."""
        got = np.asarray(got)
        want = np.asarray(want)
        self.count("checked:" + mech)
        self.count("values:" + mech, got.size)
        if got.shape != want.shape:
            self.fail(mech, why="shape", got=got.shape, want=want.shape, **detail)
            return False
        same = (got == want)
        if got.dtype.kind == "f" and want.dtype.kind == "f":
            same = same | (np.isnan(got) & np.isnan(want))
        if not np.all(same):
            idx = tuple(int(i) for i in np.argwhere(~np.atleast_1d(same))[0])
            g, w = np.atleast_1d(got)[idx], np.atleast_1d(want)[idx]
            self.fail(mech, index=idx, got=g, want=w, n_bad=int((~np.atleast_1d(same)).sum()),
                      n=int(got.size), **detail)
            return False
        return True

    def raises(self, exc, fn, mech, **detail):
        self.count("checked:" + mech)
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # another kind of exception than the documented one
            self.fail(mech, why=f"raised {type(e).__name__}: {e}", expected=str(exc), **detail)
            return False
        self.fail(mech, why="did not raise", expected=str(exc), **detail)
        return False

    def export(self):
        return {"counters": self.counters, "violations": self.violations,
                "distinct": sorted(self.distinct), "samples": self.samples,
                "margins": self.margins, "record": self.record}
