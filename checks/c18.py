"""The native kernels touch only their own, initialised memory, whatever the data."""
import glob
import hashlib
import re
import subprocess

import numpy as np

from vf import gen, qg

ID = "C18"
RULE = ("hostile and ordinary states (missing, infinite, uniform, tied, huge and tiny values; smallest and odd grid "
        "sizes; partition sizes; iteration limits; boundary indices) through every kernel, in builds with gfortran's "
        "bounds checks and with AddressSanitizer + UBSan, and in three builds whose locals start out with different "
        "poison, which must agree bit for bit; distinct = (state, hostility, options)")
BUILDS = ["bounds", "asan", "poison_nan", "poison_big", "poison_zero"]
MIN = {"runs:bounds": 60, "runs:asan": 30, "runs:poison_nan": 60, "compared:poison": 120, "kernels-entered": 500}
BUDGET = {"quick": 320, "thorough": 780}
HOSTILE = ["none", "none", "nan-point", "nan-row", "nan-level", "all-nan", "inf", "huge", "tiny", "uniform", "zero",
           "ties", "spike", "neg-theta", "step", "uniform-level"]


def _asan_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    return {"LD_PRELOAD": lib, "PYTHONMALLOC": "malloc", "ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=1:exitcode=77",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


ENV = {"asan": _asan_env, "poison_big": {"MALLOC_PERTURB_": "128"}}      # memory of other content as well


def crash_mechanism(case, rc, tail):
    """What killed a worker: a run-time check of the build, a sanitizer, or a signal."""
    for pat, name in ((r"Fortran runtime error: (Index|Array bound)", "out-of-bounds"),
                      (r"AddressSanitizer: ([a-z-]+)", "asan"), (r"runtime error: ([a-z ]+)", "ubsan"),
                      (r"Fortran runtime error", "fortran-runtime-error")):
        m = re.search(pat, tail)
        if m:
            return name
    return f"process-death:{rc}"


def cases(tier, seed):
    n = 100 if tier == "quick" else 3000
    base = qg.grid_cases(seed + 181, n, parities=("odd", "odd", "even", "offset"))
    r = gen.rng_of(seed, 18)
    out = []
    for c in base:
        if c.get("hi", 0) > 40 and r.random() < 0.7:
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k, None)
        x = r.random()
        if x < 0.25:
            c.update(lo=11, hi=15, kmax=int(r.choice([4, 5, 6])), nlon=int(r.choice([3, 4, 5, 6])), jb=int(r.choice([1, 2, 3])))
        c["hostile"] = str(r.choice(HOSTILE))
        c["maxit"] = int(r.choice([1, 2, 3, 50, 4000]))
        if c["cls"] == "QGFieldNH18" and r.random() < 0.5:
            c["npart"] = int(r.choice([3, 4, 7, 20, 61, 150]))
        c["forced"] = bool(r.random() < 0.5)
    for kind in BUILDS:
        share = base if kind != "asan" else base[::2]
        out += [dict(c, build=kind) for c in share]
    return out


def spoil(d, kind, r):
    m = dict(d)
    f = {n: d[n].copy() for n in ("u", "v", "t")}
    name = str(r.choice(["u", "v", "t"]))
    x = f[name]
    k, j, i = (int(r.integers(s)) for s in x.shape)
    if kind == "nan-point":
        x[k, j, i] = np.nan
    elif kind == "nan-row":
        x[:, j] = np.nan
    elif kind == "nan-level":
        x[k] = np.nan
    elif kind == "all-nan":
        for g in f.values():
            g[...] = np.nan
    elif kind == "inf":
        x[k, j, i] = np.inf
    elif kind == "huge":
        f["u"] *= 1e18
        f["v"] *= 1e18
    elif kind == "tiny":
        f["u"] *= 1e-30
        f["v"] *= 1e-30
    elif kind == "uniform":
        f["u"][...] = 0.0
        f["v"][...] = 0.0
        f["t"][...] = f["t"].mean((1, 2), keepdims=True)
    elif kind == "uniform-level":
        for g in f.values():
            g[k] = g[k].mean()
    elif kind == "zero":
        f["u"][...] = 0.0
        f["v"][...] = 0.0
    elif kind == "ties":
        f["u"] = np.round(f["u"] / 20) * 20
        f["v"] = np.round(f["v"] / 20) * 20
        f["t"] = np.round(f["t"] / 10) * 10
    elif kind == "spike":
        f["u"][k, j, i] += 1e6
    elif kind == "neg-theta":
        f["t"] = f["t"][::-1].copy()
    elif kind == "step":
        f["u"] = np.where(d["ylat"][None, :, None] > 30, 80.0, -80.0) + 0 * f["u"]
    m.update(f)
    return m


def run(case, mon):
    r = gen.rng_of(case["seed"], 18)
    d = spoil(qg.case_of(case), case["hostile"], r)
    mon.count("runs:" + case["build"])
    ex = qg.extra_of(case)
    ex.update(maxit=case["maxit"], raise_error_for_nonconvergence=False)
    if "npart" in case:
        ex["npart"] = case["npart"]
    if case["cls"] == "QGFieldNHN22":
        ex.pop("maxit")
        ex.pop("raise_error_for_nonconvergence")
    ny = d["ylat"].size + (d["ylat"].size + 1) % 2
    ncf = 1e-10 * r.standard_normal((d["kmax"], ny, d["xlon"].size)) if case["forced"] else None
    log, out = [], []
    np.seterr(all="ignore")

    def attempt(name, fn):
        """A refusal (an exception) is fine here; only memory matters."""
        try:
            fn()
            log.append(name)
            mon.count("kernels-entered")
        except Exception as e:  # noqa: BLE001
            log.append(f"{name}:{type(e).__name__}")

    q = gen.build(qg.cls_of(case["cls"]), d, **ex)
    attempt("interp", lambda: q.interpolate_fields(return_named_tuple=False))
    attempt("ref", lambda: q.compute_reference_states(return_named_tuple=False))
    attempt("only", q.compute_lwa_only)
    attempt("baro", lambda: q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf))
    attempt("layer", lambda: q.compute_layerwise_lwa_fluxes(ncforce=ncf))
    h = {}
    for n in qg.ALL:
        try:
            v = np.ascontiguousarray(getattr(q, n), dtype=float)
        except Exception as e:  # noqa: BLE001
            h[n] = type(e).__name__
            continue
        v = np.where(np.isnan(v), np.nan, v) + 0.0     # one NaN, one zero
        h[n] = hashlib.sha1(v.tobytes()).hexdigest()[:12]
        if case["hostile"] in ("none", "uniform-level", "ties", "zero") and np.isfinite(d["t"]).all() and \
                "ref" in log and not q.nonconvergent_uref and case["hostile"] == "none":
            mon.ok(np.isfinite(v).all(), "finite-results", name=n)
    mon.record = {"log": log, "hash": h}
    mon.nontrivial({k: v for k, v in case.items() if k != "build"})
    mon.sample({"case": case, "calls": log})


def combine(records):
    """The poisons must be invisible: anything that differs was read before it was written."""
    by = {}
    for c, rec in records:
        if rec and c["build"].startswith("poison"):
            by.setdefault(c["seed"], {})[c["build"]] = (c, rec)
    found, n = [], 0
    for runs in by.values():
        for x, y in (("poison_nan", "poison_big"), ("poison_nan", "poison_zero")):
            if x not in runs or y not in runs:
                continue
            n += 1
            (c, a), (_, b) = runs[x], runs[y]
            bad = [k for k in a["hash"] if a["hash"][k] != b["hash"][k]]
            if bad or a["log"] != b["log"]:
                found.append(("reads-uninitialised", c, {"fields": bad, "calls": [a["log"], b["log"]], "between": [x, y]}))
    return found, {"compared:poison": n}
