"""Asking for the Northern Hemisphere only changes what is returned, not its values."""
import numpy as np

from vf import gen, qg

ID = "C14"
RULE = ("the same state run with and without northern_hemisphere_results_only (both classes, odd / even / offset "
        "grids, with and without forcing, compute_lwa_only); distinct = state with eddies")
MIN = {"checked:north:lwa": 60, "checked:north:uref": 60, "checked:north:ep2": 60, "checked:north:lwa-only": 60,
       "checked:shape": 60}


def cases(tier, seed):
    n = int(300 * 2.5) if tier == "quick" else 12000
    out = qg.grid_cases(seed + 141, n, full=True, parities=("odd", "odd", "even", "offset"))
    for c in out:
        c["nh"] = False
    return out


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 14)
    nin = d["ylat"].size
    even = nin % 2 == 0
    nlat = nin + 1 if even else nin
    ncf = None
    if r.random() < 0.5:
        ncf = 1e-10 * r.standard_normal((d["kmax"], nlat, d["xlon"].size))
    ex = qg.extra_of(case)
    ex.pop("northern_hemisphere_results_only")
    g = qg.run(case["cls"], d, "layer", ncforce=ncf, northern_hemisphere_results_only=False, **ex)
    n = qg.run(case["cls"], d, "layer", ncforce=ncf, northern_hemisphere_results_only=True, **ex)
    a, b = qg.grab(g), qg.grab(n)
    rows = nin // 2 if even else nin // 2 + 1
    mon.ok(np.array_equal(n.ylat_ref_states, d["ylat"][-rows:]), "reference-latitudes",
           got=n.ylat_ref_states, want=d["ylat"][-rows:])
    mon.ok(np.array_equal(g.ylat_ref_states, d["ylat"]), "reference-latitudes-global")
    for name in qg.ALL:
        ax = 0 if name in qg.FIELDS_BARO else 1
        if name in qg.FIELDS_INTERP:
            mon.equal(b[name], a[name], "input-fields:" + name)
            continue
        want = list(a[name].shape)
        want[ax] = rows
        if not mon.ok(list(b[name].shape) == want, "shape", name=name, got=b[name].shape, want=want):
            continue
        # the equator row of a global field is the southern one; even grids blend it into the next row
        w = np.take(a[name], range(nin - rows + 1, nin), ax)
        h = np.take(b[name], range(1, rows), ax)
        s = np.abs(w).max() if w.size else 0.0
        mon.close(h, w, "north:" + name, atol=1e-12 * s)
    # the other entry point
    for q, big in ((g, True), (n, False)):
        q.compute_lwa_only()
    for name in ("lwa", "lwa_baro"):
        ax = 0 if name == "lwa_baro" else 1
        x, y = np.array(getattr(g, name)), np.array(getattr(n, name))
        if mon.ok(y.shape[ax] == rows, "shape", name=name):
            mon.close(np.take(y, range(1, rows), ax), np.take(x, range(nin - rows + 1, nin), ax),
                      "north:lwa-only", atol=1e-12 * np.abs(x).max())
    if case["flavor"] != "zonal":
        mon.nontrivial(case["seed"])
    mon.sample({"case": case, "rows": rows, "forced": ncf is not None})
