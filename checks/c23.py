"""Equivalent latitude of a two-dimensional field: basis.eqvlat_fawa and basis.eqvlat_vgrad."""
import numpy as np

from vf import baro, gen

ID = "C23"
RULE = ("random fields (planetary, noise, constant, ties, integers, polar extremes, ...) on random grids with exact, "
        "normalised or longitude-dependent cell areas and 2-200 contours; Q, wave activity and bracketed quantity "
        "against a sort of the values; distinct = case with a non-constant field")
MIN = {"checked:rearrangement": 400, "checked:fawa": 100, "checked:bracket": 80, "untied": 200, "polar-or-full": 100}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 60000
    return [dict(seed=int(seed * 1009 + i)) for i in range(n)]


def run(case, mon):
    from falwa import basis
    r = gen.rng_of(case["seed"], 23)
    kind, y, x = baro.grid(r)
    a = float(r.choice([6.378e6, 6.378e6, 1.0, 3.39e6]))
    ak, area = baro.areas(r, y, x.size, a)
    fk, v = baro.field(r, y, x)
    n = int(r.choice([2, 3, y.size, y.size, int(r.integers(2, 200))]))
    if fk == "plateaus" and r.random() < 0.5:
        n = int(r.integers(2, 9))
    v, area = baro.layout(r, v), baro.layout(r, area)
    args = baro.Args(ylat=y, vort=v, area=area)
    full = bool(r.random() < 0.7)
    kw = {} if a == 6.378e6 and r.random() < 0.5 else dict(planet_radius=a)
    q, fawa = basis.eqvlat_fawa(y, v, area, n, output_fawa=full, **kw)
    mon.ok(full == (fawa is not None), "fawa-as-asked")
    info = dict(flavor=fk, grid=kind, areas=ak)
    R = baro.check_q(mon, q, y, v, area, n, a, "rearrangement", **info)
    mon.count("untied", not R.tied)
    mon.count("polar-or-full", ak in ("unit", "normalised", "bands"))
    mon.count("field:" + fk)
    mon.count("areas:" + ak)
    if R.range > 0:
        mon.nontrivial([case["seed"]])
    mon.sample(dict(info, nlat=y.size, nlon=x.size, contours=n))
    if full and not R.tied and not R.beyond:
        # circulation poleward (trapezoids over the rows) and circulation where q < Q
        row = np.asarray(v, dtype=float).mean(1) * area.sum(1)
        cbar = np.zeros(y.size)
        for j in range(y.size - 2, 0, -1):
            cbar[j] = cbar[j + 1] + 0.5 * (row[j] + row[j + 1])
        lo, hi = R.spread(y, R.C)
        s = 2 * np.pi * a
        mon.within(fawa, -(cbar + hi)[1:] / s, -(cbar + lo)[1:] / s, "fawa", tol=1e-11 * R.cscale / s + 1e-300, **info)
    g = None
    if r.random() < 0.75:
        g = baro.field(r, y, x)[1]
        if r.random() < 0.2:
            g = np.asarray(v) * 2.0
    args2 = baro.Args(vgrad=g)
    q2, br = basis.eqvlat_vgrad(y, v, area, n, vgrad=g, **kw)
    baro.check_q(mon, q2, y, v, area, n, a, "rearrangement", **info)
    mon.ok((g is not None) == (br is not None), "bracket-as-asked")
    if g is not None and not R.tied and not R.beyond:
        dp = R.bin_means(g)
        b = np.zeros(n)
        b[1:-1] = 0.5 * (dp[:-2] + dp[2:])
        lo, hi = R.spread(y, b)
        mon.within(br, lo, hi, "bracket", tol=1e-9 * np.abs(g).max() + 1e-300, **info)
    # does not depend on the order of the points along a latitude, nor on the longitude it starts from
    p = r.permutation(x.size)
    qp, _ = basis.eqvlat_fawa(y, v[:, p], area[:, p], n, output_fawa=False, **kw)
    baro.check_q(mon, qp, y, v, area, n, a, "rearrangement", why="permuted", **info)
    args.check(mon)
    args2.check(mon)
