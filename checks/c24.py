"""Local wave activity of a two-dimensional field: basis.lwa, the barotropic functions and BarotropicField."""
import numpy as np

from vf import baro, gen

ID = "C24"
RULE = ("random two-dimensional fields, reference profiles (prescribed, own, shuffled) and length elements through the "
        "basic function, the two barotropic functions and the field class in random order of access; wave activity, its "
        "two parts and the forcing term against the definition row by row; distinct = case with wave activity")
MIN = {"checked:definition": 300, "checked:definition-forcing": 100, "checked:barotropic": 250, "checked:class": 250,
       "checked:prescribed": 250, "class:default-area": 50, "zonal-monotone": 20}


def cases(tier, seed):
    n = 1200 if tier == "quick" else 50000
    return [dict(seed=int(seed * 1009 + i)) for i in range(n)]


def run(case, mon):
    from falwa import basis, wrapper
    from falwa.barotropic_field import BarotropicField
    r = gen.rng_of(case["seed"], 24)
    kind, y, x = baro.grid(r)
    n, m = y.size, x.size
    a = float(r.choice([6.378e6, 1.0, 3.39e6]))
    ak, area = baro.areas(r, y, m, a)
    fk, v = baro.field(r, y, x)
    v = baro.layout(r, v)
    dmu = a * np.abs(np.cos(np.deg2rad(y))) * np.gradient(np.deg2rad(y))
    if r.random() < 0.2:
        dmu = dmu * r.uniform(0.5, 1.5, n)
    mon.count("field:" + fk)

    # the basic function with any reference profile
    q0 = np.asarray(v, dtype=float).mean(1)
    k = r.random()
    if k < 0.4:
        q = np.sort(q0)
    elif k < 0.6:
        q = q0
    elif k < 0.8:
        q = r.permutation(np.asarray(v, dtype=float).ravel())[:n]
    else:
        q = np.sort(r.uniform(v.min(), v.max(), n))
    part = bool(r.random() < 0.5)
    force = r.normal(size=(n, m)) * 1e-9 if r.random() < 0.5 else None
    args = baro.Args(v=v, q=q, dmu=dmu, force=force, area=area, y=y)
    got, sig = basis.lwa(m, n, v, q, dmu, return_partitioned_lwa=part, ncforce=force)
    mon.ok((sig is None) == (force is None), "forcing-as-asked")
    want = baro.check_lwa(mon, got, v, q, dmu, "definition", part, force, sig)
    if np.abs(want).max() > 0:
        mon.nontrivial([case["seed"]])
    args.check(mon)

    # prescribed reference
    got = wrapper.barotropic_input_qref_to_compute_lwa(y, q, v, area, dmu, planet_radius=a)
    baro.check_lwa(mon, got, v, q, dmu, "prescribed")

    # own reference
    npts = [None, int(r.integers(2, 80))][int(r.integers(0, 2))]
    part = bool(r.random() < 0.5)
    qq, got = wrapper.barotropic_eqlat_lwa(y, v, area, dmu, npts, planet_radius=a, return_partitioned_lwa=part)
    R = baro.check_q(mon, qq, y, v, area, n if npts is None else npts, a, "reference", flavor=fk, areas=ak)
    w = baro.check_lwa(mon, got, v, qq, dmu, "barotropic", part)
    if not R.beyond:
        mon.within(w, 0.0, np.inf, "nonnegative", tol=0.0)
    args.check(mon)

    # the class
    kw = {}
    use_area = bool(r.random() < 0.6)
    if use_area:
        kw["area"] = area
    dphi = np.full(n, np.pi / (n - 1))
    if r.random() < 0.5:
        dphi = np.gradient(np.deg2rad(y))
        kw["dphi"] = dphi
    npts = n
    if r.random() < 0.5:
        npts = kw["n_partitions"] = int(r.integers(2, 60))
    if a != 6.378e6 or r.random() < 0.3:
        kw["planet_radius"] = a
    if r.random() < 0.5:
        kw["return_partitioned_lwa"] = True
    part = kw.get("return_partitioned_lwa", False)
    if not use_area:
        ar = (2 * np.pi * a ** 2 * np.cos(np.deg2rad(y)) * dphi / m)[:, None] * np.ones((n, m))
        mon.count("class:default-area")
    else:
        ar = area
    args = baro.Args(x=x, y=y, v=v, **{k_: kw[k_] for k_ in kw if k_ in ("area", "dphi")})
    f = BarotropicField(x, y, v, **kw)
    order = [["q", "l"], ["l", "q"], ["l", "l", "q", "q"], ["q", "q", "l"]][int(r.integers(0, 4))]
    if r.random() < 0.5:
        # another object of the same shape must not matter
        g = BarotropicField(x, y, np.asarray(v) * -1.5, **kw)
        if r.random() < 0.5:
            g.lwa
    dmuc = a * np.abs(np.cos(np.deg2rad(y))) * dphi
    for o in order:
        if o == "q":
            qc = f.equivalent_latitudes
            baro.check_q(mon, qc, y, v, ar, npts, a, "class-reference", default_area=not use_area, areas=ak)
        else:
            lw = f.lwa
            qc = f.equivalent_latitudes
            baro.check_lwa(mon, lw, v, qc, dmuc, "class", part)
    args.check(mon)

    # a field which is zonal and increases northward has none, however it is computed
    z = np.sort(q0)[:, None] * np.ones((n, m))
    if kind == "poles" and np.ptp(q0) > 0:
        lw, _ = basis.lwa(m, n, z, z[:, 0], dmu)
        mon.count("zonal-monotone")
        mon.close(lw, np.zeros((n, m)), "zonal-has-none")
