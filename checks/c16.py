"""Wrong inputs and wrong calling orders are refused, never answered with made-up numbers."""
import warnings

import numpy as np

from vf import gen, qg

ID = "C16"
RULE = ("random sequences of method calls and attribute reads on a QGField against a model of what is available when, "
        "plus constructor inputs with one defect each; distinct = (class, mode, sequence) with refused and granted calls")
MIN = {"checked:granted": 300, "checked:refused": 300, "checked:constructor": 300, "checked:masked": 20}

READS = {"interp": qg.FIELDS_INTERP, "ref": qg.FIELDS_REF, "lwa_baro": ["lwa_baro", "u_baro"],
         "baro": ["ncforce_baro"], "lwa": ["lwa"], "layer": ["ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]}
CALLS = ["interp", "ref", "baro", "layer", "only"]


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 9000
    out = qg.grid_cases(seed + 161, n, parities=("odd", "odd", "even", "offset"), flavors=["jet", "gentle", "blocked"])
    for c in out:
        if c.get("hi", 0) > 40:
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k)
    return out


def sequence(case, d, r, mon):
    q = qg.run(case["cls"], d, "build", **qg.extra_of(case))
    have = set()
    trace = []
    n = int(r.integers(10, 22))
    for i in range(n):
        if r.random() < 0.45:
            c = str(r.choice(CALLS)) if r.random() < 0.6 else (CALLS + ["layer"])[min(len(have & set(CALLS)), 5)]
            ok = {"interp": True, "ref": "interp" in have, "baro": "ref" in have, "layer": "ref" in have,
                  "only": "ref" in have}[c]
            fn = {"interp": lambda: q.interpolate_fields(return_named_tuple=False),
                  "ref": lambda: qg.solve(q),
                  "baro": lambda: q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False),
                  "layer": q.compute_layerwise_lwa_fluxes, "only": q.compute_lwa_only}[c]
            if ok:
                fn()
                mon.count("checked:granted")
                have.add(c)
                have |= {"only": {"lwa", "lwa_baro"}, "baro": {"lwa", "lwa_baro"}, "layer": {"lwa"}}.get(c, set())
            else:
                mon.raises(ValueError, fn, "refused", call=c, trace=trace)
            trace.append(c if ok else "!" + c)
        else:
            g = str(r.choice(list(READS)))
            name = str(r.choice(READS[g]))
            if g in have:
                v = np.asarray(getattr(q, name), float)
                mon.ok(np.isfinite(v).all(), "granted", name=name, trace=trace)
            else:
                mon.raises(ValueError, lambda: getattr(q, name), "refused", name=name, trace=trace)
            trace.append(("" if g in have else "!") + name)
    if any(t[0] == "!" for t in trace) and any(t[0] != "!" for t in trace):
        mon.nontrivial((case["cls"], case["nh"], trace))
    mon.sample({"case": case, "trace": trace})


def constructor(case, d, r, mon):
    cls = qg.cls_of(case["cls"])
    ex = qg.extra_of(case)

    def make(**ch):
        m = dict(d)
        m.update({k: v for k, v in ch.items() if k != "kmax"})
        kw = dict(ex)
        kw.update({k: v for k, v in ch.items() if k == "kmax"})
        return lambda: gen.build(cls, m, **kw)

    f = d["u"]
    shapes = [f[:, :, :-1], f[:, :-1], f[:-1], f.transpose(2, 1, 0), f[0], f[:1], f[:, :1], f[:, :, :1], f[..., None],
              f.reshape(-1)]
    for name in ("u", "v", "t"):
        bad = shapes[int(r.integers(len(shapes)))]
        if bad.shape != f.shape:
            mon.raises(TypeError, make(**{name: bad.copy()}), "constructor", name=name, shape=bad.shape)
    rev = d["ylat"][::-1].copy()
    mon.raises(TypeError, make(ylat=rev), "constructor", what="descending latitudes")
    if not case["on_grid"]:
        mon.raises(TypeError, make(plev=d["plev"][::-1].copy()), "constructor", what="ascending pressure")
        hmax = -d["H"] * np.log(d["plev"][-1] / 1000.0)
        top = int(np.floor(hmax / d["dz"] + 1e-9)) + 1
        over = int(top + r.integers(1, 4))
        if (over - 1) * d["dz"] > hmax * (1 + 1e-9):
            mon.raises(ValueError, make(kmax=over), "constructor", what="kmax", kmax=over)
        if (top - 1) * d["dz"] < hmax * (1 - 1e-9):
            q = make(kmax=top)()
            mon.ok(q.kmax == top, "constructor", what="largest kmax")
    n = d["ylat"].size
    if n % 2:
        mon.raises(TypeError, make(ylat=d["ylat"] + 0.25 * 180.0 / n), "constructor", what="odd grid without equator")
    y = d["ylat"].copy()
    y[n // 2 - 1:n // 2 + 1] = 0.0
    mon.raises(TypeError, make(ylat=y), "constructor", what="two equators")


def masked(case, d, r, mon):
    """Masked input is used with a warning; what is under the mask counts as data."""
    name = str(r.choice(["u", "v", "t"]))
    m = dict(d)
    mask = r.random(d[name].shape) < r.choice([0.0, 0.2])
    m[name] = np.ma.MaskedArray(d[name].copy(), mask=mask)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        q = gen.build(qg.cls_of(case["cls"]), m, **qg.extra_of(case))
    told = [x for x in w if "masked" in str(x.message)]
    mon.ok(told, "masked", why="no warning", name=name)
    p = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
    q.interpolate_fields(return_named_tuple=False)
    for n in qg.FIELDS_INTERP:
        v = getattr(q, n)
        mon.ok(not isinstance(v, np.ma.MaskedArray), "masked", name=n)
        mon.equal(v, getattr(p, n), "masked-values")


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 16)
    sequence(case, d, r, mon)
    constructor(case, d, r, mon)
    masked(case, d, r, mon)
    q = qg.run(case["cls"], d, "ref", **qg.extra_of(case))
    k, nlon = d["kmax"], d["xlon"].size
    ny = d["ylat"].size + (d["ylat"].size + 1) % 2
    bad = [np.zeros((k, ny, nlon + 1)), np.zeros((k - 1, ny, nlon)), np.zeros((k, ny + 1, nlon))][int(r.integers(3))]
    for fn in (lambda: q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=bad),
               lambda: q.compute_layerwise_lwa_fluxes(ncforce=bad)):
        mon.raises((AssertionError, ValueError), fn, "forcing-shape", shape=bad.shape)
