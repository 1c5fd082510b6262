"""The three LWA entry points agree with one another in every call order."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C09"
RULE = ("one field per random order of compute_lwa_only / compute_lwa_and_barotropic_fluxes / "
        "compute_layerwise_lwa_fluxes (with repeats); lwa, lwa_baro, u_baro compared after each step; distinct = "
        "(state, call order)")
MIN = {"checked:lwa-agrees": 100, "checked:baro-agrees": 50}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 12000
    return qg.grid_cases(seed + 91, n, full=True, parities=("odd", "odd", "even", "offset"))


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    nh = case["nh"]
    r = gen.rng_of(case["seed"], 9)
    base = qg.run(case["cls"], d, "ref", **qg.extra_of(case))
    base.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    lwa0, baro0, u0 = (np.array(getattr(base, n), float) for n in ("lwa", "lwa_baro", "u_baro"))
    even = d["ylat"].size % 2 == 0
    nlat = d["ylat"].size + (1 if even else 0)
    nd = (nlat + 1) // 2
    q = qg.run(case["cls"], d, "ref", **qg.extra_of(case))
    order = [int(x) for x in r.integers(0, 3, 5)]
    for a in (0, 1, 2):
        if a not in order:
            order.append(a)
    tl = 2e-5 * np.abs(lwa0).max()
    tb = 2e-5 * np.abs(baro0).max()
    tu = 2e-5 * np.abs(u0).max() + 1e-9
    have = False
    for a in order:
        if a == 0:
            q.compute_lwa_only()
        elif a == 1:
            q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
        else:
            q.compute_layerwise_lwa_fluxes()
        have = have or a != 2
        mon.close(q.lwa, lwa0, "lwa-agrees", atol=tl, order=order, at=a)
        if have:
            mon.close(q.lwa_baro, baro0, "baro-agrees", atol=tb, order=order, at=a)
            # the zonal wind average is filled in on the analysed rows
            ub = np.asarray(q.u_baro, float)
            rows = np.ones(ub.shape[0], bool)
            if not even:
                if nh:
                    rows[:jb] = rows[-1:] = False
                else:
                    rows[nd - 1 - jb:nd + jb] = rows[0] = rows[-1] = False
                    if jb == 0:
                        rows[nd - 1] = True
                mon.close(ub[rows], u0[rows], "u-agrees", atol=tu, order=order, at=a)
    if not even:
        w = M.vert_avg(np.asarray(q.interpolated_u, float), d["dz"], d["H"])
        if nh:
            w = w[nd - 1:]
        mon.close(u0, w, "u_baro-is-density-weighted-mean", atol=1e-6 * np.abs(w).max())
        wl = M.vert_avg(lwa0, d["dz"], d["H"])
        mon.close(baro0, wl, "lwa_baro-is-density-weighted-mean", atol=2e-6 * np.abs(wl).max())
        mon.close(q.prefactor, M.prefactor(d["kmax"], d["dz"], d["H"]), "prefactor", rtol=1e-10)
    mon.nontrivial((case["seed"], order))
    mon.sample({"case": case, "order": order, "lwa_max": float(lwa0.max())})
