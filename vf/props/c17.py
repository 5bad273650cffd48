"""C17 initial domain and derived quantities against their formulas."""
import math

import numpy as np
from hypothesis import strategies as st

from .. import gen, iosim
from ..domain import reference
from ..engine import Part, Violation

RULE = ("generated configurations over the whole valid range (cell counts from 6 to 80, "
        "sizes that are no multiple of the cell size, walls and inlets beyond the limits); "
        "non-trivial: wall or inlet is limited by minimum or maximum, or a size is no "
        "multiple of the cell size")
ASSUMPTIONS = ["sizes within 0.02 cells of a rounding tie are discarded"]
BUDGET = {"quick": 30, "thorough": 400}


@st.composite
def cases(draw, tier):
    c = {}
    dx = draw(st.sampled_from([50, 100.0, 7.5, 1, 0.25, 30]))
    c["dx"] = dx
    L = draw(st.integers(6, 40 if tier == "quick" else 80))
    W = draw(st.integers(4, 60 if tier == "quick" else 120))
    off = st.sampled_from([0, 0, 0.3, -0.4, 0.45])
    c["Length"] = (L + draw(off)) * dx
    c["Width"] = (W + draw(off)) * dx
    if draw(st.booleans()) and float(c["Length"]).is_integer():
        c["Length"] = int(c["Length"])
    c["L0_meters"] = draw(st.sampled_from([0, 1, 2, 3, 1.3, 0.6, 5, 40, 0.2])) * dx
    c["N0_meters"] = draw(st.sampled_from([3, 1, 4, 5, 6, 7, 8, 9, 5.3, 3.6, 60, 0.1])) * dx
    c["u0"] = draw(gen.num(0.1, 4, 2))
    c["h0"] = draw(st.one_of(gen.num(0.1, 12, 2), st.integers(1, 9)))
    if draw(st.booleans()):
        c["hb"] = draw(st.one_of(gen.num(0.1, 12, 2), st.none()))
    c["S0"] = draw(st.sampled_from([0.00015, 0, 1e-3, 3e-6, 0.01]))
    c["C0_percent"] = draw(gen.num(0.01, 5, 2))
    c["Np_water"] = draw(st.integers(1, 4000))
    c["Np_sed"] = draw(st.integers(1, 4000))
    c["itermax"] = draw(st.integers(1, 9))
    for k, r in (("theta_water", 3), ("coeff_theta_sand", 3), ("coeff_theta_mud", 3),
                 ("coeff_U_dep_mud", 1), ("coeff_U_ero_mud", 3), ("coeff_U_ero_sand", 3),
                 ("alpha", 1), ("sand_frac_bc", 1), ("sed_lag", 2)):
        if draw(st.integers(0, 2)) == 0:
            c[k] = draw(gen.num(0, r, 2))
    if draw(st.booleans()):
        c["stepmax"] = draw(st.one_of(st.none(), st.integers(2, 500), gen.num(2, 500, 1)))
    if draw(st.integers(0, 2)) == 0:
        c["H_SL"] = draw(gen.num(-2, 2, 1))
    if draw(st.integers(0, 2)) == 0:
        c["toggle_subsidence"] = True
        c["subsidence_rate"] = draw(st.sampled_from([2e-9, 0.0, 1e-7]))
    return c


def run(c, ctx):
    reference(c, 2)
    m = iosim.quiet(iosim.Stub, out_dir=ctx.path(), seed=1, **c)
    R, A = reference(c, int(m.N_crossdiff))
    for k, v in R.items():
        got = getattr(m, k)
        ok = got == v if isinstance(v, int) else math.isclose(got, v, rel_tol=1e-9,
                                                              abs_tol=1e-300)
        if not ok:
            raise Violation("%s is %r, the documented formula gives %r" % (k, got, v))
    for k, v in A.items():
        got = np.asarray(getattr(m, k))
        if got.shape != v.shape:
            raise Violation("%s has shape %s, expected %s" % (k, got.shape, v.shape))
        bad = ~np.isclose(got.astype(float), v, rtol=3e-7, atol=1e-6 if k == "eta" else 1e-30)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("initial %s is %r at %s, expected %r"
                            % (k, float(got[i]), i, float(v[i])))
    ct = np.asarray(m.cell_type)
    rim = np.ones_like(ct, bool)
    rim[1:-1, 1:-1] = False
    rim[0] = False
    if (ct[rim] == 0).any() or (ct[0] == 0).any():
        raise Violation("a cell on the rim of the grid is open basin")
    m.finalize()
    lim = R["L0"] != round(c["L0_meters"] / c["dx"]) or R["N0"] != round(
        c["N0_meters"] / c["dx"])
    if lim:
        ctx.label("limited wall or inlet")
    if (ct == 0).sum() == 0:
        ctx.label("no open basin")
    return lim or c["Length"] % c["dx"] != 0 or c["Width"] % c["dx"] != 0


PARTS = [Part("domain", lambda tier: cases(tier), run, 1500, 40000)]
