"""C05 inlet boundary condition and land cells over whole runs, at every stage."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, waterstage
from ..domain import nominal
from ..engine import Part, Violation
from .c04 import need

RULE = ("generated configuration and number of time steps, disturbed in between; land and "
        "inlet cells are judged at every hook and after every step; non-trivial: at least "
        "two steps and parcels moved next to land")
BUDGET = {"quick": 45, "thorough": 700}


@st.composite
def cases(draw, tier="quick"):
    c = draw(gen.config(np_sed=(1, 20), np_water=(1, 20), big=True))
    if draw(st.booleans()):      # land close to the flow on all sides
        c["Width"] = draw(st.integers(9, 16)) * c["dx"]
        c["N0_meters"] = min(c["N0_meters"], c["Width"] // 3)
        c["N0_meters"] = max(c["N0_meters"], 3 * c["dx"])
    return {"cfg": c, "n": draw(st.integers(1, 8 if tier == "thorough" else 4)),
            "tex": draw(gen.texture())}


def inlet_flow(cfg, inlet, s, when):
    qw0 = float(cfg["u0"]) * float(cfg["h0"])
    for k, e in (("qx", qw0), ("qy", 0.0), ("qw", qw0)):
        v = np.asarray(s[k], float)[0, inlet]
        if not (np.abs(v - e) <= 1e-6 * (1 + abs(e))).all():
            raise Violation("%s: inlet %s is %s, configured %r" % (when, k, v.tolist(), e))


def land_clean(m, land, s, eta_land, when):
    if not np.array_equal(s["eta"][land], eta_land):
        k = np.argwhere(s["eta"][land] != eta_land)[0]
        raise Violation("%s: the bed of a land cell changed (%s)"
                        % (when, np.argwhere(land)[k[0]].tolist()))
    for k in ("qx", "qy", "qw", "ux", "uy", "uw", "qs", "Vp_dep_sand", "Vp_dep_mud"):
        if s[k][land].any():
            c = np.argwhere(land & (s[k] != 0))[0].tolist()
            raise Violation("%s: %s is not zero on land cell %s" % (when, k, c))


def run(case, ctx):
    cfg = case["cfg"]
    m = probe.build(ctx, cfg, probe.Recorder)
    A = nominal(cfg)[1]
    land, inlet = A["cell_type"] == -2, A["inlet"]
    el = np.array(m.eta)[land]
    near = 0
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        m.log_ = []
        m.update()
        for name, s in m.log_:
            if k > 0 or name not in ("init_water", "run_water"):
                land_clean(m, land, s, el, "step %d, %s" % (k + 1, name))
        for it in waterstage.iterations(m, m.log_):
            inlet_flow(cfg, inlet, it["end"], "step %d, after a water iteration" % (k + 1))
            if np.asarray(it["walked"]["qwn"])[land].any():
                raise Violation("step %d: parcels walked on land" % (k + 1))
        s = probe.snap(m)
        land_clean(m, land, s, el, "after step %d" % (k + 1))
        inlet_flow(cfg, inlet, s, "after step %d" % (k + 1))
        h0 = float(cfg["h0"])
        d = s["depth"].astype(float)[0, inlet]
        need(np.abs(d - h0) <= 1e-6 * h0, "after step %d: inlet depth" % (k + 1), d)
        b = (s["stage"].astype(float) - s["eta"])[0, inlet]
        need(np.abs(b - h0) <= 1e-5 * (h0 + np.abs(s["stage"][0, inlet])),
             "after step %d: inlet surface minus bed is not the channel depth" % (k + 1), b)
        q = s["qw"] > 0
        p = np.pad(land, 1)
        nb = np.zeros_like(land)
        for i in range(3):
            for j in range(3):
                nb |= p[i:i + land.shape[0], j:j + land.shape[1]]
        near += int((q & nb & ~land).sum())
    ctx.label("wet cells next to land", near)
    ctx.label("land cells", int(land.sum()))
    return case["n"] > 1 and near > 0


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("runs", lambda tier: cases(tier), run, 800, 20000)]
