"""C04 invariants of all physical fields after every time step."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe
from ..engine import Part, Violation

RULE = ("generated configuration, number of time steps and disturbances of bed or state in "
        "between; invariants are judged in every cell after construction and after every "
        "step; non-trivial: at least two steps, and the bed changed")
BUDGET = {"quick": 45, "thorough": 700}


def first(mask):
    return tuple(int(v) for v in np.argwhere(mask)[0])


def need(ok, what, *arrs):
    ok = np.asarray(ok)
    if not ok.all():
        k = first(~ok)
        raise Violation("%s, cell %s: %s (%d cells)"
                        % (what, k, [float(np.asarray(a)[k]) for a in arrs],
                           int((~ok).sum())))


def invariants(m, H, when, cfg, ct0, initial=False):
    f = {k: np.array(getattr(m, k)) for k in probe.FIELDS}
    for k, v in f.items():
        if v.shape != ct0.shape:
            raise Violation("%s: shape of %s is %s" % (when, k, v.shape))
        need(np.isfinite(v), when + ": %s is not finite" % k, v)
    f = {k: v.astype(float) for k, v in f.items()}
    if not np.array_equal(m.cell_type, ct0):
        raise Violation("%s: cell types changed" % when)
    eta, stage, d = f["eta"], f["stage"], f["depth"]
    sc = 1e-5 * (1 + np.abs(eta) + np.abs(stage))
    need(d >= 0, when + ": negative depth", d)
    need(np.abs(d - np.maximum(stage - eta, 0)) <= sc,
         when + ": depth is not surface minus bed (depth, surface, bed)", d, stage, eta)
    if not initial:
        need(stage >= H - 1e-6 * (1 + abs(H)), when + ": surface below sea level %r" % H,
             stage)
    umax = 2.0 * float(cfg["u0"])
    u = f["uw"]
    need(u >= 0, when + ": negative speed", u)
    if not initial:
        need(u <= umax * (1 + 1e-5), when + ": speed above the limit", u)
    need(np.abs(u - np.hypot(f["ux"], f["uy"])) <= 1e-4 * umax + 1e-4 * u,
         when + ": speed is not the magnitude of its components (u, ux, uy)", u, f["ux"],
         f["uy"])
    q = f["qw"]
    need(q >= 0, when + ": negative discharge", q)
    qm = max(1e-6, float(q.max()))
    need(np.abs(q - np.hypot(f["qx"], f["qy"])) <= 1e-5 * qm + 1e-4 * q,
         when + ": discharge is not the magnitude of its components", q, f["qx"], f["qy"])
    Vp = float(m.Vp_sed)
    need(f["Vp_dep_sand"] >= -1e-6 * Vp, when + ": negative sand deposit", f["Vp_dep_sand"])
    need(f["Vp_dep_mud"] >= -1e-6 * Vp, when + ": negative mud deposit", f["Vp_dep_mud"])
    need(f["qs"] >= -1e-6 * float(m.qs0 + 1e-12), when + ": negative sediment flux", f["qs"])
    need((f["sand_frac"] >= 0) & (f["sand_frac"] <= 1 + 1e-6),
         when + ": sand fraction out of range", f["sand_frac"])
    need((f["active_layer"] >= 0) & (f["active_layer"] <= 1 + 1e-6),
         when + ": active layer out of range", f["active_layer"])


@st.composite
def cases(draw, tier="quick"):
    big = tier == "thorough"
    c = draw(gen.config(np_sed=(1, 20), np_water=(1, 20), big=True))
    n = draw(st.integers(1, 12 if big else 5))
    ev = draw(st.lists(st.tuples(st.integers(1, max(1, n - 1)),
                                 st.sampled_from(["bed", "state", "H_SL", "SLR"]),
                                 gen.texture()), max_size=2))
    return {"cfg": c, "n": n, "events": [list(e) for e in ev]}


def apply(m, kind, tex):
    rng = np.random.RandomState(tex["s"])
    if kind == "state":
        gen.disturb(m, tex)
    elif kind == "bed":
        free = m.cell_type != -2
        m.eta[:] = m.eta + (gen.smooth_noise(rng, m.eta.shape, 0) * 2 * tex["bed"]
                            * free).astype(np.float32)
    elif kind == "H_SL":
        m.sea_surface_mean_elevation = float(m.H_SL + (rng.random_sample() - 0.5))
    elif kind == "SLR":
        m.sea_surface_elevation_change = float((rng.random_sample() - 0.5) * 1e-5)


def run(case, ctx):
    cfg = case["cfg"]
    m = probe.build(ctx, cfg)
    ct0 = np.array(m.cell_type)
    # sea level and speed limit are not claimed before the first time step
    invariants(m, -np.inf, "initial state", cfg, ct0, initial=True)
    e0 = np.array(m.eta)
    for k in range(case["n"]):
        for s, kind, tex in case["events"]:
            if s == k:
                apply(m, kind, tex)
                ctx.label("event " + kind)
                e0 = np.array(m.eta)
        H = float(m.H_SL)
        m.update()
        invariants(m, H, "after step %d" % (k + 1), cfg, ct0)
        d = np.array(m.depth)
        ctx.label("dry cells", int((d[ct0 == 0] == 0).sum()))
    ctx.label("steps", case["n"])
    return case["n"] > 1 and bool((np.array(m.eta) != e0).any())


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("runs", lambda tier: cases(tier), run, 900, 20000)]
