"""C08 water routing probabilities of every cell against the documented weighting."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, ref, waterstage
from ..engine import Discard, Part, Violation

RULE = ("generated configuration and disturbed surface, depth, discharge, land and modifier "
        "fields; every non-land cell of the domain is compared; non-trivial: at least one "
        "cell has unequal weights (slope or inertia decides) and one neighbour is blocked")
ASSUMPTIONS = ["cells whose depth is within 1e-6 of the dry depth, or whose flow is "
               "perpendicular to a direction within rounding, are not judged"]
BUDGET = {"quick": 45, "thorough": 600}


def judge(ctx, w, stage, depth, qx, qy, ct, mod, dry, gam, theta, known=True):
    w = np.asarray(w, float)
    L, W = depth.shape
    w = w.reshape(L, W, 9)
    free = ct != -2
    if not np.isfinite(w).all():
        raise Violation("a weight is not finite")
    if (w < 0).any():
        raise Violation("a weight is negative")
    A = {}
    A["asis"], kind = ref.water_weights(stage, depth, qx, qy, ct, mod, dry, gam, theta)
    if (kind[free] == 4).any():
        raise Discard("enclosed cell")
    s = w.sum(axis=2)
    if (np.abs(s - 1) > 1e-6)[free].any():
        k = tuple(int(v) for v in np.argwhere((np.abs(s - 1) > 1e-6) & free)[0])
        raise Violation("weights of cell %s sum to %r" % (k, float(s[k])))
    bad = (np.abs(w - A["asis"]) > 2e-5 + 1e-4 * A["asis"]).any(axis=2) & free
    # the two ways of refusing to leave the domain upstream of the inlet
    if L and free[0].any():
        ups = (w[0, :, :3] > 0).any(axis=1) & free[0] & ~bad[0]
        if ups.any() and known:
            ctx.note_known("inlet-upstream-weight")
    if bad.any():
        for v in ("before", "after"):
            r, _ = ref.water_weights(stage[:2], depth[:2], qx[:2], qy[:2], ct[:2],
                                     mod[:2], dry, gam, theta, upstream=v)
            ok = ~(np.abs(w[0] - r[0]) > 2e-5 + 1e-4 * r[0]).any(axis=1)
            bad[0] &= ~ok
    if bad.any():
        # rounding ties of single cells
        pd = ref.pad(depth).astype(float)
        for i, j in np.argwhere(bad):
            nb = pd[i:i + 3, j:j + 3].ravel()
            x, y = float(qx[i, j]), float(qy[i, j])
            v = x * ref.UNITX + y * ref.UNITY
            tie = (np.abs(nb - dry) < 1e-6).any() or (
                (np.abs(v) < 1e-5 * (abs(x) + abs(y))) & (v != 0)).any()
            if tie:
                bad[i, j] = False
                ctx.label("tie cell")
    if bad.any():
        i, j = (int(v) for v in np.argwhere(bad)[0])
        raise Violation("weights of cell (%d, %d) are %s, expected %s (%d cells differ)"
                        % (i, j, np.round(w[i, j], 6).tolist(),
                           np.round(A["asis"][i, j], 6).tolist(), int(bad.sum())))
    ctx.label("cells", int(free.sum()))
    ctx.label("fallback wet", int((kind[free] == 1).sum()))
    ctx.label("fallback dry", int((kind[free] == 2).sum()))
    n = (w > 0).sum(axis=2)
    un = (np.abs(w.max(axis=2) * n - 1) > 1e-3) & free
    return bool(un.any() and (n[free] < 8).any())


def params(case):
    c = case["cfg"]
    return waterstage.dry_depth(c), waterstage.gamma(c), float(c["theta_water"])


def run_stage(case, ctx):
    m = waterstage.prepare(case, ctx, probe.Recorder)
    b = probe.snap(m)
    m.init_water_iteration()
    try:
        m.get_water_weight_array()
    except RuntimeError as e:
        if "No non-wall" in str(e):
            raise Discard("enclosed cell")
        raise
    for k in b:
        if not np.array_equal(b[k], getattr(m, k)):
            raise Violation("computing the weights changed " + k)
    dry, gam, theta = params(case)
    return judge(ctx, m.water_weights, b["stage"], b["depth"], b["qx"], b["qy"],
                 m.cell_type, np.array(m.mod_water_weight), dry, gam, theta)


@st.composite
def step_cases(draw):
    return {"cfg": draw(gen.config(np_sed=(1, 8), np_water=(1, 12), big=True)),
            "tex": draw(gen.texture()), "n": draw(st.integers(1, 3))}


def run_steps(case, ctx):
    """Weights used during full time steps."""
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    dry, gam, theta = params(case)
    nt = False
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        m.log_ = []
        m.update()
        for it in waterstage.iterations(m, m.log_):
            s = it["run"]
            nt |= judge(ctx, it["walked"]["water_weights"], s["stage"], s["depth"],
                        s["qx"], s["qy"], m.cell_type, np.array(m.mod_water_weight),
                        dry, gam, theta)
    return nt


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stage", lambda tier: waterstage.cases(islands=True), run_stage, 1000, 20000),
         Part("steps", lambda tier: step_cases(), run_steps, 160, 4000)]
