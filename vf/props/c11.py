"""C11 topographic diffusion against the pairwise-flux reference and its laws."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, ref
from ..domain import nominal
from ..engine import Part, Violation
from ..sedstage import close

RULE = ("generated configuration, bed and sediment flux; non-trivial: some free cell "
        "changed")
BUDGET = {"quick": 30, "thorough": 400}


@st.composite
def cases(draw):
    c = draw(gen.config(np_water=(1, 2), np_sed=(1, 3), subs=False))
    c["alpha"] = draw(st.sampled_from([0.1, 0.0, 0.02, 0.3]))
    return {"cfg": c, "tex": draw(gen.texture()),
            "qs": draw(st.sampled_from(["noise", "sparse", "zero", "one", "edge"])),
            "flat": draw(st.sampled_from([0, 0, 0, 1])),
            "amp": draw(st.sampled_from([1.0, 0.1, 3.0]))}


def strength(cfg):
    """Configured strength and number of applications of the diffusion."""
    R = nominal(cfg)[0]
    n = R["N_crossdiff"]
    return R["dt"] / n * float(cfg["alpha"]) * 0.5 / float(cfg["dx"]) ** 2, n


def run(case, ctx):
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    gen.disturb(m, case["tex"])
    rng = np.random.RandomState(case["tex"]["s"] + 7)
    sh = m.eta.shape
    q = rng.random_sample(sh) * case["amp"] * m.qs0
    if case["qs"] == "sparse":
        q[rng.random_sample(sh) < 0.7] = 0
    elif case["qs"] == "zero":
        q[:] = 0
    elif case["qs"] == "one":
        k = (rng.randint(sh[0]), rng.randint(sh[1]))
        v = q[k]
        q[:] = 0
        q[k] = v
    elif case["qs"] == "edge":
        q[1:-1, 1:-1] = 0
    # keep the explicit scheme stable, as the model's own fluxes do
    mult, n = strength(case["cfg"])
    if mult * 16 * q.max() > 0.9:
        q *= 0.9 / (mult * 16 * q.max())
    m.qs[:] = q
    if case["flat"]:
        m.eta[:] = np.float32(-1.5)
    m.log_ = []
    before = probe.snap(m)
    r0 = probe.rng_state()
    m.topo_diffusion()
    after = probe.snap(m)
    if not probe.same_rng(r0, probe.rng_state()):
        raise Violation("diffusion drew random numbers")
    for k in before:
        if k != "eta" and not np.array_equal(before[k], after[k]):
            raise Violation("diffusion changed " + k)
    exp = ref.diffuse(before["eta"], before["qs"], m.cell_type, mult, n)
    a, b = before["eta"].astype(float), after["eta"].astype(float)
    fixed = m.cell_type == -2
    fixed[0, :] = True
    if (a[fixed] != b[fixed]).any():
        raise Violation("diffusion changed land or the first row")
    close(b, exp, "bed after diffusion", rtol=1e-5, atol=2e-5)
    # laws which do not need the reference
    if case["qs"] == "zero" and (a != b).any():
        raise Violation("bed changed without sediment flux")
    inner = np.zeros(sh, bool)
    inner[2:-2, 2:-2] = True
    if case["flat"] and np.abs(a - b)[inner].max() > 1e-5 and n == 1:
        raise Violation("a flat bed changed")
    if case["qs"] == "one" and not case["flat"]:
        # one flux cell well inside free cells: volume is conserved
        k = np.argwhere(q > 0)
        if len(k):
            i, j = k[0]
            if 1 <= i - 1 and i + 1 < sh[0] and 1 <= j and j + 1 < sh[1] \
                    and not fixed[i - 1:i + 2, j - 1:j + 2].any():
                if abs((b - a).sum()) > 1e-4 * np.abs(b - a).sum() + 1e-5:
                    raise Violation("diffusion does not conserve the bed volume: %r"
                                    % float((b - a).sum()))
                ctx.label("conservation")
    ctx.label("repeats=%d" % min(n, 5))
    return bool((a != b).any())


@st.composite
def step_cases(draw):
    c = draw(gen.config(np_sed=(1, 12), np_water=(1, 8), big=True))
    return {"cfg": c, "tex": draw(gen.texture()), "n": draw(st.integers(1, 3))}


def run_steps(case, ctx):
    """Between the sand and the mud parcels of each time step."""
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    mult, n = strength(case["cfg"])
    nt = False
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        m.log_ = []
        m.update()
        d = dict(m.log_)
        a, b = d["diffusion"], d["mud"]
        for f in a:
            if f != "eta" and isinstance(a[f], np.ndarray) and not np.array_equal(a[f], b[f]):
                raise Violation("diffusion changed " + f)
        if mult * 16 * float(a["qs"].max()) > 1.5:
            ctx.label("not judged: unstable")
            continue
        exp = ref.diffuse(a["eta"], a["qs"], m.cell_type, mult, n)
        close(b["eta"], exp, "bed after diffusion, step %d" % (k + 1), rtol=1e-5, atol=5e-5)
        ch = np.abs(b["eta"].astype(float) - a["eta"]) > 1e-3
        ctx.label("cells changed in time steps", int(ch.sum()))
        nt |= bool(ch.any())
    return nt


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stage", lambda tier: cases(), run, 1200, 30000),
         Part("steps", lambda tier: step_cases(), run_steps, 250, 6000)]
