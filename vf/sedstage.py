"""Shared harness: run the sediment stages on a generated state and replay."""
import numpy as np
from hypothesis import strategies as st

from . import gen, probe, ref
from .domain import nominal
from .engine import Discard, Violation


@st.composite
def cases(draw, np_sed=(1, 10)):
    c = draw(gen.config(np_water=(1, 2), np_sed=np_sed, itermax=(1, 1), subs=False,
                        big=True))
    t = draw(gen.texture())
    mods = draw(st.sampled_from(["none", "weight", "erosion", "both"]))
    return {"cfg": c, "tex": t, "mods": mods, "q0": draw(st.sampled_from([0.0, 0.0, 1.0]))}


def set_mods(m, which, rng):
    sh = m.eta.shape
    if which in ("weight", "both"):
        m.mod_sed_weight[:] = np.where(rng.random_sample(sh) < 0.2, 0.0,
                                       0.2 + 2 * rng.random_sample(sh))
    if which in ("erosion", "both"):
        m.mod_erosion[:] = np.where(rng.random_sample(sh) < 0.2, 0.0,
                                    2 * rng.random_sample(sh))


KEYS = ("eta", "depth", "uw", "ux", "uy", "qs", "Vp_dep_sand", "Vp_dep_mud")


def close(a, b, what, rtol=2e-4, atol=2e-5, scale=1.0):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    bad = ~(np.abs(a - b) <= atol * scale + rtol * np.abs(b))
    if bad.any():
        k = np.argwhere(bad)
        i = tuple(int(x) for x in k[0])
        raise Violation("%s differs at %s (%d cells): is %r, expected %r"
                        % (what, i, len(k), float(a[i]), float(b[i])))


def run_stage(case, ctx):
    """Run sand, diffusion and mud on a disturbed state, recorded at hooks."""
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    gen.disturb(m, case["tex"])
    rng = np.random.RandomState(case["tex"]["s"] + 1)
    set_mods(m, case["mods"], rng)
    m.eta0 = np.copy(m.eta)
    m.log_ = []
    before = probe.snap(m)
    m.hook_route_sediment()
    m.route_sediment()
    m.hook_after_route_sediment()
    d = dict(m.log_)
    return m, before, d


def expected_counts(m):
    n, f = int(m.Np_sed), float(m.f_bedload)
    return int(n * f), int(n * (1 - f))


def replay(m, d, kind, n=None, cfg=None):
    """Reference routing of one kind of parcels from the state at its hook."""
    a = d[kind]
    b = d["diffusion" if kind == "sand" else "after_sed"]
    s = dict(a)
    s["cell_type"] = m.cell_type
    R = ref.Sediment(s, ref.sediment_params(m, cfg))
    rep = probe.Replay(a["rng"])
    if n is None:
        n = expected_counts(m)[0 if kind == "sand" else 1]
    try:
        inlet = m.inlet if cfg is None else nominal(cfg)[1]["inlet"]
        R.route(kind, n, rep, inlet, np.ones(len(inlet)))
    except ref.Ambiguous as e:
        raise Discard("tie:" + str(e))
    return R, a, b, rep
