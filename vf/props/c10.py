"""C10 water surface recomputed from the recorded walks."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, ref, waterstage
from ..domain import nominal
from ..engine import Part, Violation
from ..sedstage import close

RULE = ("part stage: water iterations on generated states, the surface recomputed from the "
        "replayed walks (those of C09); part flood: generated surfaces, depths and beds; non-trivial: a "
        "valid walk lifted the surface, or a dry cell was flooded")
ASSUMPTIONS = ["walks are those of C09; ties at the shoreline threshold or the dry depth "
               "(within 1e-6) are not judged"]
BUDGET = {"quick": 45, "thorough": 600}


def replayed(ctx, m, it, cfg):
    """Walks and their validity, replayed from the generator state; None if not possible."""
    a, b = it["run"], it["walked"]
    n = int(cfg["Np_water"])
    rep = probe.Replay(a["rng"])
    Q, A = nominal(cfg)
    inlet = list(A["inlet"])
    try:
        walks, flag = ref.water_walk(
            rep, np.asarray(b["water_weights"], float), inlet,
            np.ones(len(inlet)), n, Q["stepmax"], Q["L0"], Q["CTR"], a["stage"],
            a["H_SL"], m.cell_type, Q["Qp_water"], float(cfg["dx"]))[:2]
    except (ref.UpstreamExit, ref.Ambiguous):
        return None
    if not probe.same_rng(rep.state(), b["rng"]):
        return None         # decided by C09
    ctx.label("walks replayed", n)
    return np.array(walks).reshape(n, -1), flag


def judge(ctx, m, it, cfg):
    a, b = it["walked"], it["surface"]
    S0, dx = float(cfg["S0"]), float(cfg["dx"])
    H = a["H_SL"]
    walks = np.asarray(a["free_surf_walk_inds"])
    flag = np.asarray(a["free_surf_flag"]).ravel()
    own = replayed(ctx, m, it, cfg)
    if own:
        walks, flag = own
    ct = m.cell_type
    if (walks < 0).any() or (walks >= ct.size).any():
        ctx.label("not judged: walk left upstream (finding of C09)")
        return False
    try:
        visit, total, used = ref.accumulate_surface(
            walks, flag, ct, a["uw"], a["ux"], a["uy"],
            a["depth"], dx, float(cfg["u0"]), float(cfg["h0"]), H, S0)
    except ref.Ambiguous:
        ctx.label("tie")
        return False
    if not np.array_equal(np.asarray(b["sfc_visit"]), visit):
        raise Violation("numbers of visits differ")
    sc = max(1.0, float(np.abs(total).max()))
    close(b["sfc_sum"], total, "sum of surfaces", rtol=1e-5, atol=1e-5, scale=sc)
    Hn = ref.new_surface(a["eta"], a["depth"], visit, total, H)
    close(b["Hnew"], Hn, "new surface", rtol=1e-5, atol=2e-5)
    Hs = ref.smooth(Hn, ct, int(cfg["Nsmooth"]), float(cfg["Csmooth"]))
    om = float(cfg["omega_sfc"])
    st_ = a["stage"].astype(float)
    if a["time_iter"] > 0:
        st_ = (1 - om) * st_ + om * Hs
    exp, nfl = flooded(st_, a["depth"], a["eta"], waterstage.dry_depth(cfg))
    compare_stage(ctx, b["stage"], exp, st_, a["depth"], a["eta"],
                  waterstage.dry_depth(cfg), "surface")
    for k in ("eta", "qx", "qy", "qw"):
        if not np.array_equal(a[k], b[k]):
            raise Violation("computing the surface changed " + k)
    # applied bounds after the iteration
    e = it["end"]
    s2 = np.maximum(b["stage"].astype(float), H)
    close(e["stage"], s2, "surface after the iteration", rtol=1e-6, atol=1e-6)
    close(e["depth"], np.maximum(e["stage"].astype(float) - e["eta"], 0),
          "depth after the iteration", rtol=1e-6, atol=2e-6)
    ctx.label("valid walks", used)
    ctx.label("flooded", nfl)
    ctx.label("lifted", int((total > (H * visit + 1e-6)).sum()))
    return bool(used and (total > H * visit + 1e-6).any() or nfl)


def flooded(stage, depth, eta, dry):
    out, n = ref.flood(np.asarray(stage, float), depth, eta.astype(float), dry)
    return out, n


def compare_stage(ctx, got, exp, stage, depth, eta, dry, what):
    got = np.asarray(got, float)
    bad = ~(np.abs(got - exp) <= 3e-5 + 1e-5 * np.abs(exp))
    if bad.any():
        pd = ref.pad(np.abs(depth.astype(float) - dry) < 1e-6)
        ps = ref.pad(stage)
        for i, j in np.argwhere(bad):
            nb = ps[i:i + 3, j:j + 3]
            if pd[i:i + 3, j:j + 3].any() or \
                    (np.abs(nb - float(eta[i, j])) < 3e-5).any():
                bad[i, j] = False
                ctx.label("tie cell")
    if bad.any():
        i, j = (int(v) for v in np.argwhere(bad)[0])
        raise Violation("%s at (%d, %d) is %r, expected %r (before %r, bed %r, depth %r); "
                        "%d cells" % (what, i, j, float(got[i, j]), float(exp[i, j]),
                                      float(stage[i, j]), float(eta[i, j]),
                                      float(depth[i, j]), int(bad.sum())))


def run(case, ctx):
    m = waterstage.prepare_weights(case, ctx) if "w" in case else \
        waterstage.prepare(case, ctx)
    nt = False
    for it in waterstage.run(m):
        nt |= judge(ctx, m, it, case["cfg"])
    return nt


@st.composite
def flood_cases(draw):
    c = draw(gen.config(np_water=(1, 1), np_sed=(1, 1), subs=False))
    return {"cfg": c, "tex": draw(gen.texture()), "s": draw(st.integers(0, 10**6)),
            "p": draw(st.sampled_from([0.5, 0.2, 0.8, 0.95])),
            "off": draw(st.sampled_from([0.0, -5.0, 3.0]))}


def run_flood(case, ctx):
    """The flooding correction on arbitrary surfaces."""
    m = probe.build(ctx, case["cfg"])
    rng = np.random.RandomState(case["s"])
    sh = m.eta.shape
    dry = waterstage.dry_depth(case["cfg"])
    m.stage[:] = (gen.smooth_noise(rng, sh) + case["off"]).astype(np.float32)
    d = np.where(rng.random_sample(sh) < case["p"], 0,
                 dry * 0.5 + rng.random_sample(sh) * 2)
    m.depth[:] = d
    m.eta[:] = m.stage - m.depth + np.where(d == 0, rng.random_sample(sh), 0)
    b = probe.snap(m)
    m.flooding_correction()
    for k in b:
        if k != "stage" and not np.array_equal(b[k], getattr(m, k)):
            raise Violation("flooding changed " + k)
    exp, n = flooded(b["stage"], b["depth"], b["eta"], dry)
    compare_stage(ctx, m.stage, exp, b["stage"], b["depth"], b["eta"], dry,
                  "flooded surface")
    ctx.label("flooded", n)
    return n > 0


@st.composite
def step_cases(draw):
    return {"cfg": draw(gen.config(np_sed=(1, 8), np_water=(1, 12), big=True)),
            "tex": draw(gen.texture()), "n": draw(st.integers(1, 3))}


def run_steps(case, ctx):
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    nt = False
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        m.log_ = []
        m.update()
        for it in waterstage.iterations(m, m.log_):
            nt |= judge(ctx, m, it, case["cfg"])
        # the surface left by the time step: flooded once more, never under sea level
        f = dict(m.log_)["finalize"]
        dry = waterstage.dry_depth(case["cfg"])
        st_, _ = flooded(f["stage"].astype(float), f["depth"], f["eta"], dry)
        exp = np.maximum(st_, f["H_SL"])
        s = dict(m.log_)["sand_frac"]
        compare_stage(ctx, s["stage"], exp, f["stage"], f["depth"], f["eta"], dry,
                      "final surface")
    return nt


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stage", lambda tier: waterstage.cases(), run, 600, 15000),
         Part("weights", lambda tier: waterstage.weight_cases(), run, 160, 5000),
         Part("flood", lambda tier: flood_cases(), run_flood, 500, 10000),
         Part("steps", lambda tier: step_cases(), run_steps, 120, 3000)]
