"""C09 water parcel walks replayed from the recorded random state; discharge, velocity."""
import numpy as np

from .. import gen, probe, ref, waterstage
from ..domain import nominal
from ..engine import Discard, Part, Violation
from ..sedstage import close

RULE = ("generated configuration and disturbed state; every water iteration is replayed "
        "parcel by parcel with the recorded generator state and the weights in use (part "
        "weights: with generated step probabilities that give long walks and loops); "
        "non-trivial: a parcel took more than 3 steps and the walk was judged")
ASSUMPTIONS = ["step probabilities are those of C08",
               "an iteration in which a parcel leaves upstream through the inlet row "
               "(known finding) is judged only for flow and velocity"]
BUDGET = {"quick": 45, "thorough": 600}


def judge_walk(ctx, m, it, cfg):
    a, b = it["run"], it["walked"]
    n = int(cfg["Np_water"])
    rep = probe.Replay(a["rng"])
    Q, A = nominal(cfg)
    dx, Qp, inlet = float(cfg["dx"]), Q["Qp_water"], A["inlet"]
    W = m.cell_type.shape[1]
    w = np.asarray(b["water_weights"], float)
    inds = np.asarray(b["free_surf_walk_inds"])
    if inds.shape[0] != n:
        raise Violation("%d walks recorded for %d parcels" % (inds.shape[0], n))
    if not np.isin(inds[:, 0], inlet).all():
        raise Violation("a parcel does not start at the inlet")
    try:
        walks, flag, qx, qy, qw, info = ref.water_walk(
            rep, w, list(inlet), np.ones(len(inlet)), n, Q["stepmax"], Q["L0"],
            Q["CTR"], a["stage"], a["H_SL"], m.cell_type, Qp, dx)
    except ref.UpstreamExit:
        ctx.note_known("inlet-upstream-step")
        return False
    except ref.Ambiguous:
        ctx.label("tie")
        return False
    k = info["steps"] + 1
    exp = np.array(walks).reshape(n, -1)
    got = np.zeros((n, max(k, inds.shape[1])), int)
    got[:, :inds.shape[1]] = inds
    if not np.array_equal(got[:, :k], exp) or got[:, k:].any():
        e2 = np.zeros_like(got)
        e2[:, :k] = exp
        p, s = (int(v) for v in np.argwhere(got != e2)[0])
        raise Violation("parcel %d, step %d: at cell %s, expected %s (previous %s)"
                        % (p, s, divmod(int(got[p, s]), W), divmod(int(e2[p, s]), W),
                           divmod(int(e2[p, s - 1]), W)))
    if not probe.same_rng(rep.state(), b["rng"]):
        raise Violation("the walks used a different number of random numbers")
    fl = np.asarray(b["free_surf_flag"]).ravel()
    if not np.array_equal(fl != 0, flag != 0):
        raise Violation("validity of walks is %s, expected %s" % (fl, flag))
    mask = np.ones(m.cell_type.shape, bool)
    mask[0, inlet] = False
    if (np.asarray(b["qwn"])[(m.cell_type == -2)] != 0).any():
        raise Violation("water discharge on land")
    rt = 1e-5 + 6e-8 * float(qw.max()) / (Qp / dx / 2)      # single precision sums
    close(np.where(mask, b["qxn"], 0), np.where(mask, qx, 0), "direction of steps (x)",
          rtol=rt, atol=1e-5 * n + 10 * rt)
    close(np.where(mask, b["qyn"], 0), np.where(mask, qy, 0), "direction of steps (y)",
          rtol=rt, atol=1e-5 * n + 10 * rt)
    close(np.where(mask, b["qwn"], 0), np.where(mask, qw, 0), "discharge of steps",
          rtol=rt, atol=1e-5, scale=Qp / dx)
    ctx.label("parcels", n)
    ctx.label("relocated", info["loops"])
    ctx.label("loops of more than 32 steps", int(info["back"] > 32))
    ctx.label("loops of more than 64 steps", int(info["back"] > 64))
    ctx.label("invalid walks", int((flag == 0).sum()))
    ctx.label("stopped by step limit", int(info["steps"] == Q["stepmax"]))
    for k in ("eta", "stage", "depth", "qx", "qy", "qw", "uw", "ux", "uy"):
        if not np.array_equal(a[k], b[k]):
            raise Violation("walking the parcels changed " + k)
    return info["steps"] > 3


def judge_flow(ctx, m, it, cfg, k_iter):
    a, b = it["surface"], it["end"]
    if it["start"]["time_iter"] > 0:
        om = float(cfg["omega_flow"]) if k_iter == 0 else 2.0 / int(cfg["itermax"])
    else:
        om = None
    Q, A = nominal(cfg)
    x, y, w = ref.flow_field(a["qxn"], a["qyn"], a["qwn"], a["qx"], a["qy"], om, A["inlet"],
                             Q["qw0"])
    sc = max(1.0, float(np.abs(w).max()))
    close(b["qx"], x, "discharge qx", rtol=1e-4, atol=1e-5, scale=sc)
    close(b["qy"], y, "discharge qy", rtol=1e-4, atol=1e-5, scale=sc)
    close(b["qw"], w, "discharge qw", rtol=1e-4, atol=1e-5, scale=sc)
    dry = waterstage.dry_depth(cfg)
    umax = 2.0 * float(cfg["u0"])
    u, ux, uy = ref.velocity(b["qx"], b["qy"], b["qw"], b["depth"], dry, umax)
    amb = np.abs(b["depth"].astype(float) - dry) < 1e-6
    for k, e in (("uw", u), ("ux", ux), ("uy", uy)):
        close(np.where(amb, 0, b[k]), np.where(amb, 0, e), "velocity " + k, rtol=1e-4,
              atol=1e-5)
    if k_iter > 0:
        ctx.label("later iteration")


def run(case, ctx):
    m = waterstage.prepare_weights(case, ctx) if "w" in case else \
        waterstage.prepare(case, ctx)
    nt = False
    its = waterstage.run(m)
    if len(its) != int(case["cfg"]["itermax"]):
        raise Violation("%d water iterations, configured %d"
                        % (len(its), case["cfg"]["itermax"]))
    for k, it in enumerate(its):
        nt |= judge_walk(ctx, m, it, case["cfg"])
        judge_flow(ctx, m, it, case["cfg"], k)
    return nt


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.route_water()


PARTS = [Part("stage", lambda tier: waterstage.cases(np_water=(1, 10)), run, 900, 20000),
         Part("single", lambda tier: waterstage.cases(np_water=(1, 2), itermax=(1, 1)),
              run, 600, 10000),
         Part("weights", lambda tier: waterstage.weight_cases(), run, 200, 6000)]
