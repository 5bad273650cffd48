"""C07 sand and mud parcels: replayed parcel by parcel against the reference."""
import numpy as np

from .. import gen, probe, sedstage
from ..engine import Discard, Part, Violation

RULE = ("generated configuration and disturbed bed/flow state; the sand and the mud "
        "stage are replayed from the recorded generator state; non-trivial: at least "
        "one parcel deposited or eroded and no decision was a tie")
ASSUMPTIONS = ["the reference (vf/ref.py) is the documented rule set",
               "ties within 2e-5 (relative) are discarded, not judged"]
BUDGET = {"quick": 45, "thorough": 600}


def compare(ctx, m, R, a, b, rep, kind):
    if not probe.same_rng(rep.state(), b["rng"]):
        raise Violation("%s: the parcels drew a different number of random numbers "
                        "(paths differ): expected %s" % (kind, R.info[kind][:3]))
    sc = {"qs": float(m.qs0) + 1e-12, "Vp_dep_sand": float(m.Vp_sed),
          "Vp_dep_mud": float(m.Vp_sed)}
    for k in sedstage.KEYS:
        if kind == "mud" and k == "qs":
            if not np.array_equal(a["qs"], b["qs"]):
                raise Violation("mud routing changed the sand flux")
            continue
        sedstage.close(b[k], getattr(R, k), "%s after %s routing" % (k, kind),
                       rtol=2e-3 if k in ("uw", "ux", "uy") else 3e-4,
                       scale=max(1.0, sc.get(k, 1.0)) if k in sc else 1.0)
    for k in ("stage", "qw", "qx", "qy", "sand_frac", "active_layer"):
        if not np.array_equal(a[k], b[k], equal_nan=True):
            raise Violation("%s routing changed %s" % (kind, k))
    for k, v in R.cnt.items():
        ctx.label(kind + "." + k, v)


def run(case, ctx):
    m, before, d = sedstage.run_stage(case, ctx)
    judged = 0
    ties = 0
    for kind in ("sand", "mud"):
        try:
            R, a, b, rep = sedstage.replay(m, d, kind, cfg=case["cfg"])
        except Discard:
            ties += 1
            ctx.label("tie." + kind)
            continue
        compare(ctx, m, R, a, b, rep, kind)
        judged += sum(R.cnt.get(k, 0) for k in
                      ("sand_dep", "sand_ero", "mud_dep", "mud_ero"))
    if ties == 2:
        raise Discard("tie")
    return judged > 0


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.route_sediment()


PARTS = [
    Part("stage", lambda tier: sedstage.cases(), run, 900, 20000),
    Part("single", lambda tier: sedstage.cases(np_sed=(1, 3)), run, 500, 10000),
]
