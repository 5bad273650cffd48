"""C06 sediment budget: supply, split, bed volume change, export."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, ref, sedstage
from ..domain import nominal
from ..engine import Discard, Part, Violation

RULE = ("generated configuration and disturbed state (part stage) or a run of full time "
        "steps (part steps); volumes are summed over cells and compared with the parcels' "
        "volumes; non-trivial: the bed volume changed")
ASSUMPTIONS = ["volumes of parcels that leave are taken from a replay of the parcels' "
               "walks with the recorded random numbers"]
BUDGET = {"quick": 45, "thorough": 600}


def find_count(m, d, kind, target, cfg):
    """Number of parcels of this kind which were routed, from the draws used."""
    cands = []
    for k in (int(target), int(round(target)), int(target) + 1, int(target) - 1):
        if 0 <= k <= int(m.Np_sed) + 1 and k not in cands:
            cands.append(k)
    tie, match = None, []
    for n in cands:
        try:
            R, a, b, rep = sedstage.replay(m, d, kind, n, cfg=cfg)
        except Discard as e:
            tie = e
            continue
        if probe.same_rng(rep.state(), b["rng"]):
            # (another number of parcels can use as many random numbers by chance)
            bad = (np.abs(b["eta"].astype(float) - R.eta)
                   > 1e-3 + 1e-3 * np.abs(R.eta)).sum()
            if bad == 0:
                return n, R, a, b
            match.append((int(bad), len(match), n, R, a, b))
    if match and tie is None:
        return min(match)[2:]
    if tie is not None:
        raise tie
    raise Violation("%s: no number of parcels near %s explains the random numbers used; "
                    "parcels are not routed as described" % (kind, target))


def budget(ctx, m, d, cfg):
    Q, A = nominal(cfg)
    Np, f = int(cfg["Np_sed"]), float(cfg["f_bedload"])
    dx2 = float(cfg["dx"]) ** 2
    Vp = float(m.Vp_sed)
    # supply over a time step
    supply = Q["Qs0"]
    if abs(Np * Vp - supply * float(m.dt)) > 1e-5 * supply * float(m.dt):
        raise Violation("parcels carry %r in a time step, supply is %r"
                        % (Np * Vp, supply * float(m.dt)))
    counts = {}
    changed = False
    for kind in ("sand", "mud"):
        target = Np * (f if kind == "sand" else (1 - f))
        n, R, a, b = find_count(m, d, kind, target, cfg)
        counts[kind] = n
        de = b["eta"].astype(float) - a["eta"].astype(float)
        dvol = de.sum() * dx2
        info = R.info[kind]
        lost = sum(Vp - x[4] for x in info)
        nvis = sum(x[1] for x in info)
        mag = sum(x[2] + x[3] for x in info)
        tol = 2e-3 * mag + 1e-5 * Vp * max(n, 1) \
            + dx2 * 1e-6 * (np.abs(a["eta"]).max() + 1) * max(1.0, nvis) ** 0.5 * 3
        if abs(dvol - lost) > tol:
            raise Violation("%s: bed volume changed by %r, parcels lost %r"
                            % (kind, dvol, lost))
        if dvol > n * Vp + tol:
            raise Violation("%s: more volume deposited (%r) than supplied (%r)"
                            % (kind, dvol, n * Vp))
        for x in info:
            if x[4] < -1e-5 * Vp:
                raise Violation("%s: a parcel deposited more than it carried" % kind)
        own, other = ("Vp_dep_sand", "Vp_dep_mud") if kind == "sand" else \
            ("Vp_dep_mud", "Vp_dep_sand")
        dep = b[own].astype(float) - a[own].astype(float)
        if (dep < 0).any() or not np.array_equal(a[other], b[other]):
            raise Violation("%s: deposited volumes are wrong" % kind)
        # per cell: bed change = deposited - eroded
        ero = dep - de * dx2
        cell_tol = 1e-3 * (np.abs(dep) + np.abs(de) * dx2) + \
            dx2 * 3e-6 * (np.abs(a["eta"]) + 1) * np.sqrt(1.0 + nvis)
        if (ero < -cell_tol).any():
            k = tuple(int(v) for v in np.argwhere(ero < -cell_tol)[0])
            raise Violation("%s: the bed of cell %s rose by %r m3 but only %r m3 was "
                            "deposited" % (kind, k, float(de[k] * dx2), float(dep[k])))
        if abs(dep.sum() - sum(x[2] for x in info)) > tol:
            raise Violation("%s: deposited %r, parcels deposited %r"
                            % (kind, dep.sum(), sum(x[2] for x in info)))
        vis = np.zeros(de.shape, bool)
        for c in R.visited:
            vis[c] = True
        if (de[~vis] != 0).any():
            raise Violation("%s: bed changed where no parcel went" % kind)
        for s in info:
            if s[0] not in list(A["inlet"]):
                raise Violation("%s parcel enters outside the inlet" % kind)
        ctx.label(kind + ".parcels", n)
        if info:
            ctx.label("exported" if sum(x[4] for x in info) > 0 else "nothing exported")
        changed |= mag > 0
    tot = counts["sand"] + counts["mud"]
    if tot != Np:
        if (tot == Np - 1 and counts["sand"] == int(Np * f)
                and counts["mud"] == int(Np * (1 - f))):
            ctx.note_known("parcel-count-truncated")
        else:
            raise Violation("%d sand and %d mud parcels routed, %d supplied"
                            % (counts["sand"], counts["mud"], Np))
    if abs(counts["sand"] - Np * f) >= 1 + 1e-9:
        raise Violation("%d sand parcels of %d for bedload fraction %r"
                        % (counts["sand"], Np, f))
    return changed


def run_stage(case, ctx):
    m, before, d = sedstage.run_stage(case, ctx)
    if not np.array_equal(before["eta"], d["sand"]["eta"]):
        raise Violation("bed changed before sediment was routed")
    for k in ("qs", "Vp_dep_sand", "Vp_dep_mud"):
        if d["sand"][k].any():
            raise Violation("%s not cleared before routing" % k)
    return budget(ctx, m, d, case["cfg"])


@st.composite
def step_cases(draw):
    return {"cfg": draw(gen.config(np_sed=(1, 12), np_water=(1, 12), big=True)),
            "tex": draw(gen.texture()), "n": draw(st.integers(1, 3))}


def run_steps(case, ctx):
    """All bed changes of full time steps are attributed to a process."""
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    changed = False
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        e0 = np.array(m.eta)
        m.log_ = []
        m.update()
        names = [n for n, _ in m.log_]
        L = dict(m.log_)
        for n, s in m.log_:
            if n in ("init_water", "run_water", "free_surface", "finalize_water",
                     "after_water", "init_sed", "sand"):
                if not np.array_equal(s["eta"], e0):
                    raise Violation("water routing changed the bed (%s)" % n)
        land = (m.cell_type == -2) | (np.arange(m.L)[:, None] == 0)
        dd = L["mud"]["eta"] != L["diffusion"]["eta"]
        if dd[land].any():
            raise Violation("diffusion changed fixed cells")
        if not np.array_equal(L["after_sed"]["eta"], L["subsidence"]["eta"]):
            raise Violation("bed changed after routing")
        ds = L["finalize"]["eta"].astype(float) - L["subsidence"]["eta"].astype(float)
        if not m.toggle_subsidence and ds.any():
            raise Violation("bed subsides although subsidence is off")
        de = np.array(m.eta) != L["finalize"]["eta"]
        de[0, m.inlet] = False
        if de.any():
            raise Violation("finalising changed the bed outside of the inlet")
        assert "sand_frac" in names
        try:
            changed |= budget(ctx, m, L, case["cfg"])
        except Discard:
            ctx.label("tie")
    return changed


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [
    Part("stage", lambda tier: sedstage.cases(), run_stage, 900, 20000),
    Part("steps", lambda tier: step_cases(), run_steps, 160, 4000),
]
