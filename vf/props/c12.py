"""C12 surface sand fraction against the rule-by-rule reference."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, probe, ref
from ..engine import Part, Violation
from ..sedstage import close

RULE = ("part stage: generated beds before/after, deposits, fractions and layer thickness; "
        "part steps: full time steps recorded at hooks; non-trivial: at least two of the "
        "rules (deposit, erosion within, erosion below the layer, unchanged) apply")
BUDGET = {"quick": 40, "thorough": 500}


@st.composite
def cases(draw):
    c = draw(gen.config(np_water=(1, 2), np_sed=(1, 3), subs=False))
    return {"cfg": c, "s": draw(st.integers(0, 10**6)),
            "p_dep": draw(st.sampled_from([0.3, 0.0, 1.0, 0.6])),
            "p_chg": draw(st.sampled_from([0.6, 0.0, 1.0])),
            "amp": draw(st.sampled_from([1.0, 0.01, 5.0])),
            "mode": draw(st.sampled_from(["both", "sand", "mud", "tiny"])),
            "n": draw(st.integers(1, 3))}


def judge(ctx, exp, sf, al, what):
    esf, eal, deg, deep, act, dep = exp
    close(sf, esf, "sand fraction " + what, rtol=1e-5, atol=1e-5)
    close(al, eal, "active layer " + what, rtol=1e-5, atol=1e-5)
    n = 0
    for name, k in (("deep", deep & ~dep), ("active", act & ~dep), ("deposit", dep),
                    ("kept", ~deg & ~dep), ("eroded and deposited", deg & dep)):
        if k.any():
            n += 1
            ctx.label(name)
    return n


def run(case, ctx):
    m = probe.build(ctx, case["cfg"])
    rng = np.random.RandomState(case["s"])
    sh = m.eta.shape
    rules = 0
    m.sand_frac[:] = rng.random_sample(sh)
    m.active_layer[:] = rng.random_sample(sh)
    thick = case["cfg"].get("active_layer_thickness")
    thick = float(case["cfg"]["h0"]) / 2 if thick is None else float(thick)
    for _ in range(case["n"]):
        m.eta0 = np.array(m.eta)
        de = (rng.random_sample(sh) - 0.5) * 2 * case["amp"]
        de[rng.random_sample(sh) > case["p_chg"]] = 0
        near = np.abs(de + thick) < 1e-3      # not on the layer boundary
        de[near] = 0
        m.eta[:] = m.eta0 + de.astype(np.float32)
        s = rng.random_sample(sh) * 50
        u = rng.random_sample(sh) * 50
        s[rng.random_sample(sh) > case["p_dep"]] = 0
        u[rng.random_sample(sh) > case["p_dep"]] = 0
        if case["mode"] == "sand":
            u[:] = 0
        elif case["mode"] == "mud":
            s[:] = 0
        elif case["mode"] == "tiny":
            u *= 1e-9       # below what counts as a deposit
        m.Vp_dep_sand[:] = s
        m.Vp_dep_mud[:] = u
        b = probe.snap(m, ("eta0",))
        m.compute_sand_frac()
        a = probe.snap(m, ("eta0",))
        for k in b:
            if k not in ("sand_frac", "active_layer") and not np.array_equal(a[k], b[k]):
                raise Violation("computing the sand fraction changed " + k)
        exp = ref.sand_fraction(b["eta"], b["eta0"], b["Vp_dep_sand"], b["Vp_dep_mud"],
                                b["sand_frac"], b["active_layer"], thick,
                                float(case["cfg"]["sand_frac_bc"]))
        rules = max(rules, judge(ctx, exp, a["sand_frac"], a["active_layer"], "(stage)"))
        if (a["sand_frac"] < 0).any() or (a["sand_frac"] > 1 + 1e-6).any():
            raise Violation("sand fraction outside [0, 1]")
    return rules >= 2


@st.composite
def step_cases(draw):
    return {"cfg": draw(gen.config(np_sed=(2, 16), np_water=(1, 8), big=True, itermax=(1, 1))),
            "tex": draw(gen.texture()), "n": draw(st.integers(1, 4))}


def run_steps(case, ctx):
    m = probe.build(ctx, case["cfg"], probe.Recorder)
    thick = case["cfg"].get("active_layer_thickness")
    thick = float(case["cfg"]["h0"]) / 2 if thick is None else float(thick)
    rules = 0
    for k in range(case["n"]):
        if k == 1:
            gen.disturb(m, case["tex"])
        e0 = np.array(m.eta)
        sf0, al0 = np.array(m.sand_frac), np.array(m.active_layer)
        m.log_ = []
        m.update()
        s = dict(m.log_)["sand_frac"]
        fin = dict(m.log_)["after_finalize"]
        if not (np.array_equal(s["sand_frac"], sf0) and np.array_equal(s["active_layer"], al0)):
            raise Violation("sand fraction changed outside its update")
        if not np.array_equal(s["eta"], np.array(m.eta)):
            raise Violation("bed changed after the sand fraction was computed")
        amb = np.abs((s["eta"].astype(float) - e0) + thick) < 1e-5
        exp = ref.sand_fraction(s["eta"], e0, s["Vp_dep_sand"], s["Vp_dep_mud"], sf0, al0,
                                thick, float(case["cfg"]["sand_frac_bc"]))
        sf, al = np.array(m.sand_frac), np.array(m.active_layer)
        sf[amb] = exp[0][amb]
        rules = max(rules, judge(ctx, exp, sf, al, "(step %d)" % k))
        del fin
    return rules >= 2


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stage", lambda tier: cases(), run, 1200, 20000),
         Part("steps", lambda tier: step_cases(), run_steps, 160, 4000)]
