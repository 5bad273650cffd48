"""C01 runs are a pure function of configuration and seed."""
import numpy as np
import pyDeltaRCM
from hypothesis import strategies as st
from pyDeltaRCM import shared_tools

from .. import gen, iosim, probe, waterstage
from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("the same configuration is run twice, the second time after a generated history "
        "(draws, reseeding, other models) and with generated output options; all fields "
        "are compared bit by bit after every step; non-trivial: the bed changed and the "
        "history or the options differ from the first run's")
BUDGET = {"quick": 45, "thorough": 700}

seeds = st.one_of(st.sampled_from([0, 1, 2**32 - 1, 2**31, 42]), st.integers(0, 2**32 - 1))


@st.composite
def options(draw):
    o = {}
    for k in iosim.GRID_OPTS:
        if draw(st.integers(0, 2)) == 0:
            o[k] = True
    if draw(st.integers(0, 30)) == 0:
        o["save_eta_figs"] = True
    if draw(st.booleans()):
        o["save_checkpoint"] = True
    if draw(st.booleans()):
        o["save_metadata"] = True
    o["verbose"] = draw(st.sampled_from([0, 1, 2]))
    o["save_dt"] = draw(st.sampled_from([1, 86400, 300000]))
    if draw(st.integers(0, 3)) == 0:
        o["legacy_netcdf"] = True
    return o


history = st.lists(st.one_of(
    st.tuples(st.just("draw"), st.integers(1, 50)),
    st.tuples(st.just("seed"), seeds),
    st.tuples(st.just("numpy"), st.integers(0, 1000)),
    st.tuples(st.just("model"), st.integers(1, 2)),
    st.tuples(st.just("build"), seeds)), max_size=3)


@st.composite
def cases(draw):
    c = draw(gen.config(np_water=(1, 12), np_sed=(1, 12), itermax=(1, 2)))
    c["seed"] = draw(seeds)
    return {"cfg": c, "a": draw(options()), "b": draw(options()),
            "hist": [list(h) for h in draw(history)], "n": draw(st.integers(1, 3)),
            "noseed": draw(st.integers(0, 3)) == 0, "np": draw(st.integers(0, 2**31)),
            "flip": draw(st.integers(0, 31))}


def act(ctx, h):
    kind, v = h
    if kind == "draw":
        for _ in range(v):
            shared_tools.get_random_uniform(1.0)
    elif kind == "seed":
        shared_tools.set_random_seed(v)
    elif kind == "numpy":
        np.random.seed(v)
        np.random.rand(3)
    else:
        cfg = dict(gen.SMALL)
        if kind == "build":
            cfg["seed"] = v
        m = quiet(pyDeltaRCM.DeltaModel, out_dir=ctx.path(), **cfg)
        if kind == "model":
            for _ in range(v):
                m.update()
            m.finalize()


def play(ctx, cfg, opt, n):
    out = ctx.path()
    m = quiet(pyDeltaRCM.DeltaModel, out_dir=out, **cfg, **opt)
    S = [iosim.state(m, qs=True)]
    for _ in range(n):
        quiet(m.update)
        S.append(iosim.state(m, qs=True))
    quiet(m.finalize)
    return m, S, out


def run(case, ctx):
    cfg = dict(case["cfg"])
    if case["noseed"]:
        cfg.pop("seed")
        np.random.seed(case["np"] % 2**32)
        if case["np"] % 2:
            cfg["seed"] = None
    m, A, outa = play(ctx, cfg, case["a"], case["n"])
    if case["noseed"]:
        s = m.seed
        if s is None or int(s) != s or not (0 <= int(s) < 2**32):
            raise Violation("no seed was given; the model reports seed %r" % (s,))
        cfg["seed"] = int(s)
        ctx.label("seed chosen by the model")
    elif int(m.seed) != cfg["seed"]:
        raise Violation("seed %r given, model reports %r" % (cfg["seed"], m.seed))
    txt = iosim.log_text(outa)
    if "Random seed is: %d" % cfg["seed"] not in txt:
        raise Violation("the log does not record seed %d" % cfg["seed"])
    for h in case["hist"]:
        act(ctx, h)
        ctx.label("history " + h[0])
    m2, B, outb = play(ctx, cfg, case["b"], case["n"])
    for k, (a, b) in enumerate(zip(A, B)):
        d = iosim.diff_state(a, b, skip=("save_iter",))
        if d:
            raise Violation("two runs of one configuration and seed %d differ after step "
                            "%d: %s (options %s / %s, history %s)"
                            % (cfg["seed"], k, d, case["a"], case["b"], case["hist"]))
    # a different seed: different random numbers
    c3 = dict(cfg)
    c3["seed"] = cfg["seed"] ^ (1 << case["flip"])
    quiet(pyDeltaRCM.DeltaModel, out_dir=ctx.path(), **c3)
    r = probe.rng_state()
    x, y = probe.Replay(A[0]["rng"]), probe.Replay(r)
    if [x.u() for _ in range(8)] == [y.u() for _ in range(8)]:
        raise Violation("seeds %d and %d give the same random numbers"
                        % (cfg["seed"], c3["seed"]))
    changed = bool((A[-1]["eta"] != A[0]["eta"]).any())
    return changed and (bool(case["hist"]) or case["a"] != case["b"])


@st.composite
def same_output(draw):
    c = draw(gen.config(np_water=(1, 8), np_sed=(1, 8), itermax=(1, 1)))
    o = {k: True for k in iosim.GRID_OPTS if draw(st.booleans())}
    o["save_eta_grids"] = True
    o["save_dt"] = draw(st.sampled_from([1, 86400]))
    return {"cfg": c, "opt": o, "hist": [list(h) for h in draw(history)],
            "n": draw(st.integers(1, 3)), "v": draw(st.sampled_from([0, 2])),
            "ck": draw(st.booleans())}


def run_output(case, ctx):
    """Output files of two runs hold the same numbers."""
    _, _, a = play(ctx, case["cfg"], case["opt"], case["n"])
    for h in case["hist"]:
        act(ctx, h)
    o = dict(case["opt"], verbose=case["v"], save_checkpoint=case["ck"])
    _, _, b = play(ctx, case["cfg"], o, case["n"])
    x, y = iosim.read_nc(a + "/" + iosim.NC), iosim.read_nc(b + "/" + iosim.NC)
    d = iosim.diff_nc(x, y, history=False)
    if d:
        raise Violation("output files of two runs differ: " + d)
    return len(x["vars"]["time"]["data"]) > 1


WHOLE = {"u0": 1, "h0": 1, "hb": 1, "dx": 1, "Length": 1, "Width": 1, "L0_meters": 1,
         "N0_meters": 1, "f_bedload": 0, "C0_percent": 1, "Csmooth": 0, "omega_sfc": 0,
         "omega_flow": 0, "theta_water": 0, "coeff_theta_sand": 0, "coeff_theta_mud": 0,
         "sed_lag": 1, "coeff_U_dep_mud": 0, "coeff_U_ero_mud": 1, "coeff_U_ero_sand": 1,
         "active_layer_thickness": 0, "sand_frac_bc": 0, "H_SL": -9}


@st.composite
def whole_numbers(draw):
    c = draw(gen.config(np_water=(1, 12), np_sed=(1, 12), itermax=(1, 2), subs=False))
    dx, gamma = c["dx"], waterstage.gamma(c)
    c["dx"] = float(max(1, round(dx)))
    for k in ("Length", "Width", "L0_meters", "N0_meters"):
        c[k] = round(c[k] / dx) * c["dx"]
    for k, lo in WHOLE.items():
        if k in c:
            c[k] = float(max(lo, round(c[k])))
    c["S0"] = round(gamma * c["u0"] ** 2 / (waterstage.G * c["dx"]), 9)
    return {"cfg": c, "n": draw(st.integers(1, 3))}


def run_whole(case, ctx):
    """A whole number given as integer or as float is the same value."""
    _, A, _ = play(ctx, case["cfg"], {}, case["n"])
    ci = {k: int(v) if k in WHOLE else v for k, v in case["cfg"].items()}
    _, B, _ = play(ctx, ci, {}, case["n"])
    for k, (a, b) in enumerate(zip(A, B)):
        d = iosim.diff_state(a, b)
        if d:
            raise Violation("whole numbers given as integers: after step %d: %s" % (k, d))
    return bool((A[-1]["eta"] != A[0]["eta"]).any())


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("runs", lambda tier: cases(), run, 320, 8000),
         Part("files", lambda tier: same_output(), run_output, 80, 2000),
         Part("whole", lambda tier: whole_numbers(), run_whole, 48, 1500)]
