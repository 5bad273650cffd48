"""C23 laws of the shared numerical helpers."""
import math

import numpy as np
from hypothesis import strategies as st
from pyDeltaRCM import preprocessor, shared_tools as S

from .. import gen, probe
from ..engine import Discard, Part, Violation

RULE = ("generated shapes, indices, arrays, weights, seeds, times and factors; results are "
        "compared with numpy, with an independent replay of the generator, or with the "
        "closed formula; non-trivial: more than one possible answer (array of more than one "
        "cell, more than one positive weight, factor different from one)")
ASSUMPTIONS = ["negative indices are not judged",
               "draws within 1e-12 of a cumulative weight are not judged"]
BUDGET = {"quick": 40, "thorough": 400}


@st.composite
def index_cases(draw):
    big = st.one_of(st.integers(1, 12), st.integers(1, 2000))
    shape = [draw(big), draw(big)]
    n = shape[0] * shape[1]
    i = draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1, n, n + 1]),
                       st.integers(n, 3 * n + 3)))
    t = [draw(st.one_of(st.integers(0, k - 1), st.sampled_from([0, k - 1, k, k + 1]),
                        st.integers(0, 2 * k))) for k in shape]
    return {"shape": shape, "i": i, "t": t}


def refused(f, *a):
    try:
        r = f(*a)
    except (IndexError, ValueError):
        return None
    return r


def run_index(case, ctx):
    sh = tuple(case["shape"])
    n = sh[0] * sh[1]
    i, t = case["i"], tuple(case["t"])
    r = refused(S.custom_unravel, i, sh)
    if i >= n:
        if r is not None:
            raise Violation("custom_unravel(%d, %s) gives %s, outside of the array"
                            % (i, sh, r))
        ctx.label("unravel refused")
    else:
        w = tuple(int(x) for x in np.unravel_index(i, sh))
        if r is None or tuple(r) != w:
            raise Violation("custom_unravel(%d, %s) gives %s, expected %s" % (i, sh, r, w))
        b = S.custom_ravel((int(r[0]), int(r[1])), sh)
        if b != i:
            raise Violation("ravel of unravelled %d in %s gives %s" % (i, sh, b))
    r = refused(S.custom_ravel, t, sh)
    if t[0] >= sh[0] or t[1] >= sh[1]:
        if r is not None:
            raise Violation("custom_ravel(%s, %s) gives %s, outside of the array"
                            % (t, sh, r))
        ctx.label("ravel refused")
    else:
        w = int(np.ravel_multi_index(t, sh))
        if r != w:
            raise Violation("custom_ravel(%s, %s) gives %s, expected %s" % (t, sh, r, w))
        b = tuple(int(x) for x in S.custom_unravel(int(r), sh))
        if b != t:
            raise Violation("unravel of ravelled %s in %s gives %s" % (t, sh, b))
    return n > 1


@st.composite
def pad_cases(draw):
    return {"shape": [draw(st.integers(1, 14)), draw(st.integers(1, 14))],
            "seed": draw(st.integers(0, 10**6)),
            "type": draw(st.sampled_from(["float32", "float64", "int64"])),
            "nan": draw(st.booleans()), "order": draw(st.sampled_from(["C", "T"]))}


def run_pad(case, ctx):
    r = np.random.RandomState(case["seed"])
    a = (r.standard_normal(case["shape"]) * 1000).astype(case["type"])
    if case["nan"] and a.dtype.kind == "f":
        a[r.random_sample(a.shape) < 0.2] = np.nan
    if case["order"] == "T":
        a = np.ascontiguousarray(a.T)
    keep = a.copy()
    p = S.custom_pad(a)
    w = np.pad(a, 1, "edge")
    if p.shape != w.shape or p.dtype != w.dtype or \
            not np.array_equal(p, w, equal_nan=a.dtype.kind == "f"):
        raise Violation("padding of a %s %s array differs from edge padding" % (
            a.shape, a.dtype))
    if not np.array_equal(a, keep, equal_nan=a.dtype.kind == "f"):
        raise Violation("padding changed its argument")
    p[1:-1, 1:-1] = 0
    if not np.array_equal(a, keep, equal_nan=a.dtype.kind == "f"):
        raise Violation("the padded array shares memory with its argument")
    return a.size > 1


weight = st.one_of(st.just(0.0), gen.num(0.0, 1, 3), gen.num(0.1, 50, 1),
                   st.sampled_from([1e-12, 1e6, 1.0]))


@st.composite
def pick_cases(draw):
    n = draw(st.one_of(st.just(9), st.integers(1, 30)))
    w = draw(st.lists(weight, min_size=n, max_size=n))
    if not any(w):
        w[draw(st.integers(0, n - 1))] = 1.0
    return {"w": w, "seed": draw(st.integers(0, 2**32 - 1)), "n": draw(st.integers(1, 60)),
            "type": draw(st.sampled_from(["float64", "float32"]))}


def run_pick(case, ctx):
    w = np.array(case["w"], case["type"])
    S.set_random_seed(case["seed"])
    rep = probe.Replay(probe.rng_state())
    cum = np.cumsum(w)
    keep = w.copy()
    for k in range(case["n"]):
        i = S.random_pick(w)
        u = rep.u() * float(cum[-1])
        tol = (1e-12 if w.dtype == np.float64 else 3e-7) * float(cum[-1])
        if not 0 <= i < len(w):
            raise Violation("pick %r from %d weights" % (i, len(w)))
        if w[i] == 0 and u > 0:
            raise Violation("pick of index %d with weight zero from %s" % (i, case["w"]))
        lo = float(cum[i]) - float(w[i])
        if not (lo - tol <= u <= float(cum[i]) + tol):
            raise Violation("draw %d (%r of %r) picks index %d of %s, which covers %r to %r"
                            % (k, u, float(cum[-1]), i, case["w"], lo, float(cum[i])))
    if not np.array_equal(w, keep):
        raise Violation("picking changed the weights")
    if not probe.same_rng(rep.state(), probe.rng_state()):
        raise Violation("%d picks did not draw %d random numbers" % (case["n"], case["n"]))
    return int((w > 0).sum()) > 1


@st.composite
def start_cases(draw):
    n = draw(st.integers(1, 12))
    w = draw(st.one_of(st.none(), st.lists(weight, min_size=n, max_size=n)))
    if w is not None and not any(w):
        w[0] = 1.0
    return {"first": draw(st.integers(0, 500)), "size": n, "w": w,
            "gap": draw(st.integers(1, 3)), "num": draw(st.integers(1, 80)),
            "seed": draw(st.integers(0, 2**32 - 1))}


def run_start(case, ctx):
    inlet = case["first"] + case["gap"] * np.arange(case["size"])
    if case["w"] is None:
        w = S.get_inlet_weights(inlet)
        if len(w) != len(inlet) or len(set(np.asarray(w).tolist())) != 1 or w[0] <= 0:
            raise Violation("default inlet weights are not uniform: %s" % w)
    else:
        w = np.array(case["w"])
    S.set_random_seed(case["seed"])
    rep = probe.Replay(probe.rng_state())
    got = S.get_start_indices(inlet, w, case["num"])
    if len(got) != case["num"]:
        raise Violation("%d start points, %d were asked for" % (len(got), case["num"]))
    wn = np.asarray(w, float) / np.sum(w)
    cum = np.cumsum(wn)
    for k, g in enumerate(got):
        u = rep.u() * cum[-1]
        i = np.flatnonzero(inlet == g)
        if not len(i):
            raise Violation("start point %r is not an inlet cell" % g)
        i = int(i[0])
        if wn[i] == 0 and u > 0:
            raise Violation("start at an inlet cell of weight zero")
        if not (cum[i] - wn[i] - 1e-12 <= u <= cum[i] + 1e-12):
            raise Violation("draw %r starts at inlet cell %d of weights %s" % (
                u, i, wn.tolist()))
    return case["size"] > 1


@st.composite
def rng_cases(draw):
    ops = st.one_of(st.tuples(st.just("draw"), st.integers(1, 700)),
                    st.tuples(st.just("save"), st.integers(0, 2)),
                    st.tuples(st.just("load"), st.integers(0, 2)),
                    st.tuples(st.just("pick"), st.integers(1, 9)),
                    st.tuples(st.just("seed"), st.integers(0, 2**32 - 1)))
    return {"seed": draw(st.integers(0, 2**32 - 1)),
            "limit": draw(st.sampled_from([1, 1.0, 0.25, 17.5])),
            "ops": [list(o) for o in draw(st.lists(ops, min_size=1, max_size=12))]}


def run_rng(case, ctx):
    S.set_random_seed(case["seed"])
    r = np.random.RandomState(case["seed"])
    slots = {}
    lim = case["limit"]
    nt = False
    for op, k in case["ops"]:
        if op == "draw":
            for j in range(k):
                g, w = S.get_random_uniform(lim), r.random_sample() * lim
                if not 0 <= g <= lim or abs(g - w) > 1e-12 * lim:
                    raise Violation("draw %d is %r, the documented generator gives %r"
                                    % (j, g, w))
        elif op == "pick":
            S.random_pick(np.ones(k))
            r.random_sample()
        elif op == "seed":
            S.set_random_seed(k)
            r = np.random.RandomState(k)
        elif op == "save":
            slots[k] = (S.get_random_state(), r.get_state())
        elif op == "load" and k in slots:
            S.set_random_state(slots[k][0])
            r = np.random.RandomState()
            r.set_state(slots[k][1])
            ctx.label("restored")
            nt = True
    if abs(S.get_random_uniform(1) - r.random_sample()) > 1e-15:
        raise Violation("the generator left the expected sequence after %s" % case["ops"])
    return nt


FACTOR = {"seconds": 1.0, "days": 86400.0, "years": 365.25 * 86400.0}


@st.composite
def scale_cases(draw):
    return {"t": draw(st.one_of(st.integers(0, 10**6), gen.num(0, 10**9, 2), st.just(0),
                                st.just(1e12))),
            "If": draw(st.one_of(gen.num(0.001, 1, 3), st.sampled_from(
                [1, 1.0, 0, 0.0, -0.1, 1.0000001, 2, -1, 1e-6]))),
            "units": draw(st.sampled_from(["seconds", "days", "years", None, "hours"])),
            "mmyr": draw(gen.num(-20, 20, 2))}


def run_scale(case, ctx):
    t, If, units = case["t"], case["If"], case["units"]
    args = (t, If) if units is None else (t, If, units)
    ok = 0 < If <= 1 and units != "hours"
    try:
        r = S.scale_model_time(*args)
    except ValueError:
        if ok:
            raise Violation("scale_model_time%r is refused" % (args,))
        ctx.label("refused")
        return True
    if not ok:
        raise Violation("scale_model_time%r gives %r" % (args, r))
    f = FACTOR[units or "seconds"] * If
    if not math.isclose(r, t / f, rel_tol=1e-12):
        raise Violation("scale_model_time%r gives %r, expected %r" % (args, r, t / f))
    if not math.isclose(r * f, t, rel_tol=1e-12):
        raise Violation("scaled time does not scale back")
    s = preprocessor.scale_relative_sea_level_rise_rate(case["mmyr"], If)
    w = case["mmyr"] / 1000 / (If * 365.25 * 86400)
    if not math.isclose(s, w, rel_tol=1e-12):
        raise Violation("scaled sea level rate of %r mm/yr at %r is %r, expected %r" % (
            case["mmyr"], If, s, w))
    # one real year of sea level rise
    year = 1 / S.scale_model_time(1.0, If, "years")
    if not math.isclose(s * year, case["mmyr"] / 1000, rel_tol=1e-9, abs_tol=1e-300):
        raise Violation("the sea level rises %r m in a year at %r, not %r mm" % (
            s * year, If, case["mmyr"]))
    return If != 1


@st.composite
def weight_cases(draw):
    v = gen.num(-3, 3, 2)
    return {"stage": draw(v), "nbrs": draw(st.lists(v, min_size=9, max_size=9)),
            "qx": draw(v), "qy": draw(v), "dx": draw(st.sampled_from([1.0, 50.0]))}


R2 = 2 ** 0.5
OFF = [(i, j) for i in (-1, 0, 1) for j in (-1, 0, 1)]


def run_weight(case, ctx):
    ivec = np.array([i / max(1.0, math.hypot(i, j)) for i, j in OFF])
    jvec = np.array([j / max(1.0, math.hypot(i, j)) for i, j in OFF])
    dist = np.array([math.hypot(i, j) or 1.0 for i, j in OFF])
    n = np.array(case["nbrs"])
    a, b = S.get_weight_sfc_int(case["stage"], n, case["qx"], case["qy"], ivec, jvec, dist)
    wa = [max(0.0, (case["stage"] - n[k]) / dist[k]) for k in range(9)]
    wb = [max(0.0, (case["qx"] * jvec[k] + case["qy"] * ivec[k]) / dist[k])
          for k in range(9)]
    if not np.allclose(a, wa, rtol=1e-9, atol=1e-12):
        raise Violation("surface weights are %s, expected %s" % (a.tolist(), wa))
    if not np.allclose(b, wb, rtol=1e-9, atol=1e-12):
        raise Violation("inertia weights are %s, expected %s" % (b.tolist(), wb))
    for k, (i, j) in enumerate(OFF):
        d, si, sj, moved = S.get_steps(k, np.array([o[0] for o in OFF]),
                                       np.array([o[1] for o in OFF]))
        if (si, sj) != (i, j) or abs(d - math.hypot(i, j)) > 1e-12 or bool(moved) != (
                k != 4):
            raise Violation("step in direction %d is %s" % (k, (d, si, sj, moved)))
    return any(x > 0 for x in wa) and any(x > 0 for x in wb)


def warmup(ctx):
    S.custom_pad(np.zeros((2, 2)))
    S.random_pick(np.ones(9))


PARTS = [
    Part("index", lambda tier: index_cases(), run_index, 4000, 100000),
    Part("pad", lambda tier: pad_cases(), run_pad, 1500, 30000),
    Part("pick", lambda tier: pick_cases(), run_pick, 2000, 60000),
    Part("start", lambda tier: start_cases(), run_start, 1200, 30000),
    Part("rng", lambda tier: rng_cases(), run_rng, 1200, 20000),
    Part("scale", lambda tier: scale_cases(), run_scale, 2000, 40000),
    Part("weights", lambda tier: weight_cases(), run_weight, 1000, 20000),
]
