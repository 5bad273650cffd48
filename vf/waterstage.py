"""Shared harness: run water iterations on a generated state, observed at hooks."""
import numpy as np
from hypothesis import strategies as st

from . import gen, probe

G = 9.81


@st.composite
def cases(draw, np_water=(1, 14), itermax=(1, 3), islands=False):
    c = draw(gen.config(np_water=np_water, np_sed=(1, 1), itermax=itermax, subs=False,
                        big=True))
    return {"cfg": c, "tex": draw(gen.texture()),
            "mod": draw(st.sampled_from(["none", "none", "field"])),
            "iter": draw(st.sampled_from([1, 1, 0])),
            "land": draw(st.sampled_from([0.0, 0.0, 0.08])) if islands else 0.0}


def prepare(case, ctx, cls=probe.Recorder):
    m = probe.build(ctx, case["cfg"], cls)
    gen.disturb(m, case["tex"])
    rng = np.random.RandomState(case["tex"]["s"] + 3)
    sh = m.eta.shape
    if case["mod"] == "field":
        m.mod_water_weight[:] = np.where(rng.random_sample(sh) < 0.2, 0.0,
                                         0.2 + 2 * rng.random_sample(sh))
    if case["land"]:
        isl = (rng.random_sample(sh) < case["land"]) & (m.cell_type == 0)
        isl[:2] = False
        m.cell_type[isl] = -2
        for k in ("qx", "qy", "qw", "ux", "uy", "uw"):
            getattr(m, k)[isl] = 0
    if case["iter"]:
        m._time_iter = 1
    m.log_ = []
    return m


def iterations(m, log):
    """Group the recorded hooks of route_water into iterations.

    Yields dicts with the state before the walks, after the walks, after the
    free surface and after the flow update.
    """
    out = []
    for k, (name, s) in enumerate(log):
        if name == "init_water":
            names = [n for n, _ in log[k:k + 4]]
            assert names == ["init_water", "run_water", "free_surface",
                             "finalize_water"], names
            out.append({"start": s, "run": log[k + 1][1], "walked": log[k + 2][1],
                        "surface": log[k + 3][1], "end": log[k + 4][1]})
    return out


def run(m):
    """route_water with a final snapshot."""
    m.log_ = []
    m.hook_route_water()
    m.route_water()
    m.hook_after_route_water()
    return iterations(m, m.log_)


def gamma(cfg):
    return G * float(cfg["S0"]) * float(cfg["dx"]) / float(cfg["u0"]) ** 2


def dry_depth(cfg):
    return min(0.1, 0.1 * float(cfg["h0"]))


# ---- walks over generated step probabilities (documented way to change weights:
# ---- reimplementing get_water_weight_array)
@st.composite
def weight_cases(draw):
    kind = draw(st.sampled_from(["ring", "sparse", "ring", "snake"]))
    L, W = ((30, 60), (40, 90)) if kind == "ring" else ((10, 40), (16, 60))
    c = draw(gen.config(np_water=(1, 6), np_sed=(1, 1), itermax=(1, 1), subs=False,
                        L=L, W=W))
    c.pop("stepmax", None)
    if draw(st.booleans()):
        c["stepmax"] = draw(st.integers(30, 900))
    return {"cfg": c, "tex": draw(gen.texture()), "mod": "none", "land": 0.0,
            "iter": draw(st.sampled_from([1, 1, 0])),
            "w": {"kind": kind, "s": draw(st.integers(0, 10**6)),
                  "leak": draw(st.sampled_from([0.0, 0.02, 0.1])),
                  "size": draw(num_size)}}


num_size = st.tuples(st.integers(0, 10**6), st.integers(0, 10**6)).map(list)


def generated_weights(ct, inlet, spec):
    """Step probabilities of every cell: random, with structure that gives long walks."""
    rng = np.random.RandomState(spec["s"])
    L, W = ct.shape
    w = np.zeros((L, W, 9))
    pc = np.pad(ct, 1, constant_values=-2)
    ok = np.zeros((L, W, 9), bool)
    for k in range(9):
        a, b = divmod(k, 3)
        ok[:, :, k] = pc[a:a + L, b:b + W] != -2
    ok[:, :, 4] = False
    r = rng.random_sample((L, W, 9)) * ok
    keep = rng.randint(1, 4, (L, W))
    order = np.argsort(np.argsort(-r, axis=2), axis=2)
    w = np.where(order < keep[..., None], r, 0)
    w[:, :, 6:] *= 1.5          # rather downstream
    leak = spec["leak"]

    def go(i, j, k):
        if 0 <= i < L and 0 <= j < W and ok[i, j, k]:
            v = r[i, j] / max(r[i, j].sum(), 1e-12) * leak
            v[k] += 1 - leak
            w[i, j] = v
    L0 = int((ct[:, 0] == -2).sum())
    c = int(np.median(inlet))
    if spec["kind"] == "ring":
        h = 2 + spec["size"][0] % max(1, L - L0 - 8)
        b = 2 + spec["size"][1] % max(1, min(c, W - c) - 5)
        i0, i1, j0, j1 = L0 + 2, min(L - 4, L0 + 2 + h), c - b, c + b
        for i in range(i0):
            for j in inlet:
                go(i, j, 7)
        for j in range(j0, j1):
            go(i0, j, 5)
            go(i1, j + 1, 3)
        for i in range(i0, i1):
            go(i, j1, 7)
            go(i + 1, j0, 1)
    elif spec["kind"] == "snake":
        for i in range(L0):
            for j in inlet:
                go(i, j, 7)
        for i in range(L0, L - 1):
            for j in range(2, W - 2):
                go(i, j, 5 if (i - L0) % 2 == 0 else 3)
            go(i, W - 2 if (i - L0) % 2 == 0 else 2, 7)
            go(i, W - 3 if (i - L0) % 2 == 0 else 3, 8 if (i - L0) % 2 == 0 else 6)
    s = w.sum(axis=2, keepdims=True)
    return np.where(s > 0, w / np.where(s > 0, s, 1), 0)


class Steered(probe.Recorder):
    given = None

    def get_water_weight_array(self):
        if self.given is None:
            super().get_water_weight_array()
        else:
            self.water_weights = self.given


def prepare_weights(case, ctx):
    m = prepare(case, ctx, Steered)
    m.given = generated_weights(np.array(m.cell_type), np.asarray(m.inlet), case["w"])
    return m
