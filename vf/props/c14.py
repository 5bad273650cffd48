"""C14 output file and figures against a recording of the states."""
import os
import re
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen, iosim
from ..engine import Discard, Part, Violation
from ..iosim import quiet

RULE = ("generated configuration, output options, save interval and run history (run-time "
        "changes of boundary conditions and figure options); the file and the figures are "
        "compared with the states recorded at the steps the schedule asks for; non-trivial: "
        "a file or figure was written and at least one step saved and one (when the "
        "interval exceeds the time step) skipped")
ASSUMPTIONS = ["the routing of parcels is replaced by a cheap function which changes every "
               "field (the saving does not depend on it)",
               "histories where elapsed time and save interval agree to rounding but not "
               "exactly are discarded (tie)"]
BUDGET = {"quick": 40, "thorough": 600}


@st.composite
def cases(draw, figs=False):
    c = draw(gen.config(L=(6, 12), W=(8, 16), np_water=(1, 3), np_sed=(1, 3)))
    dens = draw(st.sampled_from([0, 1, 1, 3]))
    for k in iosim.GRID_OPTS:
        if dens == 3 or (dens and draw(st.integers(0, 2)) == 0):
            c[k] = True
    if draw(st.booleans()):
        c["save_metadata"] = True
    c["legacy_netcdf"] = draw(st.integers(0, 2)) == 0
    if draw(st.integers(0, 3)) == 0:
        c["start_subsidence"] = int(c.get("start_subsidence", 0))
    if draw(st.integers(0, 2)) == 0:
        # a time step that is an exact binary number, so that ties are exact
        c["u0"], c["C0_percent"], c["dx"] = 1.0, 0.1, 50.0
        c["Length"], c["Width"] = 500.0, 600.0
        c["N0_meters"] = draw(st.sampled_from([150.0, 200.0]))
        c["L0_meters"] = 50.0
        c["S0"] = 0.00015
    n = draw(st.integers(1, 4 if figs else 10))
    save = draw(st.sampled_from([1.0, 0.0, 0.4, 1.7, 2.0, 2.3, 3.0, 4.0, 0.999, 30.0]))
    if figs:
        for k in iosim.FIG_OPTS:
            if draw(st.integers(0, 2)) == 0:
                c[k] = True
        if draw(st.booleans()):
            c["save_figs_sequential"] = draw(st.booleans())
    ops = []
    kinds = ["f_bedload", "conc", "sea"] + (["figs"] if figs else ["u0"])
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.sampled_from(kinds))
        at = draw(st.integers(0, n - 1))
        if k == "f_bedload":
            ops.append([at, k, draw(gen.num(0, 1, 2))])
        elif k == "conc":
            ops.append([at, k, draw(gen.num(0.01, 1, 2))])
        elif k == "u0":
            ops.append([at, k, draw(gen.num(0.5, 2, 1))])
        elif k == "sea":
            ops.append([at, k, draw(gen.num(-1, 1, 2))])
        else:
            ops.append([at, k, [draw(st.sampled_from(sorted(iosim.FIG_OPTS))),
                                draw(st.booleans())]])
    return {"cfg": c, "n": n, "save": save, "ops": ops,
            "custom": (not figs) and draw(st.integers(0, 3)) == 0}


class Custom(iosim.Stub):
    """Saves custom variables, the documented way."""

    def hook_init_output_file(self):
        d = self._netcdf_coords
        self._save_var_list["active_layer"] = ["active_layer", "fraction", "f4", d]
        self._save_var_list["visits"] = ["visits", "count", "i4", d]
        self._save_var_list["meta"]["my_rate"] = ["my_rate", "m", "f4", ()]
        self._save_var_list["meta"]["my_clock"] = [None, "s", "f8", (d[0])]

    def hook_create_domain(self):
        self.visits = np.zeros((self.L, self.W), dtype=np.int64)
        self.my_rate = 2.5
        self.my_clock = -1.0

    def hook_after_finalize_timestep(self):
        self.visits += np.arange(self.W)
        self.my_clock = self.time / 3


def close(a, b):
    return np.allclose(a, b, rtol=2e-7, atol=0)


def record(m, custom):
    r = {a: np.array(getattr(m, a), dtype=np.float32)
         for o in iosim.GRID_OPTS.values() for a in o.values()}
    r["time"] = np.float32(m.time)
    for k in ("H_SL", "f_bedload", "C0_percent", "u0"):
        r["meta/" + k] = np.float32(getattr(m, k))
    if custom:
        r["active_layer"] = np.array(m.active_layer)
        r["visits"] = np.array(m.visits)
        r["meta/my_clock"] = m.my_clock
    return r


def expected_layout(m, cfg, custom, n):
    """{variable: (dims, units, type, fixed value or None)}"""
    t, a, b = ("total_time", "length", "width") if cfg.get("legacy_netcdf") \
        else ("time", "x", "y")
    xx, yy = np.meshgrid(np.arange(m.W), np.arange(m.L))
    E = {"time": ((t,), "second", "float32", None)}
    if cfg.get("legacy_netcdf"):
        E["x"] = ((a, b), "meter", "float32", xx)
        E["y"] = ((a, b), "meter", "float32", yy)
    else:
        E["x"] = ((a,), "meter", "float32", np.arange(m.L) * cfg["dx"])
        E["y"] = ((b,), "meter", "float32", np.arange(m.W) * cfg["dx"])
    any_grid = False
    for o, vs in iosim.GRID_OPTS.items():
        if cfg.get(o):
            any_grid = True
            for v in vs:
                E[v] = ((t, a, b), iosim.UNITS[v], "float32", None)
    meta = {"L0": "cells", "N0": "cells", "CTR": "cells", "dx": "meters",
            "h0": "meters", "hb": "meters"}
    for k, u in meta.items():
        E["meta/" + k] = ((), u, "int64" if u == "cells" else "float32",
                          np.array(getattr(m, k)))
    E["meta/cell_type"] = ((a, b), "type", "int64", m.cell_type)
    if cfg.get("toggle_subsidence"):
        E["meta/start_subsidence"] = ((), "seconds", "int64",
                                      np.array(int(cfg["start_subsidence"])))
        E["meta/sigma"] = ((a, b), "meters per timestep", "float32", m.sigma)
    for k, u in {"H_SL": "meters", "f_bedload": "fraction", "C0_percent": "percent",
                 "u0": "meters per second"}.items():
        E["meta/" + k] = ((t,), u, "float32", None)
    if custom:
        E["active_layer"] = ((t, a, b), "fraction", "float32", None)
        E["visits"] = ((t, a, b), "count", "int32", None)
        E["meta/my_rate"] = ((), "m", "float32", np.array(2.5))
        E["meta/my_clock"] = ((t,), "s", "float64", None)
    dims = {t: (n, True), a: (m.L, False), b: (m.W, False)}
    return E, dims, any_grid


class Figures:
    """Records what is written by matplotlib figures."""

    def __init__(self):
        from matplotlib.figure import Figure
        self.Figure = Figure
        self.saved = []

    def __enter__(self):
        orig = self.orig = self.Figure.savefig
        log = self.saved

        def savefig(fig, fname, *a, **k):
            arrays = []
            for ax in fig.axes:
                for art in list(ax.collections) + list(ax.images):
                    if getattr(art, "get_array", lambda: None)() is not None:
                        arrays.append(np.ma.getdata(art.get_array()).ravel().copy())
            title = " ".join(ax.get_title() for ax in fig.axes)
            log.append((os.path.basename(str(fname)), arrays, title))
            k["dpi"] = 20
            return orig(fig, fname, *a, **k)
        self.Figure.savefig = savefig
        return self

    def __exit__(self, *e):
        self.Figure.savefig = self.orig


def run(case, ctx):
    cfg = dict(case["cfg"])
    custom = case["custom"]
    cls = Custom if custom else iosim.Stub
    if custom and not any(cfg.get(o) for o in iosim.GRID_OPTS):
        cfg["save_eta_grids"] = True
    dt = float(quiet(cls, out_dir=ctx.path(),
                     **{k: v for k, v in cfg.items() if not k.startswith("save")}).dt)
    cfg["save_dt"] = int(case["save"] * dt)
    out = ctx.path()
    frames = []
    figopts = {k for k in iosim.FIG_OPTS if cfg.get(k)}
    seq = cfg.get("save_figs_sequential", True)
    want_figs = []
    skipped = False
    with Figures() as F:
        m = quiet(cls, out_dir=out, **cfg)
        E0, _, any_grid = expected_layout(m, cfg, custom, 0)   # fixed values as at creation
        E0 = {k: (d, u, t, None if v is None else np.array(v)) for k, (d, u, t, v)
              in E0.items()}

        def frame():
            i = len(frames)
            frames.append(record(m, custom))
            for o in iosim.FIG_OPTS:
                if o in figopts:
                    v = iosim.FIG_OPTS[o]
                    want_figs.append((
                        "%s_%s.png" % (v, "%05d" % i if seq else "latest"),
                        np.array(getattr(m, {"eta": "eta", "stage": "stage",
                                             "depth": "depth", "discharge": "qw",
                                             "velocity": "uw", "sedflux": "qs",
                                             "sandfrac": "sand_frac"}[v])),
                        float(m.time)))
        frame()
        elapsed = Fraction(0)
        for s in range(case["n"]):
            for at, k, v in case["ops"]:
                if at != s:
                    continue
                if k == "f_bedload":
                    m.bedload_fraction = v
                elif k == "conc":
                    m.influx_sediment_concentration = v / 100
                elif k == "u0":
                    m.channel_flow_velocity = v
                elif k == "sea":
                    m.sea_surface_mean_elevation = v
                else:
                    setattr(m, v[0], v[1])
                    (figopts.add if v[1] else figopts.discard)(v[0])
            step = float(m.dt)
            quiet(m.update)
            elapsed += Fraction(step)
            gap = abs(elapsed - cfg["save_dt"])
            exact = step == int(step)
            if not exact and gap < Fraction(1, 10**9) * max(cfg["save_dt"], 1) \
                    and elapsed != Fraction(step):
                quiet(m.finalize)
                raise Discard("tie")
            if exact and gap == 0:
                ctx.label("exact tie")
            if elapsed >= cfg["save_dt"]:
                elapsed = Fraction(0)
                frame()
            else:
                skipped = True
        quiet(m.finalize)
    # figures
    files = sorted(f for f in os.listdir(out) if f.endswith(".png"))
    if files != sorted({f[0] for f in want_figs}):
        raise Violation("figure files are %s, expected %s"
                        % (files, sorted({f[0] for f in want_figs})))
    if sorted(f[0] for f in F.saved) != sorted(f[0] for f in want_figs):
        raise Violation("figures written are %s, expected %s"
                        % ([f[0] for f in F.saved], [f[0] for f in want_figs]))
    used = {}
    for f, arrays, title in F.saved:
        j = used.get(f, 0)
        used[f] = j + 1
        data, t = [w[1:] for w in want_figs if w[0] == f][j]
        if not any(a.size == data.size and np.array_equal(
                np.float32(a), np.float32(data.ravel())) for a in arrays):
            raise Violation("figure %s (writing %d) does not show the field" % (f, j))
        told = [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", title)]
        if told and not any(abs(x - t) <= 0.06 + 1e-5 * t for x in told):
            raise Violation("figure %s (writing %d) is titled %r, the model time was %r"
                            % (f, j, title, t))
    ctx.label("figures", len(want_figs))
    # file
    nc = os.path.join(out, iosim.NC)
    want_nc = any_grid or bool(cfg.get("save_metadata"))
    if os.path.exists(nc) != want_nc:
        raise Violation("output file %s" % ("missing" if want_nc else "not asked for"))
    other = [f for f in os.listdir(out) if not f.endswith((".png", ".log"))
             and f != iosim.NC]
    if other:
        raise Violation("files not asked for: %s" % other)
    if not want_nc:
        ctx.label("no file")
        return bool(want_figs)
    R = iosim.read_nc(nc)
    _, dims, _ = expected_layout(m, cfg, custom, len(frames))
    if R["dims"] != dims:
        raise Violation("dimensions %s, expected %s (frames, length, width)"
                        % (R["dims"], dims))
    if set(R["vars"]) != set(E0):
        raise Violation("variables missing: %s, not asked for: %s"
                        % (sorted(set(E0) - set(R["vars"])), sorted(set(R["vars"]) - set(E0))))
    attr = {a: k for o in iosim.GRID_OPTS.values() for k, a in o.items()}
    attr = {k: a for a, k in attr.items()}
    for k, (d, u, t, v) in E0.items():
        x = R["vars"][k]
        if x["dims"] != d or x["type"] != t or x["attrs"].get("units") != u:
            raise Violation("%s has dimensions %s, type %s, units %r; expected %s, %s, %r"
                            % (k, x["dims"], x["type"], x["attrs"].get("units"), d, t, u))
        if v is not None:
            if x["data"].shape != v.shape or not close(x["data"], v):
                raise Violation("%s is %s, expected %s" % (k, x["data"], v))
        else:
            for i, fr in enumerate(frames):
                w = fr[attr.get(k, k)]
                if not np.array_equal(x["data"][i], w):
                    bad = np.atleast_1d(x["data"][i] != w)
                    j = tuple(int(q) for q in np.argwhere(bad)[0])
                    raise Violation(
                        "%s of frame %d is %r at %s, the model had %r"
                        % (k, i, float(np.atleast_1d(x["data"][i])[j]), j,
                           float(np.atleast_1d(w)[j])))
    for a in ("description", "history", "source"):
        if not str(R["attrs"].get(a, "")).strip():
            raise Violation("attribute %s missing" % a)
    ctx.label("frames", min(len(frames), 10))
    ctx.label("legacy" if cfg.get("legacy_netcdf") else "standard")
    if custom:
        ctx.label("custom variables")
    return len(frames) > 1 and (skipped or case["save"] <= 1)


PARTS = [Part("file", lambda tier: cases(), run, 900, 20000),
         Part("figures", lambda tier: cases(True), run, 60, 1500)]
