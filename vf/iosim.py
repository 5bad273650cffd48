"""Helpers for output and checkpoint checks: a cheap stand-in for the routing of
parcels which uses every field and the random generator, and file readers."""
import contextlib
import io
import os
import warnings

import numpy as np
import pyDeltaRCM
from pyDeltaRCM import shared_tools

from . import probe

NC = "pyDeltaRCM_output.nc"
CK = "checkpoint.npz"

GRID_OPTS = {
    "save_eta_grids": {"eta": "eta"},
    "save_stage_grids": {"stage": "stage"},
    "save_depth_grids": {"depth": "depth"},
    "save_discharge_grids": {"discharge": "qw"},
    "save_velocity_grids": {"velocity": "uw"},
    "save_sedflux_grids": {"sedflux": "qs"},
    "save_sandfrac_grids": {"sandfrac": "sand_frac"},
    "save_discharge_components": {"discharge_x": "qx", "discharge_y": "qy"},
    "save_velocity_components": {"velocity_x": "ux", "velocity_y": "uy"},
}
UNITS = {"eta": "meters", "stage": "meters", "depth": "meters",
         "discharge": "cubic meters per second", "velocity": "meters per second",
         "sedflux": "cubic meters per second", "sandfrac": "fraction",
         "discharge_x": "cubic meters per second", "discharge_y": "cubic meters per second",
         "velocity_x": "meters per second", "velocity_y": "meters per second"}
FIG_OPTS = {"save_eta_figs": "eta", "save_stage_figs": "stage", "save_depth_figs": "depth",
            "save_discharge_figs": "discharge", "save_velocity_figs": "velocity",
            "save_sedflux_figs": "sedflux", "save_sandfrac_figs": "sandfrac"}

TINY = dict(Length=600.0, Width=800.0, dx=100.0, L0_meters=100.0, N0_meters=300.0,
            Np_water=3, Np_sed=4, itermax=1, Nsmooth=1, seed=3)


def evolve(m):
    """Change every state field from all of them, the clock and random numbers.

    Stands for the routing of parcels where a check is about files and clocks.
    """
    m.eta0 = np.copy(m.eta)
    r = [shared_tools.get_random_uniform(1.0) for _ in range(4)]
    f = np.float32
    wave = (np.arange(m.eta.size).reshape(m.eta.shape) % 7).astype(f) * f(0.01)
    m.stage[:] = m.stage * f(0.9) + f(0.02 * r[0]) + wave * f(0.1)
    m.eta[:] = m.eta + f(0.01) * (m.sand_frac - m.active_layer) + wave * f(r[1] - 0.5)
    m.qx[:] = m.qx * f(0.9) + f(r[2]) + m.uy * f(0.05)
    m.qy[:] = m.qy * f(0.8) + wave * f(r[3]) + m.ux * f(0.05)
    m.qw[:] = np.sqrt(m.qx ** 2 + m.qy ** 2) + m.qw * f(0.01)
    m.ux[:] = m.ux * f(0.5) + m.qx * f(0.01)
    m.uy[:] = m.uy * f(0.5) + m.qy * f(0.01) + m.depth * f(0.001)
    m.uw[:] = np.sqrt(m.ux ** 2 + m.uy ** 2) + m.uw * f(0.01)
    m.qs[:] = m.qw * f(0.1 * r[0])
    m.sand_frac[:] = np.abs(m.sand_frac * f(0.5) + f(0.3 * r[1]) + wave)
    m.active_layer[:] = m.active_layer * f(0.5) + f(0.2 * r[2])
    m.Vp_dep_sand[:] = 0
    m.Vp_dep_mud[:] = 0


class Stub(pyDeltaRCM.DeltaModel):
    """The model with the routing of parcels replaced by `evolve`."""

    def solve_water_and_sediment_timestep(self):
        evolve(self)


def quiet(fn, *a, **k):
    """Run without output on the terminal and without warnings."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def state(m, qs=False):
    s = {k: np.array(getattr(m, k)) for k in probe.STATE if qs or k != "qs"}
    s["time"] = float(m.time)
    s["time_iter"] = int(m.time_iter)
    s["save_iter"] = int(m.save_iter)
    s["H_SL"] = float(m.H_SL)
    s["rng"] = probe.rng_state()
    return s


def diff_state(a, b, skip=()):
    """Description of the first difference of two states, or None."""
    for k in a:
        if k in skip or k not in b:
            continue
        if k == "rng":
            if not probe.same_rng(a[k], b[k]):
                return "random generator"
        elif isinstance(a[k], np.ndarray):
            if a[k].shape != b[k].shape or a[k].dtype != b[k].dtype:
                return "%s (shape or type)" % k
            if not np.array_equal(a[k], b[k], equal_nan=True):
                i = tuple(int(v) for v in np.argwhere(a[k] != b[k])[0])
                return "%s at %s: %r and %r" % (k, i, float(a[k][i]), float(b[k][i]))
        elif a[k] != b[k]:
            return "%s: %r and %r" % (k, a[k], b[k])
    return None


def read_nc(path):
    """All content of an output file as a dict."""
    from netCDF4 import Dataset
    out = {"vars": {}, "dims": {}, "attrs": {}}
    with Dataset(path) as ds:
        for k, d in ds.dimensions.items():
            out["dims"][k] = (len(d), bool(d.isunlimited()))
        for k in ds.ncattrs():
            out["attrs"][k] = ds.getncattr(k)
        for grp, pre in [(ds, "")] + [(g, n + "/") for n, g in ds.groups.items()]:
            for n, v in grp.variables.items():
                v.set_auto_mask(False)
                out["vars"][pre + n] = {
                    "data": np.array(v[...]), "dims": tuple(v.dimensions),
                    "type": str(v.dtype),
                    "attrs": {a: v.getncattr(a) for a in v.ncattrs()}}
        out["groups"] = sorted(ds.groups)
    return out


def diff_nc(a, b, history=True, names=("first", "second")):
    for k in ("dims", "groups"):
        if a[k] != b[k]:
            return "%s differ: %s / %s" % (k, a[k], b[k])
    aa, bb = dict(a["attrs"]), dict(b["attrs"])
    if not history:
        aa.pop("history", None)
        bb.pop("history", None)
    if aa != bb:
        return "attributes differ: %s / %s" % (aa, bb)
    if sorted(a["vars"]) != sorted(b["vars"]):
        return "variables differ: %s / %s" % (sorted(a["vars"]), sorted(b["vars"]))
    for n in a["vars"]:
        x, y = a["vars"][n], b["vars"][n]
        for k in ("dims", "type", "attrs"):
            if x[k] != y[k]:
                return "%s of %s differ: %s / %s" % (k, n, x[k], y[k])
        if x["data"].shape != y["data"].shape:
            return "shape of %s differs: %s / %s" % (n, x["data"].shape, y["data"].shape)
        if not np.array_equal(x["data"], y["data"], equal_nan=True):
            i = tuple(int(v) for v in np.argwhere(np.atleast_1d(x["data"] != y["data"]))[0])
            return "data of %s differ at %s: %r / %r" % (
                n, i, np.atleast_1d(x["data"])[i], np.atleast_1d(y["data"])[i])
    return None


def read_checkpoint(folder):
    with np.load(os.path.join(folder, CK), allow_pickle=True) as z:
        return {k: np.array(z[k]) for k in z.files}


def log_text(folder):
    out = []
    for n in sorted(os.listdir(folder)):
        if n.endswith(".log"):
            out.append(open(os.path.join(folder, n)).read())
    return "\n".join(out)
