"""Model under test, observed at its documented hooks."""
import numpy as np
import pyDeltaRCM
from pyDeltaRCM import shared_tools

FIELDS = ["eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs",
          "sand_frac", "active_layer", "Vp_dep_sand", "Vp_dep_mud"]
STATE = ["eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs",
         "sand_frac", "active_layer"]


def snap(m, extra=()):
    return {k: np.array(getattr(m, k)) for k in list(FIELDS) + list(extra)
            if hasattr(m, k)}


def rng_state():
    st = shared_tools.get_random_state()
    return (int(st[0]), np.array(st[1], dtype=np.uint64))


class Replay:
    """Draws the numbers which the model's generator draws from a state."""

    def __init__(self, st):
        self.r = np.random.RandomState()
        self.r.set_state(("MT19937", st[1].astype(np.uint32), st[0]))

    def u(self):
        return self.r.random_sample()

    def state(self):
        s = self.r.get_state()
        return (int(s[2]), np.array(s[1], dtype=np.uint64))


def same_rng(a, b):
    """Same position of two generator states (next draws are equal)."""
    x, y = Replay(a), Replay(b)
    return all(x.u() == y.u() for _ in range(3))


def build(ctx, cfg, cls=None, **kw):
    cls = cls or pyDeltaRCM.DeltaModel
    c = dict(cfg)
    c.update(kw)
    if "out_dir" not in c:
        c["out_dir"] = ctx.path()
    return cls(**c)


class Recorder(pyDeltaRCM.DeltaModel):
    """Records snapshots (fields, generator state) at hooks of each update."""

    record = True

    def _rec(self, name, extra=(), rng=False):
        if not self.record:
            return
        if not hasattr(self, "log_"):
            self.log_ = []
        s = snap(self, extra)
        s["H_SL"] = float(self.H_SL)
        s["time"] = float(self._time)
        s["time_iter"] = int(self._time_iter)
        if rng:
            s["rng"] = rng_state()
        self.log_.append((name, s))

    def hook_init_water_iteration(self):
        self._rec("init_water", rng=True)

    def hook_run_water_iteration(self):
        self._rec("run_water", rng=True)

    def hook_compute_free_surface(self):
        self._rec("free_surface", ("qxn", "qyn", "qwn", "free_surf_walk_inds",
                                   "free_surf_flag", "water_weights"), rng=True)

    def hook_finalize_water_iteration(self, iteration):
        self._rec("finalize_water", ("qxn", "qyn", "qwn", "Hnew", "sfc_visit",
                                     "sfc_sum"))
        self.log_[-1][1]["iteration"] = iteration

    def hook_after_route_water(self):
        self._rec("after_water", rng=True)

    def hook_init_sediment_iteration(self):
        self._rec("init_sed", rng=True)

    def hook_route_all_sand_parcels(self):
        self._rec("sand", rng=True)

    def hook_topo_diffusion(self):
        self._rec("diffusion", rng=True)

    def hook_route_all_mud_parcels(self):
        self._rec("mud", rng=True)

    def hook_after_route_sediment(self):
        self._rec("after_sed", ("eta0",), rng=True)

    def hook_apply_subsidence(self):
        self._rec("subsidence", ("eta0",))

    def hook_finalize_timestep(self):
        self._rec("finalize", ("eta0",))

    def hook_compute_sand_frac(self):
        self._rec("sand_frac", ("eta0",))

    def hook_after_finalize_timestep(self):
        self._rec("after_finalize", ("eta0",))
