"""C02 stop and resume against the uninterrupted run."""
import os
import shutil

import numpy as np
import pyDeltaRCM
from hypothesis import strategies as st

from .. import gen, iosim, probe
from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("generated configuration, output options, intervals and stop points (up to 3); each "
        "resumed run is compared with the uninterrupted one, states bit by bit after every "
        "step and output files value by value; non-trivial: at least one step before the "
        "checkpoint and one after it")
ASSUMPTIONS = ["part stub replaces the routing of parcels by a cheap function of every "
               "state field and of random numbers; part full runs the model itself"]
BUDGET = {"quick": 50, "thorough": 700}


@st.composite
def cases(draw, full=False):
    if full:
        c = draw(gen.config(np_water=(1, 8), np_sed=(1, 8), itermax=(1, 2)))
    else:
        c = draw(gen.config(L=(6, 9), W=(8, 12), np_water=(1, 3), np_sed=(1, 3)))
    for k in iosim.GRID_OPTS:
        if draw(st.integers(0, 2)) == 0:
            c[k] = True
    if draw(st.booleans()):
        c["save_metadata"] = True
    if draw(st.integers(0, 3)) == 0:
        c["legacy_netcdf"] = True
    c["save_checkpoint"] = True
    n = draw(st.integers(2, 6 if full else 10))
    return {"cfg": c, "n": n,
            "save": draw(st.sampled_from([0.4, 1.0, 1.7, 2.3, 3.0, 0.999])),
            "ckpt": draw(st.sampled_from([None, None, 0.5, 1.5, 2.6])),
            "stops": draw(st.lists(st.integers(0, n), min_size=1, max_size=3)),
            "elsewhere": draw(st.integers(0, 5)) == 0,
            "finalize": draw(st.booleans())}


class Custom(iosim.Stub):
    """Saves custom variables, the documented way (functions of the model's state)."""

    def hook_init_output_file(self):
        d = self._netcdf_coords
        self._save_var_list["active_layer"] = ["active_layer", "fraction", "f4", d]
        self._save_var_list["visits"] = ["visits", "count", "i4", d]
        self._save_var_list["meta"]["my_rate"] = ["my_rate", "m", "f4", ()]
        self._save_var_list["meta"]["my_clock"] = [None, "s", "f8", (d[0])]

    def hook_create_domain(self):
        self.visits = np.zeros((self.L, self.W), dtype=np.int64)
        self.my_rate = 2.5
        self.my_clock = -1.0

    def hook_solve_water_and_sediment_timestep(self):
        self.visits = np.tile(np.arange(self.W) * (int(self.time_iter) + 1), (self.L, 1))
        self.my_clock = (self.time + 7) / 3


def frames_equal(x, y, what):
    """y holds exactly the content of x."""
    d = iosim.diff_nc(x, y, history=False)
    if d:
        raise Violation("%s: %s" % (what, d))


def run_with(cls):
    def run(case, ctx):
        cfg = dict(case["cfg"])
        dt = float(quiet(cls, out_dir=ctx.path(), **dict(cfg, save_checkpoint=False)).dt)
        cfg["save_dt"] = max(1, int(case["save"] * dt))
        if case["ckpt"] is not None:
            cfg["checkpoint_dt"] = max(1, int(case["ckpt"] * dt))
        n = case["n"]
        # the run that is never stopped
        outa = ctx.path()
        m = quiet(cls, out_dir=outa, **cfg)
        S = [iosim.state(m)]
        for _ in range(n):
            quiet(m.update)
            S.append(iosim.state(m))
        quiet(m.finalize)
        has_nc = os.path.exists(os.path.join(outa, iosim.NC))
        A = iosim.read_nc(os.path.join(outa, iosim.NC)) if has_nc else None
        # the run that is stopped
        out = ctx.path()
        src = out
        pos = 0
        m = quiet(cls, out_dir=out, **cfg)
        after = 0
        ck_before = 0
        for stop in sorted(case["stops"]):
            while pos < stop:
                quiet(m.update)
                pos += 1
                d = iosim.diff_state(S[pos], iosim.state(m))
                if d:
                    raise Violation("step %d differs from the uninterrupted run: %s"
                                    % (pos, d))
                after += 1
            quiet(m.finalize)
            del m
            if os.path.exists(os.path.join(out, iosim.CK)):
                src = out
            elif not (case["elsewhere"] and src != out):
                raise Violation("no checkpoint was saved in %d steps" % pos)
            ck = iosim.read_checkpoint(src)
            j = int(ck["time_iter"])
            if j > pos:
                raise Violation("checkpoint of step %d after %d steps" % (j, pos))
            el = cfg.get("checkpoint_dt") or cfg["save_dt"]
            if (pos - j) * dt >= el * (1 + 1e-9) + dt * 1e-6:
                raise Violation("no checkpoint since step %d after %d steps although the "
                                "interval is %r and the time step %r" % (j, pos, el, dt))
            before = iosim.read_nc(os.path.join(out, iosim.NC)) if has_nc else None
            kw = {"resume_checkpoint": True}
            if case["elsewhere"]:
                out2 = ctx.path()
                kw = {"resume_checkpoint": src}
                shutil.copytree(out, out2)
                if os.path.exists(os.path.join(out2, iosim.CK)):
                    os.remove(os.path.join(out2, iosim.CK))
                out = out2
            m = quiet(cls, out_dir=out, **cfg, **kw)
            d = iosim.diff_state(S[j], iosim.state(m))
            if d:
                raise Violation("state resumed from step %d differs: %s" % (j, d))
            if has_nc:
                # read a copy, the model has its file open
                tmp = ctx.path()
                m.output_netcdf.sync()
                shutil.copy(os.path.join(out, iosim.NC), tmp)
                now = iosim.read_nc(tmp)
                d = iosim.diff_nc(before, now)
                if d:
                    raise Violation("resuming changed the output file: " + d)
            ck_before = max(ck_before, j)
            pos = j
            ctx.label("resumed %d steps back" % min(3, stop - j))
        after = 0
        while pos < n:
            quiet(m.update)
            pos += 1
            after += 1
            d = iosim.diff_state(S[pos], iosim.state(m))
            if d:
                raise Violation("step %d after resuming differs from the uninterrupted "
                                "run: %s" % (pos, d))
        quiet(m.finalize)
        if has_nc:
            frames_equal(A, iosim.read_nc(os.path.join(out, iosim.NC)),
                         "output of the resumed run")
            ctx.label("frames", len(A["vars"]["time"]["data"]))
        ctx.label("resumes", len(case["stops"]))
        return ck_before > 0 and after > 0
    return run


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stub", lambda tier: cases(), run_with(iosim.Stub), 260, 6000),
         Part("custom", lambda tier: cases(), run_with(Custom), 60, 3000),
         Part("full", lambda tier: cases(True), run_with(pyDeltaRCM.DeltaModel), 90, 3000)]
