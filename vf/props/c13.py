"""C13 clock, sea level and subsidence over generated runs."""
import numpy as np
import pyDeltaRCM
from hypothesis import strategies as st

from .. import domain, gen, probe
from ..engine import Part, Violation

RULE = ("generated rates, start times (including exactly at a step) and numbers of steps; "
        "part clock replaces the routing of parcels by nothing, part full runs it; "
        "non-trivial: at least two steps and sea level or bed moved")
BUDGET = {"quick": 40, "thorough": 500}


@st.composite
def cases(draw, nmax=12):
    c = draw(gen.config(np_sed=(1, 8), np_water=(1, 8), itermax=(1, 1)))
    c["toggle_subsidence"] = draw(st.sampled_from([True, True, False]))
    c["subsidence_rate"] = draw(st.sampled_from([2e-9, 1e-7, 1e-5, 0.0, -1e-7]))
    c["SLR"] = draw(st.sampled_from([0.0, 1e-6, -1e-6, 1e-5, 3.3e-9]))
    c["H_SL"] = draw(st.sampled_from([0.0, 0.7, -1.2]))
    n = draw(st.integers(1, nmax))
    return {"cfg": c, "n": n, "at": draw(st.integers(0, n)),
            "frac": draw(st.sampled_from([0.0, 0.0, 0.5, 1e-3, -1e-3])),
            "dt_change": draw(st.sampled_from([None, None, None, 1]))}


class NoRouting(probe.Recorder):
    """Parcels are not routed; everything else of a time step happens."""

    def route_water(self):
        self._rec("start")

    def route_sediment(self):
        pass


class Full(probe.Recorder):
    def hook_route_water(self):
        self._rec("start")


def run_with(cls):
    def run(case, ctx):
        cfg = dict(case["cfg"])
        # the time step follows from the supply of sediment
        dt = None
        m0 = probe.build(ctx, cfg, pyDeltaRCM.DeltaModel)
        dt = float(m0.dt)
        t = 0.0
        for _ in range(case["at"]):
            t += dt
        start = max(0.0, t + case["frac"] * dt)
        cfg["start_subsidence"] = start
        m = probe.build(ctx, cfg, cls)
        if float(m.dt) != dt:
            raise Violation("time step differs between two equal models")
        if float(m.time) != 0 or int(m.time_iter) != 0:
            raise Violation("clock does not start at zero")
        on = bool(cfg["toggle_subsidence"])
        rate = float(cfg["subsidence_rate"])
        H0, slr = float(cfg["H_SL"]), float(cfg["SLR"])
        rows = np.zeros(m.eta.shape, bool)
        rows[domain.nominal(cfg)[0]["L0"]:, :] = True
        moved = slr != 0
        nsub = 0
        for k in range(case["n"]):
            m.log_ = []
            Hk = H0 + slr * k * dt
            tk = float(m.time)
            tol = 1e-9 * (abs(H0) + abs(slr) * dt * (k + 1)) + 1e-12
            if abs(float(m.H_SL) - Hk) > tol:
                raise Violation("sea level before step %d is %r, expected %r"
                                % (k + 1, float(m.H_SL), Hk))
            m.update()
            for name, s in m.log_:
                if name in ("after_finalize",):
                    continue
                if abs(s["H_SL"] - Hk) > tol:
                    raise Violation("step %d, %s: sea level in use is %r, expected %r"
                                    % (k + 1, name, s["H_SL"], Hk))
                if s["time"] != tk or s["time_iter"] != k:
                    raise Violation("step %d, %s: clock moved during the step"
                                    % (k + 1, name))
            if abs(float(m.time) - (k + 1) * dt) > 1e-9 * (k + 1) * dt:
                raise Violation("time after %d steps is %r, expected %r"
                                % (k + 1, float(m.time), (k + 1) * dt))
            if int(m.time_iter) != k + 1:
                raise Violation("step count after %d steps is %r" % (k + 1, m.time_iter))
            L = dict(m.log_)
            a = L["subsidence"]["eta"].astype(float)
            b = L["finalize"]["eta"].astype(float)
            act = on and tk >= start
            near = on and tk != start and abs(tk - start) < 1e-9 * max(start, dt)
            if near:
                ctx.label("tie")
                continue
            de = b - a
            exp = np.where(rows, -rate * dt, 0.0) if act else np.zeros_like(a)
            tol_e = 2e-6 * (np.abs(a) + abs(rate * dt)) * (rows if act else 0)
            bad = np.abs(de - exp) > tol_e
            if bad.any():
                c = tuple(int(v) for v in np.argwhere(bad)[0])
                raise Violation("step %d (starts at %r, subsidence %s from %r): bed of cell "
                                "%s changed by %r, expected %r (%d cells)"
                                % (k + 1, tk, "on" if on else "off", start, c, float(de[c]),
                                   float(exp[c]), int(bad.sum())))
            if act and tk == start:
                ctx.label("started exactly at a step")
            nsub += act and rate != 0
            # nothing of the clock's doing touches other cells
            if cls is NoRouting:
                e = np.array(m.eta).astype(float)
                msk = np.ones(e.shape, bool)
                msk[0, m.inlet] = False
                if (np.abs(e - b)[msk] != 0).any():
                    raise Violation("step %d: bed changed after subsidence" % (k + 1))
            # the surface follows the sea level used by the step
            if np.array(m.stage).min() < Hk - 1e-6 * (1 + abs(Hk)):
                raise Violation("step %d: surface below the sea level of the step" % (k + 1))
        ctx.label("subsiding steps", nsub)
        ctx.label("steps", case["n"])
        return case["n"] > 1 and (moved or nsub > 0)
    return run


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("clock", lambda tier: cases(), run_with(NoRouting), 500, 8000),
         Part("full", lambda tier: cases(6), run_with(Full), 200, 6000)]
