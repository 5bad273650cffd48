"""C22 changing a boundary condition at run time equals configuring it."""
import numpy as np
import pyDeltaRCM
from pyDeltaRCM import shared_tools
from hypothesis import strategies as st

from .. import gen, iosim, probe, ref, sedstage
from ..engine import Discard, Part, Violation
from ..iosim import quiet
from . import c07

RULE = ("generated configuration, disturbed state and sequence of property changes and time "
        "steps; after each change the derived quantities are compared with a model "
        "configured with the new value and with closed formulas, and after each time step "
        "the fields with that model started from the same state (bit by bit) and the "
        "sediment stages with the reference; non-trivial: a time step after a change of value")
ASSUMPTIONS = ["threshold velocities of erosion and deposition, inlet cells and fields keep "
               "the values of the running model",
               "concentration is set as a fraction and read as a percentage",
               "setting the time step changes clock, subsidence, sea level and erosion per "
               "step, but not the supply of a step"]
BUDGET = {"quick": 50, "thorough": 700}

KEY = {"channel_flow_velocity": "u0", "channel_flow_depth": "h0",
       "channel_width": "N0_meters", "influx_sediment_concentration": "C0_percent",
       "bedload_fraction": "f_bedload", "sea_surface_mean_elevation": "H_SL",
       "sea_surface_elevation_change": "SLR"}
DERIVED = ["L0", "N0", "u_max", "C0", "dry_depth", "gamma", "V0", "Qw0", "qw0", "Qp_water",
           "qs0", "dVs", "Qs0", "Vp_sed", "stepmax", "omega_flow_iter", "N_crossdiff",
           "diffusion_multiplier", "H_SL", "SLR", "f_bedload", "u0", "h0", "L", "W", "CTR",
           "Np_water", "Np_sed", "theta_sand", "theta_mud", "S0", "dx", "beta", "alpha",
           "sand_frac_bc", "active_layer_thickness"]


@st.composite
def cases(draw):
    c = draw(gen.config(np_water=(1, 8), np_sed=(1, 10), itermax=(1, 2), L=(10, 16),
                        W=(14, 34)))
    c.setdefault("active_layer_thickness", c["h0"] / 2)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(sorted(KEY) + ["time_step", "update", "update", "same"]))
        if k == "update":
            ops.append([k])
        elif k == "same":
            ops.append([k, draw(st.sampled_from(sorted(KEY) + ["time_step"]))])
        elif k == "channel_flow_velocity":
            ops.append([k, draw(gen.num(0.5, 3, 2))])
        elif k == "channel_flow_depth":
            ops.append([k, draw(gen.num(0.5, 9, 1))])
        elif k == "channel_width":
            ops.append([k, draw(st.integers(1, 10)) * c["dx"]])
        elif k == "influx_sediment_concentration":
            ops.append([k, draw(gen.num(0.0002, 0.02, 4))])
        elif k == "bedload_fraction":
            ops.append([k, draw(gen.num(0, 1, 2))])
        elif k == "sea_surface_mean_elevation":
            ops.append([k, draw(gen.num(-1, 2, 1))])
        elif k == "sea_surface_elevation_change":
            ops.append([k, draw(st.sampled_from([0.0, 2e-6, -1e-6, 1e-7]))])
        elif k == "time_step":
            ops.append([k, draw(gen.num(0.2, 3, 1))])
    if ops[-1][0] != "update":
        ops.append(["update"])
    return {"cfg": c, "tex": draw(gen.texture()), "ops": ops}


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * max(abs(float(a)), abs(float(b)))


def full(m):
    """Everything of a model that a change of a boundary condition may touch."""
    s = iosim.state(m, qs=True)
    for k in DERIVED + ["dt", "U_dep_mud", "U_ero_mud", "U_ero_sand"]:
        s["." + k] = float(getattr(m, k))
    return s


def adopt(b, a):
    """Put model b into the state of the running model a."""
    for k, v in a.__dict__.items():
        if isinstance(v, np.ndarray) and v.shape == a.eta.shape and k in b.__dict__ \
                and k != "sigma":
            b.__dict__[k][...] = v
    b.inlet = np.copy(a.inlet)
    b._time = a._time
    b._time_iter = a._time_iter
    b._save_iter = a._save_iter
    b._save_time_since_data = a._save_time_since_data
    b._save_time_since_checkpoint = a._save_time_since_checkpoint
    b.H_SL = a.H_SL
    if hasattr(a, "_is_finalized"):
        b._is_finalized = a._is_finalized
    for k in ("U_dep_mud", "U_ero_mud", "U_ero_sand"):
        setattr(b, k, getattr(a, k))
    b.init_sediment_routers()


def check_gamma(c, name, v):
    u0 = v if name == "channel_flow_velocity" else c["u0"]
    return 9.81 * c["S0"] * c["dx"] / u0 ** 2 <= 0.9


def run(case, ctx):
    cfg = dict(case["cfg"])
    m = quiet(probe.Recorder, out_dir=ctx.path(), **cfg)
    gen.disturb(m, case["tex"])
    now = dict(cfg)                     # the configuration in force
    dt = None                           # time step set by hand
    changed = nt = False
    subs = bool(cfg.get("toggle_subsidence"))
    U = {k: getattr(m, k) for k in ("U_dep_mud", "U_ero_mud", "U_ero_sand")}

    def other():
        return quiet(pyDeltaRCM.DeltaModel, out_dir=ctx.path(), **now)

    for op in case["ops"]:
        if op[0] == "update":
            b = other()
            if m.H_SL != now["H_SL"]:
                raise Violation("sea level is %r, expected %r" % (m.H_SL, now["H_SL"]))
            adopt(b, m)
            if dt is not None:
                b._dt = dt
                if subs:
                    b.sigma[...] = m.sigma
                b.init_sediment_routers()
            elif subs:
                b.sigma[...] = m.sigma
            m.log_ = []
            r0 = probe.rng_state()
            t0 = m.time
            quiet(m.update)
            d = dict(m.log_)
            shared_tools.set_random_state((r0[0], [int(x) for x in r0[1]]))
            quiet(b.update)
            x = iosim.diff_state(iosim.state(m, qs=True), iosim.state(b, qs=True))
            if x:
                raise Violation("after the changes %s a time step differs from that of a "
                                "model configured so: %s" % (case["ops"], x))
            want = float(m.dt) if dt is None else dt
            if not close(m.time - t0, want) and abs(m.time - t0 - want) > 1e-6 * m.time:
                raise Violation("the clock advanced by %r, the time step is %r"
                                % (m.time - t0, want))
            for kind in ("sand", "mud"):
                try:
                    R, a, e, rep = sedstage.replay(m, d, kind)
                except Discard:
                    ctx.label("tie." + kind)
                    continue
                c07.compare(ctx, m, R, a, e, rep, kind)
            if subs and t0 + 0 >= cfg["start_subsidence"]:
                rate = cfg["subsidence_rate"] * want
                drop = (d["subsidence"]["eta"].astype(float)
                        - d["finalize"]["eta"].astype(float))
                drop[0] = np.nan
                free = m.cell_type[1:] == 0
                free[:int(m.L0)] = False
                tol = 1e-5 * (1 + np.abs(d["finalize"]["eta"][1:])) + 1e-3 * rate
                if (np.abs(drop[1:] - rate) > tol)[free].any():
                    raise Violation("the bed subsides by %r per step, expected %r" % (
                        float(np.median(drop[1:][free])), rate))
            now["H_SL"] = m.H_SL
            nt = nt or changed
            continue
        if op[0] == "same":
            name = op[1]
            if dt is not None or name == "influx_sediment_concentration":
                continue
            s0 = full(m)
            v = getattr(m, name)
            r0 = probe.rng_state()
            quiet(setattr, m, name, v)
            s1 = full(m)
            if "sigma" in s0:
                if not np.allclose(s0["sigma"], s1["sigma"], rtol=1e-9, atol=0):
                    raise Violation("setting %s to its value changes subsidence" % name)
                s0.pop("sigma"), s1.pop("sigma")
            x = iosim.diff_state(s0, s1)
            if x:
                raise Violation("setting %s to its current value %r changes %s"
                                % (name, v, x))
            if not probe.same_rng(r0, probe.rng_state()):
                raise Violation("setting %s draws random numbers" % name)
            ctx.label("same " + name)
            continue
        name, v = op
        before = iosim.state(m)
        r0 = probe.rng_state()
        if name == "time_step":
            v = float(m.dt) * v
            quiet(setattr, m, name, v)
            dt = v
            changed = True
        else:
            if not check_gamma(now, name, v):
                raise Discard("gamma")
            old = now[KEY[name]]
            quiet(setattr, m, name, v)
            now[KEY[name]] = v * 100 if name == "influx_sediment_concentration" else v
            if name in ("channel_flow_velocity", "channel_flow_depth", "channel_width",
                        "influx_sediment_concentration"):
                dt = None
            changed = changed or now[KEY[name]] != old
        ctx.label(name)
        after = iosim.state(m)
        for k in ("sigma", "H_SL"):
            before.pop(k, None)
            after.pop(k, None)
        x = iosim.diff_state(before, after)
        if x:
            raise Violation("setting %s changes the state: %s" % (name, x))
        if not probe.same_rng(r0, probe.rng_state()):
            raise Violation("setting %s draws random numbers" % name)
        b = other()
        for k in DERIVED:
            if not close(getattr(m, k), getattr(b, k)):
                raise Violation("after setting %s to %r, %s is %r; configured it is %r" % (
                    name, v, k, getattr(m, k), getattr(b, k)))
        want = float(b.dt) if dt is None else dt
        for k in ("dt", "time_step"):
            if not close(getattr(m, k), want):
                raise Violation("after setting %s to %r, %s is %r, expected %r" % (
                    name, v, k, getattr(m, k), want))
        for k, u in U.items():
            if getattr(m, k) != u:
                raise Violation("setting %s changes the threshold %s" % (name, k))
        # closed formulas of the main quantities
        N0 = max(3, min(int(np.floor(now["N0_meters"] / now["dx"] + 0.5)),
                        int(m.W) // 4))
        Qw = now["u0"] * now["h0"] * N0 * now["dx"]
        Vs = 0.1 * N0 ** 2 * now["h0"] * now["dx"] ** 2
        for k, w in (("Qw0", Qw), ("dVs", Vs), ("Qs0", Qw * now["C0_percent"] / 100),
                     ("Qp_water", Qw / now["Np_water"]), ("Vp_sed", Vs / now["Np_sed"]),
                     ("u_max", 2 * now["u0"]), ("qw0", now["u0"] * now["h0"])):
            if not close(getattr(m, k), w):
                raise Violation("after setting %s to %r, %s is %r, expected %r" % (
                    name, v, k, getattr(m, k), w))
        got = getattr(m, name)
        if name == "influx_sediment_concentration":
            got = got / 100
        if name == "channel_width":
            v = N0 * now["dx"]
        if not close(got, v):
            raise Violation("%s is %r after setting it to %r" % (name, got, v))
        if subs:
            mask = np.zeros(m.eta.shape, bool)
            mask[int(m.L0):] = True
            w = mask * cfg["subsidence_rate"] * want
            if not np.allclose(m.sigma, w, rtol=1e-6, atol=0):
                raise Violation("after setting %s, subsidence per step is %r, expected %r" % (
                    name, float(np.max(m.sigma)), float(w.max())))
            ctx.label("subsidence")
    return nt


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("sequence", lambda tier: cases(), run, 260, 6000)]
