"""C21 hooks and modifier fields."""
import os
import time
import warnings
from unittest import mock

import numpy as np
import pyDeltaRCM
import yaml
from hypothesis import strategies as st
from pyDeltaRCM.preprocessor import Preprocessor

from .. import gen, iosim, probe, ref, sedstage, waterstage
from ..engine import Discard, Part, Violation
from ..iosim import quiet
from . import c07, c08

RULE = ("generated configurations, histories and modifier fields; the calls of hooks and "
        "operations are recorded by a subclass and compared with the documented order, its "
        "states with the base model bit by bit, and routing with modifiers with the "
        "reference; non-trivial: at least one full time step, or a modifier field with "
        "different values")
ASSUMPTIONS = ["operations are observed by overriding the documented methods"]
BUDGET = {"quick": 50, "thorough": 700}

UPDATE_HEAD = ["hook_solve_water_and_sediment_timestep", "solve_water_and_sediment_timestep",
               "hook_route_water", "route_water"]
ITER = ["hook_init_water_iteration", "init_water_iteration", "hook_run_water_iteration",
        "run_water_iteration", "hook_compute_free_surface", "compute_free_surface",
        "hook_finalize_water_iteration", "finalize_water_iteration"]
UPDATE_TAIL = ["hook_after_route_water", "hook_route_sediment", "route_sediment",
               "hook_init_sediment_iteration", "init_sediment_iteration",
               "hook_route_all_sand_parcels", "route_all_sand_parcels",
               "hook_topo_diffusion", "topo_diffusion",
               "hook_route_all_mud_parcels", "route_all_mud_parcels",
               "hook_after_route_sediment", "hook_apply_subsidence", "apply_subsidence",
               "hook_finalize_timestep", "finalize_timestep",
               "hook_compute_sand_frac", "compute_sand_frac",
               "hook_after_finalize_timestep"]
OUTPUT = ["hook_output_data", "output_data", "hook_output_checkpoint", "output_checkpoint"]
BUILD = ["hook_import_files", "import_files", "hook_process_input_to_model",
         "process_input_to_model", "hook_create_other_variables", "create_other_variables",
         "hook_create_domain", "create_domain", "hook_after_create_domain"]
FILE = ["hook_init_output_file", "init_output_file"]
LOAD = ["hook_load_checkpoint", "load_checkpoint"]
ALL = UPDATE_HEAD + ITER + UPDATE_TAIL + OUTPUT + BUILD + FILE + LOAD
HOOKS = [h for h in ALL if h.startswith("hook_")]


def recorded(base):
    """Subclass of `base` which records all hooks and operations."""
    def method(name):
        is_hook = name.startswith("hook_")

        def f(self, *a, **k):
            d = self.__dict__
            d.setdefault("calls_", []).append(
                (name, int(self._time_iter), a[0] if a and "water_iteration" in name
                 else None))
            if is_hook:
                return None
            r = getattr(super(cls, self), name)(*a, **k)
            return r
        return f
    cls = type("Recorded" + base.__name__, (base,), {n: method(n) for n in set(ALL)})
    return cls


RecStub = recorded(iosim.Stub)
RecModel = recorded(pyDeltaRCM.DeltaModel)


class RecJob(RecStub):
    """Writes the recorded calls into its folder when finalised."""

    def finalize(self):
        with open(os.path.join(self.prefix, "calls.txt"), "w") as f:
            f.write("\n".join(n for n, _, _ in self.calls_))
        super().finalize()


class Neutral(pyDeltaRCM.DeltaModel):
    """A subclass that customises nothing."""


def want_update(iters, stub=False):
    if stub:
        return (UPDATE_HEAD[:2] + UPDATE_TAIL[UPDATE_TAIL.index("hook_apply_subsidence"):]
                + OUTPUT)
    return UPDATE_HEAD + ITER * iters + UPDATE_TAIL + OUTPUT


def check_calls(got, want, what):
    got = [g for g in got if g in want or g in HOOKS]
    if got != want:
        i = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b),
                 min(len(got), len(want)))
        raise Violation("%s: call %d is %s, documented is %s (after %s)" % (
            what, i, got[i] if i < len(got) else "missing",
            want[i] if i < len(want) else "nothing", got[max(0, i - 2):i]))


@st.composite
def cases(draw):
    c = draw(gen.config(np_water=(1, 6), np_sed=(1, 6), itermax=(1, 4), L=(10, 14),
                        W=(14, 20)))
    if draw(st.booleans()):
        c["save_eta_grids"] = True
    if draw(st.booleans()):
        c["save_checkpoint"] = True
    c["save_dt"] = draw(st.sampled_from([1, 50000, 10**8]))
    return {"cfg": c, "n": draw(st.integers(1, 3)), "resume": draw(st.booleans())}


def run_order(case, ctx):
    cfg = dict(case["cfg"])
    out = ctx.path()
    a = quiet(pyDeltaRCM.DeltaModel, out_dir=ctx.path(), **cfg)
    A = [iosim.state(a, qs=True)]
    for _ in range(case["n"]):
        quiet(a.update)
        A.append(iosim.state(a, qs=True))
    nt = quiet(Neutral, out_dir=ctx.path(), **cfg)
    for k in range(case["n"]):
        quiet(nt.update)
    d = iosim.diff_state(A[-1], iosim.state(nt, qs=True))
    if d:
        raise Violation("an empty subclass differs from the base model: " + d)
    m = quiet(RecModel, out_dir=out, **cfg)
    check_calls([n for n, _, _ in m.calls_], BUILD + FILE + OUTPUT, "construction")
    d = iosim.diff_state(A[0], iosim.state(m, qs=True))
    if d:
        raise Violation("initial state with default hooks differs: " + d)
    iters = int(cfg["itermax"])
    for k in range(case["n"]):
        m.calls_ = []
        quiet(m.update)
        check_calls([n for n, _, _ in m.calls_], want_update(iters), "time step %d" % k)
        for name, it, arg in m.calls_:
            w = k + 1 if name in OUTPUT else k
            if it != w:
                raise Violation("%s sees step count %d in time step %d" % (name, it, k))
        its = [arg for name, _, arg in m.calls_ if name == "hook_finalize_water_iteration"]
        if its != list(range(iters)):
            raise Violation("hook_finalize_water_iteration is given %s" % its)
        d = iosim.diff_state(A[k + 1], iosim.state(m, qs=True))
        if d:
            raise Violation("time step %d with default hooks differs: %s" % (k, d))
    quiet(m.finalize)
    if case["resume"] and os.path.exists(os.path.join(out, iosim.CK)):
        r = quiet(RecModel, out_dir=out, resume_checkpoint=True, **cfg)
        got = [n for n, _, _ in r.calls_ if n not in FILE]
        check_calls(got, BUILD + LOAD, "construction of a resumed model")
        r.calls_ = []
        quiet(r.update)
        check_calls([n for n, _, _ in r.calls_], want_update(iters), "resumed time step")
        ctx.label("resumed")
    ctx.label("steps", case["n"])
    return True


@st.composite
def job_cases(draw):
    return {"n": draw(st.integers(0, 3)), "parallel": draw(st.sampled_from([None, 1, 2])),
            "grids": draw(st.booleans()), "jobs": draw(st.integers(1, 3)),
            "ckpt": draw(st.booleans()), "seed": draw(st.integers(0, 99))}


def run_jobs(case, ctx):
    root = ctx.path()
    cfg = dict(iosim.TINY, out_dir=root, timesteps=case["n"], save_dt=1)
    cfg.pop("seed")
    if case["grids"]:
        cfg["save_eta_grids"] = True
    if case["ckpt"]:
        cfg["save_checkpoint"] = True
    if case["parallel"]:
        cfg["parallel"] = case["parallel"]
    if case["jobs"] > 1:
        cfg["matrix"] = {"seed": [case["seed"] + i for i in range(case["jobs"])]}
    p = ctx.path() + ".yml"
    open(p, "w").write(yaml.safe_dump(cfg, sort_keys=False))
    real = time.sleep
    with mock.patch("time.sleep", lambda s: real(min(s, 0.03))):
        pp = quiet(Preprocessor, p)
        quiet(pp.run_jobs, DeltaModel=RecJob)
    for j in range(case["jobs"]):
        d = root if case["jobs"] == 1 else os.path.join(root, "job_%03d" % j)
        got = open(os.path.join(d, "calls.txt")).read().split("\n")
        check_calls(got, BUILD + FILE + OUTPUT + want_update(0, True) * case["n"],
                    "job %d (parallel %r)" % (j, case["parallel"]))
    ctx.label("parallel" if case["parallel"] else "serial")
    return case["n"] > 0


@st.composite
def mod_cases(draw):
    c = draw(gen.config(np_water=(1, 8), np_sed=(1, 8), itermax=(1, 2), subs=False))
    c["alpha"] = 0.0
    c["SLR"] = 0.0
    return {"cfg": c, "tex": draw(gen.texture()),
            "how": draw(st.sampled_from(["domain_inplace", "domain_assign", "step_inplace",
                                         "step_assign"])),
            "water": draw(st.booleans()), "weight": draw(st.booleans()),
            "erosion": draw(st.booleans()), "n": draw(st.integers(1, 2))}


class Modified(probe.Recorder):
    plan = None

    def _apply(self, when):
        how, fields = self.plan
        if not how.startswith(when):
            return
        for k, f in fields.items():
            if how.endswith("inplace"):
                getattr(self, k)[:] = f
            else:
                setattr(self, k, f.copy())

    def hook_after_create_domain(self):
        rng = np.random.RandomState(self.plan[1])
        sh = self.eta.shape
        fields = {}
        for k in self.plan[2]:
            fields[k] = np.where(rng.random_sample(sh) < 0.2, 0.0,
                                 0.2 + 2 * rng.random_sample(sh)).astype(np.float32)
        self.plan = (self.plan[0], fields)
        self._apply("domain")

    def hook_solve_water_and_sediment_timestep(self):
        if self.time_iter == 1 or self.how_first:
            self._apply("step")
            self.applied = True

    how_first = False
    applied = False


def run_mods(case, ctx):
    names = [k for k, on in (("mod_water_weight", case["water"]),
                             ("mod_sed_weight", case["weight"]),
                             ("mod_erosion", case["erosion"])) if on]
    cls = type("M", (Modified,), {"plan": (case["how"], case["tex"]["s"], names),
                                  "how_first": case["n"] == 1})
    m = quiet(cls, out_dir=ctx.path(), **case["cfg"])
    fields = m.plan[1]
    ones = np.ones(m.eta.shape, np.float32)
    dry, gam, theta = c08.params(case)
    nt = False
    for k in range(case["n"]):
        if k == 0:
            gen.disturb(m, case["tex"])
        m.log_ = []
        quiet(m.update)
        on = case["how"].startswith("domain") or m.applied
        use = {n: fields[n] if on and n in fields else ones
               for n in ("mod_water_weight", "mod_sed_weight", "mod_erosion")}
        for n, f in use.items():
            if not np.array_equal(getattr(m, n), f):
                raise Violation("%s was changed by the model" % n)
        for it in waterstage.iterations(m, m.log_):
            s = it["run"]
            c08.judge(ctx, it["walked"]["water_weights"], s["stage"], s["depth"], s["qx"],
                      s["qy"], m.cell_type, use["mod_water_weight"], dry, gam, theta,
                      known=False)
        d = dict(m.log_)
        for kind in ("sand", "mud"):
            try:
                R, a, b, rep = sedstage.replay(m, d, kind, cfg=case["cfg"])
            except Discard:
                ctx.label("tie." + kind)
                continue
            c07.compare(ctx, m, R, a, b, rep, kind)
        nt = nt or (on and bool(names))
    ctx.label(case["how"])
    for n in names:
        ctx.label(n)
    return nt


@st.composite
def retired_cases(draw):
    return {"name": draw(st.sampled_from(["hook_sed_route", "hook_run_one_timestep"])),
            "how": draw(st.sampled_from(["method", "inherited", "both"])),
            "seed": draw(st.integers(0, 50))}


def run_retired(case, ctx):
    body = {case["name"]: lambda self: None}
    if case["how"] == "both":
        body["hook_route_sediment"] = lambda self: None
    cls = type("Old", (iosim.Stub,), body)
    if case["how"] == "inherited":
        cls = type("Older", (cls,), {})
    out = ctx.path()
    try:
        quiet(cls, out_dir=out, **dict(iosim.TINY, seed=case["seed"]))
    except AttributeError as e:
        if case["name"] not in str(e):
            raise Violation("the error does not name %s: %s" % (case["name"], e))
    else:
        raise Violation("a subclass with the retired hook %s is accepted" % case["name"])
    return True


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("mods", lambda tier: mod_cases(), run_mods, 200, 5000),
         Part("order", lambda tier: cases(), run_order, 120, 3000),
         Part("jobs", lambda tier: job_cases(), run_jobs, 60, 1200),
         Part("retired", lambda tier: retired_cases(), run_retired, 12, 60)]
