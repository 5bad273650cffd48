"""C19 jobs of the preprocessor against the same models run alone."""
import multiprocessing
import os
import re
import signal
import time
from unittest import mock

import numpy as np
import pyDeltaRCM
import yaml
from hypothesis import strategies as st
from pyDeltaRCM.preprocessor import Preprocessor

from .. import gen, iosim, probe
from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("generated multi-job specifications run serially or in parallel with 1 to 8 workers, "
        "with generated failures in some jobs; every output file and checkpoint is compared "
        "with that of a model built from the job's file and run alone; non-trivial: at least "
        "2 jobs of at least 1 step")
ASSUMPTIONS = ["part stub replaces the routing of parcels by a cheap function of all fields "
               "and random numbers; part full runs the model itself",
               "failures are raised in the run, not while the models are set up",
               "schedules of parallel jobs are those the operating system produces under "
               "generated delays"]
BUDGET = {"quick": 50, "thorough": 700}

PARAMS = {"fail_at": {"type": "int", "default": -1},
          "fail_kind": {"type": "str", "default": "RuntimeError"},
          "fail_len": {"type": "int", "default": 0},
          "delay": {"type": ["float", "int"], "default": 0.0}}


MARK = "finalised.txt"
HANG = 75   # seconds


class Failing:
    """Fails in step `fail_at`, part way through the step."""

    def __init__(self, *a, **k):
        self.subclass_parameters = {k: dict(v) for k, v in PARAMS.items()}
        super().__init__(*a, **k)

    def hook_solve_water_and_sediment_timestep(self):
        if self.delay:
            time.sleep(self.delay)

    def hook_finalize_timestep(self):
        if self.time_iter == self.fail_at:
            raise {"RuntimeError": RuntimeError, "ValueError": ValueError}[
                self.fail_kind]("planned failure of this job" + " x" * self.fail_len)

    def finalize(self):
        # finalised models leave a mark (processes of parallel jobs cannot be asked)
        super().finalize()
        with open(os.path.join(self.prefix, MARK), "a") as f:
            f.write("x")


class FailingStub(Failing, iosim.Stub):
    pass


class FailingModel(Failing, pyDeltaRCM.DeltaModel):
    pass


@st.composite
def cases(draw, full=False):
    if full:
        c = draw(gen.config(L=(10, 12), W=(14, 18), np_water=(1, 6), np_sed=(1, 6),
                            itermax=(1, 2)))
    else:
        c = draw(gen.config(L=(6, 8), W=(8, 10), np_water=(1, 3), np_sed=(1, 3)))
    for k in ("f_bedload", "u0", "SLR", "alpha"):
        c.pop(k, None)
    c["S0"] = min(c["S0"], round(0.3 * 0.64 / (9.81 * c["dx"]), 9))
    seed = c.pop("seed")
    kind = draw(st.sampled_from(["matrix", "set", "ensemble", "single", "matrix+ensemble"]))
    c.update(save_dt=1, save_eta_grids=True, save_velocity_grids=True,
             save_sandfrac_grids=True)
    if draw(st.booleans()):
        c["save_checkpoint"] = True
    n = draw(st.integers(1, 2 if full else 4))
    spec = {}
    fails = draw(st.sampled_from([None, None, 0, 1, 2]))
    fk = draw(st.sampled_from(["RuntimeError", "ValueError"]))
    seeded = draw(st.booleans())
    if "matrix" in kind:
        spec["matrix"] = {"f_bedload": [0.3, 0.8]}
        if draw(st.booleans()) and kind == "matrix":
            spec["matrix"]["timesteps"] = [n, max(0, n - 1)]
        if fails is not None and "timesteps" not in spec["matrix"]:
            spec["matrix"]["fail_at"] = draw(st.permutations([-1, fails]))
        elif draw(st.booleans()):
            spec["matrix"]["delay"] = draw(st.permutations([0.0, 0.03]))
    if kind == "set":
        spec["set"] = []
        for j in range(draw(st.integers(2, 3))):
            spec["set"].append({"u0": draw(st.sampled_from([1.0, 1.3, 0.8])),
                                "SLR": draw(st.sampled_from([0.0, 1e-7])),
                                "seed": draw(st.integers(0, 9)),
                                "delay": draw(st.sampled_from([0.0, 0.0, 0.03])),
                                "fail_at": draw(st.sampled_from([-1, -1, 0, 1]))
                                if fails is not None else -1})
        seeded = False
    if "ensemble" in kind:
        spec["ensemble"] = draw(st.integers(2, 3))
        seeded = False
        if fails is not None and kind == "ensemble":
            c["fail_at"] = fails
    if kind == "single" and fails is not None:
        c["fail_at"] = fails
    c["fail_kind"] = fk
    c["fail_len"] = draw(st.sampled_from([0, 0, 0, 50, 10**5]))
    if seeded:
        c["seed"] = seed
    return {"cfg": c, "spec": spec, "n": n, "kind": kind,
            "parallel": draw(st.sampled_from([None, None, True, 1, 2, 3, 8])),
            "before": draw(st.integers(0, 3)),
            "edit": draw(st.sampled_from([None, None, None, {"timesteps": n + 1},
                                          {"timesteps": n - 1, "h0": 2.5}, {"h0": 3.0}])),
            "resume": draw(st.sampled_from([0, 1, 2]))}


def job_seed(folder):
    return int(re.findall(r"[Ss]eed\D*(\d+)", iosim.log_text(folder))[-1])


class Hang(Exception):
    pass


def jobs(pp, cls):
    def ring(*a):
        raise Hang
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(HANG)
    try:
        quiet(pp.run_jobs, DeltaModel=cls)
    except Hang:
        for p in multiprocessing.active_children():
            p.kill()
        raise Violation("the run of all jobs does not end (%d s for jobs of well under a "
                        "second)" % HANG)
    except (RuntimeError, ValueError) as e:
        if "planned failure" in str(e):
            raise Violation("the failure of a job (%s) stopped the run of all jobs"
                            % type(e).__name__)
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def compare(out, folder, what):
    """Output and checkpoint of the model run alone and of the job."""
    d = iosim.diff_nc(iosim.read_nc(os.path.join(out, iosim.NC)),
                      iosim.read_nc(os.path.join(folder, iosim.NC)), history=False)
    if d:
        raise Violation("%s differs from the model run alone (first: alone): %s"
                        % (what, d))
    has = [os.path.exists(os.path.join(x, iosim.CK)) for x in (out, folder)]
    if has[0] != has[1]:
        raise Violation("%s: checkpoint %s" % (what, "missing" if has[0] else
                                               "not asked for"))
    if has[0]:
        a, b = iosim.read_checkpoint(out), iosim.read_checkpoint(folder)
        for k in a:
            same = str(a[k].tolist()) == str(b[k].tolist()) if k == "rng_state" \
                else np.array_equal(a[k], b[k])
            if not same:
                raise Violation("%s: %s in the checkpoint differs" % (what, k))


def run_with(cls):
    def run(case, ctx):
        from pyDeltaRCM import shared_tools
        root = ctx.path()
        p = ctx.path() + ".yml"
        cfg = dict(case["cfg"], out_dir=root)
        if "timesteps" not in case["spec"].get("matrix", {}):
            cfg["timesteps"] = case["n"]
        cfg.update(case["spec"])
        if case["parallel"] is not None:
            cfg["parallel"] = case["parallel"]
        for _ in range(case["before"]):
            shared_tools.get_random_uniform(1.0)
        open(p, "w").write(yaml.safe_dump(cfg, sort_keys=False))
        real = time.sleep
        with mock.patch("time.sleep", lambda s: real(min(s, 0.03))):
            pp = quiet(Preprocessor, p)
            if case.get("edit"):
                # the files of the jobs count, also when edited before the run
                for f in pp.file_list:
                    jc = yaml.load(open(f), Loader=shared_tools.custom_yaml_loader())
                    jc.update({k: v for k, v in case["edit"].items()
                               if k not in case["spec"].get("matrix", {})})
                    open(f, "w").write(yaml.safe_dump(jc, sort_keys=False))
                ctx.label("edited files")
            jobs(pp, cls)
        files = [str(f) for f in pp.file_list]
        alone = []
        single = case["kind"] == "single"
        steps = 0
        anyfail = False
        for i, f in enumerate(files):
            jc = yaml.load(open(f), Loader=shared_tools.custom_yaml_loader())
            folder = root if single else os.path.dirname(f)
            n = int(jc["timesteps"])
            fa = int(jc.get("fail_at", -1))
            fails = 0 <= fa < n
            done = fa if fails else n
            kw = {}
            if "seed" not in jc:
                kw["seed"] = job_seed(folder)
            out = ctx.path()
            jc["out_dir"] = out
            q = ctx.path() + ".yml"
            open(q, "w").write(yaml.safe_dump(jc, sort_keys=False))
            m = quiet(cls, input_file=q, **kw)
            for _ in range(done):
                quiet(m.update)
            quiet(m.finalize)
            what = "job %d of %d (%s)" % (i, len(files), "parallel %r" % case["parallel"]
                                          if case["parallel"] else "serial")
            compare(out, folder, what)
            alone.append((q, out, folder))
            mark = os.path.join(folder, MARK)
            k = len(open(mark).read()) if os.path.exists(mark) else 0
            if k != 1:
                raise Violation("%s was finalised %d times%s"
                                % (what, k, " after its failure" if fails else ""))
            log = iosim.log_text(folder)
            if fails:
                if not re.search(r"ERROR.*planned failure", log):
                    raise Violation("%s: failure is not recorded as an error" % what)
                ctx.label("failed job")
            elif "ERROR" in log or "planned failure" in log:
                raise Violation("%s: error recorded for a job that did not fail" % what)
            if not case["parallel"]:
                mm = pp.job_list[i].deltamodel
                try:
                    quiet(mm.finalize)
                except RuntimeError:
                    pass
                else:
                    raise Violation("%s was not finalised" % what)
                d = iosim.diff_state(iosim.state(m, qs=True), iosim.state(mm, qs=True),
                                     skip=("rng",))
                if d and not fails:
                    raise Violation("%s: final state differs: %s" % (what, d))
            steps = max(steps, done)
            anyfail = anyfail or fails
        if case["resume"] and cfg.get("save_checkpoint") and not anyfail \
                and "timesteps" in cfg and not case.get("edit"):
            # the same jobs, continued
            cfg.update(resume_checkpoint=True, timesteps=case["resume"])
            open(p, "w").write(yaml.safe_dump(cfg, sort_keys=False))
            with mock.patch("time.sleep", lambda s: real(min(s, 0.03))):
                pp = quiet(Preprocessor, p)
                jobs(pp, cls)
            for i, (q, out, folder) in enumerate(alone):
                m = quiet(cls, input_file=q, resume_checkpoint=True)
                for _ in range(case["resume"]):
                    if m.time_iter == m.fail_at:
                        break
                    quiet(m.update)
                quiet(m.finalize)
                compare(out, folder, "resumed job %d of %d (parallel %r)"
                        % (i, len(alone), case["parallel"]))
            ctx.label("resumed jobs")
        ctx.label(case["kind"])
        ctx.label("parallel" if case["parallel"] else "serial")
        ctx.label("jobs", len(files))
        return len(files) > 1 and steps > 0
    return run


def warmup(ctx):
    m = probe.build(ctx, gen.SMALL)
    m.update()


PARTS = [Part("stub", lambda tier: cases(), run_with(FailingStub), 160, 4000),
         Part("full", lambda tier: cases(True), run_with(FailingModel), 60, 1500)]
