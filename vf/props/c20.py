"""C20 duration of runs against exact arithmetic."""
import os
import sys
import time
from fractions import Fraction
from unittest import mock

import yaml
from hypothesis import strategies as st
from pyDeltaRCM.preprocessor import Preprocessor, PreprocessorCLI

from .. import gen, iosim
from ..engine import Discard, Part, Violation
from ..iosim import quiet

RULE = ("generated durations (timesteps, time, years, intermittency) in the input file, as "
        "keywords or on the command line, for single and multiple jobs, fresh or resumed, "
        "serial or parallel; steps counted in the output file are compared with exact "
        "arithmetic; non-trivial: at least one step wanted or the run is to be refused or "
        "dry")
ASSUMPTIONS = ["durations that agree with a whole number of steps to rounding but not exactly "
               "are discarded (tie)",
               "a duration of a higher-ranking kind in the file together with a "
               "lower-ranking kind as argument is not judged",
               "routing of parcels replaced by a cheap function"]
BUDGET = {"quick": 45, "thorough": 600}
KINDS = ["timesteps", "time", "time_years"]


class TooLong(BaseException):
    pass


class Counted(iosim.Stub):
    limit = 10**9

    def hook_solve_water_and_sediment_timestep(self):
        self.count = getattr(self, "count", 0) + 1
        if self.count > self.limit:
            raise TooLong()


@st.composite
def cases(draw):
    exact = draw(st.booleans())
    c = {"Length": 500.0, "Width": 600.0, "dx": 50.0, "L0_meters": 50.0,
         "N0_meters": 150.0, "u0": 1.0, "C0_percent": 0.1, "h0": 2.0, "S0": 0.0,
         "Np_water": 1, "Np_sed": 1, "itermax": 1}
    if not exact:
        c.update(u0=draw(gen.num(0.5, 2.5, 2)), C0_percent=draw(gen.num(0.05, 1, 2)))
    where = draw(st.sampled_from(["file", "args", "both"]))

    def some(kinds):
        d = {}
        for k in kinds:
            n = draw(st.sampled_from([0, 1, 2, 3, 5, 7, 19]))
            d[k] = n if k == "timesteps" else [n, draw(st.sampled_from(
                [0, 0.3, 0.5, 0.9, 0.999, 0.01, 1e-4, 1e-6, 0.9999]))]
        return d
    subs = st.lists(st.sampled_from(KINDS), min_size=1, max_size=3, unique=True)
    f, a = {}, {}
    if where in ("file", "both"):
        f = some(draw(subs))
    if where in ("args", "both"):
        a = some(draw(subs))
    if f and a and min(map(KINDS.index, f)) < min(map(KINDS.index, a)):
        f, a = a, f
    If = {}
    if draw(st.booleans()):
        for w in draw(st.sampled_from([["file"], ["args"], ["file", "args"]])):
            If[w] = draw(st.sampled_from([1, 1.0, 0.5, 0.1, 0.03, 0.25]))
    mode = draw(st.sampled_from(["run", "run", "run", "run", "dry", "missing"]))
    return {"cfg": c, "file": {} if mode == "missing" else f,
            "args": {} if mode == "missing" else a, "If": If, "mode": mode,
            "dry_by": draw(st.sampled_from(["file", "args"])),
            "via": draw(st.sampled_from(["py", "cli"])),
            "jobs": draw(st.sampled_from([1, 1, 2])),
            "resume": draw(st.sampled_from([0, 0, 1, 2, 3])) if mode == "run" else 0,
            "resumes": draw(st.integers(1, 2)),
            "slow": draw(st.sampled_from([1, 1, 2, 0.7])),
            "no_dry": draw(st.sampled_from([None, None, "file"])),
            "parallel": draw(st.integers(0, 7)) == 0,
            "seed": draw(st.integers(0, 99))}


def start(case, ctx, root, filecfg, args, extra=None):
    p = ctx.path() + ".yml"
    cfg = dict(case["cfg"], out_dir=root, save_dt=1, save_eta_grids=True,
               save_checkpoint=True, **filecfg)
    if case["jobs"] > 1:
        cfg["matrix"] = {"seed": list(range(case["jobs"]))}
    else:
        cfg["seed"] = case["seed"]
    if case["parallel"]:
        cfg["parallel"] = 2
    cfg.update(extra or {})
    open(p, "w").write(yaml.safe_dump(cfg, sort_keys=False))
    if case["via"] == "py":
        pp = quiet(Preprocessor, p, **args)
    else:
        argv = ["pyDeltaRCM", "--config", p]
        for k, v in args.items():
            argv += ["--" + k] if k == "dryrun" else ["--" + k, repr(v)]
        old, sys.argv = sys.argv, argv
        try:
            pp = quiet(PreprocessorCLI)
        finally:
            sys.argv = old
    real = time.sleep
    with mock.patch("time.sleep", lambda s: real(min(s, 0.03))):
        quiet(pp.run_jobs, DeltaModel=Counted)
    return pp


def folders(root, n):
    return [root] if n == 1 else [os.path.join(root, "job_%03d" % i) for i in range(n)]


def run(case, ctx):
    root = ctx.path()
    tmp = quiet(iosim.Stub, out_dir=ctx.path(), **case["cfg"])
    dt = float(tmp.dt)
    If = float(case["If"].get("args", case["If"].get("file", 1.0)))

    def real(d):
        out = {}
        for k, v in d.items():
            if k == "timesteps":
                out[k] = v
            else:
                t = (v[0] + v[1]) * dt / If
                out[k] = t if k == "time" else t / (365.25 * 86400)
                if v[1] == 0 and k == "time" and float(t).is_integer() and case["seed"] % 2:
                    out[k] = int(t)
        return out
    f, a = real(case["file"]), real(case["args"])
    n = None
    for k in KINDS:
        src = a if k in a else f if k in f else None
        if src is None:
            continue
        if k == "timesteps":
            n = src[k]
        else:
            T = Fraction(src[k]) * Fraction(If) * (1 if k == "time" else Fraction(31557600))
            d = Fraction(dt)
            n = -((-T) // d)
            near = round(T / d)
            exact = dt.is_integer() and Fraction(src[k]).denominator == 1 and If in (
                1, 0.5, 0.25) and k == "time"
            if not exact and near >= 0 and abs(T - near * d) < Fraction(1, 10**8) * d * max(
                    1, near) and src[k] != 0:
                raise Discard("tie")
        ctx.label("by " + k)
        break
    Counted.limit = 60
    if "file" in case["If"]:
        f["If"] = case["If"]["file"]
    if "args" in case["If"]:
        a["If"] = case["If"]["args"]
    if case["mode"] == "missing":
        try:
            start(case, ctx, root, f, a)
        except ValueError:
            pass
        else:
            raise Violation("a run without duration was not refused")
        ctx.label("refused")
        return True
    if case["mode"] == "dry":
        if case["dry_by"] == "file":
            f["dryrun"] = True
        else:
            a["dryrun"] = True
        pp = start(case, ctx, root, f, a)
        for d in folders(root, case["jobs"]):
            if os.path.exists(os.path.join(d, iosim.NC)):
                raise Violation("a dry run wrote output")
            if case["jobs"] > 1 and not any(x.endswith(".yml") for x in os.listdir(d)):
                raise Violation("a dry run did not set up the files of the jobs")
        ctx.label("dry")
        return True
    first = 0
    ex = {}
    if case.get("no_dry"):
        f["dryrun"] = False
    if case["resume"]:
        first = case["resume"]
        # (the time step before the stop may have been another one)
        start(case, ctx, root, {"timesteps": first}, {},
              {"C0_percent": case["cfg"]["C0_percent"] * case.get("slow", 1)})
        ex = {"resume_checkpoint": True}
        ctx.label("resumed")
    total = first
    for r in range(case["resumes"] if case["resume"] else 1):
        total += n
        try:
            start(case, ctx, root, f, a, ex)
        except TooLong:
            raise Violation("run did not stop: more than %d steps instead of %d "
                            "(file %s, arguments %s, time step %r)"
                            % (Counted.limit, n, f, a, dt))
        for d in folders(root, case["jobs"]):
            R = iosim.read_nc(os.path.join(d, iosim.NC))
            got = len(R["vars"]["time"]["data"]) - 1
            if got != total:
                raise Violation(
                    "run of %d steps instead of %d (file %s, arguments %s, intermittency "
                    "%r, time step %r, resumed after %d)"
                    % (got - total + n, n, f, a, If, dt, total - n))
            ck = iosim.read_checkpoint(d)
            if int(ck["time_iter"]) != total:
                raise Violation("step count %d after %d steps" % (int(ck["time_iter"]),
                                                                  total))
    ctx.label("steps", min(n, 8))
    ctx.label(case["via"])
    return n > 0


PARTS = [Part("duration", lambda tier: cases(), run, 420, 9000)]
