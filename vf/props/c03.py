"""C03 crash or disk failure at every file operation of checkpointing and resuming."""
import ctypes
import os
import pickle
import shutil
import signal
import time
import traceback

import numpy as np
from hypothesis import strategies as st

from .. import gen, iosim
from ..engine import Part, Violation, _classify
from ..iosim import quiet

RULE = ("for a generated configuration, history and phase (a checkpoint being saved, or a "
        "run being resumed) every operation which changes a file in the output folder is a "
        "fault point: the process ends before it, in the middle of it (half written), or "
        "the operation fails (once, or from then on); each fault is one evaluation of the "
        "oracle (label faults); non-trivial: at least ten faults were injected")
ASSUMPTIONS = ["the process dies, the operating system does not: completed writes survive",
               "operations of C stdio inside libc are not intercepted (none are used here)",
               "routing of parcels replaced by a cheap function of all fields"]
LEVEL = "fault_enumeration"
BUDGET = {"quick": 60, "thorough": 800}
MODES = {"die": 1, "fail": 2, "half": 3, "broken": 4}

_lib = ctypes.CDLL(None)


def in_child(fn, timeout=60):
    """Run fn in a forked child; returns (exit status or None, result or None)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(timeout)
            os.close(r)
            os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
            try:
                res = ("ok", fn())
            except Violation as e:
                res = ("violation", str(e))
            except BaseException as e:  # noqa: B902
                res = ("exception", "%s: %s\n%s" % (type(e).__name__, e,
                                                    traceback.format_exc()),
                       _classify(e))
            _lib.shim_disarm()
            data = pickle.dumps(res)
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa: B902
            code = 3
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    return code, (pickle.loads(data) if data else None)


@st.composite
def cases(draw):
    c = draw(gen.config(L=(6, 8), W=(8, 10), np_water=(1, 2), np_sed=(1, 2)))
    for k in iosim.GRID_OPTS:
        if draw(st.integers(0, 4)) == 0:
            c[k] = True
    if draw(st.booleans()):
        c["save_metadata"] = True
    if draw(st.integers(0, 3)) == 0:
        c["legacy_netcdf"] = True
    c["save_checkpoint"] = True
    n = draw(st.integers(2, 5))
    return {"cfg": c, "n": n, "stop": draw(st.integers(1, n - 1)),
            "ck": draw(st.sampled_from([1, 1, 2])),
            "phase": draw(st.sampled_from(["resume", "save", "resume", "first"])),
            "mode": draw(st.sampled_from(["die", "half", "fail", "broken"])),
            "unclean": draw(st.booleans()), "off": draw(st.integers(0, 10))}


def play(cfg, out, n):
    m = quiet(iosim.Stub, out_dir=out, **cfg)
    S = [iosim.state(m)]
    for _ in range(n):
        quiet(m.update)
        S.append(iosim.state(m))
    quiet(m.finalize)
    return S


def build_folder(cfg, out, stop, unclean):
    """A run stopped after `stop` steps (cleanly, or by the end of the process)."""
    m = quiet(iosim.Stub, out_dir=out, **cfg)
    for _ in range(stop):
        quiet(m.update)
    if unclean:
        os._exit(0)
    quiet(m.finalize)


def faulty_save(cfg, out, stop, first, k, mode):
    """Steps up to `stop`; the fault hits the checkpoint saved then."""
    class M(iosim.Stub):
        def output_checkpoint(self):
            on = (self.time_iter == stop) if not first else self.time_iter == 0
            if on:
                _lib.shim_arm(out.encode(), ctypes.c_long(k), mode)
            try:
                super().output_checkpoint()
            finally:
                if on:
                    self.ops_ = _lib.shim_disarm()
    m = quiet(M, out_dir=out, **cfg)
    if not first:
        for _ in range(stop):
            quiet(m.update)
    # the process ends here without closing anything
    return m.ops_


def faulty_resume(cfg, out, k, mode):
    _lib.shim_arm(out.encode(), ctypes.c_long(k), mode)
    try:
        quiet(iosim.Stub, out_dir=out, resume_checkpoint=True, **cfg)
    finally:
        n = _lib.shim_disarm()
    return n


def verify(cfg, out, S, A, n, allowed, nframes, first, what):
    """The oracle: what is left on disk, and what comes of resuming from it."""
    ckp = os.path.join(out, iosim.CK)
    if first and not os.path.exists(ckp):
        return "none"
    if not os.path.exists(ckp):
        raise Violation("%s: no checkpoint is left (files: %s)"
                        % (what, sorted(os.listdir(out))))
    try:
        c = iosim.read_checkpoint(out)
        j = int(c["time_iter"])
        for k in ("eta", "stage", "depth", "qx", "uw"):
            if not np.array_equal(c[k], S[j][k]):
                raise Violation("%s: checkpoint of step %d holds wrong %s" % (what, j, k))
    except Violation:
        raise
    except Exception as e:
        raise Violation("%s: the checkpoint left is not readable (%s: %s)"
                        % (what, type(e).__name__, e))
    if j not in allowed:
        raise Violation("%s: checkpoint is of step %d, expected one of %s"
                        % (what, j, allowed))
    if A is not None:
        path = os.path.join(out, iosim.NC)
        if not os.path.exists(path):
            raise Violation("%s: the output file is gone (files: %s)"
                            % (what, sorted(os.listdir(out))))
        try:
            now = iosim.read_nc(path)
        except Exception as e:
            raise Violation("%s: the output file left is not readable (%s: %s)"
                            % (what, type(e).__name__, e))
        if len(now["vars"]["time"]["data"]) < nframes:
            raise Violation("%s: %d frames left, %d were saved"
                            % (what, len(now["vars"]["time"]["data"]), nframes))
        for name, v in A["vars"].items():
            if name not in now["vars"]:
                raise Violation("%s: variable %s is gone" % (what, name))
            x, y = v["data"], now["vars"][name]["data"]
            if v["dims"] and v["dims"][0] in ("time", "total_time"):
                x, y = x[:nframes], y[:nframes]
            if not np.array_equal(x, y, equal_nan=True):
                raise Violation("%s: saved values of %s changed" % (what, name))
    try:
        m = quiet(iosim.Stub, out_dir=out, resume_checkpoint=True, **cfg)
    except Exception as e:
        raise Violation("%s: resuming fails: %s: %s" % (what, type(e).__name__, e))
    d = iosim.diff_state(S[j], iosim.state(m))
    if d:
        raise Violation("%s: resumed state differs: %s" % (what, d))
    for k in range(j + 1, n + 1):
        quiet(m.update)
        d = iosim.diff_state(S[k], iosim.state(m))
        if d:
            raise Violation("%s: step %d after resuming differs: %s" % (what, k, d))
    quiet(m.finalize)
    if A is not None:
        d = iosim.diff_nc(A, iosim.read_nc(os.path.join(out, iosim.NC)), history=False)
        if d:
            raise Violation("%s: output of the resumed run: %s" % (what, d))
    return "ok"


def get(r, what):
    code, res = r
    if res is None:
        raise RuntimeError("%s: child ended with %s" % (what, code))
    if res[0] == "violation":
        raise Violation(res[1])
    if res[0] == "exception":
        if res[2] == "repo":
            raise Violation("%s: unexpected %s" % (what, res[1]))
        raise RuntimeError(res[1])
    return res[1]


CAP = {"quick": 24, "thorough": 400}


def run(case, ctx):
    cfg = dict(case["cfg"])
    n, stop, phase = case["n"], case["stop"], case["phase"]
    first = phase == "first"
    mode = MODES[case["mode"]]
    tier = os.environ.get("VERIF_TIER", "quick")

    prep_dir = ctx.path()

    def prep():
        m = quiet(iosim.Stub, out_dir=prep_dir, **dict(cfg, save_checkpoint=False))
        return float(m.dt)
    dt = get(in_child(prep), "building the model")
    cfg["save_dt"] = max(1, int(0.5 * dt))
    if case["ck"] == 2:
        cfg["checkpoint_dt"] = max(1, int(1.5 * dt))
    outa = ctx.path()
    S = get(in_child(lambda: play(cfg, outa, n)), "uninterrupted run")
    nc = os.path.join(outa, iosim.NC)
    A = None
    if os.path.exists(nc):
        A = get(in_child(lambda: iosim.read_nc(nc)), "reading the output")
    # steps at which a checkpoint is saved
    every = case["ck"]
    steps = [k for k in range(0, n + 1) if k % every == 0]
    if phase == "save":
        if stop not in steps:
            stop = max(k for k in steps if k <= stop) or every
        if stop > n:
            return False
        allowed = [max(k for k in steps if k < stop), stop]
        nframes = stop + 1
    elif first:
        allowed = [0]
        nframes = 1
    else:
        allowed = [max(k for k in steps if k <= stop)]
        nframes = stop + 1
    base = ctx.path()
    if phase == "resume":
        code, res = in_child(lambda: build_folder(cfg, base, stop, case["unclean"]))
        if code != 0 or (not case["unclean"] and (res is None or res[0] != "ok")):
            raise RuntimeError("building the folder: %s %s" % (code, res))

    def attempt(k):
        out = ctx.path()
        if phase == "resume":
            shutil.copytree(base, out)
            return out, in_child(lambda: faulty_resume(cfg, out, k, mode))
        return out, in_child(lambda: faulty_save(cfg, out, stop, first, k, mode))

    # count the operations
    out, r = attempt(0)
    total = get(r, phase)
    shutil.rmtree(out)
    if total == 0 and phase == "resume" and A is None:
        ctx.label("resume without an output file changes no file")
        return False
    if total == 0:
        raise RuntimeError("no file operation seen in phase " + phase)
    cap = CAP[tier]
    if total <= cap:
        ks = list(range(1, total + 1))
    else:
        # first, last and evenly spread points, shifted from case to case
        edge = cap // 3
        mid = list(range(edge + 1 + case["off"] % 7, total - edge,
                         max(1, (total - 2 * edge) // (cap - 2 * edge))))
        ks = sorted(set(list(range(1, edge + 1)) + mid
                        + list(range(total - edge + 1, total + 1))))
    died = failed = survived = 0
    for k in ks:
        out, (code, res) = attempt(k)
        what = "%s, %s at file operation %d of %d" % (phase, case["mode"], k, total)
        if code == 77:
            died += 1
        elif res is not None and res[0] == "exception":
            failed += 1
        elif res is not None and res[0] == "ok":
            survived += 1
        elif code is not None and code < 0 and mode in (2, 4):
            died += 1       # a C library may give up on a failing disk
        else:
            raise RuntimeError("%s: child ended with %s, %s" % (what, code, res))
        code, res = in_child(lambda: verify(cfg, out, S, A, n, allowed, nframes, first,
                                            what))
        if res is None:
            raise Violation("%s: the process which resumes dies (%s)" % (what, code))
        if res[0] == "violation":
            raise Violation(res[1])
        if res[0] == "exception":
            if res[2] == "repo":
                raise Violation("%s: %s" % (what, res[1]))
            raise RuntimeError(res[1])
        shutil.rmtree(out)
    ctx.label("faults", len(ks))
    ctx.label("faults in phase " + phase, len(ks))
    ctx.label("process ended", died)
    ctx.label("error raised", failed)
    ctx.label("error ignored", survived)
    return len(ks) >= 10


def warmup(ctx):
    # every function used by children is compiled here, once
    d = ctx.path()
    m = quiet(iosim.Stub, out_dir=d, save_checkpoint=True, save_eta_grids=True, save_dt=1,
              **iosim.TINY)
    quiet(m.update)
    quiet(m.finalize)
    m = quiet(iosim.Stub, out_dir=d, save_checkpoint=True, save_eta_grids=True, save_dt=1,
              resume_checkpoint=True, **iosim.TINY)
    quiet(m.update)
    quiet(m.finalize)
    time.sleep(0)


PARTS = [Part("faults", lambda tier: cases(), run, 64, 1200)]
