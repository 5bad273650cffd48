"""C15 sessions in one folder: what may be replaced and how runs end."""
import hashlib
import os
import warnings

import numpy as np
import yaml
from hypothesis import strategies as st
from pyDeltaRCM.preprocessor import Preprocessor

from .. import iosim
from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("generated histories of sessions in one folder (fresh, clobbering or resuming, with "
        "and without output, foreign files, misuse after finalising) and of multi-job "
        "starts in folders of every kind; files are compared byte by byte before and after; "
        "non-trivial: output existed when a later session started")
ASSUMPTIONS = ["log files are not results", "routing of parcels is replaced by a cheap "
               "function of all fields"]
BUDGET = {"quick": 40, "thorough": 600}

OPTS = {"save_eta_grids": True, "save_depth_grids": True}


def content(folder):
    """{relative path: digest} without log files."""
    out = {}
    for d, dirs, files in os.walk(folder):
        for f in files:
            p = os.path.join(d, f)
            if not f.endswith(".log"):
                out[os.path.relpath(p, folder)] = hashlib.sha1(
                    open(p, "rb").read()).hexdigest()
        for f in dirs:
            out[os.path.relpath(os.path.join(d, f), folder) + "/"] = "dir"
    return out


def changed(a, b):
    return sorted(k for k in a if a[k] != b.get(k)), sorted(set(b) - set(a))


@st.composite
def sessions(draw):
    S = []
    for _ in range(draw(st.integers(1, 5))):
        S.append({"save": draw(st.sampled_from([True, True, False])),
                  "meta_only": draw(st.integers(0, 5)) == 0,
                  "clobber": draw(st.sampled_from([False, False, True])),
                  "resume": draw(st.sampled_from([False, False, True])),
                  "ckpt": draw(st.booleans()),
                  "n": draw(st.integers(0, 3)),
                  "via": draw(st.sampled_from(["kwargs", "file", "pp", "kwargs"])),
                  "after": draw(st.lists(st.sampled_from(["update", "finalize"]),
                                         max_size=3))})
    return {"sessions": S,
            "foreign": draw(st.sampled_from([[], ["notes.txt"], ["eta_00000.png"],
                                             ["pyDeltaRCM_output.nc"],
                                             ["pyDeltaRCM_output.nc", "x.yml"]])),
            "seed": draw(st.integers(0, 100))}


def open_files(path):
    n = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            n += os.readlink("/proc/self/fd/" + f) == path
        except OSError:
            pass
    return n


def run_sessions(case, ctx):
    out = ctx.path()
    os.makedirs(out)
    for f in case["foreign"]:
        with open(os.path.join(out, f), "wb") as h:
            h.write(b"not ours %d" % case["seed"])
    nc = os.path.join(out, iosim.NC)
    ck = os.path.join(out, iosim.CK)
    # whether the output file was written by the model
    ours = False
    again = False
    for i, s in enumerate(case["sessions"]):
        cfg = dict(iosim.TINY, seed=case["seed"] + i, save_dt=1, out_dir=out)
        if s["save"]:
            cfg.update({"save_metadata": True} if s["meta_only"] else OPTS)
        for k, o in (("clobber", "clobber_netcdf"), ("resume", "resume_checkpoint"),
                     ("ckpt", "save_checkpoint")):
            if s[k]:
                cfg[o] = True
        before = content(out)
        had_nc, had_ck = os.path.exists(nc), os.path.exists(ck)
        again = again or (had_nc and i > 0)
        what = "session %d (%s)" % (i, {k: v for k, v in s.items() if v})

        def build():
            if s["via"] == "kwargs":
                return iosim.Stub(**cfg)
            if s["via"] == "file":
                p = ctx.path()
                yaml.safe_dump(cfg, open(p, "w"))
                return iosim.Stub(input_file=p)
            p = ctx.path()
            yaml.safe_dump(dict(cfg, timesteps=s["n"]), open(p, "w"))
            pp = Preprocessor(p)
            pp.run_jobs(DeltaModel=iosim.Stub)
            return pp.job_list[0].deltamodel
        old = None
        if s["resume"]:
            refuse = not had_ck or (s["save"] and had_nc and not ours)
            if not refuse and s["save"] and had_nc:
                old = iosim.read_nc(nc)
                if ("eta" in old["vars"]) == s["meta_only"]:
                    continue        # asks for other variables than the file has
        else:
            refuse = s["save"] and had_nc and not s["clobber"]
        if refuse:
            try:
                m = quiet(build)
            except Exception as e:
                if not s["resume"] and not isinstance(e, FileExistsError):
                    raise Violation("%s: refused with %r" % (what, e))
                ctx.label("refused " + ("resume" if s["resume"] else "start"))
            else:
                raise Violation("%s: started although it would %s" % (
                    what, "resume without a usable checkpoint and output file"
                    if s["resume"] else "overwrite the output file"))
            now = content(out)
            ch, new = changed(before, now)
            if ch or new:
                raise Violation("%s was refused but changed %s and added %s"
                                % (what, ch, new))
            continue
        m = quiet(build)
        start = int(m.time_iter) if s["via"] != "pp" else None
        if s["via"] != "pp":
            for _ in range(s["n"]):
                quiet(m.update)
            quiet(m.finalize)
        ctx.label("resumed" if s["resume"] else "replaced" if had_nc and s["save"]
                  else "started")
        may = set()
        if s["save"]:
            may.add(iosim.NC)
        if s["ckpt"]:
            may.add(iosim.CK)
        now = content(out)
        ch, new = changed(before, now)
        if set(ch) - may or set(new) - may:
            raise Violation("%s changed %s and added %s, but only %s is its output"
                            % (what, ch, new, sorted(may)))
        if s["save"]:
            if open_files(os.path.realpath(nc)):
                raise Violation("%s: output file still open after finalising" % what)
            R = iosim.read_nc(nc)
            ours = True
            nf = len(R["vars"]["time"]["data"])
            t0 = 0
            if not s["resume"] or not had_nc:
                if s["resume"]:
                    want = s["n"]
                else:
                    want = s["n"] + 1
                if nf != want:
                    raise Violation("%s: %d frames instead of %d" % (what, nf, want))
                if nf and not s["resume"] and float(R["vars"]["time"]["data"][0]) != 0:
                    raise Violation("%s: frame of the initial state missing" % what)
            else:
                base = int(m.save_iter) - s["n"]
                k = min(base, len(old["vars"]["time"]["data"]))
                for v in old["vars"]:
                    a, b = old["vars"][v], R["vars"][v]
                    tv = a["dims"][:1] == old["vars"]["time"]["dims"]
                    x, y = (a["data"][:k], b["data"][:k]) if tv else (a["data"], b["data"])
                    if not np.array_equal(x, y, equal_nan=True):
                        raise Violation("%s: frames of %s before the checkpoint changed"
                                        % (what, v))
                # (the file of another session may hold fewer frames than the run had)
                if nf < (base + s["n"] if s["n"] else k):
                    raise Violation("%s: %d frames after resuming at %d and %d steps"
                                    % (what, nf, base, s["n"]))
        st0 = iosim.state(m)
        for op in s["after"]:
            try:
                quiet(getattr(m, op))
            except RuntimeError:
                ctx.label("refused " + op)
            else:
                raise Violation("%s: %s after finalising was not refused" % (what, op))
            d = iosim.diff_state(st0, iosim.state(m))
            if d:
                raise Violation("%s: refused %s changed %s" % (what, op, d))
            if content(out) != now:
                raise Violation("%s: refused %s changed files %s"
                                % (what, op, changed(now, content(out))))
    return again


@st.composite
def multi(draw):
    kind = draw(st.sampled_from(["matrix", "set", "ensemble", "matrix+ensemble"]))
    return {"kind": kind,
            "root": draw(st.sampled_from(["dir", "earlier", "empty", "file", "none",
                                          "resume", "resume_str"])),
            "parallel": False,
            "clobber": draw(st.booleans()),
            "n": draw(st.integers(1, 3)),
            "seed": draw(st.integers(0, 1000))}


def run_multi(case, ctx):
    root = ctx.path()
    fixed = dict(iosim.TINY, save_dt=1, save_checkpoint=True, timesteps=case["n"],
                 out_dir=root, **OPTS)
    fixed.pop("seed")
    if case["clobber"]:
        fixed["clobber_netcdf"] = True
    if "matrix" in case["kind"]:
        fixed["matrix"] = {"f_bedload": [0.2, 0.7]}
    if "ensemble" in case["kind"]:
        fixed["ensemble"] = 2
    if case["kind"] == "set":
        fixed["set"] = [{"u0": 1.0, "h0": 3.0}, {"u0": 1.5, "h0": 2.0}]
    njob = 4 if case["kind"] == "matrix+ensemble" else 2
    kind = case["root"]

    def start(cfg, **kw):
        p = ctx.path()
        yaml.safe_dump(cfg, open(p, "w"))
        pp = quiet(Preprocessor, p, **kw)
        quiet(pp.run_jobs, DeltaModel=iosim.Stub)
        return pp
    if kind == "dir":
        os.makedirs(os.path.join(root, "job_000"))
        open(os.path.join(root, "job_000", iosim.NC), "wb").write(b"precious")
        open(os.path.join(root, "jobs_parameters.txt"), "wb").write(b"precious")
    elif kind == "empty":
        os.makedirs(root)
    elif kind == "file":
        open(root, "wb").write(b"precious")
    elif kind != "none":
        start(fixed)
    snap = content(root) if kind != "file" else open(root, "rb").read()
    if kind == "none":
        pp = start(fixed)
        for j in range(njob):
            R = iosim.read_nc(os.path.join(root, "job_%03d" % j, iosim.NC))
            if len(R["vars"]["time"]["data"]) != case["n"] + 1:
                raise Violation("job %d has %d frames" % (j, len(R["vars"]["time"]["data"])))
        return False
    if kind == "resume":
        before = [iosim.read_nc(os.path.join(root, "job_%03d" % j, iosim.NC))
                  for j in range(njob)]
        pp = start(dict(fixed, resume_checkpoint=True))
        for j in range(njob):
            R = iosim.read_nc(os.path.join(root, "job_%03d" % j, iosim.NC))
            if len(R["vars"]["time"]["data"]) != 2 * case["n"] + 1:
                raise Violation("resumed job %d has %d frames instead of %d" % (
                    j, len(R["vars"]["time"]["data"]), 2 * case["n"] + 1))
            for v in ("time", "eta", "depth"):
                a, b = before[j]["vars"][v]["data"], R["vars"][v]["data"]
                if not np.array_equal(a, b[:len(a)]):
                    raise Violation("resumed job %d changed frames of %s" % (j, v))
        ch = {os.path.basename(c) for c in changed(snap, content(root))[0]}
        if ch - {iosim.NC, iosim.CK, "jobs_parameters.txt"} - {
                "job_%03d.yml" % j for j in range(njob)}:
            raise Violation("resuming jobs changed %s" % sorted(ch))
        ctx.label("resumed jobs")
        return True
    cfg = dict(fixed)
    if kind == "resume_str":
        cfg["resume_checkpoint"] = False
    try:
        start(cfg)
    except FileExistsError:
        ctx.label("refused jobs")
    except NotADirectoryError:
        ctx.label("refused jobs")
    else:
        raise Violation("jobs were started although the output folder exists (%s)" % kind)
    now = content(root) if kind != "file" else open(root, "rb").read()
    if now != snap:
        raise Violation("refused jobs changed %s" % (
            changed(snap, now) if kind != "file" else "the file",))
    return kind != "empty"


PARTS = [Part("sessions", lambda tier: sessions(), run_sessions, 420, 9000),
         Part("jobs", lambda tier: multi(), run_multi, 90, 2000)]
