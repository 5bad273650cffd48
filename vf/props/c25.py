"""C25 the log and the terminal."""
import contextlib
import glob
import io
import os
import re
import warnings

from hypothesis import strategies as st

from .. import gen, iosim, probe
from ..engine import Part, Violation

RULE = ("generated configurations run side by side at generated verbosities, with user "
        "messages, changes of the verbosity and finalisation; logs and terminal output are "
        "compared with what each model did and across verbosities; non-trivial: at least "
        "one step was run")
BUDGET = {"quick": 30, "thorough": 300}
LINE = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - (\w+) - (.*)$")


@st.composite
def cases(draw):
    c = draw(gen.config(L=(6, 10), W=(8, 14), np_water=(1, 3), np_sed=(1, 3)))
    if draw(st.booleans()):
        c["save_eta_grids"] = True
    if draw(st.integers(0, 2)) == 0:
        c["save_checkpoint"] = True
    n = draw(st.integers(1, 3))
    ops = []
    for i in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["update", "update", "msg", "msg", "verbose"]))
        ops.append([k, draw(st.integers(0, n - 1)),
                    draw(st.integers(0, 3)) if k == "msg" else draw(st.integers(0, 2))])
    return {"cfg": c, "n": n, "verbose": [draw(st.integers(0, 2)) for _ in range(n)],
            "ops": ops, "full": draw(st.integers(0, 3)) == 0,
            "unknown": draw(st.integers(0, 3)) == 0}


def logs(d):
    fs = sorted(glob.glob(os.path.join(d, "*.log")))
    rows = []
    for f in fs:
        with open(f) as fh:
            for x in fh.read().split("\n"):
                g = LINE.match(x)
                if g:
                    rows.append((g.group(1), g.group(2)))
                elif x and rows:
                    rows[-1] = (rows[-1][0], rows[-1][1] + "\n" + x)
                elif x:
                    raise Violation("log line without time and level: %r" % x)
    return fs, rows


def timeline(m):
    return "Time: %.1f; timestep: %g" % (m.time, m.time_iter)


def once(case, ctx, verbose=None):
    """Run the operations; the logs and expected lines of each model."""
    import pyDeltaRCM
    cls = pyDeltaRCM.DeltaModel if case["full"] else iosim.Stub
    ms, dirs, times, msgs, term = [], [], [], [], []
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings():
        warnings.simplefilter("ignore")

        def tell(i):
            times[i].append(timeline(ms[i]))
            if ms[i].verbose > 0:
                term.append(timeline(ms[i]))
        for i in range(case["n"]):
            d = ctx.path()
            v = case["verbose"][i] if verbose is None else verbose
            ms.append(cls(**dict(case["cfg"], out_dir=d, verbose=v)))
            dirs.append(d)
            times.append([])
            msgs.append([])
            tell(i)
        for j, (k, i, a) in enumerate(case["ops"]):
            if k == "update":
                ms[i].update()
                tell(i)
            elif k == "msg":
                t = "user message %d of model %d" % (j, i)
                ms[i].log_info(t, verbosity=a)
                msgs[i].append((t, ms[i].verbose >= a))
            elif verbose is None:
                ms[i].verbose = a
        for m in ms:
            m.finalize()
    return ms, dirs, times, msgs, term, buf.getvalue()


def is_subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def run(case, ctx):
    ms, dirs, times, msgs, term, out = once(case, ctx)
    got = [x for x in out.split("\n") if x]
    if got != term:
        raise Violation("terminal output %r, expected %r" % (got, term))
    for i, d in enumerate(dirs):
        fs, rows = logs(d)
        if len(fs) != 1:
            raise Violation("%d log files in the folder of model %d" % (len(fs), i))
        texts = [t for _, t in rows]
        tl = [t for t in texts if t.startswith("Time: ")]
        if tl != times[i]:
            raise Violation("model %d: times in the log are %r, expected %r"
                            % (i, tl, times[i]))
        um = [t for t in texts if t.startswith("user message")]
        want = [t for t, yes in msgs[i] if yes]
        if um != want:
            raise Violation("model %d: messages in the log %r, expected %r" % (i, um, want))
        if not any("pyDeltaRCM version" in t for t in texts):
            raise Violation("the log does not have the version")
        if any(lv not in ("INFO", "WARNING") for lv, _ in rows):
            raise Violation("unexpected level in the log: %r" % [r for r in rows if r[0] not in (
                "INFO", "WARNING")][:2])
        ctx.label("verbose=%d" % case["verbose"][i])
    # a higher verbosity only adds
    seqs = []
    for v in (0, 1, 2):
        _, dd, _, _, _, o = once(dict(case, n=1, ops=[[k, 0, a] for k, _, a in case["ops"]]),
                                 ctx, v)
        if v == 0 and o:
            raise Violation("terminal output at verbosity 0: %r" % o[:200])
        seqs.append([(lv, re.sub(re.escape(dd[0]), "OUT", re.sub(r"^(\s*verbose).*", r"\1", t)))
                     for lv, t in logs(dd[0])[1]])
    for v in (0, 1):
        a = [(lv, t) for lv, t in seqs[v] if "verbos" not in t and "OUT" not in t]
        if not is_subsequence(a, seqs[v + 1]):
            miss = [x for x in a if x not in seqs[v + 1]]
            raise Violation("lines logged at verbosity %d are not at %d: %r"
                            % (v, v + 1, miss[:3]))
    if len(seqs[2]) <= len(seqs[0]):
        raise Violation("verbosity 2 logs no more than verbosity 0")
    return any(o[0] == "update" for o in case["ops"])


def warmup(ctx):
    probe.build(ctx, gen.SMALL).update()


PARTS = [Part("log", lambda tier: cases(), run, 400, 6000)]
