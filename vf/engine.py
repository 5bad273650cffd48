"""Runs one property check: generated-input search against an oracle.

    python -m vf.engine <ID> <quick|thorough> [--replay FILE]

A property module (vf/props/<id>.py) defines PARTS, a list of `Part`.  Every
part has a Hypothesis strategy which produces JSON-able cases, and a function
which runs one case against the code in /repo and raises `Violation` when the
oracle disagrees.  All random choices are made by Hypothesis (seeded from
VERIF_SEED); a failing case is shrunk by Hypothesis and written to a replay
file which can be run again with --replay.
"""
import hashlib
import importlib
import json
import os
import multiprocessing
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(HERE, "evidence"))

# hypothesis lives in the tooling venv: LAST on the path, so that the
# repository's own environment provides everything else
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)


class Violation(Exception):
    """The property is broken for this case."""


class Discard(Exception):
    """The case cannot be judged (a tie within rounding); counted, not used."""


class Known(Exception):
    """The case shows a recorded known finding (and nothing else)."""

    def __init__(self, key):
        super().__init__(key)
        self.key = key


class _Stop(BaseException):
    """Leaves Hypothesis when the shrinking or overall budget is used up."""


class Part:
    def __init__(self, name, strategy, run, quick, thorough, rule="", fixed=(),
                 parallel=True):
        self.name = name            # name of the part
        self.strategy = strategy    # callable(tier) -> hypothesis strategy
        self.run = run              # callable(case, ctx) -> info dict
        self.n = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.fixed = list(fixed)    # always-run cases (regressions)
        self.parallel = parallel


class Ctx:
    """Per-case context: scratch directory, labels."""

    def __init__(self, base):
        self.base = base
        self.labels = {}
        self.known = {}
        self._n = 0
        self.nontrivial = False

    def dir(self):
        self._n += 1
        d = os.path.join(self.base, "d%03d" % self._n)
        os.makedirs(d)
        return d

    def path(self):
        self._n += 1
        return os.path.join(self.base, "p%03d" % self._n)

    def label(self, name, k=1):
        self.labels[name] = self.labels.get(name, 0) + k

    def note_known(self, key):
        self.known[key] = self.known.get(key, 0) + 1


def _classify(exc):
    """'repo' if the exception was raised by the code under test."""
    tb = exc.__traceback__
    last = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            last = "repo"
        elif fn.startswith(HERE + os.sep):
            last = "verif"
        tb = tb.tb_next
    return last


SCRATCH = None


def run_one(part, case):
    """Run one case.  Returns (status, message, ctx)."""
    base = tempfile.mkdtemp(prefix="c_", dir=SCRATCH)
    ctx = Ctx(base)
    cwd = os.getcwd()
    try:
        os.chdir(base)
        try:
            nt = part.run(case, ctx)
            ctx.nontrivial = bool(ctx.nontrivial or nt)
            return "ok", "", ctx
        except Violation as e:
            return "violation", str(e), ctx
        except Discard as e:
            ctx.label("discarded:" + str(e))
            return "discard", str(e), ctx
        except (_Stop, KeyboardInterrupt):
            raise
        except BaseException as e:  # noqa: B902
            if type(e).__module__.startswith("hypothesis"):
                raise
            msg = "".join(traceback.format_exception(type(e), e, e.__traceback__))
            if _classify(e) == "repo":
                return ("violation", "unexpected %s raised by the code for a valid "
                        "input: %s\n%s" % (type(e).__name__, e, msg), ctx)
            return "error", msg, ctx
    finally:
        os.chdir(cwd)
        _cleanup()
        shutil.rmtree(base, ignore_errors=True)


def _cleanup():
    """Release loggers and figures kept by models of the previous case."""
    import logging
    for name in list(logging.Logger.manager.loggerDict):
        lg = logging.Logger.manager.loggerDict.get(name)
        if isinstance(lg, logging.Logger) and "/" in name:
            for h in list(lg.handlers):
                try:
                    h.close()
                except Exception:
                    pass
                lg.removeHandler(h)
            logging.Logger.manager.loggerDict.pop(name, None)
    plt = sys.modules.get("matplotlib.pyplot")
    if plt is not None:
        plt.close("all")


def _canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def _search(part, tier, seed, n, deadline, shrink_s, stats):
    """Run a Hypothesis search of one part.  Returns a failing case or None."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    failures = []
    t_fail = [None]

    def body(case):
        now = time.time()
        if t_fail[0] is None and now > deadline:
            stats["stopped"] = True
            raise _Stop()
        if t_fail[0] is not None and now > t_fail[0] + shrink_s:
            raise _Stop()
        status, msg, ctx = run_one(part, case)
        if t_fail[0] is None:
            stats["evaluations"] += 1
            for k, v in ctx.labels.items():
                stats["labels"][k] = stats["labels"].get(k, 0) + v
            for k, v in ctx.known.items():
                stats["known"][k] = stats["known"].get(k, 0) + v
            if status == "discard":
                stats["discarded"] += 1
            if status == "ok" and ctx.nontrivial:
                h = hashlib.sha1(_canon([part.name, case]).encode()).hexdigest()
                stats["nontrivial"].add(h)
                if len(stats["nontrivial"]) in (4, 15):
                    stats["samples"].append({"part": part.name, "case": case,
                                             "labels": ctx.labels})
        if status == "error":
            stats["errors"].append({"part": part.name, "case": case, "msg": msg})
            raise _Stop()
        if status == "violation":
            if t_fail[0] is None:
                t_fail[0] = now
            failures.append((len(_canon(case)), len(failures), case, msg))
            raise AssertionError("violation")

    for i, case in enumerate(part.fixed):
        try:
            body(case)
        except _Stop:
            return None
        except AssertionError:
            return failures[0][2:]

    fn = given(part.strategy(tier))(body)
    fn = settings(max_examples=n, deadline=None, database=None,
                  phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=list(HealthCheck))(fn)
    fn = hypothesis.seed(seed)(fn)
    try:
        fn()
    except _Stop:
        pass
    except AssertionError:
        if not failures:
            raise
    except Exception:
        if not failures:
            raise
    if failures:
        failures.sort(key=lambda t: (t[0], -t[1]))
        return failures[0][2:]
    return None


def _new_stats():
    return {"evaluations": 0, "discarded": 0, "labels": {}, "known": {},
            "nontrivial": set(), "samples": [], "errors": [], "stopped": False,
            "parts": {}}


def _worker(w, K, mod, tier, seed, deadline, shrink_s, conn):
    import warnings
    warnings.simplefilter("ignore")
    os.setpgrp()
    stats = _new_stats()
    fail = None
    try:
        for k, part in enumerate(mod.PARTS):
            n = part.n[tier]
            if not n and not part.fixed:
                continue
            if part.parallel:
                n_w = max(1, (n + K - 1 - w) // K)
                if n < K and w >= n:
                    continue
            else:
                if w != k % K:
                    continue
                n_w = n
            before = stats["evaluations"]
            t0 = time.time()
            s = int(hashlib.sha256(("%d/%d/%s" % (seed, w, part.name)).encode())
                    .hexdigest()[:12], 16)
            # every part keeps a share of the remaining time
            rest = len(mod.PARTS) - k
            dl = time.time() + max(5, (deadline - time.time()) / rest) \
                if rest > 1 else deadline
            if w != 0:
                part.fixed = []
            fail = _search(part, tier, s, n_w, dl, shrink_s, stats)
            stats["parts"].setdefault(part.name, 0)
            stats["parts"][part.name] += stats["evaluations"] - before
            stats["labels"]["seconds:" + part.name] = time.time() - t0
            if fail is not None:
                fail = {"part": part.name, "case": fail[0], "msg": fail[1]}
                break
            if stats["errors"]:
                break
    except BaseException as e:  # noqa: B902
        stats["errors"].append({"part": "?", "case": None,
                                "msg": "".join(traceback.format_exception(e))})
    conn.send(pickle.dumps((stats, fail)))
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def write_replay(pid, fail):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(_canon(fail["case"]).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    with open(path, "w") as f:
        json.dump({"property": pid, "part": fail["part"], "case": fail["case"],
                   "message": fail["msg"]}, f, indent=1, default=str)
    return path


def known_findings():
    out = {}
    path = os.path.join(HERE, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                r = json.loads(line)
                out[(r["property"], r["key"])] = r["what"]
    return out


def _with_shim(pid, argv):
    """Start again with native/shim.c preloaded (for checks which inject faults)."""
    if pid not in ("C03",) or os.environ.get("VF_SHIM"):
        d = os.environ.pop("VF_SHIM", None)
        os.environ.pop("LD_PRELOAD", None)
        if d:
            shutil.rmtree(d, ignore_errors=True)
        return
    import subprocess
    d = tempfile.mkdtemp(prefix="vf_shim_")
    so = os.path.join(d, "shim.so")
    subprocess.run(["gcc", "-w", "-O1", "-shared", "-fPIC", "-o", so,
                    os.path.join(HERE, "native", "shim.c"), "-ldl"], check=True)
    env = dict(os.environ, VF_SHIM=d, LD_PRELOAD=so)
    os.execve(sys.executable, [sys.executable, "-m", "vf.engine"] + argv, env)


def main(argv):
    global SCRATCH
    pid, tier = argv[0], argv[1]
    assert tier in ("quick", "thorough"), tier
    _with_shim(pid, argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    SCRATCH = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    procs = []
    try:
        mod = importlib.import_module("vf.props." + pid.lower())
        import pyDeltaRCM
        got = os.path.realpath(os.path.dirname(pyDeltaRCM.__file__))
        if got != os.path.join(REPO, "pyDeltaRCM"):
            print("harness error: imported pyDeltaRCM from", got)
            return 2
        import warnings
        warnings.simplefilter("ignore")

        if "--replay" in argv:
            r = json.load(open(argv[argv.index("--replay") + 1]))
            part = [p for p in mod.PARTS if p.name == r["part"]][0]
            status, msg, ctx = run_one(part, r["case"])
            print(status, msg)
            if status == "violation":
                print("VIOLATION property=%s replay=%s"
                      % (pid, argv[argv.index("--replay") + 1]))
                return 1
            return 0 if status in ("ok", "discard") else 2

        warm_fail = None
        if hasattr(mod, "warmup"):
            # compile before forking the workers
            base = tempfile.mkdtemp(prefix="w_", dir=SCRATCH)
            cwd = os.getcwd()
            os.chdir(base)
            try:
                mod.warmup(Ctx(base))
            except Exception as e:
                msg = "".join(traceback.format_exception(e))
                if isinstance(e, Violation) or _classify(e) == "repo":
                    warm_fail = {"part": "warmup", "case": {}, "msg": msg}
                else:
                    print("harness error:\n", msg)
                    return 2
            finally:
                os.chdir(cwd)
                _cleanup()
        t_warm = time.time() - t0

        K = int(os.environ.get("VF_WORKERS", "8"))
        budget = getattr(mod, "BUDGET", {"quick": 60, "thorough": 700})[tier]
        budget = float(os.environ.get("VF_BUDGET", budget))
        shrink_s = {"quick": 30, "thorough": 60}[tier]
        deadline = time.time() + budget
        total = _new_stats()
        fails = []
        if warm_fail:
            fails.append(warm_fail)
        else:
            mp = multiprocessing.get_context("fork")
            for w in range(K):
                a, b = mp.Pipe(False)
                p = mp.Process(target=_worker, args=(w, K, mod, tier, seed, deadline,
                                                     shrink_s, b))
                p.start()
                b.close()
                procs.append((p, a))
            hard = deadline + shrink_s + getattr(mod, "GRACE", 90)
            for p, a in procs:
                left = hard - time.time()
                if a.poll(max(0.1, left)):
                    try:
                        st, fl = pickle.loads(a.recv())
                    except EOFError:
                        p.join(5)
                        total["errors"].append(
                            {"part": "?", "case": None,
                             "msg": "worker died, exit code %s" % p.exitcode})
                        continue
                    for k in ("evaluations", "discarded"):
                        total[k] += st[k]
                    for k in ("labels", "known", "parts"):
                        for kk, v in st[k].items():
                            total[k][kk] = total[k].get(kk, 0) + v
                    total["nontrivial"] |= st["nontrivial"]
                    total["samples"] += st["samples"]
                    total["errors"] += st["errors"]
                    total["stopped"] |= st["stopped"]
                    if fl:
                        fails.append(fl)
                else:
                    total["stopped"] = True
                    total["labels"]["worker_timeout"] = \
                        total["labels"].get("worker_timeout", 0) + 1
        wall = time.time() - t0

        # a listed finding is reported as such; any other is a violation
        kf = known_findings()
        for key in sorted(total["known"]):
            if (pid, key) in kf:
                print("KNOWN-FINDING: property=%s %s (%d cases)"
                      % (pid, kf[(pid, key)], total["known"][key]))
            else:
                fails.append({"part": "known", "case": {"key": key},
                              "msg": "finding not listed: " + key})

        rule = getattr(mod, "RULE", "")
        ev = {"property": pid, "tier": tier, "seed": seed,
              "level": getattr(mod, "LEVEL", "exploration"),
              "coverage": {
                  "evaluations": total["evaluations"],
                  "distinct_nontrivial": len(total["nontrivial"]),
                  "rule": rule,
                  "samples": total["samples"][:6],
                  "discarded": total["discarded"],
                  "per_part": total["parts"],
                  "labels": {k: (round(v, 1) if isinstance(v, float) else v)
                             for k, v in sorted(total["labels"].items())},
                  "known_findings_seen": total["known"],
                  "budget_reached": total["stopped"],
                  "workers": K,
                  "warmup_s": round(t_warm, 1),
              },
              "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
              "wall_s": round(wall, 2),
              "violations": len(fails)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

        if fails:
            fails.sort(key=lambda x: len(_canon(x["case"])))
            path = write_replay(pid, fails[0])
            print("%s: %s" % (fails[0]["part"], fails[0]["msg"][:4000]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if total["errors"]:
            e = total["errors"][0]
            print("harness error in part %s, case %s:\n%s"
                  % (e["part"], _canon(e["case"])[:2000], e["msg"]))
            return 2
        if total["evaluations"] == 0:
            print("no case could be run")
            return 2
        print("%s %s: held on %d cases (%d distinct non-trivial, %d discarded) in %.0f s"
              % (pid, tier, total["evaluations"], len(total["nontrivial"]),
                 total["discarded"], wall))
        return 0
    finally:
        for p, _ in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                if p.is_alive():
                    p.kill()
        shutil.rmtree(SCRATCH, ignore_errors=True)


if __name__ == "__main__":
    def _term(*a):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, _term)
    sys.modules["vf.engine"] = sys.modules["__main__"]
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
