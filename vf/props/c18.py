"""C18 multi-job expansion against a direct enumeration."""
import json
import itertools
import math
import os
import sys

import numpy as np
import yaml
from hypothesis import strategies as st
from pyDeltaRCM import shared_tools
from pyDeltaRCM.preprocessor import Preprocessor, PreprocessorCLI

from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("generated matrix, set and ensemble specifications with generated values (any finite "
        "number, bool, null, text that resembles other YAML), given by file, dict or command "
        "line; jobs on disk are compared with the enumeration; non-trivial: at least 2 jobs "
        "or a refused specification")
ASSUMPTIONS = ["text in expanded keys contains no comma or line break (the jobs table has no "
               "quoting)"]
BUDGET = {"quick": 40, "thorough": 600}

TRICKY = ["null", "~", "true", "yes", "No", "1e5", "1.5", "12", "0x1F", "0o17", "017",
          "2001-01-01", "12:30", "1_000", ".5", "-", "- a", "a: b", "a:b", "#x", "a #b", "a#b",
          "'q'", '"q"', "it's", "[a", "{a", "*a", "&a", "!x", "%d", "@a", "`a", "a\\b",
          " lead", "trail ", "", "path/to/x", "/tmp/y z", "é", "=", "<<", "?", "? a", "|", ">",
          ".inf", "nan", "a\tb", ":", "::", "x:", "---", "...", "{}", "[]", "on", "1:2:3"]
NAMES = ["u0", "f_bedload", "SLR", "Np_sed", "h0", "seed", "itermax", "alpha", "myparam",
         "S0", "wave", "save_eta_grids"]
FIXED = ["Length", "Width", "dx", "hb", "C0_percent", "save_depth_grids", "stepmax",
         "resume_from", "note", "timesteps", "verbose_name", "SL", "tags"]


def texts():
    return st.one_of(st.sampled_from(TRICKY),
                     st.text(st.characters(min_codepoint=32, max_codepoint=255,
                                           blacklist_characters=",\x7f\x85\xa0",
                                           blacklist_categories=("Cc", "Cs")), max_size=8))


def values():
    return st.one_of(
        st.integers(-5, 100), st.floats(allow_nan=False, allow_infinity=False),
        st.sampled_from([1e-7, 1.5e22, 1e16, -2e-300, 0.1, 1e5, 0.0, -0.0, 123456789.123]),
        st.booleans(), st.none(), texts(), st.integers(-10**30, 10**30))


def lists():
    return st.one_of(st.lists(values(), max_size=3),
                     st.dictionaries(texts(), values(), max_size=3),
                     st.just({"a": 1, "b": [1, None, {"c": "x, y"}]}))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["matrix", "set", "ensemble", "matrix+ensemble",
                                 "set+ensemble"]))
    names = [n for n in NAMES if not ("ensemble" in kind and n == "seed")]
    keys = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4, unique=True))
    c = {"kind": kind}
    if "matrix" in kind:
        c["matrix"] = {k: draw(st.lists(values(), min_size=1, max_size=3)) for k in keys[:3]}
    if "set" in kind:
        c["set"] = []
        for _ in range(draw(st.integers(1, 4))):
            order = draw(st.permutations(keys))
            c["set"].append({k: draw(values()) for k in order})
    if "ensemble" in kind:
        c["ensemble"] = draw(st.integers(2, 4))
    fk = draw(st.lists(st.sampled_from(FIXED), max_size=5, unique=True))
    c["fixed"] = {k: draw(st.one_of(values(), values(), lists())) for k in fk}
    c["fixed"].pop("timesteps", None)
    c["dir"] = draw(st.sampled_from(["jobs", "jobs dir", "j#x", "12", "a: b", "null"]))
    c["via"] = draw(st.sampled_from(["file", "file", "cli", "dict"]))
    c["timesteps"] = draw(st.integers(0, 9))
    c["parallel"] = draw(st.sampled_from([None, None, 2]))
    c["verbose"] = draw(st.sampled_from([None, None, 1]))
    return c


def dump(v):
    """YAML (flow) notation of a value."""
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, bool) or v is None:
        return json.dumps(v)
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (dump(k), dump(x)) for k, x in v.items()) + "}"
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(dump, v)) + "]"
    return repr(v)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b


def start(cfg, via, args, ctx):
    if via == "dict":
        return quiet(Preprocessor, cfg, **args)
    p = ctx.path() + ".yml"
    open(p, "w").write("".join("%s: %s\n" % (k, dump(v)) for k, v in cfg.items()))
    if via == "file":
        return quiet(Preprocessor, p, **args)
    old = sys.argv
    sys.argv = ["pyDeltaRCM", "--config", p] + [
        s for k, v in args.items() for s in ("--" + k, str(v))]
    try:
        return quiet(PreprocessorCLI)
    finally:
        sys.argv = old


def run(case, ctx):
    if "numpy_seed" in case:
        np.random.seed(case["numpy_seed"])   # (no collision of that many seeds by chance)
    base = ctx.path()
    os.makedirs(base)
    root = os.path.join(base, case["dir"])
    cfg = dict(case["fixed"], out_dir=root)
    for k in ("matrix", "set", "ensemble"):
        if k in case:
            cfg[k] = json.loads(json.dumps(case[k])) if k != "ensemble" else case[k]
    if case["verbose"]:
        cfg["verbose"] = case["verbose"]
    args = {"timesteps": case["timesteps"]}
    if case["parallel"]:
        args["parallel"] = case["parallel"]
    fixed = dict(case["fixed"], **args)
    if case["verbose"]:
        fixed["verbose"] = case["verbose"]
    pp = start(cfg, case["via"], args, ctx)
    n = case.get("ensemble", 1)
    if "set" in case:
        want = [dict(s) for s in case["set"] for _ in range(n)]
        cols = list(case["set"][0])
    else:
        ks = list(case.get("matrix", {}))
        want = [dict(zip(ks, v)) for v in itertools.product(
            *[case["matrix"][k] for k in ks]) for _ in range(n)]
        cols = ks
    if n > 1:
        cols = cols + ["seed"]
    ids = ["job_%03d" % i for i in range(len(want))]
    found = sorted(f for f in os.listdir(root) if os.path.isdir(os.path.join(root, f)))
    if found != sorted(ids):
        raise Violation("job folders are %s, expected %s" % (found, ids))
    extra = sorted(set(os.listdir(root)) - set(ids) - {"jobs_parameters.txt"})
    if extra:
        raise Violation("files not expected in the output folder: %s" % extra)
    paths = [os.path.join(root, i, i + ".yml") for i in ids]
    if [str(p) for p in pp.file_list] != paths:
        raise Violation("file list is %s" % [str(p) for p in pp.file_list])
    if len(pp.config_list) != len(ids):
        raise Violation("%d configurations for %d jobs" % (len(pp.config_list), len(ids)))
    seeds = []
    rows = []
    for i, p in enumerate(paths):
        got = yaml.load(open(p), Loader=shared_tools.custom_yaml_loader())
        exp = dict(fixed, **want[i])
        exp["out_dir"] = os.path.join(root, ids[i])
        if n > 1:
            s = got.get("seed")
            if type(s) is not int or not 0 <= s < 2**32:
                raise Violation("seed of job %d is %r" % (i, s))
            exp["seed"] = s
            seeds.append(s)
        got.pop("config", None)
        for src, name in ((got, "file"), ({k: v for k, v in pp.config_list[i].items()
                                           if k != "config"}, "configuration")):
            if set(src) != set(exp):
                raise Violation("%s of job %d has keys %s, expected %s"
                                % (name, i, sorted(src), sorted(exp)))
            for k in exp:
                v = int(src[k]) if k == "seed" and n > 1 else src[k]
                if not same(v, exp[k]):
                    raise Violation("%s of job %d has %s = %r, expected %r"
                                    % (name, i, k, src[k], exp[k]))
        rows.append([ids[i]] + [exp[k] for k in cols])
    for a in range(0, len(seeds), max(n, 1)):
        if len(set(seeds[a:a + n])) != len(seeds[a:a + n]):
            raise Violation("copies share a seed: %s" % seeds[a:a + n])
    table = open(os.path.join(root, "jobs_parameters.txt"), newline="").read().split("\n")
    if table[-1] == "":
        table.pop()
    head = [h.strip() for h in table[0].split(",")]
    if sorted(head) != sorted(["job_id"] + cols) or head[0] != "job_id":
        raise Violation("jobs table has headings %s, expected %s" % (head, cols))
    if len(table) != len(rows) + 1:
        raise Violation("jobs table has %d rows for %d jobs" % (len(table) - 1, len(rows)))
    for i, (line, row) in enumerate(zip(table[1:], rows)):
        cells = dict(zip(head, line.split(",")))
        for k, v in zip(["job_id"] + cols, row):
            if cells.get(k) is None or cells[k].strip() != str(v).strip():
                raise Violation("jobs table has %s = %r for job %d, its value is %r"
                                % (k, cells.get(k), i, v))
    ctx.label(case["kind"])
    ctx.label("by " + case["via"])
    ctx.label("jobs", len(ids))
    return len(ids) > 1


BAD = ["matrix-list", "matrix-out_dir", "nested", "colon", "both-places", "both-places-same", "matrix+set",
       "set-dict", "set-scalar", "set-keys", "set-colon", "ensemble-float", "ensemble-str",
       "seed+ensemble", "no-out_dir", "ensemble-matrix-list"]


@st.composite
def bad_cases(draw):
    c = draw(cases())
    c["bad"] = draw(st.sampled_from(BAD))
    c["dir"] = "jobs"
    return c


def run_bad(case, ctx):
    base = ctx.path()
    os.makedirs(base)
    root = os.path.join(base, case["dir"])
    b = case["bad"]
    cfg = dict(case["fixed"], out_dir=root)
    matrix = {"u0": [1.0, 2.0], "h0": [2.0, 3.0]}
    if b == "matrix-list":
        cfg["matrix"] = ["u0", "h0"]
    elif b == "matrix-out_dir":
        cfg["matrix"] = dict(matrix, out_dir=["a", "b"])
    elif b == "nested":
        cfg["matrix"] = dict(matrix, alpha=[0.1, [0.2, 0.3]])
    elif b == "colon":
        cfg["matrix"] = dict(matrix, **{"a:b": [1, 2]})
    elif b == "both-places":
        cfg["matrix"] = matrix
        cfg["u0"] = 1.5
    elif b == "both-places-same":
        cfg["matrix"] = matrix
        cfg["h0"] = 3.0
    elif b == "matrix+set":
        cfg["matrix"] = matrix
        cfg["set"] = [{"f_bedload": 0.1}, {"f_bedload": 0.2}]
    elif b == "set-dict":
        cfg["set"] = {"u0": [1.0, 2.0]}
    elif b == "set-scalar":
        cfg["set"] = [{"u0": 1.0}, 3]
    elif b == "set-keys":
        cfg["set"] = [{"u0": 1.0, "h0": 2.0}, {"u0": 1.0}]
    elif b == "set-colon":
        cfg["set"] = [{"u:0": 1.0}, {"u:0": 2.0}]
    elif b == "ensemble-float":
        cfg["ensemble"] = 2.5
    elif b == "ensemble-str":
        cfg["ensemble"] = "3"
    elif b == "seed+ensemble":
        cfg["ensemble"] = 2
        cfg["matrix"] = dict(matrix, seed=[1, 2])
    elif b == "no-out_dir":
        cfg["matrix"] = matrix
        cfg.pop("out_dir")
    elif b == "ensemble-matrix-list":
        cfg["ensemble"] = 2
        cfg["matrix"] = [1, 2]
    if "timesteps" not in cfg:
        args = {"timesteps": 2}
    try:
        pp = start(cfg, case["via"], args, ctx)
    except (ValueError, TypeError):
        pass
    else:
        raise Violation("malformed specification (%s) was accepted: %d jobs"
                        % (b, len(pp.file_list)))
    jobs = [os.path.join(d, f) for d, dirs, fs in os.walk(base) for f in dirs + fs
            if f.startswith("job_")]
    if jobs:
        raise Violation("malformed specification (%s) was refused after creating %s"
                        % (b, jobs))
    ctx.label("refused " + b)
    return True


def large(**k):
    return dict({"fixed": {}, "dir": "jobs", "via": "file", "timesteps": 1, "parallel": None,
                 "verbose": None, "numpy_seed": 1}, **k)


LARGE = [large(kind="ensemble", ensemble=400),
         large(kind="matrix", matrix={"u0": [x / 10 for x in range(1, 27)],
                                      "itermax": list(range(1, 41))}),
         large(kind="set", set=[{"u0": 1.0, "itermax": i} for i in range(120)])]

PARTS = [Part("expand", lambda tier: cases(), run, 1500, 40000, fixed=LARGE),
         Part("refuse", lambda tier: bad_cases(), run_bad, 300, 3000)]
