"""C16 parameters: precedence, reading, refusal, warnings and the log."""
import os
import re
import warnings

from hypothesis import strategies as st

from .. import gen, iosim
from ..engine import Part, Violation

RULE = ("generated sets of parameters given in an input file (in generated notations), as "
        "keywords, both or not at all, also for generated subclass parameters; resolved "
        "values are compared with the documented precedence; non-trivial: at least 3 "
        "parameters given, or an invalid value given")
ASSUMPTIONS = ["values of a mistyped or out-of-range parameter are combined with otherwise "
               "valid parameters",
               "no claim for an unknown parameter given next to a preprocessor keyword "
               "(matrix, set, ensemble)"]
BUDGET = {"quick": 40, "thorough": 600}

# name: (kinds, value range of numbers, range is enforced: (low, low allowed, high, ..))
FLOATS = {"S0": (0, 0.01), "u0": (0.2, 3), "h0": (0.5, 9), "H_SL": (-3, 3),
          "SLR": (-1e-5, 1e-5), "f_bedload": (0, 1), "C0_percent": (0.01, 2),
          "Csmooth": (0, 2), "subsidence_rate": (0, 1e-6), "start_subsidence": (0, 1e9),
          "omega_sfc": (0, 1), "omega_flow": (0, 1), "theta_water": (0, 3),
          "coeff_theta_sand": (0, 3), "coeff_theta_mud": (0, 3), "sed_lag": (0, 2),
          "coeff_U_dep_mud": (0, 1), "coeff_U_ero_mud": (1, 3),
          "coeff_U_ero_sand": (0.5, 3), "alpha": (0, 1), "sand_frac_bc": (0, 1),
          "L0_meters": (0, 200), "N0_meters": (1, 500)}
OPT_FLOATS = {"hb": (0.5, 9), "active_layer_thickness": (0, 3), "stepmax": (10, 200)}
INTS = {"verbose": (0, 0), "itermax": (1, 5), "Np_water": (1, 50), "Np_sed": (1, 50),
        "save_dt": (1, 10**6), "Nsmooth": (0, 10), "beta": (1, 5)}
OPT_INTS = {"seed": (0, 2**32 - 1), "checkpoint_dt": (1, 10**6)}
BOOLS = (["toggle_subsidence", "save_metadata", "save_checkpoint", "clobber_netcdf",
          "legacy_netcdf", "save_figs_sequential"] + sorted(iosim.GRID_OPTS))
FIGS = sorted(iosim.FIG_OPTS)
DEFAULTS = {
    "verbose": 0, "S0": 0.00015, "itermax": 3, "u0": 1.0, "N0_meters": 250.0, "h0": 5.0,
    "hb": None, "H_SL": 0.0, "SLR": 0.0, "f_bedload": 0.5, "active_layer_thickness": None,
    "C0_percent": 0.1, "Csmooth": 0.9, "subsidence_rate": 2e-9, "start_subsidence": 216000,
    "save_dt": 86400, "checkpoint_dt": None, "omega_sfc": 0.1, "omega_flow": 0.9,
    "Nsmooth": 10, "theta_water": 1.0, "coeff_theta_sand": 2.0, "coeff_theta_mud": 1.0,
    "beta": 3, "sed_lag": 1.0, "coeff_U_dep_mud": 0.3, "coeff_U_ero_mud": 1.5,
    "coeff_U_ero_sand": 1.05, "alpha": 0.1, "stepmax": None, "sand_frac_bc": 0,
    "L0_meters": 150.0, "seed": None, "Np_water": 2000, "Np_sed": 2000}
GEO = {"Length": 5000.0, "Width": 10000.0, "dx": 50.0, "out_dir": "deltaRCM_Output"}
DEFAULTS.update({b: False for b in BOOLS + FIGS})
DEFAULTS["save_figs_sequential"] = True
KINDS = {}
for _k in FLOATS:
    KINDS[_k] = {"float", "int"}
for _k in OPT_FLOATS:
    KINDS[_k] = {"float", "int", "None"}
for _k in INTS:
    KINDS[_k] = {"int"}
for _k in OPT_INTS:
    KINDS[_k] = {"int", "None"}
for _k in BOOLS + FIGS:
    KINDS[_k] = {"bool"}
KINDS["out_dir"] = {"str"}
for _k in ("Length", "Width", "dx"):
    KINDS[_k] = {"float", "int"}


@st.composite
def float_literal(draw, lo, hi):
    """Notation of a float in [lo, hi]: few digits, plain or scientific."""
    v = lo + (hi - lo) * draw(st.integers(0, 1000)) / 1000
    v = float("%.3g" % v)
    v = min(max(v, lo), hi)
    form = draw(st.integers(0, 5))
    s = repr(v)
    if form == 1:
        s = "%.10e" % v
    elif form == 2:
        s = ("%.3e" % v).replace("e", "E")
    elif form == 3 and v:
        m, e = ("%.2e" % v).split("e")
        # no dot, as in 15e-5 or 2E+1
        s = "%d%s%s%d" % (round(float(m) * 100), draw(st.sampled_from("eE")),
                          draw(st.sampled_from(["", "+"])) if int(e) >= 2 else "",
                          int(e) - 2)
    elif form == 4 and 0 < v < 1 and "e" not in s:
        s = s.lstrip("0")                                       # .5
    elif form == 5 and "e" not in s and "." in s:
        s = "+" + s if v >= 0 else s
    if not (lo <= float(s) <= hi):
        s = repr(v)
    return s


@st.composite
def value(draw, k):
    """(literal for YAML, value as JSON)"""
    if k in FLOATS or k in OPT_FLOATS:
        lo, hi = FLOATS.get(k) or OPT_FLOATS[k]
        if k in OPT_FLOATS and draw(st.integers(0, 3)) == 0:
            return draw(st.sampled_from(["null", "~", ""])), None
        if hi - lo >= 1 and draw(st.integers(0, 2)) == 0:
            v = draw(st.integers(int(-(-lo // 1)), int(hi // 1)))
            return str(v), v
        s = draw(float_literal(lo, hi))
        if k == "hb" and float(s) == 0:
            s = "1.5"
        if "." not in s and "e" not in s.lower():
            return s, int(s)
        return s, float(s)
    if k in INTS or k in OPT_INTS:
        if k in OPT_INTS and draw(st.integers(0, 3)) == 0:
            return draw(st.sampled_from(["null", "~", ""])), None
        v = draw(st.integers(*(INTS.get(k) or OPT_INTS[k])))
        return str(v), v
    b = draw(st.booleans())
    return draw(st.sampled_from([str(b), str(b).lower()])), b


NAMES = sorted(set(FLOATS) | set(OPT_FLOATS) | set(INTS) | set(OPT_INTS) | set(BOOLS))
SUBT = [["float", "int"], "int", "bool", "str", ["float", "None"], "float", "list", "dict"]


@st.composite
def sub_params(draw):
    out = {}
    for n in draw(st.lists(st.sampled_from(["wave_height", "vegetation", "k_d", "mode"]),
                           unique=True, max_size=3)):
        t = draw(st.sampled_from(SUBT))
        out[n] = {"type": t, "default": draw(sub_value(t))}
    return out


def sub_value(t):
    ts = t if isinstance(t, list) else [t]
    S = {"float": gen.num(-5, 5, 2), "int": st.integers(-9, 9), "bool": st.booleans(),
         "str": st.sampled_from(["a", "deep water", "x1"]), "None": st.none(),
         "list": st.just([1, 2]), "dict": st.just({"a": 1})}
    return st.one_of([S[x] for x in ts])


def kind_of(v):
    return "None" if v is None else type(v).__name__


@st.composite
def cases(draw):
    given = {}
    ks = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=10))
    for k in ks:
        lit, v = draw(value(k))
        where = draw(st.sampled_from(["file", "kw", "both"]))
        given[k] = {"lit": lit, "v": v, "where": where}
        if where == "both":
            given[k]["kwv"] = draw(value(k))[1]
    sub = draw(sub_params())
    for n in sub:
        if draw(st.integers(0, 2)):
            v = draw(sub_value(sub[n]["type"]))
            lit = "null" if v is None else repr(v)
            given[n] = {"lit": lit, "v": v, "where": draw(st.sampled_from(["file", "kw"]))}
    many = draw(st.integers(0, 3)) == 3
    unknown = draw(st.lists(st.sampled_from(
        ["u_0", "Legnth", "eta", "save_eta_figures", "theta", "W", "my_own", "n", "SL_R",
         "np_water", "outdir", "Seed", "f-bedload", "beta2"]), unique=True,
        min_size=6 * many, max_size=14 if many else 2)) if draw(st.integers(0, 2)) == 0 else []
    special = draw(st.lists(st.sampled_from(["timesteps", "time", "time_years", "If",
                                             "parallel", "dryrun"]), unique=True,
                            max_size=3))
    clash = draw(st.sampled_from([None, None, None, "u0", "h0"]))
    if clash:
        sub[clash] = {"type": "str", "default": "not used"}
    for k in draw(st.lists(st.sampled_from(FIGS), unique=True, max_size=3)):
        given[k] = {"lit": "False", "v": False, "where": draw(st.sampled_from(["file", "kw"]))}
    if draw(st.integers(0, 11)) == 0:
        # a figure that is really drawn
        k = draw(st.sampled_from(FIGS))
        w = draw(st.sampled_from(["file", "kw", "both"]))
        given[k] = {"lit": str(w != "both"), "v": w != "both", "where": w, "kwv": True}
    return {"given": given, "sub": sub, "unknown": unknown, "special": special,
            "where_unknown": draw(st.sampled_from(["file", "kw"])),
            "geo": draw(st.sampled_from([[600, 900, 100], [500.0, 700.0, 50.0],
                                         [20, 31, 2], [9.0, 12.0, 1]])),
            "omit": draw(st.lists(st.sampled_from(list(GEO)), unique=True, max_size=2))
            if draw(st.integers(0, 4)) == 0 else [],
            "empty": draw(st.booleans())}


LAST = [None]       # output folder of the last model


def make(case, ctx, extra=None):
    """Construct a model; returns (model, warnings, file given)."""
    out = ctx.path()
    LAST[0] = out
    lines = ["# a comment"]
    kw = {}
    base = {"Length": case["geo"][0], "Width": case["geo"][1], "dx": case["geo"][2],
            "out_dir": out}
    if case["geo"][2] < 50:
        case["omit"] = [k for k in case.get("omit", []) if k == "out_dir"]
    if "out_dir" in case.get("omit", []):
        os.makedirs(out)
        LAST[0] = os.path.join(out, GEO["out_dir"])
    for k, v in base.items():
        if k in case.get("omit", []):
            continue
        if case["empty"]:
            kw[k] = v
        else:
            lines.append("%s: %s" % (k, v))
    for k, g in case["given"].items():
        if g["where"] in ("file", "both"):
            lines.append("%s: %s" % (k, g["lit"]))
        if g["where"] == "kw":
            kw[k] = g["v"]
        if g["where"] == "both":
            kw[k] = g["kwv"]
    for i, k in enumerate(case.get("unknown", [])):
        if case["where_unknown"] == "file":
            lines.append("%s: %d" % (k, i))
        else:
            kw[k] = i
    for k in case.get("special", []):
        lines.append("%s: 1" % k)
    if extra:
        k, where, lit, v = extra
        if where == "file":
            lines.append("%s: %s" % (k, lit))
        else:
            kw[k] = v
    path = None
    if len(lines) > 1 or not case["empty"]:
        path = ctx.path()
        open(path, "w").write("\n".join(lines) + "\n")

    class M(iosim.Stub):
        def __init__(self, *a, **k):
            if case.get("sub"):
                self.subclass_parameters = {n: dict(p) for n, p in case["sub"].items()}
            super().__init__(*a, **k)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        with iosim.contextlib.redirect_stdout(iosim.io.StringIO()):
            if "out_dir" in case.get("omit", []):
                cwd = os.getcwd()
                os.chdir(out)
                try:
                    m = M(input_file=path, **kw)
                finally:
                    os.chdir(cwd)
                out = LAST[0]
            else:
                m = M(input_file=path, **kw)
    return m, [str(w.message) for w in W if issubclass(w.category, UserWarning)], out


def same(a, b):
    return kind_of(a) == kind_of(b) and a == b


def run(case, ctx):
    m, W, out = make(case, ctx)
    exp = dict(DEFAULTS)
    for n, p in case["sub"].items():
        if n not in exp:
            exp[n] = p["default"]
    for k, g in case["given"].items():
        exp[k] = g["kwv"] if g["where"] == "both" else g["v"]
    log = iosim.log_text(out).splitlines()
    for k, v in exp.items():
        got = getattr(m, k)
        w = v
        if k == "seed" and v is None:
            if not 0 <= int(got) < 2**32:
                raise Violation("chosen seed %r" % got)
            continue
        if v is None and k in ("hb", "active_layer_thickness", "checkpoint_dt", "stepmax"):
            w = {"hb": exp["h0"], "active_layer_thickness": exp["h0"] / 2,
                 "checkpoint_dt": exp["save_dt"],
                 "stepmax": 2 * (m.L + m.W)}[k]
        elif k == "stepmax":
            w = int(v)
        elif k == "save_metadata":
            w = v or any(exp[o] for o in iosim.GRID_OPTS)
        if got != w or (isinstance(w, bool) != isinstance(got, bool)):
            src = case["given"].get(k, {}).get("where", "default")
            raise Violation("parameter %s is %r, expected %r (given by: %s, notation %r)"
                            % (k, got, w, src, case["given"].get(k, {}).get("lit")))
        if k not in ("stepmax",):
            pat = re.compile(r"(^|\W)%s(\W.*|)\W%s\s*$" % (re.escape(k), re.escape(str(v))))
            if not any(pat.search(ln) for ln in log):
                raise Violation("value %r of %s is not in the log" % (v, k))
    geo = [GEO[k] if k in case["omit"] else v
           for k, v in zip(("Length", "Width", "dx"), case["geo"])]
    if "out_dir" in case["omit"] and m.out_dir != GEO["out_dir"]:
        raise Violation("out_dir is %r" % m.out_dir)
    if (m.Length, m.Width, m.dx) != tuple(geo):
        raise Violation("Length, Width, dx are %r" % ((m.Length, m.Width, m.dx),))
    for k in case["unknown"]:
        if not any(re.search(r"(^|\W)%s(\W|$)" % re.escape(k), w) for w in W):
            raise Violation("unknown parameter %s caused no warning naming it (%s)" % (k, W))
        if hasattr(m, k) and k not in ("eta", "W"):
            raise Violation("unknown parameter %s was set" % k)
    bad = [w for w in W if "unused" in w.lower()]
    if not case["unknown"] and bad:
        raise Violation("warning although every parameter is known: %s" % bad)
    for n, p in case["sub"].items():
        if n in DEFAULTS and not any("subclass" in w for w in W):
            raise Violation("no warning that %s is already a parameter" % n)
    m.finalize()
    ctx.label("given", len(case["given"]))
    for g in case["given"].values():
        ctx.label("by " + g["where"])
    return len(case["given"]) >= 3


WRONG = {"int": ("7", 7), "float": ("0.5", 0.5), "sci": ("2e-1", 2e-1), "bool": ("True", True),
         "str": ("'abc'", "abc"), "None": ("null", None), "list": ("[1, 2]", [1, 2]),
         "dict": ("{a: 1}", {"a": 1}), "numstr": ("'0.5'", "0.5")}
WK = {"sci": "float", "numstr": "str"}


@st.composite
def wrong(draw):
    c = draw(cases())
    c["unknown"] = []
    c["omit"] = []
    usual = sorted(set(KINDS))
    subs = sorted(n for n in c["sub"] if n not in DEFAULTS)
    k = draw(st.sampled_from(subs)) if subs and draw(st.integers(0, 2)) == 0 \
        else draw(st.sampled_from(usual))
    if k in subs:
        t = c["sub"][k]["type"]
        ok = set(t) if isinstance(t, list) else {t}
    else:
        ok = KINDS[k]
    bad = sorted(w for w in WRONG if WK.get(w, w) not in ok)
    w = draw(st.sampled_from(bad))
    c["given"].pop(k, None)
    c["bad"] = [k, draw(st.sampled_from(["file", "kw"])), w]
    return c


RANGES = {  # refused values
    "Length": [0, -1, -500.0], "Width": [0, 0.0, -3], "dx": [0, -1.0, 1000000],
    "L0_meters": [-1, -1e-9], "itermax": [-1, -7], "Np_water": [0, -1],
    "N0_meters": [0, 0.0, -250], "Np_sed": [0, -4], "f_bedload": [-0.01, 1.01, 2, -1e-12],
    "active_layer_thickness": [-0.1, -1], "C0_percent": [-0.1, -1], "Csmooth": [-0.9, -1]}


@st.composite
def ranges(draw):
    c = draw(cases())
    c["unknown"] = []
    c["omit"] = []
    k = draw(st.sampled_from(sorted(RANGES)))
    c["given"].pop(k, None)
    v = draw(st.sampled_from(RANGES[k]))
    if k == "dx" and v > 0:
        v = draw(st.sampled_from([c["geo"][0] + 1, c["geo"][0] * 10]))
        if v <= min(c["geo"][:2]):
            v = max(c["geo"][:2]) + 1
    c["range"] = [k, draw(st.sampled_from(["file", "kw"])), v]
    return c


def refused(case, ctx, extra, err, what):
    k = extra[0]
    case = dict(case)
    try:
        if k in ("Length", "Width", "dx", "out_dir"):
            # given once, in the wanted place
            if extra[1] == "file":
                case["empty"] = True
                m = make_without(case, ctx, k, extra)
            else:
                case["empty"] = False
                m = make(case, ctx, extra)
        else:
            m = make(case, ctx, extra)
    except err as e:
        if err is TypeError and not re.search(r"(^|\W)%s(\W|$)" % re.escape(k), str(e)):
            raise Violation("type error for %s does not name it: %s" % (k, e))
    except Exception as e:
        raise Violation("%s raised %r" % (what, e))
    else:
        raise Violation("%s was accepted" % what)
    if os.path.isdir(LAST[0]):
        left = [f for f in os.listdir(LAST[0]) if not f.endswith(".log")]
        if left:
            raise Violation("%s was refused after writing %s" % (what, left))
    return True


def make_without(case, ctx, k, extra):
    c = dict(case)
    # the keyword values of the base, except the tested one, which is in the file
    out = LAST[0] = ctx.path()
    kw = {"Length": c["geo"][0], "Width": c["geo"][1], "dx": c["geo"][2], "out_dir": out}
    kw.pop(k)
    path = ctx.path()
    open(path, "w").write("%s: %s\n" % (k, extra[2]))
    return iosim.quiet(iosim.Stub, input_file=path, **kw)


def run_wrong(case, ctx):
    k, where, w = case["bad"]
    lit, v = WRONG[w]
    ctx.label("%s for %s" % (w, "/".join(sorted(KINDS.get(k, ["subclass"])))))
    return refused(case, ctx, (k, where, lit, v), TypeError,
                   "%s value for %s (%s)" % (w, k, where))


def run_range(case, ctx):
    k, where, v = case["range"]
    ctx.label(k)
    return refused(case, ctx, (k, where, repr(v), v), ValueError,
                   "value %r for %s (%s)" % (v, k, where))


PARTS = [Part("resolve", lambda tier: cases(), run, 900, 20000),
         Part("types", lambda tier: wrong(), run_wrong, 900, 12000),
         Part("ranges", lambda tier: ranges(), run_range, 300, 4000)]
