"""C24 inspection tools show the true model and leave it alone."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, iosim, probe
from ..engine import Part, Violation
from ..iosim import quiet

RULE = ("generated model state and sequence of inspections (fields, points, lines in every "
        "documented form); what is drawn is compared with the cells asked for, the model is "
        "compared with itself before, and its following step with an uninspected twin; "
        "non-trivial: something was drawn")
BUDGET = {"quick": 30, "thorough": 300}

GRIDS = ["eta", "stage", "depth", "qx", "qy", "qw", "ux", "uy", "uw", "qs", "sand_frac",
         "active_layer", "cell_type", "mod_water_weight", "mod_sed_weight",
         "mod_erosion", "Vp_dep_sand", "Vp_dep_mud"]
BAD = ["L", "dx", "out_dir", "seed", "inlet", "time"]


@st.composite
def cases(draw):
    c = draw(gen.config(L=(6, 14), W=(8, 24), np_water=(1, 3), np_sed=(1, 3)))
    cell = st.tuples(st.floats(0, 0.999), st.floats(0, 0.999)).map(
        lambda t: [round(t[0], 3), round(t[1], 3)])
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["field", "field", "bad", "ind", "ind", "line", "line"]))
        op = {"op": k}
        if k == "field":
            op.update(name=draw(st.sampled_from(GRIDS)), grid=draw(st.booleans()),
                      label=draw(st.sampled_from([None, "a label"])))
        elif k == "bad":
            op.update(name=draw(st.sampled_from(BAD)))
        elif k == "ind":
            op.update(form=draw(st.sampled_from(["tuple", "flat", "list", "array"])),
                      style=draw(st.sampled_from([0, 1, 2])),
                      cells=draw(st.lists(st.tuples(cell, st.booleans()).map(list),
                                          min_size=1, max_size=5)))
        else:
            op.update(form=draw(st.sampled_from(["flat", "pairs", "multi", "list",
                                                 "listflat", "listpairs"])),
                      nozeros=draw(st.booleans()), style=draw(st.sampled_from([0, 1, 2])),
                      n=draw(st.integers(1, 3)),
                      cells=draw(st.lists(cell, min_size=2, max_size=6)))
        ops.append(op)
    return {"cfg": c, "tex": draw(gen.texture()), "ops": ops, "ax": draw(st.booleans()),
            "other": draw(st.booleans())}


def styles(k, point):
    if k == 1:
        return (("b*",) if point else ("r-.",)), {}
    if k == 2:
        return (), {"color": "cyan", "marker": "s"}
    return (), {}


def check_xy(line, cells, what):
    """The drawn points are the cells (row, column), rows downwards."""
    xy = np.asarray(line.get_xydata(), dtype=float)
    want = np.array([[np.nan, np.nan] if c is None else [c[1], c[0]] for c in cells], float)
    if xy.shape != want.shape or not np.array_equal(xy, want, equal_nan=True):
        raise Violation("%s drew %r, the cells are %r"
                        % (what, xy.tolist(), [None if c is None else list(c) for c in cells]))


def everything(m):
    return {k: np.array(v) for k, v in vars(m).items() if isinstance(v, np.ndarray)
            and v.dtype != object}


def run(case, ctx):
    import matplotlib.pyplot as plt
    m = probe.build(ctx, case["cfg"], iosim.Stub)
    twin = probe.build(ctx, case["cfg"], iosim.Stub)
    gen.disturb(m, case["tex"])
    gen.disturb(twin, case["tex"])
    L, W = m.eta.shape
    before = everything(m)
    s0 = iosim.state(m, qs=True)
    drawn = 0
    for op in case["ops"]:
        fig, axs = plt.subplots(1, 2)
        ax = axs[0]
        plt.sca(axs[1] if case["ax"] else ax)     # the axes given, or the current ones
        kw = {"ax": ax} if case["ax"] else {}
        try:
            if op["op"] == "field":
                quiet(m.show_attribute, op["name"], grid=op["grid"], label=op["label"], **kw)
                if len(ax.images) != 1:
                    raise Violation("the field is not shown on the axes")
                got = np.ma.getdata(ax.images[0].get_array())
                exp = getattr(m, op["name"])
                if got.shape != exp.shape or not np.array_equal(
                        got.astype(float), exp.astype(float)):
                    raise Violation("show_attribute(%r) does not show the field" % op["name"])
                if ax.images[0].origin != "upper":
                    raise Violation("field is shown upside down")
                drawn += 1
            elif op["op"] == "bad":
                try:
                    quiet(m.show_attribute, op["name"], **kw)
                except (TypeError, ValueError):
                    pass
                else:
                    raise Violation("show_attribute(%r) is not a field but was accepted"
                                    % op["name"])
            elif op["op"] == "ind":
                cells = [(int(a * L), int(b * W)) for (a, b), _ in op["cells"]]
                asflat = [f for _, f in op["cells"]]
                flat = [int(i * W + j) for i, j in cells]
                if op["form"] == "tuple":
                    arg, cells = cells[0], cells[:1]
                elif op["form"] == "flat":
                    arg, cells = flat[0], cells[:1]
                elif op["form"] == "list":
                    arg = [f if b else c for f, c, b in zip(flat, cells, asflat)]
                else:
                    arg = np.array(flat)
                a, k = styles(op["style"], True)
                k.update(kw)
                quiet(m.show_ind, arg, *a, **k)
                if len(ax.lines) != len(cells):
                    raise Violation("show_ind(%r) drew %d points" % (arg, len(ax.lines)))
                for ln, c in zip(ax.lines, cells):
                    check_xy(ln, [c], "show_ind(%r)" % (arg,))
                drawn += 1
            else:
                cells = [(int(a * L), int(b * W)) for a, b in op["cells"]]
                flat = np.array([i * W + j for i, j in cells])
                vis = [None if op["nozeros"] and c == (0, 0) else c for c in cells]
                want = [vis]
                k = {"nozeros": op["nozeros"]}
                # pairs are drawn as x (across), y (down)
                if op["form"] == "flat":
                    arg = flat
                elif op["form"] == "listflat":
                    arg = [int(f) for f in flat]
                elif op["form"] in ("pairs", "listpairs"):
                    arg = np.array([[j, i] for i, j in cells])
                    if op["form"] == "listpairs":
                        arg = [(j, i) for i, j in cells]
                    want = [cells]
                elif op["form"] == "list":
                    arg = [flat] * op["n"]
                    want = [vis] * op["n"]
                else:
                    arg = np.stack([np.roll(flat, i) for i in range(op["n"])], axis=1)
                    k["multiline"] = True
                    want = [list(np.roll(np.arange(len(vis)), i)) for i in range(op["n"])]
                    want = [[vis[q] for q in r] for r in want]
                a, k2 = styles(op["style"], False)
                if op["form"] == "multi":
                    k2.pop("color", None)
                k.update(k2)
                k.update(kw)
                ret = quiet(m.show_line, arg, *a, **k)
                if len(ax.lines) != len(want):
                    raise Violation("show_line(%s) drew %d lines, not %d"
                                    % (op["form"], len(ax.lines), len(want)))
                for ln, w in zip(ax.lines, want):
                    check_xy(ln, w, "show_line(%s)" % op["form"])
                if not isinstance(ret, list) or len(ret) != len(want) \
                        or any(x is not y for x, y in zip(ret, ax.lines)):
                    raise Violation("show_line(%s) does not return the lines it drew"
                                    % op["form"])
                drawn += 1
            if case["ax"] and (axs[1].lines or axs[1].images):
                raise Violation("drew on other axes than those given")
            ctx.label(op["op"] + " " + op.get("form", ""))
        finally:
            plt.close("all")
    d = iosim.diff_state(s0, iosim.state(m, qs=True))
    if d:
        raise Violation("inspecting the model changed it: " + d)
    now = everything(m)
    for k in before:
        if k not in now or not np.array_equal(before[k], now[k], equal_nan=before[k].dtype.kind == "f"):
            raise Violation("inspecting the model changed " + k)
    st0 = probe.shared_tools.get_random_state()
    quiet(m.update)
    a = iosim.state(m, qs=True)
    probe.shared_tools.set_random_state(st0)
    quiet(twin.update)
    d = iosim.diff_state(iosim.state(twin, qs=True), a)
    if d:
        raise Violation("the step after an inspection differs: " + d)
    return drawn > 0


PARTS = [Part("show", lambda tier: cases(), run, 500, 8000)]
