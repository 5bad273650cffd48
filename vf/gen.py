"""Generators: model configurations and states (JSON-able dicts)."""
import numpy as np
from hypothesis import strategies as st

F32 = np.float32


def num(lo, hi, nd=3):
    """A float with few digits, shrinking towards `lo`."""
    n = 10 ** nd
    return st.integers(int(round(lo * n)), int(round(hi * n))).map(lambda i: i / n)


def near(values, lo, hi, nd=2):
    """One of `values` (first: simplest) or, sometimes, anything in between."""
    return st.one_of(st.sampled_from(values), st.sampled_from(values), num(lo, hi, nd))


@st.composite
def config(draw, np_water=(1, 24), np_sed=(1, 24), L=(10, 22), W=(14, 34),
           itermax=(1, 3), seas=True, subs=True, gamma_max=0.8, fbed=(0.0, 1.0),
           big=False):
    """A valid model configuration, as keyword arguments.

    With `big`, about one in 16 has a larger domain and many parcels.
    """
    c = {}
    if big and draw(st.integers(0, 15)) == 15:
        L, W = (24, 60), (40, 110)
        np_water = (np_water[0], 150)
        np_sed = (np_sed[0], 150)
    dx = draw(near([50.0, 10.0, 100.0, 25.0, 7.5, 1.0], 1, 250, 1))
    nL = draw(st.integers(*L))
    nW = draw(st.integers(*W))
    c["dx"] = dx
    c["Length"] = nL * dx
    c["Width"] = nW * dx
    l0 = draw(st.integers(1, max(1, nL // 4)))
    n0 = draw(st.integers(3, max(3, nW // 4)))
    if draw(st.integers(0, 4)) == 4:
        # lengths that have to be rounded or limited
        l0 = draw(st.sampled_from([l0 + 0.3, l0 - 0.4, l0 + 0.4, nL // 4 + 2, nL * 2, 0.2]))
        n0 = draw(st.sampled_from([n0 + 0.3, n0 - 0.4, n0 + 0.4, nW // 4 + 2, nW, 0.2]))
    c["L0_meters"] = l0 * dx
    c["N0_meters"] = n0 * dx
    u0 = draw(num(0.5, 2.5, 2))
    c["u0"] = u0
    c["h0"] = draw(st.one_of(num(1, 8, 1), num(1, 8, 1), num(0.4, 20, 1)))
    if draw(st.booleans()):
        c["hb"] = draw(num(0.3, 12, 1))
    gamma = draw(near([0.07, 0.0, 0.3, 0.02, gamma_max], 0, gamma_max, 3))
    c["S0"] = round(gamma * u0 ** 2 / (9.81 * dx), 9)
    c["Np_water"] = draw(st.integers(*np_water))
    c["Np_sed"] = draw(st.integers(*np_sed))
    if itermax[1] > 2 and draw(st.integers(0, 9)) == 9:
        itermax = (itermax[0], 8)
    c["itermax"] = draw(st.integers(*itermax))
    f = draw(num(*fbed, nd=2))
    c["f_bedload"] = f
    c["C0_percent"] = draw(num(0.02, 1, 2))
    c["Csmooth"] = draw(near([0.9, 0.5, 1.0, 0.0], 0, 1))
    c["Nsmooth"] = draw(st.sampled_from([5, 0, 1, 2, 3, 7, 10]))
    c["omega_sfc"] = draw(near([0.1, 0.0, 0.5, 1.0], 0, 1))
    c["omega_flow"] = draw(near([0.9, 0.0, 0.5, 1.0], 0, 1))
    c["theta_water"] = draw(near([1.0, 0.0, 0.5, 2.0], 0, 3))
    c["coeff_theta_sand"] = draw(near([2.0, 0.0, 1.0], 0, 3))
    c["coeff_theta_mud"] = draw(near([1.0, 0.0, 2.0], 0, 3))
    c["beta"] = draw(st.sampled_from([3, 1, 2, 4, 5]))
    c["sed_lag"] = draw(near([1.0, 0.3, 0.7], 0.05, 1))
    c["coeff_U_dep_mud"] = draw(near([0.3, 0.1, 0.6], 0, 1))
    c["coeff_U_ero_mud"] = draw(near([1.5, 0.8, 1.1], 0.3, 2))
    c["coeff_U_ero_sand"] = draw(near([1.05, 0.5, 1.4], 0.3, 2))
    c["alpha"] = draw(near([0.1, 0.0, 0.02], 0, 0.25, 3))
    if draw(st.booleans()):
        c["active_layer_thickness"] = draw(num(0.0, 2.0, 2))
    c["sand_frac_bc"] = draw(near([0.0, 0.5, 1.0], 0, 1))
    if seas:
        c["H_SL"] = draw(near([0.0, 0.5, -0.4, -2.0, 1.3], -4, 4))
        c["SLR"] = draw(st.sampled_from([0.0, 1e-6, -1e-6, 1e-5]))
    if subs and draw(st.booleans()):
        c["toggle_subsidence"] = True
        c["subsidence_rate"] = draw(st.sampled_from([1e-7, 2e-9, 1e-6]))
        c["start_subsidence"] = draw(st.sampled_from([0.0, 20000.0, 1e9]))
    if draw(st.integers(0, 3)) == 0:
        c["stepmax"] = draw(st.one_of(st.integers(6, 60), st.integers(1, 60)))
    c["seed"] = draw(st.integers(0, 2**32 - 1))
    return c


@st.composite
def texture(draw):
    """Parameters of a random disturbance of the model state."""
    return {
        "s": draw(st.integers(0, 10**6)),
        "bed": draw(st.sampled_from([0.0, 0.3, 1.0, 2.5])),
        "dry": draw(st.sampled_from([0.0, 0.05, 0.2, 0.5])),
        "sfc": draw(st.sampled_from([0.0, 0.02, 0.2])),
        "flow": draw(st.sampled_from([0.0, 0.3, 1.0, 3.0])),
        "zero": draw(st.sampled_from([0.0, 0.2, 0.6])),
        "gyre": draw(st.sampled_from([0.0, 0.0, 0.0, 0.0, 1.0, -1.0])),
    }


def smooth_noise(rng, shape, k=1):
    a = rng.standard_normal(shape)
    for _ in range(k):
        p = np.pad(a, 1, "edge")
        a = (p[:-2, 1:-1] + p[2:, 1:-1] + p[1:-1, :-2] + p[1:-1, 2:] + 2 * a) / 6
    return a


def disturb(m, t):
    """Put the model into a generated, self-consistent state.

    Bed, water surface and discharge of cells that are not land are disturbed;
    depth and velocity follow from them as they do in the model.  The land
    wall stays as it is.
    """
    rng = np.random.RandomState(t["s"])
    sh = m.eta.shape
    free = m.cell_type != -2
    H = float(m.H_SL)
    eta = m.eta.astype(float)
    stage = np.maximum(m.stage.astype(float), H)
    stage = stage + np.abs(smooth_noise(rng, sh)) * t["sfc"] * free
    eta = eta + smooth_noise(rng, sh) * t["bed"] * free
    isl = (rng.random_sample(sh) < t["dry"]) & free
    isl[0, :] = False
    eta = np.where(isl, stage + (rng.random_sample(sh) - 0.3) * 0.3, eta)
    m.eta[:] = eta.astype(F32)
    m.stage[:] = np.where(free, stage, m.stage).astype(F32)
    m.depth[:] = np.where(free, np.maximum(m.stage - m.eta, 0), m.depth)
    # land keeps dry
    q = m.qw0 * t["flow"]
    qx = m.qx.astype(float) + smooth_noise(rng, sh) * q
    qy = m.qy.astype(float) + smooth_noise(rng, sh) * q
    if t.get("gyre"):       # flow around the centre of the domain
        x, y = np.mgrid[:sh[0], :sh[1]]
        x, y = x - sh[0] / 2 - 1, y - sh[1] / 2
        g = t["gyre"] * 4 * m.qw0 / np.maximum(1, np.hypot(x, y))
        qx, qy = qx - g * y, qy + g * x
    z = rng.random_sample(sh) < t["zero"]
    qx[z] = 0
    qy[z] = 0
    qx[~free] = 0
    qy[~free] = 0
    m.qx[:] = qx
    m.qy[:] = qy
    m.qx[0, m.inlet] = m.qw0
    m.qy[0, m.inlet] = 0
    m.qw[:] = np.sqrt(m.qx.astype(float) ** 2 + m.qy.astype(float) ** 2)
    d = m.depth.astype(float)
    wet = (d > m.dry_depth) & (m.qw > 0)
    with np.errstate(all="ignore"):
        uw = np.where(wet, np.minimum(m.u_max, m.qw / np.where(d > 0, d, 1)), 0)
        m.uw[:] = uw
        m.ux[:] = np.where(wet, uw * m.qx / np.where(m.qw > 0, m.qw, 1), 0)
        m.uy[:] = np.where(wet, uw * m.qy / np.where(m.qw > 0, m.qw, 1), 0)


SMALL = dict(Length=600.0, Width=1000.0, dx=50.0, L0_meters=100.0, N0_meters=200.0,
             Np_water=12, Np_sed=12, itermax=1, seed=1)
