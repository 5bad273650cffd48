"""Documented formulas: initial domain and derived quantities of a configuration."""
import math

import numpy as np

from .engine import Discard


def rnd(x):
    """Round to an integer; ties are not judged."""
    if abs(x - math.floor(x) - 0.5) < 0.02:
        raise Discard("rounding tie")
    return int(math.floor(x + 0.5))


def half(n):
    """Half of n, ties to the even number."""
    return n // 2 if n % 2 == 0 else (n // 2 if (n // 2) % 2 == 0 else n // 2 + 1)


def reference(c, ncross=None):
    g = lambda k, d: c.get(k, d)        # noqa
    R, A = {}, {}
    dx = c["dx"]
    L, W = rnd(c["Length"] / dx), rnd(c["Width"] / dx)
    L0 = max(1, min(rnd(c["L0_meters"] / dx), L // 4))
    N0 = max(3, min(rnd(c["N0_meters"] / dx), W // 4))
    CTR = W // 2 - 1
    if CTR <= 1:
        CTR = W // 2
    h0, u0 = c["h0"], c["u0"]
    hb = c.get("hb") or h0
    C0 = c["C0_percent"] / 100
    th = g("theta_water", 1.0)
    qw0 = u0 * h0
    V0 = h0 * dx ** 2
    dVs = 0.1 * N0 ** 2 * V0
    Qw0 = u0 * h0 * N0 * dx
    dt = dVs / (Qw0 * C0)
    # (a tie for an inlet of 5 cells: both are accepted)
    Nc = ncross if N0 == 5 and ncross in (2, 3) else rnd(0.1 * N0 ** 2 + 0.1 * (N0 == 5))
    R.update(L=L, W=W, L0=L0, N0=N0, CTR=CTR, hb=hb, u_max=2 * u0, C0=C0,
             dry_depth=min(0.1, 0.1 * h0), gamma=9.81 * g("S0", 0) * dx / u0 ** 2,
             V0=V0, Qw0=Qw0, qw0=qw0, Qp_water=Qw0 / c["Np_water"], qs0=qw0 * C0,
             dVs=dVs, Qs0=Qw0 * C0, Vp_sed=dVs / c["Np_sed"], dt=dt,
             omega_flow_iter=2.0 / c["itermax"], N_crossdiff=Nc,
             theta_sand=g("coeff_theta_sand", 2.0) * th,
             theta_mud=g("coeff_theta_mud", 1.0) * th,
             U_dep_mud=g("coeff_U_dep_mud", 0.3) * u0,
             U_ero_mud=g("coeff_U_ero_mud", 1.5) * u0,
             U_ero_sand=g("coeff_U_ero_sand", 1.05) * u0,
             stepmax=2 * (L + W) if c.get("stepmax") is None else int(c["stepmax"]),
             time=0.0, time_iter=0, H_SL=g("H_SL", 0.0),
             active_layer_thickness=h0 / 2)
    if Nc:
        R["diffusion_multiplier"] = dt / Nc * g("alpha", 0.1) * 0.5 / dx ** 2
    col0 = CTR - half(N0) + 1
    A["inlet"] = np.arange(col0, col0 + N0)
    i, j = np.meshgrid(np.arange(L), np.arange(W), indexing="ij")
    wall = i < L0
    mouth = wall & (j >= col0) & (j < col0 + N0)
    ct = np.zeros((L, W), int)
    ct[(i == L - 1) | (j == 0) | (j == W - 1)
       | (np.hypot(i - 3, j - CTR) >= min(L - 5, W / 2 - 5))] = -1
    ct[wall] = -2
    ct[mouth] = 1
    A["cell_type"] = ct
    A["stage"] = np.where(wall, (L0 - i - 1) * dx * g("S0", 0), 0.0)
    dep = np.where(wall, 0.0, hb)
    dep[mouth] = h0
    A["depth"] = dep
    A["eta"] = A["stage"] - dep
    q = np.where(wall, 0.0, qw0 / 5)
    q[mouth] = qw0
    A["qx"] = A["qw"] = q
    A["qy"] = A["uy"] = A["qs"] = A["Vp_dep_sand"] = A["Vp_dep_mud"] = np.zeros((L, W))
    A["ux"] = A["uw"] = np.divide(q, dep, out=np.zeros((L, W)), where=dep > 0)
    A["sand_frac"] = A["active_layer"] = np.full((L, W), float(g("sand_frac_bc", 0)))
    for k in ("mod_water_weight", "mod_sed_weight", "mod_erosion"):
        A[k] = np.ones((L, W))
    A["xc"], A["yc"] = np.arange(L) * dx, np.arange(W) * dx
    A["x"], A["y"] = j, i
    if c.get("toggle_subsidence"):
        A["sigma"] = np.where(wall, 0, g("subsidence_rate", 2e-9) * dt)
    r2 = math.sqrt(2)
    A["distances"] = np.array([[r2, 1, r2], [1, 1, 1], [r2, 1, r2]])
    A["iwalk"] = np.array([[-1, 0, 1]] * 3)
    A["jwalk"] = A["iwalk"].T
    A["ivec"] = A["iwalk"] / A["distances"]
    A["jvec"] = A["jwalk"] / A["distances"]
    return R, A


def nominal(c):
    """Derived quantities and initial fields of a generated configuration."""
    return reference(c, 2)
