"""Independent reference of the numerical stages (plain NumPy, float64).

Written from the model description (docs/source/info) and the documented
behaviour; state is stored in single precision like the model's fields, so
that rounding does not accumulate into different decisions.  A decision which
rounding could turn (a random pick or a threshold within MARGIN) raises
`Ambiguous`; the case is then discarded and counted.
"""
import numpy as np

from .domain import nominal

F32 = np.float32
DI = [(-1, -1), (-1, 0), (-1, 1), (0, -1), (0, 0), (0, 1), (1, -1), (1, 0), (1, 1)]
DIST = np.array([np.hypot(i, j) if (i or j) else 1.0 for i, j in DI])
UNITX = np.array([i / np.hypot(i, j) if (i or j) else 0.0 for i, j in DI])  # downstream
UNITY = np.array([j / np.hypot(i, j) if (i or j) else 0.0 for i, j in DI])  # across
MARGIN = 2e-5


class Ambiguous(Exception):
    pass


class UpstreamExit(Exception):
    """A water parcel leaves the grid upstream of the inlet (known finding)."""


def pad(a):
    return np.pad(np.asarray(a), 1, "edge")


def pick(weights, u, margin=MARGIN):
    w = np.asarray(weights, float)
    cum = np.cumsum(w)
    x = u * cum[-1]
    k = int(np.searchsorted(cum, x))
    if margin:
        lo = cum[k - 1] if k > 0 else 0.0
        if (cum[k] - x) < margin * cum[-1] or (x - lo) < margin * cum[-1]:
            raise Ambiguous("pick")
    return k


# ---------------------------------------------------------------- water ----
def slope_inertia(stage, qx, qy, ps, i, j):
    s = float(stage[i, j])
    nb = ps[i:i + 3, j:j + 3].ravel().astype(float)
    sfc = np.maximum(0, (s - nb) / DIST)
    sfc[4] = 0
    x, y = float(qx[i, j]), float(qy[i, j])
    inert = np.maximum(0, (x * UNITX + y * UNITY) / DIST)
    inert[inert < 1e-6 * (abs(x) + abs(y))] = 0
    return sfc, inert


def water_weights(stage, depth, qx, qy, ct, mod, dry, gamma, theta, upstream="asis"):
    """Weights (L, W, 9), and whether a cell uses the fall-back walk."""
    L, W = depth.shape
    ps, pd, pm, pc = pad(stage), pad(depth), pad(mod), pad(ct)
    out = np.zeros((L, W, 9))
    kind = np.zeros((L, W), int)
    for i in range(L):
        for j in range(W):
            d = pd[i:i + 3, j:j + 3].ravel()
            isdry = d < dry
            wall = pc[i:i + 3, j:j + 3].ravel() == -2
            d = d.astype(float)
            mm = pm[i:i + 3, j:j + 3].ravel().astype(float)
            sfc, inert = slope_inertia(stage, qx, qy, ps, i, j)
            block = isdry | wall
            block[4] = True
            if i == 0 and upstream == "before":
                block[:3] = True
            sfc[block] = 0
            inert[block] = 0
            if sfc.sum() > 0:
                sfc = sfc / sfc.sum()
            if inert.sum() > 0:
                inert = inert / inert.sum()
            w = (gamma * sfc + (1 - gamma) * inert) * (d * mm) ** theta
            w[4] = 0
            if i == 0 and upstream == "after":
                w[:3] = 0
            if w.sum() > 0:
                out[i, j] = w / w.sum()
            elif wall[4]:
                kind[i, j] = 3
            else:
                ok = ~wall
                ok[4] = False
                if i == 0:
                    ok[:3] = False
                wet = ok & ~isdry
                kind[i, j] = 1 if wet.any() else 2
                sel = wet if wet.any() else ok
                if sel.any():
                    out[i, j, sel] = 1.0 / sel.sum()
                else:
                    kind[i, j] = 4
    return out, kind


def water_walk(rep, weights, inlet, inlet_w, n, stepmax, L0, CTR, stage, H_SL, ct,
               Qp, dx):
    """Walk n parcels; returns walks (list of lists), flags and q fields."""
    L, W = ct.shape
    wf = weights.reshape(-1, 9)
    ctf = ct.ravel()
    norm = np.asarray(inlet_w, float) / np.sum(inlet_w)
    start = [int(inlet[pick(norm, rep.u(), 0)]) for _ in range(n)]
    qx = np.zeros(L * W)
    qy = np.zeros(L * W)
    qw = np.zeros(L * W)
    half = Qp / dx / 2
    # (inlet cells of the first row are set to the inlet discharge afterwards,
    #  so the contribution of entering parcels is not compared there)
    walks = [[s] for s in start]
    cur = list(start)
    flag = np.ones(n, int)
    step = 0
    nloop = 0
    back = 0
    above = np.abs(stage.astype(float) - H_SL)
    while sum(cur) > 0 and step < stepmax:
        step += 1
        for p in range(n):
            if cur[p] == 0:
                walks[p].append(0)
        moved = []
        for p in range(n):
            if cur[p] == 0:
                continue
            k = pick(wf[cur[p]], rep.u(), 0)
            moved.append((p, k))
        for p, k in moved:
            di, dj = DI[k]
            i, j = divmod(cur[p], W)
            ni, nj = i + di, j + dj
            if ni < 0:
                raise UpstreamExit((p, step))
            if nj < 0 or nj >= W or ni >= L:
                raise AssertionError("walk leaves the grid")
            new = ni * W + nj
            for c in (cur[p], new):
                if k != 4:
                    qx[c] += di / DIST[k]
                    qy[c] += dj / DIST[k]
                    qw[c] += half
            looped = False
            if step > L0 and new > 0:
                if new >= L0 * W and new in walks[p]:
                    nloop += 1
                    back = max(back, len(walks[p]) - walks[p].index(new))
                    fx, fy = ni - 1, nj - CTR
                    fw = np.sqrt(fx ** 2 + fy ** 2)
                    px, py = ni, nj
                    if fw != 0:
                        px = ni + int(np.round(fx / fw * 5.0))
                        py = nj + int(np.round(fy / fw * 5.0))
                    px = min(L - 2, max(px, L0))
                    py = min(W - 2, max(1, py))
                    new = px * W + py
                    if abs(above[ni, nj] - 0.1) < 1e-5:
                        raise Ambiguous("loop stage")
                    looped = not (above[ni, nj] < 0.1)
            if looped:
                flag[p] = 0
            edge = ctf[new] == -1
            walks[p].append(0 if (edge and looped) else new)
            cur[p] = 0 if edge else new
            if edge and k != 4:
                qx[new] += di / DIST[k]
                qy[new] += dj / DIST[k]
                qw[new] += half
    sh = (L, W)
    return (walks, flag, qx.reshape(sh), qy.reshape(sh), qw.reshape(sh),
            {"steps": step, "loops": nloop, "back": back, "start": start})


def accumulate_surface(walks, flag, ct, uw, ux, uy, depth, dx, u0, h0, H_SL, S0):
    L, W = ct.shape
    visit = np.zeros((L, W))
    total = np.zeros((L, W))
    used = 0
    for p in range(len(walks)):
        path = [int(c) for c in walks[p] if c > 0]
        cells = [divmod(c, W) for c in path]
        if not cells or flag[p] != 1 or ct[cells[-1]] != -1:
            continue
        used += 1
        H = np.zeros((L, W))
        H[cells[-1]] = H_SL
        ocean = True
        dH = 0.0
        for it in range(len(cells) - 2, -1, -1):
            (i, j), (ip, jp) = cells[it], cells[it + 1]
            if (i, j) != (ip, jp):
                u = float(uw[i, j])
                if ocean:
                    if (abs(u - 0.5 * u0) < 1e-6 * u0
                            or abs(float(depth[i, j]) - 0.1 * h0) < 1e-6 * h0):
                        raise Ambiguous("shoreline")
                    if u > 0.5 * u0 or depth[i, j] < 0.1 * h0:
                        ocean = False
                elif u == 0:
                    dH = 0.0
                else:
                    dH = S0 * (float(ux[i, j]) * (ip - i) * dx
                               + float(uy[i, j]) * (jp - j) * dx) / u
            H[i, j] = H[ip, jp] + dH
            visit[i, j] += 1
            total[i, j] += H[i, j]
    return visit, total, used


def new_surface(eta, depth, visit, total, H_SL):
    H = eta.astype(float) + depth.astype(float)
    v = visit > 0
    H[v] = total[v] / visit[v]
    H = np.maximum(H, H_SL)
    return np.maximum(H, eta)


def smooth(H, ct, n, c):
    H = np.array(H, float)
    pc = pad(ct)
    L, W = ct.shape
    for _ in range(n):
        ph = pad(H)
        new = H.copy()
        for i in range(L):
            for j in range(W):
                if ct[i, j] == -1:
                    continue
                ok = pc[i:i + 3, j:j + 3].ravel() != -2
                ok[4] = False
                if ok.any():
                    v = ph[i:i + 3, j:j + 3].ravel()
                    new[i, j] = c * H[i, j] + (1 - c) * v[ok].mean()
        H = new
    return H


def flood(stage, depth, eta, dry):
    """Flood dry cells next to wet cells with a surface above their bed."""
    L, W = stage.shape
    wet = depth > dry
    out = np.array(stage)
    n = 0
    for i in range(L):
        for j in range(W):
            if wet[i, j]:
                continue
            best = -np.inf
            for di, dj in DI:
                a, b = i + di, j + dj
                if (di or dj) and 0 <= a < L and 0 <= b < W and wet[a, b]:
                    best = max(best, stage[a, b])
            if best > eta[i, j]:
                n += 1
                out[i, j] = best
    return out, n


def flow_field(qxn, qyn, qwn, qx, qy, omega, inlet, qw0):
    qxn, qyn, qwn = (np.asarray(a, float) for a in (qxn, qyn, qwn))
    mag = np.sqrt(qxn ** 2 + qyn ** 2)
    with np.errstate(all="ignore"):
        s = np.where(mag > 0, qwn / np.where(mag > 0, mag, 1), 1.0)
    x = qxn * s
    y = qyn * s
    if omega is not None:
        x = x * omega + np.asarray(qx, float) * (1 - omega)
        y = y * omega + np.asarray(qy, float) * (1 - omega)
    w = np.sqrt(x ** 2 + y ** 2)
    x[0, inlet] = qw0
    y[0, inlet] = 0
    w[0, inlet] = qw0
    return x, y, w


def velocity(qx, qy, qw, depth, dry, umax):
    qx, qy, qw = (np.asarray(a, float) for a in (qx, qy, qw))
    d = np.asarray(depth, float)
    m = (depth > dry) & (qw > 0)
    with np.errstate(all="ignore"):
        u = np.where(m, np.minimum(umax, qw / np.where(m, d, 1)), 0)
        ux = np.where(m, u * qx / np.where(m, qw, 1), 0)
        uy = np.where(m, u * qy / np.where(m, qw, 1), 0)
    return u, ux, uy


# ------------------------------------------------------------- sediment ----
class Sediment:
    """Routes sand and mud parcels on a copy of the model state."""

    def __init__(self, s, P):
        self.P = P
        for k in ("eta", "stage", "depth", "uw", "ux", "uy", "qw", "qx", "qy", "qs",
                  "Vp_dep_sand", "Vp_dep_mud"):
            setattr(self, k, np.array(s[k], dtype=F32))
        self.ct = s["cell_type"]
        self.L, self.W = self.ct.shape
        self.info = {"sand": [], "mud": []}
        self.cnt = {}
        self.visited = set()

    def _c(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1

    def weights(self, i, j, theta):
        P = self.P
        L, W = self.L, self.W
        w = np.zeros(9)
        wall = np.zeros(9, bool)
        across = False
        q1, q2 = float(self.qx[i, j]), float(self.qy[i, j])
        for k, (di, dj) in enumerate(DI):
            a, b = i + di, j + dj
            if k == 4:
                continue
            if a < 0 or a >= L or b < 0 or b >= W:
                wall[k] = True      # outside the domain
                continue
            if self.ct[a, b] == -2:
                wall[k] = True
                continue
            d = float(self.depth[a, b])
            if abs(d - P["dry"]) < 1e-5:
                raise Ambiguous("dry")
            if d <= P["dry"]:
                continue
            v = (q1 * UNITX[k] + q2 * UNITY[k]) / DIST[k]
            if abs(v) < 1e-6 * (abs(q1) + abs(q2)):
                across |= v != 0
                v = 0.0
            w[k] = max(0.0, v) * (d * float(P["mod_w"][a, b])) ** theta
        if w.sum() == 0:
            if across:          # only rounding of a perpendicular flow decides
                raise Ambiguous("perpendicular")
            self._c("fallback")
            w = np.where(wall, 0.0, 1.0 / DIST)
            w[4] = 0
        return w

    def change(self, i, j, dv):
        P = self.P
        e = float(self.eta[i, j]) + dv / P["dx"] ** 2
        d = max(0.0, float(self.stage[i, j]) - e)
        self.eta[i, j] = F32(e)
        q = float(self.qw[i, j])
        u = min(P["umax"], q / d) if d > 0 else float(self.uw[i, j])
        self.depth[i, j] = F32(d)
        self.uw[i, j] = F32(u)
        self.ux[i, j] = F32(u * float(self.qx[i, j]) / q) if q > 0 else 0
        self.uy[i, j] = F32(u * float(self.qy[i, j]) / q) if q > 0 else 0

    def limit(self, v, i, j, erode):
        d = float(self.stage[i, j]) - float(self.eta[i, j])
        if d < 0 and not erode:
            return 0.0
        lim = abs(d) / 4 * self.P["dx"] ** 2
        if v > lim:
            self._c("limited")
        return min(v, lim)

    @staticmethod
    def _gt(a, b, what):
        if abs(a - b) <= MARGIN * max(abs(a), abs(b)) and not (a == 0 and b == 0):
            raise Ambiguous(what)
        return a > b

    def sand_exchange(self, i, j, res):
        P = self.P
        U = float(self.uw[i, j])
        cap = P["qs0"] * P["f"] * (U / P["u0"]) ** P["beta"]
        loc = float(self.qs[i, j])
        if self._gt(loc, cap, "capacity"):
            v = self.limit(res, i, j, False)
            self._c("sand_dep")
            return v
        if self._gt(U, P["Ues"], "Uero_sand") and loc < cap:
            v = float(P["mod_e"][i, j]) * P["Vp"] * (U ** P["beta"] - P["Ues"] ** P["beta"]) \
                / P["Ues"] ** P["beta"]
            self._c("sand_ero")
            return -self.limit(v, i, j, True)
        return 0.0

    def mud_exchange(self, i, j, res):
        P = self.P
        U = float(self.uw[i, j])
        v = 0.0
        if self._gt(P["Udm"], U, "Udep_mud"):
            v = P["lag"] * res * (P["Udm"] ** P["beta"] - U ** P["beta"]) \
                / P["Udm"] ** P["beta"]
            v = self.limit(v, i, j, False)
            self._c("mud_dep")
        if self._gt(U, P["Uem"], "Uero_mud"):
            v = float(P["mod_e"][i, j]) * P["Vp"] * (U ** P["beta"] - P["Uem"] ** P["beta"]) \
                / P["Uem"] ** P["beta"]
            v = -self.limit(v, i, j, True)
            self._c("mud_ero")
        return v

    def route(self, kind, n, rep, inlet, inlet_w):
        P = self.P
        sand = kind == "sand"
        norm = np.asarray(inlet_w, float) / np.sum(inlet_w)
        start = [int(inlet[pick(norm, rep.u(), 0)]) for _ in range(n)]
        theta = P["theta_sand"] if sand else P["theta_mud"]
        for s in start:
            i, j = 0, s
            res = P["Vp"]
            part = res / 2.0 / P["dt"] / P["dx"]
            if sand:
                self.qs[i, j] = F32(float(self.qs[i, j]) + part)
            it = 0
            dep = ero = 0.0
            while True:
                k = pick(self.weights(i, j, theta), rep.u())
                a, b = i + DI[k][0], j + DI[k][1]
                if sand:
                    part = res / 2.0 / P["dt"] / P["dx"]
                    self.qs[i, j] = F32(float(self.qs[i, j]) + part)
                    self.qs[a, b] = F32(float(self.qs[a, b]) + part)
                i, j = a, b
                v = self.sand_exchange(i, j, res) if sand else \
                    self.mud_exchange(i, j, res)
                if v > 0:
                    f = self.Vp_dep_sand if sand else self.Vp_dep_mud
                    f[i, j] = F32(float(f[i, j]) + v)
                    dep += v
                else:
                    ero -= v
                res = float(F32(res - v))
                self.change(i, j, v)
                self.visited.add((i, j))
                it += 1
                if self.ct[i, j] == -1:
                    self._c("to_edge")
                    break
                if it == P["stepmax"]:
                    self._c("to_stepmax")
                    break
            self.info[kind].append((s, it, dep, ero, res))


def sediment_params(m, cfg=None):
    """Parameters of the sediment rules, from the documented quantities.

    Of the model, or recomputed from its configuration if that is given.
    """
    if cfg is not None:
        R = nominal(cfg)[0]
        return dict(dx=float(cfg["dx"]), dt=R["dt"], Vp=R["Vp_sed"], umax=R["u_max"],
                    qs0=R["qs0"], u0=float(cfg["u0"]), f=float(cfg["f_bedload"]),
                    beta=float(cfg["beta"]), dry=R["dry_depth"], stepmax=R["stepmax"],
                    theta_sand=R["theta_sand"], theta_mud=R["theta_mud"],
                    Ues=R["U_ero_sand"], Uem=R["U_ero_mud"], Udm=R["U_dep_mud"],
                    lag=float(cfg["sed_lag"]), mod_e=np.array(m.mod_erosion),
                    mod_w=np.array(m.mod_sed_weight))
    return dict(dx=float(m.dx), dt=float(m.dt), Vp=float(m.Vp_sed), umax=float(m.u_max),
                qs0=float(m.qs0), u0=float(m.u0), f=float(m.f_bedload),
                beta=float(m.beta), dry=float(m.dry_depth), stepmax=int(m.stepmax),
                theta_sand=float(m.theta_sand), theta_mud=float(m.theta_mud),
                Ues=float(m.U_ero_sand), Uem=float(m.U_ero_mud), Udm=float(m.U_dep_mud),
                lag=float(m.sed_lag), mod_e=np.array(m.mod_erosion),
                mod_w=np.array(m.mod_sed_weight))


def diffuse(eta, qs, ct, mult, n):
    """Pairwise exchange: (q_a + q_b) (eta_b - eta_a); zero outside the grid."""
    eta = np.array(eta, float)
    qs = np.asarray(qs, float)
    L, W = eta.shape
    fixed = (ct == -2)
    fixed = fixed.copy()
    fixed[0, :] = True
    q = np.pad(qs, 1)
    for _ in range(n):
        e = np.pad(eta, 1)
        d = np.zeros((L, W))
        for k, (di, dj) in enumerate(DI):
            if k == 4:
                continue
            en = e[1 + di:1 + di + L, 1 + dj:1 + dj + W]
            qn = q[1 + di:1 + di + L, 1 + dj:1 + dj + W]
            d += (qs + qn) * (en - eta)
        d *= mult
        d[fixed] = 0
        eta = eta + d
    return eta


def sand_fraction(eta, eta0, dep_s, dep_m, sf, al, thick, bc):
    sf = np.array(sf, float)
    al = np.array(al, float)
    bot = eta0.astype(F32) - thick
    deg = eta < eta0
    deep = deg & (eta < bot)
    act = deg & ~(eta < bot)
    sf[deep] = bc
    sf[act] = al[act]
    dep = (dep_s > 0) | (dep_m > 0.000001)
    mix = np.asarray(dep_s, float)[dep] / (np.asarray(dep_m, float)[dep]
                                           + np.asarray(dep_s, float)[dep])
    sf[dep] = mix
    al[dep] = mix
    return sf, al, deg, deep, act, dep
