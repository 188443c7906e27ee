"""Independent implementation of the documented two-layer tracking scheme, in float64."""

import numpy as np

from wv.world import ALL, ERAD, M_PER_DEG, bbox_mask


def at_time(world, t, names):
    """Linear interpolation in time between the records around t."""
    x = (t - world.start).total_seconds() / (world.inf * 60)
    k = int(np.floor(x + 1e-9))
    w = x - k
    out = {}
    for n in names:
        a = world.fields[n][k].astype(float)
        if w > 1e-9:
            a = (1 - w) * a + w * world.fields[n][k + 1].astype(float)
        out[n] = a
    return out


def geometry(lat, lon):
    lat = lat.astype(float)
    lon = lon.astype(float)
    dlat = abs(lat[1] - lat[0])
    dlon = abs(lon[1] - lon[0])
    if dlon > 180:
        dlon = 360 - dlon
    n, s = np.minimum(90, lat + dlat / 2), np.maximum(-90, lat - dlat / 2)
    area = ERAD**2 * np.deg2rad(dlon) * (np.sin(np.deg2rad(n)) - np.sin(np.deg2rad(s)))
    dy = dlat * M_PER_DEG
    dx = dlon * M_PER_DEG * 0.5 * (np.cos(np.deg2rad(lat + dlat / 2)) + np.cos(np.deg2rad(lat - dlat / 2)))
    return area[:, None], dy, dx[:, None]


def limit(fx, fy, content):
    """Outflow in one step at most half of the content, shared between directions."""
    ax, ay = np.abs(fx), np.abs(fy)
    tot = ax + ay
    with np.errstate(divide="ignore", invalid="ignore"):
        lx = np.where(tot > 0, 0.5 * ax / tot * content, 0)
        ly = np.where(tot > 0, 0.5 * ay / tot * content, 0)
    return np.sign(fx) * np.minimum(ax, lx), np.sign(fy) * np.minimum(ay, ly)


def ddx(f, periodic):
    if periodic:
        return (np.roll(f, -1, 1) - np.roll(f, 1, 1)) / 2
    out = np.empty_like(f)
    out[:, 1:-1] = (f[:, 2:] - f[:, :-2]) / 2
    out[:, 0] = f[:, 1] - f[:, 0]
    out[:, -1] = f[:, -1] - f[:, -2]
    return out


def ddy_north(f):
    """Derivative towards the north; rows run from north to south."""
    out = np.empty_like(f)
    out[1:-1] = (f[:-2] - f[2:]) / 2
    out[0] = f[0] - f[1]
    out[-1] = f[-2] - f[-1]
    return out


class Ref:
    def __init__(self, world, surface_quirk=False):
        self.w = world
        self.quirk = surface_quirk
        self.area, self.dy, self.dx = geometry(world.lat, world.lon)

    def transport(self, rel, fx, fy):
        """Net inflow per cell by donor-cell transport of `rel` over the cell faces."""
        ny, nx = rel.shape
        gain = np.zeros((ny, nx))
        per = self.w.periodic
        for i in range(1, ny - 1):  # no zonal transport along the first and last row
            for j in range(nx if per else nx - 1):
                k = (j + 1) % nx
                f = 0.5 * (fx[i, j] + fx[i, k])
                m = f * (rel[i, j] if f > 0 else rel[i, k])
                gain[i, j] -= m
                gain[i, k] += m
        cols = range(nx) if per else range(1, nx - 1)  # nor meridional along the outer columns
        for i in range(ny - 1):
            for j in cols:
                f = 0.5 * (fy[i, j] + fy[i + 1, j])  # northward, from row i+1 to row i
                m = f * (rel[i + 1, j] if f > 0 else rel[i, j])
                gain[i + 1, j] -= m
                gain[i, j] += m
        return gain

    def vertical(self, X, S0, S1):
        """Downward flux that spreads the balance residual in proportion to the layers."""
        dt, kvf, per = self.w.dt, self.w.kvf, self.w.periodic
        mu = (S0["s_upper"] + S1["s_upper"]) / 2
        ml = (S0["s_lower"] + S1["s_lower"]) / 2
        a = self.area
        sa = a if self.quirk else 1.0  # known finding: surface fluxes divided by the cell area
        ru = (
            S1["s_upper"] - S0["s_upper"]
            + dt * (ddx(X["fx_upper"], per) + ddy_north(X["fy_upper"])) / a
            + dt * X["precip"] * mu / (mu + ml) / sa
        )
        rl = (
            S1["s_lower"] - S0["s_lower"]
            + dt * (ddx(X["fx_lower"], per) + ddy_north(X["fy_lower"])) / a
            + dt * (X["precip"] * ml / (mu + ml) - X["evap"]) / sa
        )
        fz = rl - S1["s_lower"] / (S1["s_lower"] + S1["s_upper"]) * (ru + rl)
        top = np.minimum(mu, ml) / (kvf + 1)
        return np.sign(fz) * np.minimum(np.abs(fz), top) / dt

    def run(self, mask=None, initial=None):
        """Yield (time, fields) at every documented output time."""
        w = self.w
        fwd = w.direction == "forward"
        shape = w.fields["s_upper"].shape[1:]
        up, lo = (np.zeros(shape), np.zeros(shape)) if initial is None else initial
        acc = None
        outs = dict(w.output_times())
        edge = np.ones(shape, bool)
        edge[1:-1, (slice(None) if w.periodic else slice(1, -1))] = False
        for n, (ta, th, tb) in enumerate(w.step_list()):
            early, late = (ta, tb) if fwd else (tb, ta)
            S0 = at_time(w, early, ("s_upper", "s_lower"))
            S1 = at_time(w, late, ("s_upper", "s_lower"))
            X = at_time(w, th, [k for k in ALL if k[0] != "s"])
            here, there = (S0, S1) if fwd else (S1, S0)
            region = np.zeros(shape)
            if w.tag0 <= ta <= w.tag1:
                region = w.mask(ta) if mask is None else mask
            dt = w.dt
            for lev in ("upper", "lower"):
                fx, fy = limit(
                    X["fx_" + lev] * self.dy * dt, X["fy_" + lev] * self.dx * dt, here["s_" + lev] * self.area
                )
                X["fx_" + lev], X["fy_" + lev] = fx / dt, fy / dt
            fz = self.vertical(X, S0, S1)
            su, sl = here["s_upper"], here["s_lower"]
            ru, rl = np.minimum(up / su, 1), np.minimum(lo / sl, 1)
            sgn = 1 if fwd else -1
            hu = self.transport(ru, sgn * X["fx_upper"], sgn * X["fy_upper"]) / self.area
            hl = self.transport(rl, sgn * X["fx_lower"], sgn * X["fy_lower"]) / self.area
            v = sgn * fz  # downward
            net = np.where(v > 0, v * ru, v * rl) + w.kvf * np.abs(v) * (ru - rl)
            pu, pl = X["precip"] * su / (su + sl), X["precip"] * sl / (su + sl)
            rec = {}
            if fwd:
                dn = region * X["evap"] - pl * rl
                du = -pu * ru
                rec["tagged_evap"] = region * X["evap"] * dt
                rec["p_track_lower"], rec["p_track_upper"] = pl * rl * dt, pu * ru * dt
            else:
                dn = region * pl - X["evap"] * rl
                du = region * pu
                rec["tagged_precip"] = region * X["precip"] * dt
                rec["e_track"] = X["evap"] * rl * dt
            lo = lo + dt * (hl + net + dn)
            up = up + dt * (hu - net + du)
            loss = np.where(edge, up + lo, 0)
            up, lo = np.where(edge, 0, up), np.where(edge, 0, lo)
            ou, ol = np.maximum(0, up - there["s_upper"]), np.maximum(0, lo - there["s_lower"])
            up, lo = up - ou + ol, lo - ol + ou
            rec["gains"] = np.maximum(-up, 0) + np.maximum(-lo, 0)
            up, lo = np.maximum(up, 0), np.maximum(lo, 0)
            loss = loss + np.maximum(0, up - there["s_upper"]) + np.maximum(0, lo - there["s_lower"])
            up, lo = np.minimum(up, there["s_upper"]), np.minimum(lo, there["s_lower"])
            rec["losses"] = loss
            acc = rec if acc is None else {k: acc[k] + rec[k] for k in rec}
            if n in outs:
                yield outs[n], dict(acc, s_track_upper_restart=up, s_track_lower_restart=lo)
                acc = None
