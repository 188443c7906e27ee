"""Limited fluxes are reported."""

import glob
import os
import re

import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import ref
from wv import world as W
from wv.case import Violation

ID = "T17"
TECHNIQUE = "property-based testing: warnings and correction fields compared with an independent limiter over generated experiments"
CASES = {"quick": 200, "thorough": 7000}
RULE = (
    "one case = one experiment with winds from far below to far above the limit; its warnings are compared, step by step and "
    "layer by layer, with the correction computed independently; non-trivial when some flux is limited in some step"
)
ASSUMPTIONS = ["corrections within rounding of the thresholds (5% of the cells, 10% more cells, 10% stronger) may be reported or not"]

HEAD = re.compile(r"Warning: stability correction applied to (\S+)% of grid\.")
MEAN = re.compile(r"Average correction factor was (\S+), the strongest correction factor was (\S+)$")
FILE = re.compile(r"The correction factor field is written to (.*)\.$")


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=10 if tier == "quick" else 30))
    spec["grid"]["ctype"] = "f8"  # cell areas and widths are inexact in single precision
    F = spec["F"]
    F["courant"] = draw(st.sampled_from([0.3, 0.6, 1.0, 3.0, 20.0, 0.05]))
    F["wind_upper"], F["wind_lower"] = (
        draw(st.sampled_from(["noise", "uniform", "calm", "zonal", "merid", "vortex", "zonal", "merid"])) for _ in range(2)
    )
    spec["gust"] = draw(st.sampled_from([None, None, "steps", "cell"]))  # other winds from record to record, or in one cell
    return spec


def build(spec):
    w = W.World(spec)
    rng = np.random.default_rng(spec["F"]["seed"])
    if spec["gust"]:
        n = len(w.fields["fx_upper"])
        for lev in ("upper", "lower"):
            if spec["gust"] == "steps":
                k = rng.choice([0.1, 0.3, 1.0, 1.2, 3.0], n)[:, None, None]
            else:
                k = np.ones(w.fields["fx_upper"].shape)
                i, j = rng.integers(k.shape[1]), rng.integers(k.shape[2])
                k[:, i, j] = rng.choice([1.0, 2.0, 10.0, 30.0], n)
            for c in ("fx_", "fy_"):
                a = w.fields[c + lev]
                w.fields[c + lev] = (a * k).astype(a.dtype)
    return w


class Correction:
    """Share of the outgoing flux that remains, per cell."""

    def __init__(self, fx, fy, content):
        tot = np.abs(fx) + np.abs(fy)
        with np.errstate(divide="ignore", invalid="ignore"):
            raw = 0.5 * content / tot
        self.moving = tot > 1e-9 * content  # (no width at the pole: zero but for rounding)
        slight = (tot > 0) & ~self.moving
        self.factor = np.where(self.moving, np.minimum(raw, 1), 1.0)
        n = tot.size
        eps = 1e-5
        self.cells = ((raw < 1 - eps).sum() / n * 100, (raw < 1 + eps).sum() / n * 100)  # least and most that count
        self.strongest = self.factor.min()
        a = self.factor[self.moving]
        self.means = [x.mean() for x in (a, np.append(a, np.ones(slight.sum()))) if x.size] or [1.0]


def reports(folder):
    logs = glob.glob(folder + "/*.log")
    if len(logs) != 1:
        raise Violation(f"log files: {logs}")
    res, now = [], None
    for line in open(logs[0], encoding="utf8").read().splitlines():
        m = HEAD.search(line)
        if m:
            now = {"cells": float(m.group(1))}
            res.append(now)
        m = MEAN.search(line)
        if m and now is not None:
            now["mean"], now["strongest"] = float(m.group(1)), float(m.group(2))
        m = FILE.search(line)
        if m and now is not None:
            now["file"] = m.group(1)
    for r in res:
        if len(r) != 4:
            raise Violation(f"incomplete warning: {r}")
    return res


def fits(r, c):
    return (
        c.cells[0] - 0.051 <= r["cells"] <= c.cells[1] + 0.051
        and min(c.means) - 0.0051 <= r["mean"] <= max(c.means) + 0.0051
        and abs(r["strongest"] - c.strongest) <= 0.0051
    )


def run(spec, env):
    w = build(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    got = reports(outs.folder)
    r = ref.Ref(w)
    plan = []
    for ta, th, tb in w.step_list():
        S = ref.at_time(w, ta, ("s_upper", "s_lower"))
        X = ref.at_time(w, th, ("fx_upper", "fx_lower", "fy_upper", "fy_lower"))
        name = f"stability_correction_{ta.strftime('%Y%m%d-%H%M%S')}.nc"
        for lev in ("upper", "lower"):
            c = Correction(X["fx_" + lev] * r.dy * w.dt, X["fy_" + lev] * r.dx * w.dt, S["s_" + lev] * r.area)
            plan.append((name, lev, c))
    limited = any(c.cells[0] > 0 for _, _, c in plan)
    env.nontrivial = limited
    env.label(f"warnings={min(4, len(got))}", "limited" if limited else "free", f"gust={spec['gust']}")

    # every report belongs to a step and layer, in order; where both layers fit, try the second one too
    best = None
    for skip in (False, True):
        best = assign(plan, got, skip)
        if not isinstance(best, str):
            break
    if isinstance(best, str):
        raise Violation(best)
    for folder in (outs.folder + "/debug",):
        have = sorted(os.listdir(folder)) if os.path.isdir(folder) else []
        want = sorted({n for n, _, _ in best})
        if have != want:
            raise Violation(f"{folder} holds {have}, the warnings are about {want}")
    last = {n: c for n, _, c in best}
    for rep, (n, _, _) in zip(got, best):
        if os.path.realpath(rep["file"]) != os.path.realpath(os.path.join(outs.folder, "debug", n)):
            raise Violation(f"the warning for {n} names the file {rep['file']}")
    for n, c in last.items():
        with netCDF4.Dataset(os.path.join(outs.folder, "debug", n)) as nc:
            nc.set_auto_mask(False)
            a = np.array(nc["correction_factor"][:])
            lat = np.array(nc["latitude"][:])
        if not np.array_equal(lat, w.lat):
            raise Violation(f"{n}: latitudes {lat} instead of {w.lat}")
        bad = c.moving & ~(np.abs(a - c.factor) <= 1e-4)
        if a.shape != c.factor.shape or bad.any():
            i = tuple(np.argwhere(bad)[0])
            raise Violation(f"{n}: correction factor at {i} is {a[i]}, should be {c.factor[i]}")


def assign(plan, got, second):
    todo = list(got)
    said = []
    for k, (name, lev, c) in enumerate(plan):
        strongest = min([s.strongest for _, _, s in said], default=1.0)
        most = max([s.cells[0] for _, _, s in said], default=0.0)
        must = (c.cells[0] > 5 + 1e-6 and c.cells[0] > 1.1 * max([s.cells[1] for _, _, s in said], default=0.0) + 1e-6)
        must |= c.strongest < strongest / 1.1 - 1e-4
        if said:
            before = said[-1][2]
            may = (c.cells[1] > 5 - 1e-6 and c.cells[1] > 1.1 * before.cells[0] - 1e-6) or c.strongest < before.strongest / 1.1 + 1e-4
        else:
            may = c.cells[1] > 5 - 1e-6 or c.strongest < 1 / 1.1 + 1e-4
        here = bool(todo) and name in todo[0]["file"] and fits(todo[0], c)
        if here and second and lev == "upper" and not must:
            two = len(todo) > 1 and name in todo[1]["file"]
            here = two or not fits(todo[0], plan[k + 1][2])
        about = f"{name} ({lev} layer): correction in {c.cells[0]:.2f}% of the cells, strongest factor {c.strongest:.4f}"
        if here:
            if not may:
                return f"{about} is reported though the last warning was about {said[-1][2].cells[0]:.2f}%, {said[-1][2].strongest:.4f}" if said else f"{about} is reported"
            said.append((name, lev, c))
            todo.pop(0)
        elif must:
            return f"{about} is not reported; strongest reported before {strongest:.4f}, most cells {most:.2f}%; next report {todo[:1]}"
    if todo:
        return f"the report {todo[0]} does not agree with the fluxes at any step"
    return said
