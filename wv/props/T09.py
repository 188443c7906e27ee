"""Outputs appear exactly on schedule and accumulate over their interval."""

import glob
import os

import cftime
import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation

ID = "T09"
TECHNIQUE = "property-based testing: model of the output schedule; metamorphic change of the output frequency"
CASES = {"quick": 170, "thorough": 6000}
RULE = (
    "one case = one experiment with generated step, period and output frequency; file names, times, bounds are compared "
    "with a calendar model and, where a finer or coarser frequency exists, accumulations with a second run; non-trivial "
    "when there are at least two outputs or an output that ends off the output frequency"
)
ASSUMPTIONS = ["the origin of the multiples of frequencies that do not divide the day is not documented, so any midnight is accepted"]


@st.composite
def strategy(draw, tier):
    spec = W.variants(draw, draw(W.worlds(max_steps=14 if tier == "quick" else 40, min_steps=0, max_span=4 * 1440)))
    spec["dt"] = draw(st.sampled_from([spec["dt"], spec["dt"], 450, 75, 3600, 1200]))
    spec["rest"] = draw(st.sampled_from([0, 0, 60 * (spec["dt"] // 120)]))
    dt = spec["dt"]
    fits = [f for f, m in W.FREQ.items() if m * 60 % dt == 0 and m * 60 * 1 <= max(1, spec["steps"]) * dt]
    spec["outf"] = draw(st.sampled_from(fits or ["1h"])) if draw(st.booleans()) else draw(st.sampled_from(list(W.FREQ)))
    if draw(st.booleans()) and dt % 60 == 0:
        spec["off"] = (dt // 60) * draw(st.integers(0, 3)) % W.FREQ[spec["inf"]]
        spec["off"] -= spec["off"] % (dt // 60) if dt // 60 <= spec["off"] else 0
    spec["outf2"] = draw(st.sampled_from(list(W.FREQ)))
    total = spec["steps"] * dt // 60
    odd = [f for f, m in W.ODD.items() if m * 60 % dt == 0 and 2 * m <= total]
    if draw(st.integers(0, 5)) == 0:
        days_with_odd_intervals(draw, spec)
    elif odd and draw(st.integers(0, 3)) == 0:
        spec["outf"] = draw(st.sampled_from(odd))
    return spec


def days_with_odd_intervals(draw, spec):
    """A period across midnight with output every so many steps, where that does not divide the day."""
    spec["outf"] = draw(st.sampled_from(list(W.ODD)))
    f = W.ODD[spec["outf"]]
    dt = np.gcd(f, 1440).item()
    n = f // dt
    before, after = draw(st.integers(n + 1, 2 * n + 2)), draw(st.integers(n + 1, 2 * n + 2))
    day = draw(st.sampled_from(W.STARTS))[:10]
    spec["start"] = day + "T00:00"
    spec["inf"] = draw(st.sampled_from([i for i in ("1h", "3h", "12h", "1d") if W.FREQ[i] * 2 >= dt]))
    late = 1440 - before * dt % 1440
    spec["off"] = late if late < 1440 else 0
    spec.update(dt=60 * dt, steps=before + after, rest=0)
    spec["tag"] = [0, dt * spec["steps"]]


def origin(w, outs):
    """An output time that is not just that of the final step, if there is one."""
    steps = w.step_list()
    times = [o.time for o in outs.in_order(w.direction)]
    return next((t for _, _, t in steps[:-1] if any(same(t, x) for x in times)), None)


def covered(o):
    v = o.vars["time_bnds"]
    a = o.attrs["time_bnds"] if "units" in o.attrs["time_bnds"] else o.attrs["time"]
    t = cftime.num2date(
        v.ravel(), a["units"], a.get("calendar", o.attrs["time"].get("calendar")), only_use_cftime_datetimes=True
    )
    return sorted(t)


def check_schedule(env, w, outs):
    prefix = "forwardtrack" if w.direction == "forward" else "backtrack"
    plan = W.intervals(w)
    want = sorted(f"{prefix}_{t.strftime('%Y-%m-%dT%H-%M')}.nc" for t, _, _ in plan)
    have = sorted(os.path.basename(f) for f in glob.glob(outs.folder + "/*.nc"))
    if want != have:
        raise Violation(f"output files {have}, schedule says {want}")
    for t, since, _ in plan:
        o = outs.by_key[W.tkey(t)]
        if np.ravel(o.vars["time"]).size != 1 or not same(o.time, t):
            raise Violation(f"{o.name}: time coordinate {o.time}, expected {t}")
        b = covered(o)
        span = sorted((since, t))
        if len(b) != 2 or not all(same(x, y) for x, y in zip(b, span)):
            raise Violation(
                f"{o.name}: time bounds {[str(x) for x in b]}, the fields cover {[str(x) for x in span]}"
            )
    return plan


def same(a, b):
    return (a.year, a.month, a.day, a.hour, a.minute, a.second) == (b.year, b.month, b.day, b.hour, b.minute, b.second)


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    if w.outf in W.ODD:
        w.origin = origin(w, outs)
        steps, f = w.step_list(), W.ODD[w.outf] * 60
        sec = [t.hour * 3600 + t.minute * 60 + t.second for _, _, t in steps[:1]] + [86400, f]
        if w.origin is None and len(steps) > f // w.dt and all(x % w.dt == 0 for x in sec):
            raise Violation(f"no output every {w.outf} in {len(w.step_list())} steps of {w.dt} s")
        env.label("origin" if w.origin else "no-origin")
    plan = check_schedule(env, w, outs)
    env.label(f"outputs={min(len(plan), 5)}", f"outf={spec['outf']}")
    v = W.World(dict(spec, outf=spec["outf2"]))
    fine, coarse = sorted((w, v), key=lambda x: {**W.FREQ, **W.ODD}[x.outf])
    if w.outf not in W.ODD and W.FREQ[coarse.outf] % W.FREQ[fine.outf] == 0 and coarse.outf != fine.outf and plan:
        other = v.run(env, inputs=w.inputs)
        check_schedule(env, v, other)
        a, b = (outs, other) if fine is w else (other, outs)
        plan_f = W.intervals(fine)
        tol, scale = W.tolerance(w), W.scale_of(w)
        for t, since, _ in W.intervals(coarse):
            inside = [k for k, s, _ in plan_f if min(since, t) <= min(k, s) and max(k, s) <= max(since, t)]
            o = b.by_key[W.tkey(t)]
            for name in W.ACC[w.direction]:
                total = sum(a.by_key[W.tkey(k)].field(name) for k in inside)
                d = np.abs(total - o.field(name)).max()
                size = scale + np.abs(o.field(name)).max()
                if not d <= 2 * tol * size:
                    raise Violation(
                        f"{name} accumulated to {t} differs by {d:.6g} between output every {fine.outf} and every {coarse.outf}"
                    )
            for name in W.REST:
                d = np.abs(a.by_key[W.tkey(t)].field(name) - o.field(name)).max()
                if not d <= 2 * tol * scale:
                    raise Violation(f"{name} at {t} differs by {d:.6g} between output every {fine.outf} and {coarse.outf}")
        env.label("two-frequencies")
    f = {**W.FREQ, **W.ODD}[spec["outf"]] * 60
    env.nontrivial = len(plan) >= 2 or any(abs((t - s).total_seconds()) != f for t, s, _ in plan)
