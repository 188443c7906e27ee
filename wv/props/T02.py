"""Tracked moisture stays within physical bounds."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation
from wv.ref import at_time

ID = "T02"
TECHNIQUE = "property-based testing: bounds invariants over generated extreme experiments"
CASES = {"quick": 240, "thorough": 8000}
RULE = (
    "one case = one experiment, biased to unstable winds, saturation, calm cells and vanishing layers; non-trivial when "
    "moisture is tagged and some tracked storage reaches 90% of capacity, or something is clipped, or cells are calm"
)
ASSUMPTIONS = ["storages positive, precipitation and evaporation non-negative"]


@st.composite
def strategy(draw, tier):
    spec = W.variants(draw, draw(W.worlds(max_steps=12 if tier == "quick" else 30)))
    F = spec["F"]
    F["courant"] = draw(st.sampled_from([0.5, 3.0, 50.0, 1000.0, 0.05]))
    F["s_upper"] = draw(st.sampled_from([10.0, 0.5, 0.01]))
    F["s_lower"] = draw(st.sampled_from([15.0, 0.5, 0.01]))
    if draw(st.integers(0, 4)) == 0:
        spec["tag"] = draw(st.sampled_from([[-3000, -2000], [9000, 9999]]))  # nothing is ever tagged
    return spec


def interval_sum(w, steps, name):
    return sum(at_time(w, th, (name,))[name] * w.dt for _, th, _ in steps)


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    w = W.as_tracked(env, w)
    scale = W.scale_of(w)
    eps = 2e-6
    steps = w.step_list()
    expected = w.output_times()
    never = w.tag1 < w.track0 or w.tag0 > w.track1
    edge = np.ones((len(w.lat), len(w.lon)), bool)
    edge[1:-1, (slice(None) if w.periodic else slice(1, -1))] = False
    first, notable = 0, False
    tagged = 0.0
    for last, t in expected:
        o = outs.by_key.get(W.tkey(t))
        env.check(o is not None, f"no output for {t}")
        S = at_time(w, t, W.STATES)
        chunk = steps[first : last + 1]
        first = last + 1
        for name in W.fields_of(w.direction):
            f = o.field(name)
            if not np.isfinite(f).all():
                raise Violation(f"{o.name}: {name} is not finite in {int((~np.isfinite(f)).sum())} cells")
            if f.min() < 0:
                raise Violation(f"{o.name}: {name} is negative: {f.min():.6g}")
            if never and f.any():
                raise Violation(f"{o.name}: {name} up to {f.max():.6g} although nothing is tagged")
        for lev in ("upper", "lower"):
            s = o.field(f"s_track_{lev}_restart")
            over = (s - S["s_" + lev]).max()
            if over > eps * scale:
                raise Violation(f"{o.name}: tracked storage of the {lev} layer exceeds its storage by {over:.6g}")
            if s[edge].any():
                raise Violation(f"{o.name}: tracked storage of the {lev} layer is not zero on the domain edge")
            notable |= bool((s > 0.9 * S["s_" + lev]).any())
        if w.direction == "forward":
            pairs = [(o.field("p_track_upper") + o.field("p_track_lower"), "precip"), (o.field("tagged_evap"), "evap")]
        else:
            pairs = [(o.field("e_track"), "evap"), (o.field("tagged_precip"), "precip")]
        for got, name in pairs:
            total = interval_sum(w, chunk, name)
            over = (got - total).max()
            if over > 3e-6 * max(total.max(), 1e-12):
                raise Violation(f"{o.name}: more moisture attributed than {name} in the interval, by {over:.6g} kg m-2")
        tagged += o.field(W.tagged_name(w.direction)).sum()
        notable |= bool(o.field("gains").any() or o.field("losses")[~edge].any())
    calm = spec["F"]["zero_frac"] > 0 or "calm" in (spec["F"]["wind_upper"], spec["F"]["wind_lower"])
    env.label("never-tagged" if never else "tagged", "clipped-or-saturated" if notable else "unclipped")
    env.nontrivial = bool((tagged > 0 and (notable or calm)) or never)
