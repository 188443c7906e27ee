"""Inputs between data times are linearly interpolated."""

from hypothesis import strategies as st

from wv import world as W
from wv.props.T04 import deviations
from wv.ref import Ref
from wv.case import Violation

ID = "T11"
TECHNIQUE = "property-based testing: metamorphic refinement of the input series, reference model of the interpolated run"
CASES = {"quick": 90, "thorough": 5000}
RULE = (
    "one case = one experiment and a copy with 2 to 12 times as many records, linearly interpolated; non-trivial when "
    "moisture is tagged and some step uses a time between the original records"
)


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=10 if tier == "quick" else 24, kinds=("bbox", "mask")))
    spec["inf"] = draw(st.sampled_from(["1h", "2h", "3h", "6h", "12h", "1d", "30min"]))
    spec["dt"] = draw(st.sampled_from([600, 900, 1800, 3600, 1200, 450, 5400, 75, 7200]))
    spec["dt"] = min(spec["dt"], W.FREQ[spec["inf"]] * 60)
    spec["off"] = draw(st.sampled_from([0, 0, 5, 10, 20, 65])) % W.FREQ[spec["inf"]]
    total = spec["steps"] * spec["dt"] // 60
    spec["tag"] = [-60, total + 60]
    spec["F"]["varying"] = True
    if draw(st.booleans()):  # begin shortly before midnight
        spec["start"] = spec["start"][:11] + draw(st.sampled_from(["18:00", "22:00", "23:00", "12:00"]))
    n = W.FREQ[spec["inf"]]
    spec["m"] = draw(st.sampled_from([m for m in (2, 3, 4, 5, 6, 10, 12) if n % m == 0]))
    return spec


def run(spec, env):
    w = W.World(spec)
    if w.nrec < 2:  # one more record for the refinement
        spec = dict(spec, steps=spec["steps"] + 1)
        w = W.World(spec)
    W.regime_labels(env, w)
    v = W.refined(w, spec["m"], f"{w.inf // spec['m']}min")
    a, b = w.run(env), v.run(env)
    W.compare_all(env, b, a, w, f"refining the input {spec['m']} times changes the outputs", rtol=1e-5 + 2 * W.tolerance(w))
    # ... and at each step it is the value at that very time which is used
    ws = W.as_tracked(env, w)
    dev, where = min(deviations(a, Ref(ws, surface_quirk=q).run(), W.scale_of(ws)) for q in (False, True))
    if dev > W.tolerance(ws):
        raise Violation(f"deviates by {dev:.2g} from tracking with the inputs interpolated to the time of the step: {where}")
    between = any(
        (t - w.start).total_seconds() % (w.inf * 60) for s in w.step_list() for t in s
    )
    days = {t.strftime("%Y-%m-%d") for t in w.times}
    env.label(f"m={spec['m']}", f"files={len(days)}")
    env.nontrivial = between and W.tagged_anything(a, w.direction)
