"""Tracking works identically on every supported calendar."""

from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation
from wv.props.T09 import check_schedule

ID = "T10"
TECHNIQUE = "property-based testing: relabelling relation between calendars; calendar model for labels"
CASES = {"quick": 130, "thorough": 5000}
RULE = (
    "one case = one experiment whose data carry dates of a generated calendar, usually around month ends, and the same "
    "data under dates of another calendar; non-trivial when moisture is tagged and a run crosses a day boundary"
)
ASSUMPTIONS = ["years 1 to 9999"]
DATES = [
    "2021-02-28T12:00", "2020-02-28T18:00", "2020-02-29T06:00", "2100-02-28T12:00", "2000-02-28T18:00", "1900-02-28T20:00",
    "2021-12-31T18:00", "2021-01-30T18:00", "2021-07-30T12:00", "2021-02-27T21:00", "2021-10-30T22:00", "1999-12-30T12:00",
    "1985-03-01T00:00", "2021-03-01T06:00", "2400-02-28T18:00", "1600-02-29T00:00", "1601-03-01T03:00",
    "0850-12-31T12:00", "0012-02-28T18:00", "9999-06-30T18:00",
]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=12 if tier == "quick" else 40, max_span=6 * 1440, kinds=("bbox", "mask")))
    spec["dt"] = draw(st.sampled_from([3600, 7200, 10800, 21600]))
    spec["inf"] = draw(st.sampled_from(["1h", "3h", "6h", "12h", "1d"]))
    spec["outf"] = draw(st.sampled_from(["6h", "12h", "1d", "3h"]))
    spec["off"], spec["rest"] = 0, 0
    spec["cal"], spec["cal2"] = draw(st.sampled_from(W.CALENDARS)), draw(st.sampled_from(W.CALENDARS))
    one, two = draw(st.sampled_from(DATES)), draw(st.sampled_from(DATES))
    spec["start"], spec["start2"] = one, two[:10] + one[10:]
    total = spec["steps"] * spec["dt"] // 60
    a, b = draw(st.integers(-60, total)), draw(st.integers(0, total + 60))
    spec["tag"] = [min(a, b), max(a, b)] if draw(st.booleans()) else [0, total]
    if draw(st.integers(0, 4)) == 0:
        spec["region"] = W.dyn_region(draw, spec["grid"]["ny"], spec["grid"]["nx"], total)
    return spec


def exists(text, cal):
    """Use the nearest earlier day where a date does not exist."""
    while True:
        try:
            W.parse(text, cal)
            return text
        except ValueError:
            text = text[:8] + f"{int(text[8:10]) - 1:02d}" + text[10:]


def run(spec, env):
    spec = dict(spec, start=exists(spec["start"], spec["cal"]))
    w = W.World(spec)
    W.regime_labels(env, w)
    env.label(f"to-{spec['cal2']}")
    v = W.recalendar(w, spec["cal2"], exists(spec["start2"], spec["cal2"]))
    a, b = w.run(env), v.run(env)
    for x, outs in ((w, a), (v, b)):
        check_schedule(env, x, outs)
        for o in outs.files:
            cal = o.attrs["time"].get("calendar", "standard")
            if canon(cal) != canon(x.cal):
                raise Violation(f"{o.name}: calendar {cal}, configured {x.cal}")
    order_a, order_b = a.in_order(w.direction), b.in_order(w.direction)
    for o, p in zip(order_a, order_b, strict=True):
        W.compare(env, o, p, w.direction, W.scale_of(w), f"{w.cal} and {v.cal} runs differ", rtol=2 * W.tolerance(w))
    days = len({t.strftime("%Y-%m-%d") for t in w.times}) > 1
    env.nontrivial = days and W.tagged_anything(a, w.direction)


def canon(cal):
    return {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}.get(cal, cal)
