"""Dates in every calendar."""

import datetime as dtm
import json

from hypothesis import strategies as st

from wv import case, conf
from wv import world as W
from wv.case import Violation

ID = "C03"
TECHNIQUE = "property-based testing: independent calendar arithmetic, read/write round trip, rounding model"
CASES = {"quick": 400, "thorough": 10000}
RULE = (
    "one case = 40 generated texts in one calendar, existing or not, read and written as configuration dates, and 40 "
    "roundings of existing dates; non-trivial when it holds both existing and non-existing dates"
)
DAYFREQ = [("1min", 1), ("10min", 10), ("15min", 15), ("30min", 30), ("1h", 60), ("90min", 90), ("2h", 120), ("3h", 180),
           ("4h", 240), ("6h", 360), ("8h", 480), ("12h", 720), ("1D", 1440), ("h", 60), ("D", 1440), ("5min", 5), ("20min", 20)]
LONGFREQ = [("5h", 300), ("7h", 420), ("36h", 2160), ("2D", 2880), ("5D", 7200)]


@st.composite
def strategy(draw, tier):
    cal = draw(st.sampled_from(W.CALENDARS))
    good = [draw(conf.dates(cal)) for _ in range(20)]
    odd = []
    for _ in range(20):
        y = draw(st.sampled_from([2021, 2020, 1900, 2000, 1582, 2100, 4, 1500, 9999]))
        odd.append(
            [
                y, draw(st.sampled_from([2, 2, 10, 12, 4, 13, 0, 1])), draw(st.sampled_from([29, 30, 31, 28, 10, 32, 0])),
                draw(st.sampled_from([0, 0, 23, 24])), draw(st.sampled_from([0, 59, 60])), draw(st.sampled_from([0, 0, 59])),
            ]
        )
    return {
        "cal": cal,
        "dates": good + odd,
        "freqs": [draw(st.sampled_from(DAYFREQ + LONGFREQ)) for _ in range(10)],
    }


def minutes_into_year(cal, d):
    return sum(conf.days_in_month(cal, d[0], m) for m in range(1, d[1])) + d[2] - 1


def shift_days(cal, d, n):
    """Move a date by n (0 or 1) days."""
    y, mo, da = d[:3]
    if n:
        da += 1
        if cal in ("standard", "gregorian") and (y, mo, da) == (1582, 10, 5):
            da = 15
        if da > conf.days_in_month(cal, y, mo):
            mo, da = mo + 1, 1
            if mo > 12:
                y, mo = y + 1, 1
    return [y, mo, da]


def rounded(cal, d, m, how):
    """Multiple of m minutes (m divides a day), from the date's parts alone. None: undefined tie."""
    sec = d[3] * 3600 + d[4] * 60 + d[5]
    f = m * 60
    q, r = divmod(sec, f)
    if r == 0:
        k = q
    elif how == "floor":
        k = q
    elif how == "ceil":
        k = q + 1
    else:
        if 2 * r == f:
            return None
        k = q + (2 * r > f)
    day, rest = divmod(k * f, 86400)
    return shift_days(cal, d, day) + [rest // 3600, rest % 3600 // 60, rest % 60]


def base_config(d, cal, when):
    c = {n: when for n in conf.DATES}
    c.update(
        calendar=cal, filename_template="x", preprocessed_data_folder=d + "/p", output_folder=d + "/o",
        tracking_direction="backward", tagging_region=[0, 0, 1, 1], input_frequency="1h", output_frequency="1h",
        timestep=600, level_type="model_levels", levels=[1], restart=False, periodic_boundary=False, kvf=3,
    )
    return c


def run(spec, env):
    from wam2layers.config import Config
    from wam2layers.utils import calendar as C

    cal = spec["cal"]
    folder = env.dir()
    n_ok = n_bad = 0
    series = {}
    env.label(cal)
    for i, d in enumerate(spec["dates"]):
        t = conf.text(d, seconds=i % 2)
        ok = conf.exists(cal, *d)
        n_ok, n_bad = n_ok + ok, n_bad + (not ok)
        try:
            got = Config(**base_config(folder, cal, t))
        except Exception as e:
            if ok:
                raise Violation(f"{t} exists in calendar {cal} but is rejected: {e}")
            continue
        if not ok:
            raise Violation(f"{t} does not exist in calendar {cal} but is read as {got.tracking_start_date}")
        have = got.tracking_start_date
        if conf.parts(have) != d or have.microsecond:
            raise Violation(f"{t} in calendar {cal} is read as {have.isoformat()}")
        written = json.loads(got.to_string())
        for name in conf.DATES:
            if written[name] != conf.text(d, True):
                raise Violation(f"{t} in calendar {cal} is written as {written[name]} ({name})")
        for freq, m in spec["freqs"]:
            for how in ("floor", "ceil", "nearest"):
                if d[0] >= 9999 or d[0] < 2:
                    continue
                r = C.round_cftime(have, freq, how)
                if r.calendar != have.calendar:
                    raise Violation(f"rounding {t} ({cal}) gives a date on calendar {r.calendar}")
                if 1440 % m == 0:
                    want = rounded(cal, d, m, how)
                    if want is not None and (conf.parts(r) != want or r.microsecond):
                        raise Violation(f"{t} ({cal}) rounded {how} to {freq} is {r.isoformat()}, not {conf.text(want, True)}")
                delta = (r - have).total_seconds()
                f = m * 60
                lo, hi = {"floor": (-f, 0), "ceil": (0, f), "nearest": (-f / 2, f / 2)}[how]
                if not (lo <= delta <= hi and abs(delta) < f):
                    raise Violation(f"{t} ({cal}) rounded {how} to {freq} moves by {delta} s")
                # whatever the direction and the date, it is a multiple of one and the same series
                first = series.setdefault(freq, r)
                if (r - first).total_seconds() % f:
                    raise Violation(f"{t} ({cal}) rounded {how} to {freq} is {r.isoformat()}, which is no multiple if {first.isoformat()} is one")
                if C.round_cftime(r, freq, how) != r:
                    raise Violation(f"{t} ({cal}) rounded {how} to {freq} is not a multiple: rounds again to another date")
    env.nontrivial = n_ok > 0 and n_bad > 0
