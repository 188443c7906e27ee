"""Generated configurations: JSON spec -> settings, with an independent model of what is valid."""

import datetime as dtm
import json
import os

import netCDF4
from hypothesis import strategies as st

from wv import world as W

PERIODS = ("preprocess", "tracking", "tagging")
DATES = tuple(f"{p}_{e}_date" for p in PERIODS for e in ("start", "end"))
LEAP_RULE = {
    "julian": lambda y: y % 4 == 0,
    "all_leap": lambda y: True,
    "366_day": lambda y: True,
    "noleap": lambda y: False,
    "365_day": lambda y: False,
}
MONTH = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def days_in_month(cal, y, m):
    """Independent calendar arithmetic (no cftime)."""
    if cal == "360_day":
        return 30
    leap = LEAP_RULE.get(cal)
    if leap is None:
        if cal in ("standard", "gregorian") and y < 1582:
            is_leap = y % 4 == 0
        else:
            is_leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    else:
        is_leap = leap(y)
    return MONTH[m - 1] + (1 if m == 2 and is_leap else 0)


def exists(cal, y, mo, d, h=0, mi=0, s=0):
    if not (1 <= mo <= 12 and 1 <= d <= days_in_month(cal, y, mo) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60):
        return False
    if cal in ("standard", "gregorian") and (1582, 10, 5) <= (y, mo, d) <= (1582, 10, 14):
        return False
    return True


def text(d, seconds=None):
    y, mo, da, h, mi, s = d
    base = f"{y:04d}-{mo:02d}-{da:02d}T{h:02d}:{mi:02d}"
    return base + (f":{s:02d}" if (s or seconds) else "")


def parts(t):
    return [t.year, t.month, t.day, t.hour, t.minute, t.second]


@st.composite
def dates(draw, cal, years=(1, 9999)):
    y = draw(st.one_of(st.sampled_from([2021, 2020, 1900, 2000, 1582, 1979, 2100]), st.integers(*years)))
    mo = draw(st.one_of(st.sampled_from([7, 2, 12, 1, 10]), st.integers(1, 12)))
    n = days_in_month(cal, y, mo)
    d = draw(st.one_of(st.integers(1, n), st.sampled_from([1, n, min(29, n)])))
    if not exists(cal, y, mo, d):
        d = 20
    h = draw(st.one_of(st.sampled_from([0, 23, 12]), st.integers(0, 23)))
    mi = draw(st.one_of(st.sampled_from([0, 59, 30]), st.integers(0, 59)))
    s = draw(st.sampled_from([0, 0, 0, 1, 30, 59]))
    return [y, mo, d, h, mi, s]


def box_ok(b):
    return (
        len(b) == 4
        and all(isinstance(x, (int, float)) for x in b)
        and -180 <= b[0] <= 180
        and -180 <= b[2] <= 180
        and -80 <= b[1] <= 80
        and -80 <= b[3] <= 80
        and b[1] < b[3]
    )


coordinate = st.one_of(
    st.integers(-179, 179), st.floats(-179.9, 179.9, allow_nan=False).map(lambda x: round(x, 3)),
    st.sampled_from([-180, 180, 0, 0.1]),
)


@st.composite
def good_box(draw):
    w, e = draw(coordinate), draw(coordinate)
    s = draw(st.one_of(st.sampled_from([-80, 0, -33.25]), st.floats(-80, 79).map(lambda x: round(x, 3))))
    n = draw(st.one_of(st.just(80), st.floats(s + 0.01, 80).map(lambda x: round(x, 3))))
    if not s < n <= 80:
        n = 80
    return [w, s, e, n]


PATHPART = st.sampled_from(
    ["data", "Ünïcode-名", "with space", "a:b", "#hash", "quote'd", 'double"q', "~tilde", "%20", "null", "1e5", "x{y}", "rain🌧"]
)


@st.composite
def settings(draw, plain=False):
    """A valid configuration. Locations start with ROOT, replaced when the case runs."""
    cal = draw(st.sampled_from(W.CALENDARS))
    c = {}
    has_cal = draw(st.integers(0, 4)) > 0
    if not has_cal:
        cal = "standard"
    for p in PERIODS:
        a, b = draw(dates(cal)), draw(dates(cal))
        if draw(st.integers(0, 9)) == 9:
            b = a
        a, b = sorted([a, b])
        c[f"{p}_start_date"], c[f"{p}_end_date"] = (text(x, draw(st.booleans())) for x in (a, b))
    if has_cal:
        c["calendar"] = cal
    c["filename_template"] = draw(
        st.sampled_from(
            ["ROOT/raw/{year}/{month:02}/ERA5_{year}-{month:02d}-{day:02d}{levtype}_{variable}.nc", "~", "123", "{variable}_*.nc", ""]
        )
    )
    parts_ = lambda: "/".join(draw(st.lists(PATHPART, min_size=1, max_size=2)))
    c["preprocessed_data_folder"] = draw(
        st.one_of(
            st.builds(lambda: "ROOT/p/" + parts_()),
            st.sampled_from(
                ["https://example.org", "http://example.org:8080/a%20b/c?x=1&y=2#z", "https://user:pw@host.example/d/",
                 "http://127.0.0.1/dodsC/p"]
            ),
        )
    )
    c["output_folder"] = "ROOT/o/" + parts_()
    c["tracking_direction"] = draw(st.sampled_from(["forward", "backward"]))
    c["tagging_region"] = draw(
        st.one_of(good_box(), st.sampled_from(["ROOT/region.nc", "ROOT/région 1.nc", "ROOT/shape.shp"]))
    )
    if draw(st.booleans()):
        c["tracking_domain"] = draw(st.one_of(good_box(), st.none()))
    freq = st.sampled_from(["1h", "3h", "1H", "6h", "1d", "1D", "30min", "90T", "h", "3600s", "12h"])
    c["input_frequency"], c["output_frequency"] = draw(freq), draw(freq)
    c["timestep"] = draw(st.sampled_from([600, 1800, 3600, 1, 10800]))
    c["level_type"] = draw(st.sampled_from(["model_levels", "pressure_levels"]))
    c["levels"] = draw(
        st.one_of(st.lists(st.integers(1, 137), min_size=1, max_size=6), st.just("All"), st.just("all"), st.just(list(range(1, 138))))
    )
    c["restart"] = draw(st.booleans())
    c["periodic_boundary"] = draw(st.booleans())
    c["kvf"] = draw(st.one_of(st.sampled_from([3, 3.0, 0, 1e-7, 1e22, 0.1]), st.floats(0, 1e3)))
    if draw(st.booleans()):
        c["parallel_preprocess"] = draw(st.booleans())
    if draw(st.booleans()):
        c["parallel_processes"] = draw(st.one_of(st.none(), st.integers(1, 64)))
    if draw(st.booleans()):
        c["level_layer_boundary"] = draw(st.integers(1, 137))
        c["pressure_boundary_factor"] = draw(st.floats(0, 1))
        c["pressure_boundary_offset"] = draw(st.floats(-1e4, 1e5))
    return c


REGION_FILES = ("region.nc", "région 1.nc", "shape.shp")


def place(root, c):
    """Fill in the case's folder and create the region files."""
    for name in REGION_FILES:
        path = os.path.join(root, name)
        if name.endswith(".nc"):
            with netCDF4.Dataset(path, "w") as nc:
                nc.createDimension("x", 1)
        else:
            W.write_shapefile(path, [[[0, 0], [0, 10], [10, 10], [0, 0]]])
    return json.loads(json.dumps(c).replace("ROOT/", json.dumps(root + "/")[1:-1]))


def calendar_of(c):
    return c.get("calendar", "standard")


def date_parts(s):
    m = W.dtm_re.match(s)
    g = [int(x or 0) for x in m.groups()]
    return g
