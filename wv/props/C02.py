"""Which settings are accepted."""

import os

from hypothesis import strategies as st

from wv import case, conf
from wv import world as W
from wv.case import Violation

ID = "C02"
TECHNIQUE = "property-based testing against an independent acceptance model (load and assignment)"
CASES = {"quick": 900, "thorough": 25000}
RULE = (
    "one case = a valid configuration, loaded after a generated change to some settings and, separately, changed after "
    "loading; accepted exactly when the model says so; non-trivial when the change matters to the model"
)
ASSUMPTIONS = [
    "dates assigned after loading are date objects of the configuration's calendar (texts are only converted on load)"
]

ENUMS = {
    "tracking_direction": ["forward", "backward"],
    "level_type": ["model_levels", "pressure_levels"],
    "calendar": list(W.CALENDARS),
}
WRONG = ["", "Forward", "both", "model_level", "pressure", "levels", "360", "gregorian ", "STANDARD", "none", None, 7]
number = st.one_of(
    st.sampled_from([-180, 180, -80, 80, 0, -180.0001, 180.0001, -80.0001, 80.0001, 181, 359, 81, 90, -90, -181]),
    st.floats(-400, 400, allow_nan=False).map(lambda x: round(x, 4)),
)


@st.composite
def some_box(draw):
    """Mostly one thing wrong."""
    b = draw(conf.good_box())
    kind = draw(st.sampled_from(["edge", "edge", "flip", "same", "any", "fine", "length", "wrap"]))
    if kind == "edge":
        b[draw(st.integers(0, 3))] = draw(number)
    elif kind == "flip":
        b[1], b[3] = b[3], b[1]
    elif kind == "same":
        b[1] = b[3]
    elif kind == "any":
        b = [draw(number) for _ in range(4)]
    elif kind == "length":
        b = b[: draw(st.integers(0, 3))] if draw(st.booleans()) else b + [0]
    elif kind == "wrap":
        b[0], b[2] = max(b[0], b[2]), min(b[0], b[2])
    return b


def bad_day(draw, cal):
    """A date that may or may not exist."""
    y = draw(st.sampled_from([2021, 2020, 1900, 2000, 1582, 2100]))
    mo = draw(st.sampled_from([2, 4, 10, 12, 13, 0]))
    d = draw(st.sampled_from([28, 29, 30, 31, 32, 5, 14, 0]))
    h = draw(st.sampled_from([0, 23, 24]))
    return [y, mo, d, h, draw(st.sampled_from([0, 59, 60])) if h == 0 else 0, 0]


@st.composite
def strategy(draw, tier):
    c = draw(conf.settings())
    cal = conf.calendar_of(c)
    kind = draw(st.sampled_from(["order", "box", "domain", "date", "enum", "region", "levels", "none", "two", "format"]))
    changes = {}
    kinds = [kind] if kind != "two" else ["box", draw(st.sampled_from(["order", "domain", "enum"]))]
    for k in kinds:
        if k == "order":
            p = draw(st.sampled_from(conf.PERIODS))
            which = draw(st.sampled_from(["start", "end"]))
            other = c[f"{p}_{'end' if which == 'start' else 'start'}_date"]
            how = draw(st.sampled_from(["near", "any", "equal"]))
            if how == "equal":
                new = other
            elif how == "any":
                new = conf.text(draw(conf.dates(cal)))
            else:
                g = conf.date_parts(other)
                i = draw(st.sampled_from([5, 4, 3, 2, 1, 0]))
                g[i] = g[i] + draw(st.sampled_from([1, -1]))
                new = conf.text(g) if conf.exists(cal, *g) and 1 <= g[0] <= 9999 else other
            changes[f"{p}_{which}_date"] = new
        elif k == "box":
            changes["tagging_region"] = draw(some_box())
        elif k == "domain":
            changes["tracking_domain"] = draw(st.one_of(some_box(), st.none()))
        elif k == "date":
            changes[draw(st.sampled_from(conf.DATES))] = conf.text(bad_day(draw, cal))
        elif k == "format":
            changes[draw(st.sampled_from(conf.DATES))] = draw(
                st.sampled_from(["2021-07-01", "20210701T00:00", "", "yesterday", "2021-07-01T", "01-07-2021T00:00", "2021/07/01T00:00"])
            )
        elif k == "enum":
            name = draw(st.sampled_from(sorted(ENUMS)))
            changes[name] = draw(st.one_of(st.sampled_from(WRONG), st.sampled_from(ENUMS[name])))
        elif k == "levels":
            changes["levels"] = draw(st.sampled_from(["none", "some", "ALL!", [1, 2], "All", "all", [3, "x"], None, 5.5]))
        elif k == "region":
            changes["tagging_region"] = draw(
                st.sampled_from(["ROOT/region.nc", "ROOT/missing.nc", "ROOT/sub", "ROOT/shape.shp", "ROOT/shape.dbf.nc", "region.nc", "nowhere/region.nc", "./shape.shp"])
            )
    return {"c": c, "changes": changes, "kind": kind}


def region_ok(r, d):
    if isinstance(r, list):
        return conf.box_ok(r)
    return os.path.isfile(os.path.join(d, r))


def accepts(c, d):
    """Names of the rules that a configuration breaks (empty: accepted)."""
    broken = []
    cal = c.get("calendar", "standard")
    for name, allowed in ENUMS.items():
        if name in c and c[name] not in allowed:
            broken.append(name)
    if "calendar" in broken:
        return broken
    got = {}
    for n in conf.DATES:
        m = W.dtm_re.match(c[n])
        g = [int(x or 0) for x in m.groups()] if m else None
        if not m or not conf.exists(cal, *g):
            broken.append(n)
        else:
            got[n] = g
    for p in conf.PERIODS:
        a, b = got.get(f"{p}_start_date"), got.get(f"{p}_end_date")
        if a and b and a > b:
            broken.append(f"{p} order")
    if not region_ok(c["tagging_region"], d):
        broken.append("region")
    if c.get("tracking_domain") is not None and not conf.box_ok(c["tracking_domain"]):
        broken.append("domain")
    lv = c["levels"]
    if not (lv in ("All", "all") or (isinstance(lv, list) and all(isinstance(x, int) for x in lv))):
        broken.append("levels")
    return broken


def run(spec, env):
    from wam2layers.config import Config
    from wam2layers.utils.calendar import cftime_from_iso

    d = env.dir()
    os.makedirs(d + "/sub")
    base = conf.place(d, spec["c"])
    changes = conf.place(d, spec["changes"])
    new = {**base, **changes}
    cal = conf.calendar_of(base)
    # a new calendar can make existing dates invalid; the model covers that
    broken = accepts(new, d)
    env.label(spec["kind"], "rejected" if broken else "accepted", *(b for b in broken))
    env.nontrivial = bool(changes)
    with case.chdir(d):
        path = case.write_json("config.yaml", new)
        try:
            cfg, err = Config.from_yaml(path), None
        except Exception as e:
            cfg, err = None, e
        if broken and cfg is not None:
            raise Violation(f"loading accepts a configuration with wrong {broken}: {changes}")
        if not broken and cfg is None:
            raise Violation(f"loading rejects valid settings {changes}: {type(err).__name__} {str(err)[:300]}")
        if not changes:
            return
        # the same change after loading
        cfg = Config(**dict(base))
        if "calendar" in changes and changes["calendar"] in ENUMS["calendar"]:
            return  # dates stay on the old calendar; nothing is specified
        current = dict(base)
        for name, value in changes.items():
            current[name] = value
            broken = accepts(current, d)
            v = value
            if name in conf.DATES:
                if name in broken:
                    v = value  # not a date: assign the text
                else:
                    v = cftime_from_iso(value, cal)
            try:
                setattr(cfg, name, v)
                err = None
            except Exception as e:
                err = e
            if broken and err is None:
                raise Violation(f"assigning {name} = {value!r} is accepted although {broken} is wrong")
            if not broken and err is not None:
                raise Violation(f"assigning the valid {name} = {value!r} is rejected: {str(err)[:300]}")
            if broken:
                break
            env.label("assigned")
