"""Old and new frequency spellings."""

import pandas as pd
from hypothesis import strategies as st

from wv import case, conf, raw
from wv import world as W
from wv.case import Violation

ID = "C04"
TECHNIQUE = "property-based testing: duration model of spellings; differential runs of old against modern spellings"
CASES = {"quick": 260, "thorough": 8000}
RULE = (
    "one case = either a batch of generated spellings (function, loading, assignment) or a tracking or preprocessing run "
    "with one spelling against the same run with another spelling of that duration; non-trivial when a deprecated spelling "
    "takes part"
)

NS = {"D": 86400 * 10**9, "h": 3600 * 10**9, "min": 60 * 10**9, "s": 10**9, "ms": 10**6, "us": 1000, "ns": 1}
OLD = {"D": "D", "H": "h", "T": "min", "S": "s", "L": "ms", "U": "us", "N": "ns", "BH": "bh", "CBH": "cbh"}
FINE = ["min", "ms", "us", "ns", "h", "s", "D", "MS", "ME", "QS", "QE", "YS", "W", "W-MON", "SMS", "bh", "cbh", "B", "C", "YS-JAN", "QS-DEC"]


def cases_of(name, n):
    return "".join(c.upper() if n >> i & 1 else c.lower() for i, c in enumerate(name))


spelling = st.tuples(
    st.sampled_from(sorted(OLD)), st.integers(0, 7), st.one_of(st.just(""), st.integers(1, 100000).map(str), st.sampled_from(["01", "06", "0012"]))
).map(lambda p: [p[2], cases_of(p[0], p[1]), OLD[p[0]]])
fine = st.tuples(st.sampled_from(FINE), st.one_of(st.just(""), st.integers(1, 100000).map(str))).map(lambda p: [p[1], p[0], p[0]])


def spelled(minutes, unit, old, n):
    """minutes in a unit; old spelling if asked for."""
    ns = minutes * 60 * 10**9
    m = ns // NS[unit]
    if ns % NS[unit]:
        return None
    name = unit
    if old:
        name = cases_of([k for k, v in OLD.items() if v == unit][0], n)
    return f"{m}{name}" if m != 1 or n % 3 else name


@st.composite
def strategy(draw, tier):
    kind = draw(st.sampled_from(["text"] * 3 + ["track", "preprocess"]))
    if kind == "text":
        return {
            "kind": kind, "words": draw(st.lists(st.one_of(spelling, spelling, fine), min_size=1, max_size=12)),
            "c": draw(conf.settings()), "field": draw(st.sampled_from(["input_frequency", "output_frequency"])),
        }
    units = ["D", "h", "min", "s", "ms", "us"]
    use = [draw(st.sampled_from(units)) for _ in range(4)]
    spec = {"kind": kind, "units": use, "case": [draw(st.integers(0, 7)) for _ in range(4)], "same": draw(st.booleans())}
    if kind == "track":
        spec["w"] = draw(W.worlds(max_steps=6, max_span=1440, full_tag=True))
    else:
        spec["at"] = draw(raw.atmospheres(draw(st.sampled_from(["ml", "pl"])), freqs=("6h", "1h", "3h", "1d"), nt=(1, 4)))
        spec["at"]["grid"].update(ny=2, nx=2)
        spec["at"]["levels"] = spec["at"]["levels"][:3] or [100]
    return spec


def words(spec, env):
    from wam2layers.config import Config
    from wam2layers.utils.calendar import fix_deprecated_frequency as fix

    d = env.dir()
    conf.place(d, {})
    for m, name, modern in spec["words"]:
        text, want = m + name, m + modern
        have = fix(text)
        if have != want:
            raise Violation(f"{text!r} becomes {have!r} instead of {want!r}")
        if fix(have) != have:
            raise Violation(f"normalising {text!r} twice gives {fix(have)!r}, once {have!r}")
        if modern in NS and m:
            got = pd.Timedelta(have).value
            if got != int(m) * NS[modern]:
                raise Violation(f"{text!r} becomes {have!r}, which is {got} ns instead of {int(m) * NS[modern]}")
        env.nontrivial |= name != modern
        env.label(name)
    # loading and assignment
    text, want = spec["words"][-1][0] + spec["words"][-1][1], spec["words"][-1][0] + spec["words"][-1][2]
    c = conf.place(d, spec["c"])
    c[spec["field"]] = text
    cfg = case.write_json(d + "/config.yaml", c)
    with case.chdir(d):
        config = Config.from_yaml(cfg)
        if getattr(config, spec["field"]) != want:
            raise Violation(f"{spec['field']}: {text} is loaded as {getattr(config, spec['field'])!r}")
        first = spec["words"][0]
        setattr(config, spec["field"], first[0] + first[1])
        if getattr(config, spec["field"]) != first[0] + first[2]:
            raise Violation(f"{spec['field']} = {first[0] + first[1]!r} is stored as {getattr(config, spec['field'])!r}")
        config.to_file(d + "/again.yaml")
        again = getattr(Config.from_yaml(d + "/again.yaml"), spec["field"])
        if again != first[0] + first[2]:
            raise Violation(f"{spec['field']} {first[0] + first[2]!r} is written and read back as {again!r}")


def pairs(spec, minutes, at):
    """(old spelling, modern spelling) of one duration; in the same unit or in two units."""
    u, v = spec["units"][at], spec["units"][at + 1]
    n = spec["case"][at]
    if spec["same"] or "ms" in (u, v) or "us" in (u, v):  # fractions of seconds may not be supported, in any spelling
        v = u
    old = spelled(minutes, u, True, n)
    new = spelled(minutes, v, False, n if spec["same"] else 1)
    if old is None:
        old = spelled(minutes, "min", True, n)
        new = spelled(minutes, "min", False, n) if spec["same"] else new
    return old, new or spelled(minutes, "s", False, 1)


def outcome(r):
    return "succeeds" if r.code == 0 and r.exc is None else f"fails ({r.describe()[:200]})"


def files(folder):
    import glob
    import os

    import netCDF4
    import numpy as np

    res = {}
    for path in sorted(glob.glob(folder + "/*.nc")):
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            for name, v in nc.variables.items():
                if v.dtype is not str:
                    a = np.array(v[...])
                    res[os.path.basename(path), name] = (str(a.dtype), a.shape, a.tobytes())
    return res


def differential(env, runs, what):
    """runs: list of (spelling, function giving (result, folder))."""
    got = []
    for name, fn in runs:
        r, folder = fn()
        got.append((name, outcome(r), files(folder)))
    (a, ra, fa), (b, rb, fb) = got
    if ra.split()[0] != rb.split()[0]:
        raise Violation(f"{what} with frequencies {a} {ra}, with {b} {rb}")
    if ra != "succeeds":
        env.label("both fail")
        return
    if sorted(fa) != sorted(fb):
        raise Violation(f"{what}: files and variables with {a} and {b} differ: {sorted(set(fa) ^ set(fb))[:5]}")
    for k in fa:
        if fa[k] != fb[k]:
            raise Violation(f"{what}: {k[1]} in {k[0]} with frequencies {a} is not what {b} gives")
    env.nontrivial = True


def run(spec, env):
    if spec["kind"] == "text":
        return words(spec, env)
    if spec["kind"] == "track":
        w = W.World(spec["w"]).prepare(env)
        i = pairs(spec, w.inf, 0)
        o = pairs(spec, W.FREQ[w.outf], 2)
        runs = []
        for k in (0, 1):

            def go(k=k):
                out = env.dir("out")
                c = w.config(w.inputs, out, w.region_cfg, input_frequency=i[k], output_frequency=o[k])
                return case.cli(["track", case.write_json(w.cfgfile, c)], w.dir_), out

            runs.append(((i[k], o[k]), go))
        env.label("track", i[0].lstrip("0123456789"), o[0].lstrip("0123456789"))
        return differential(env, runs, "track")
    at = raw.Atmos(spec["at"])
    f = pairs(spec, at.m, 0)
    runs = []
    for k in (0, 1):

        def go(k=k):
            r, d = raw.run_source(env, at, "era5", {"split": "one", "ztype": "f8"}, input_frequency=f[k])
            return r, d + "/pre"

        runs.append((f[k], go))
    env.label("preprocess", f[0].lstrip("0123456789"))
    differential(env, runs, "preprocess era5")
