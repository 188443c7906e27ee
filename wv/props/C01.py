"""Writing a configuration and reading it back."""

import json
import os

import yaml
from hypothesis import strategies as st

from wv import case, conf
from wv.case import Violation

ID = "C01"
TECHNIQUE = "property-based testing: write/read round trip and a model of every setting's value"
CASES = {"quick": 500, "thorough": 12000}
RULE = (
    "one case = one generated configuration written, read, written and read again, as a file, as text and as keyword "
    "arguments; non-trivial when it has an unusual calendar, region file, domain, seconds, URL or optional setting"
)
ASSUMPTIONS = ["UTF-8 locale"]
DEFAULTS = {
    "calendar": "standard", "tracking_domain": None, "parallel_preprocess": False, "parallel_processes": None,
    "level_layer_boundary": 111, "pressure_boundary_factor": 0.72878581, "pressure_boundary_offset": 7438.803223,
}


@st.composite
def strategy(draw, tier):
    return {
        "c": draw(conf.settings()),
        "style": draw(st.sampled_from(["json", "yaml", "flow"])),
        "order": draw(st.randoms(use_true_random=False)).random(),
        "change": draw(st.sampled_from([None, "kvf", "domain", "dates", "output", "levels"])),
    }


def snapshot(cfg):
    """Every setting as plain data, dates with their calendar."""
    res = {}
    for name in type(cfg).model_fields:
        v = getattr(cfg, name)
        if hasattr(v, "calendar"):
            v = [v.calendar, *conf.parts(v), v.microsecond, type(v).__name__]
        elif isinstance(v, tuple):
            v = list(v)
        elif not isinstance(v, (int, float, bool, str, list, type(None))):
            v = [type(v).__name__, str(v)]
        res[name] = v
    return res


ALIAS = {"gregorian": "standard", "365_day": "noleap", "366_day": "all_leap"}


def expected(c, root):
    exp = dict(DEFAULTS)
    exp.update(c)
    return exp


def run(spec, env):
    from wam2layers.config import Config

    d = env.dir()
    c = conf.place(d, spec["c"])
    first = os.path.join(d, "first.yaml")
    with open(first, "w", encoding="utf-8") as f:
        if spec["style"] == "json":
            json.dump(c, f, ensure_ascii=False)
        else:
            yaml.safe_dump(c, f, allow_unicode=True, default_flow_style=spec["style"] == "flow", sort_keys=spec["order"] < 0.5)
    with case.chdir(d):
        a = Config.from_yaml(first)
        model(env, c, a)
        if spec["change"]:
            change(spec["change"], a, c)
            model(env, c, a)
        before = snapshot(a)
        second, third = os.path.join(d, "second.yaml"), os.path.join(d, "third.yaml")
        a.to_file(second)
        env.check(snapshot(a) == before, "writing the configuration changed it")
        b = Config.from_yaml(second)
        b.to_file(third)
        diff(env, snapshot(a), snapshot(b), "the configuration read back")
        env.check(a == b, "the configuration read back does not compare equal")
        t2, t3 = (open(p, encoding="utf-8").read() for p in (second, third))
        env.check(t2 == t3, "writing the re-read configuration gives other text:\n{}\n{}", t2, t3)
        env.check(a.to_string() == t2, "the text and the file differ")
        e = Config(**yaml.safe_load(a.to_string()))
        diff(env, snapshot(a), snapshot(e), "the configuration made from its text")
    interesting = [
        conf.calendar_of(c) not in ("standard",),
        isinstance(c["tagging_region"], str),
        c.get("tracking_domain") is not None,
        c["preprocessed_data_folder"].startswith("http"),
        any(conf.date_parts(c[n])[5] for n in conf.DATES),
        "level_layer_boundary" in c,
    ]
    names = ("calendar", "region-file", "domain", "url", "seconds", "optional")
    env.label(spec["style"], *(n for n, x in zip(names, interesting) if x))
    env.nontrivial = any(interesting)


def change(what, cfg, c):
    """Settings changed after loading are written too."""
    if what == "kvf":
        cfg.kvf = c["kvf"] = 2.25
    elif what == "domain":
        cfg.tracking_domain = c["tracking_domain"] = [170, -10, -170.5, 20.25]
    elif what == "output":
        c["output_folder"] = c["output_folder"] + "-other"
        cfg.output_folder = c["output_folder"]
    elif what == "levels":
        cfg.levels = c["levels"] = [1, 5, 137]
    else:
        cfg.tagging_start_date = cfg.tagging_end_date
        c["tagging_start_date"] = c["tagging_end_date"]


def diff(env, a, b, what):
    for k in a:
        if a[k] != b[k]:
            raise Violation(f"{what} has {k} = {b[k]!r} instead of {a[k]!r}")


def model(env, c, cfg):
    """The object holds what the file says."""
    cal = conf.calendar_of(c)
    for name, want in expected(c, None).items():
        have = getattr(cfg, name)
        if name in conf.DATES:
            want, have = conf.date_parts(want), conf.parts(have) + [have.microsecond]
            want = want + [0]
            env.check(
                ALIAS.get(getattr(cfg, name).calendar, getattr(cfg, name).calendar) == ALIAS.get(cal, cal),
                "{} is on calendar {}", name, getattr(cfg, name).calendar,
            )
        elif name in ("input_frequency", "output_frequency"):
            continue  # spelling: C04
        elif name.endswith("folder"):
            want, have = str(want), str(have)
            if want.startswith("http"):
                want, have = want.rstrip("/"), have.rstrip("/")
        elif isinstance(have, tuple):
            have, want = list(have), [float(x) for x in want]
        elif name == "tagging_region":
            want, have = str(want), str(have)
        env.check(have == want, "{} is {!r}, the file says {!r}", name, have, want)
