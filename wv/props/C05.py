"""Configured folders and URLs."""

import os

from hypothesis import strategies as st

from wv import case, conf
from wv.case import Violation

ID = "C05"
TECHNIQUE = "property-based testing: path model and before/after comparison of the whole directory tree"
CASES = {"quick": 500, "thorough": 12000}
RULE = (
    "one case = a configuration loaded with relative, absolute, ~ or URL locations over a generated directory tree; "
    "non-trivial when something is created or content exists already"
)
ASSUMPTIONS = ["HOME is set (to a folder of the case)"]

NAMES = ["out", "a b", "é", "x.y", "data", "deep", "~x", "p", "httpd", "http", "https-files"]
SPELL = ["rel", "dotrel", "abs", "tilde", "tilde-only", "parent", "dots", "slash"]
URLS = [
    "https://example.org/data", "http://example.org:8080/thredds/dodsC/p", "https://example.org/a%20b/?q=1",
    "https://EXAMPLE.org/Data/", "http://127.0.0.1/x",
]


@st.composite
def location(draw):
    return {
        "how": draw(st.sampled_from(SPELL)),
        # a folder called ~x is fine, but not at the start, where it means the home of user x
        "parts": [draw(st.sampled_from([n for n in NAMES if n[0] != "~"]))] + draw(st.lists(st.sampled_from(NAMES), max_size=2)),
        "exists": draw(st.integers(0, 3)),  # how many of the parts exist already (3: with content)
    }


@st.composite
def strategy(draw, tier):
    return {
        "c": draw(conf.settings()),
        "out": draw(location()),
        "pre": draw(st.one_of(location(), location(), st.sampled_from(URLS))),
        "assign": draw(st.booleans()),
        "via": draw(st.sampled_from(["yaml", "kwargs"])),
    }


def spelled(loc, cwd, home):
    rel = "/".join(loc["parts"])
    how = loc["how"]
    if how == "rel":
        return rel, os.path.join(cwd, rel)
    if how == "dotrel":
        return "./" + rel, os.path.join(cwd, rel)
    if how == "abs":
        return os.path.join(cwd, "abs", rel), os.path.join(cwd, "abs", rel)
    if how == "tilde":
        return "~/" + rel, os.path.join(home, rel)
    if how == "tilde-only":
        return "~", home
    if how == "parent":
        return "../" + rel, os.path.join(os.path.dirname(cwd), rel)
    if how == "dots":
        return rel + "/../q", os.path.join(cwd, os.path.dirname(rel), "q")
    return rel + "//", os.path.join(cwd, rel)


def listing(root):
    res = {}
    for base, dirs, files in os.walk(root):
        for n in dirs:
            res[os.path.relpath(os.path.join(base, n), root)] = None
        for n in files:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                res[os.path.relpath(p, root)] = (f.read(), os.stat(p).st_mtime_ns)
    return res


def norm(p):
    return os.path.normpath(p)


def run(spec, env):
    from wam2layers.config import Config

    root = env.dir()
    cwd, home = root + "/w/cwd", root + "/home"
    os.makedirs(cwd)
    os.makedirs(home)
    os.environ["HOME"] = home
    c = conf.place(root, spec["c"])
    wanted = {}
    for name, loc in (("output_folder", spec["out"]), ("preprocessed_data_folder", spec["pre"])):
        if isinstance(loc, str):
            c[name] = loc
            continue
        c[name], path = spelled(loc, cwd, home)
        wanted[name] = path
        if loc["exists"] and loc["how"] != "dots":
            top = norm(path) if loc["exists"] >= len(loc["parts"]) else None
            if top:
                os.makedirs(top, exist_ok=True)
                with open(top + "/keep.txt", "w") as f:
                    f.write("keep")
                with open(top + "/2021-07-01_fluxes_storages.nc", "w") as f:
                    f.write("old")
    if any(loc["how"] == "dots" for loc in (spec["out"], spec["pre"]) if isinstance(loc, dict)):
        for loc in (spec["out"], spec["pre"]):
            if isinstance(loc, dict) and loc["how"] == "dots":
                os.makedirs(os.path.join(cwd, *loc["parts"]), exist_ok=True)
    before = listing(root)
    target = dict(c)
    with case.chdir(cwd):
        if spec["assign"]:
            neutral = root + "/neutral"
            os.makedirs(neutral)
            before = listing(root)
            cfg = Config(**{**c, "output_folder": neutral, "preprocessed_data_folder": neutral})
            for name in ("output_folder", "preprocessed_data_folder"):
                setattr(cfg, name, case_path(c[name], name))
        elif spec["via"] == "yaml":
            cfg = Config.from_yaml(case.write_json(root + "/config.yaml", c))
        else:
            cfg = Config(**c)
    after = listing(root)
    after.pop("config.yaml", None)
    # values
    for name in ("output_folder", "preprocessed_data_folder"):
        have = str(getattr(cfg, name))
        if name in wanted:
            env.check(os.path.isabs(have), "{} = {!r} is not absolute: {!r}", name, target[name], have)
            env.check(
                norm(have) == norm(wanted[name]), "{} = {!r} becomes {!r} instead of {!r}", name, target[name], have, wanted[name]
            )
            env.check(os.path.isdir(have), "{} = {!r} was not created", name, target[name])
        else:
            env.check(
                have.rstrip("/").lower() == target[name].rstrip("/").lower(), "the URL {!r} becomes {!r}", target[name], have
            )
    # nothing else was created, nothing changed
    expected = set(before)
    for p in wanted.values():
        q = norm(p)
        while len(q) > len(root):
            expected.add(os.path.relpath(q, root))
            q = os.path.dirname(q)
    extra = set(after) - expected
    env.check(not extra, "loading creates {}", sorted(extra)[:4])
    for k, v in before.items():
        env.check(k in after and after[k] == v, "loading changed {}", k)
    env.label(*(loc["how"] if isinstance(loc, dict) else "url" for loc in (spec["out"], spec["pre"])))
    env.nontrivial = set(after) != set(before) or any(v for v in before.values())


def case_path(value, name):
    return value
