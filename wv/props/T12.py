"""A run is a pure function of its inputs and configuration."""

import glob
import hashlib
import os
import shutil

import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import Violation

ID = "T12"
TECHNIQUE = "property-based testing: generated histories of runs in one process vs fresh-process runs, bit for bit"
CASES = {"quick": 60, "thorough": 3000}
RULE = (
    "one case = a generated history of two to five runs in one process (other experiments, the same one again, inputs "
    "exchanged under the same path, restarts among the outputs of an earlier run, failing runs), each compared with a run in a fresh process; non-trivial when at least "
    "two runs of the history differ in inputs, configuration or direction and moisture is tagged"
)


@st.composite
def strategy(draw, tier):
    n = draw(st.integers(1, 2))
    specs = []
    for _ in range(n):
        spec = draw(W.worlds(max_steps=5, min_steps=2, kinds=("bbox", "mask", "bbox"), max_span=1440))
        if draw(st.integers(0, 2)) == 0:
            spec["region"] = W.dyn_region(draw, spec["grid"]["ny"], spec["grid"]["nx"], spec["steps"] * spec["dt"] // 60)
        if draw(st.integers(0, 3)) == 0:
            spec["domain"] = draw(W.domains(spec["grid"], wrap=spec["periodic"] and draw(st.booleans())))
            if spec["domain"]:
                spec["periodic"] = False
        specs.append(spec)
    events = draw(
        st.lists(
            st.tuples(
                st.integers(0, n - 1),
                st.sampled_from(["plain", "plain", "swap", "turn", "window", "kvf", "broken", "domain", "restart", "restart"]),
                st.integers(0, 10**6),
            ),
            min_size=1, max_size=4,
        )
    )
    if draw(st.integers(0, 2)) == 0:  # two runs that read the same few records, changed in between
        spec = specs[0]
        spec["off"], spec["rest"] = 0, 0
        spec["dt"] = draw(st.sampled_from([m * 60 for m in (10, 15, 30) if 2 * m <= W.FREQ[spec["inf"]]]))
        spec["steps"] = draw(st.integers(2, min(5, W.FREQ[spec["inf"]] * 60 // spec["dt"])))
        spec["tag"] = [0, 10**4]
        events = [(0, "plain", 0), (0, "swap", draw(st.integers(0, 10**6)))] + events[:2]
    return {"worlds": specs, "events": [list(e) for e in events], "clutter": draw(st.booleans())}


def digest_tree(*paths):
    res = {}
    for p in paths:
        for f in [p] if os.path.isfile(p) else sorted(glob.glob(p + "/**", recursive=True)):
            if os.path.isfile(f):
                res[f] = hashlib.sha1(open(f, "rb").read()).hexdigest()
    return res


def identical(a, b, what):
    if sorted(a.by_key) != sorted(b.by_key):
        raise Violation(f"{what}: outputs at {sorted(a.by_key)}, a fresh process gives {sorted(b.by_key)}")
    for key, o in a.by_key.items():
        p = b.by_key[key]
        if sorted(o.vars) != sorted(p.vars):
            raise Violation(f"{what}: variables {sorted(o.vars)} and {sorted(p.vars)}")
        for name in o.vars:
            x, y = o.vars[name], p.vars[name]
            if x.dtype != y.dtype or x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == "f"):
                raise Violation(f"{what}: {name} in {o.name} is not what a fresh process gives")
            if repr(o.attrs[name]) != repr(p.attrs[name]):
                raise Violation(f"{what}: attributes of {name} in {o.name}: {o.attrs[name]} and {p.attrs[name]}")
        ga = {k: v for k, v in o.gattrs.items() if k not in ("history", "WAM2Layers_config")}
        gb = {k: v for k, v in p.gattrs.items() if k not in ("history", "WAM2Layers_config")}
        if ga != gb:
            raise Violation(f"{what}: attributes of {o.name}: {ga} and {gb}")


def history(spec, env, companion):
    worlds = [W.World(s).prepare(env) for s in spec["worlds"]]
    seen = set()
    tagged = False
    for n, (i, kind, seed) in enumerate(spec["events"] + [[0, "plain", 0]]):
        w = worlds[i]
        settings = {}
        rng = np.random.default_rng(seed)
        if kind == "swap":  # other data under the same path
            w.fields = {k: v[:, ::-1].copy() * np.float32(0.5 + rng.random()) for k, v in w.fields.items()}
            shutil.rmtree(w.inputs)
            w.write_inputs(w.inputs)
            if isinstance(w.region_cfg, str) and w.region_cfg.endswith(".nc") and seed % 2:  # another region under the same path
                with netCDF4.Dataset(w.region_cfg, "r+") as nc:
                    v = nc["tagging_region"]
                    v[:] = v[:][..., ::-1] * 0.5
        elif kind == "turn":
            settings["tracking_direction"] = "forward" if w.direction == "backward" else "backward"
        elif kind == "window":
            settings["tagging_start_date"] = W.iso(w.track0 + W.minutes(int(rng.integers(0, 60))))
            settings["tagging_end_date"] = W.iso(w.track1 + W.minutes(60))
        elif kind == "kvf":
            settings["kvf"] = float(rng.random() * 5)
        elif kind == "domain":
            settings["tracking_domain"] = None
        if kind == "broken":
            settings["preprocessed_data_folder"] = env.dir("empty")
        out = env.dir("history")
        fresh = env.dir("fresh")
        if kind == "restart" and len(w.output_times()) > 1:
            settings = {"restart": True, **leftovers(env, w, out, fresh, rng)}
        clutter = {}
        if spec["clutter"] and n == 0:
            v = w.copy()
            v.direction = settings.get("tracking_direction", w.direction)
            t = W.intervals(v)[-1][0]
            prefix = "forwardtrack" if v.direction == "forward" else "backtrack"
            stale = f"{out}/{prefix}_{t.strftime('%Y-%m-%dT%H-%M')}.nc"
            open(stale, "wb").write(b"not a netCDF file" * 1000)
            for name in ("notes.txt", "backtrack_1950-01-01T00-00.nc", "debug.nc"):
                open(f"{out}/{name}", "w").write(name)
                clutter[f"{out}/{name}"] = name
        case.write_json(w.cfgfile, w.config(w.inputs, out, w.region_cfg, **settings))
        region = [w.region_cfg] if isinstance(w.region_cfg, str) else []
        before = digest_tree(w.inputs, w.cfgfile, *region)
        r = companion.cli(["track", w.cfgfile], w.dir_)
        after = digest_tree(w.inputs, w.cfgfile, *region)
        if before != after:
            changed = [k for k in before if after.get(k) != before[k]] + [k for k in after if k not in before]
            raise Violation(f"the run changed {changed}")
        if kind == "broken":
            env.check(r.code != 0, "a run without input data succeeded")
            continue
        case.must(env, r, f"run {n} ({kind}) of the history")
        for path, text in clutter.items():
            if not os.path.exists(path) or open(path).read() != text:
                raise Violation(f"the run changed or removed {os.path.basename(path)}, which is not its output")
        got = W.Outputs.__new__(W.Outputs)
        W.Outputs.__init__(got, out) if not clutter else load_some(got, out, clutter)
        case.write_json(w.cfgfile, w.config(w.inputs, fresh, w.region_cfg, **settings))
        case.must(env, case.fresh_cli(["track", w.cfgfile], w.dir_), "fresh run")
        identical(got, W.Outputs(fresh), f"run {n} ({kind}) after {spec['events'][:n]}")
        seen.add((i, kind))
        tagged |= any(o.vars[v].any() for o in got.files for v in o.vars if v.startswith("tagged"))
        env.label(kind)
    return len(seen) > 1 and tagged


def leftovers(env, w, out, fresh, rng):
    """Prepare a restart into a folder with the outputs of an earlier, different run, and into a clean one."""
    times = [t for _, t in w.output_times()]
    at = times[int(rng.integers(0, len(times) - 1))]
    case.write_json(w.cfgfile, w.config(w.inputs, out, w.region_cfg, kvf=float(rng.random() * 20)))
    case.must(env, case.fresh_cli(["track", w.cfgfile], w.dir_), "earlier run")
    prefix = "forwardtrack" if w.direction == "forward" else "backtrack"
    for t in times:
        path = f"{out}/{prefix}_{t.strftime('%Y-%m-%dT%H-%M')}.nc"
        if t == at:
            shutil.copy(path, fresh)
        elif times.index(t) < times.index(at):
            os.remove(path)
        elif rng.integers(0, 4) == 0:
            open(path, "wb").write(b"cut off")
    return {"tracking_start_date" if w.direction == "forward" else "tracking_end_date": W.iso(at)}


def load_some(outs, folder, skip):
    outs.folder = folder
    files = [f for f in sorted(glob.glob(folder + "/*.nc")) if W.NAME.search(f) and f not in skip]
    outs.files = [W.Out(f) for f in files]
    outs.by_key = {o.key: o for o in outs.files}


def run(spec, env):
    with case.Companion() as companion:
        env.nontrivial = bool(history(spec, env, companion))
