"""Preprocessing is a pure function of the raw data and the configuration."""

import os
import shutil

import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import boot, case, raw
from wv import world as W
from wv.case import Violation
from wv.props.T12 import digest_tree

ID = "P09"
TECHNIQUE = "property-based testing: generated histories of preprocessing runs in one process vs fresh-process runs, bit for bit"
CASES = {"quick": 90, "thorough": 4000}
RULE = (
    "one case = a generated history of two to five preprocessing runs in one process (other data, the same again, raw data "
    "exchanged under the same path, other levels or periods, with and without column water, failing runs), each compared with "
    "a run in a fresh process; non-trivial when the history holds at least two different runs"
)
ASSUMPTIONS = ["the ARCO-ERA5 store does not change while the program runs"]


@st.composite
def strategy(draw, tier):
    specs = []
    for _ in range(draw(st.integers(1, 2))):
        source = draw(st.sampled_from(["era5", "era5", "cmip"] + ["arco"] * all(x["source"] != "arco" for x in specs)))
        freq = "6h" if source == "cmip" else draw(st.sampled_from(["6h", "3h", "1h", "30min"]))
        spec = draw(
            raw.atmospheres(
                "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=(freq,), nt=(1, 4),
                cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap", "360_day"),
                tcw={"arco": True, "cmip": False}.get(source),
            )
        )
        spec["source"] = source
        spec["pre"] = spec["post"] = 0
        if source == "cmip":
            spec["start"] = spec["start"][:11] + "06:00"
            spec["extra"] = []
        spec["levels"] = spec["levels"][:4]
        if spec["kind"] == "pl":
            spec["levels"] = sorted(set(spec["levels"]) | {300})
        spec["lay"] = draw(raw.layouts(cmip=source != "era5"))
        spec["lay"]["ztype"] = "f8"
        specs.append(spec)
    kinds = ["plain", "swap", "swap", "levels", "period", "tcw", "broken", "parallel", "boundary"]
    events = draw(
        st.lists(
            st.tuples(st.integers(0, len(specs) - 1), st.sampled_from(kinds), st.integers(0, 10**6), st.booleans()), min_size=1, max_size=4
        )
    )
    return {"specs": specs, "events": [list(e) for e in events]}


class Source:
    """Raw data of one data set in its folder."""

    def __init__(self, env, spec):
        self.spec, self.at, self.dir = spec, raw.Atmos(spec), env.dir()
        self.out = self.dir + "/pre"
        self.write()

    def write(self):
        shutil.rmtree(self.dir + "/raw", ignore_errors=True)
        if self.spec["source"] == "arco":
            os.makedirs(self.dir + "/raw")
            self.template = "unused"
            boot.HOOK["open_zarr"] = raw.opener(raw.arco_store(self.at, self.spec["lay"]))
            return
        put = raw.write_era5 if self.spec["source"] == "era5" else raw.write_cmip
        self.template = put(self.at, self.dir + "/raw", self.spec["lay"])

    def files(self, var):
        name = var if self.spec["source"] == "era5" else raw.CMIP.get(var, var)
        return sorted(
            os.path.join(p, f) for p, _, fs in os.walk(self.dir + "/raw") for f in fs
            if f.endswith(f"_{name}.nc") or f.startswith(f"{name}_")
        )


def content(folder):
    res = {}
    for day in raw.read_days(folder):
        with netCDF4.Dataset(day.path) as nc:
            attrs = {v: {a: str(x.getncattr(a)) for a in x.ncattrs()} for v, x in nc.variables.items()}
            attrs[""] = {a: str(nc.getncattr(a)) for a in nc.ncattrs() if a != "history"}
        res[day.name] = {k: (v.dtype.str, v.shape, v.tobytes(), attrs[k]) for k, v in day.vars.items()}
        res[day.name][""] = attrs[""]
    return res


def run(spec, env):
    try:
        history(spec, env)
    finally:
        boot.HOOK.pop("open_zarr", None)


def history(spec, env):
    sources = [Source(env, s) for s in spec["specs"]]
    seen = set()
    threads = any(x["source"] == "cmip" for x in spec["specs"])
    with case.Companion() as companion:
        for n, (i, kind, seed, same) in enumerate(spec["events"] + [[0, "plain", 0, True]]):
            s = sources[i]
            rng = np.random.default_rng(seed)
            at, settings, aside = s.at, {}, []
            arco = s.spec["source"] == "arco"
            if arco and kind in ("swap", "tcw"):
                kind = "levels"
            if kind == "swap":  # other data under the same path
                for k in at.f:
                    at.f[k] = at.f[k][:, ..., ::-1, :].copy() if k in ("sp", "d2m", "tcw") else at.f[k][..., ::-1, :] * np.float32(0.5 + rng.random() / 2)
                    at.f[k] = at.f[k].astype("f4").astype(float)
                s.write()
            elif kind == "levels":
                keep = [z for z in at.levels if rng.integers(0, 2)] or [min(at.levels)]
                settings["levels"] = sorted(set(keep) | ({300} if not at.ml else set()))
            elif kind == "period":
                a, b = sorted(rng.integers(0, len(at.req), 2))
                settings["preprocess_start_date"], settings["preprocess_end_date"] = W.iso(at.req[a]), W.iso(at.req[b])
            elif kind == "boundary":
                key = "level_layer_boundary" if at.ml else "pressure_boundary_factor"
                settings[key] = int(rng.integers(90, 130)) if at.ml else float(rng.uniform(0.6, 0.8))
            elif kind == "parallel" and not threads:  # (forking with the thread pool of dask, used for CMIP data, hangs)
                settings.update(parallel_preprocess=True, parallel_processes=int(rng.integers(1, 4)))
            elif kind == "tcw":
                aside = s.files("tcw")
            elif kind == "broken" and arco:
                settings["preprocess_start_date"] = settings["preprocess_end_date"] = "2150-01-01T00:00"
            elif kind == "broken":
                aside = s.files(("q", "u", "sp", "tp", "e")[rng.integers(0, 5)])
            moved = [(p, f"{s.dir}/{k}.aside") for k, p in enumerate(aside)]
            for p, q in moved:
                os.rename(p, q)
            out = s.out if same else env.dir()
            fresh = env.dir()
            os.makedirs(out, exist_ok=True)
            left = content(out)
            clutter = {f"{out}/{x}": f"{x} {n}" for x in ("notes.txt", "1950-01-01_fluxes_storages.txt", "precip.nc")}
            for p, text in clutter.items():
                with open(p, "w") as f:
                    f.write(text)
            cfg = case.write_json(f"{s.dir}/config{n}.yaml", raw.config(at, s.template, out, s.dir + "/out", **settings))
            command = ["preprocess", "arco-era5" if arco else s.spec["source"]]
            before = digest_tree(s.dir + "/raw", cfg)
            r = companion.cli(command + [cfg], s.dir)
            if digest_tree(s.dir + "/raw", cfg) != before:
                raise Violation(f"preprocessing ({kind}) changed its raw data or configuration")
            what = f"run {n} ({kind}) after {spec['events'][:n]}"
            other = case.write_json(f"{s.dir}/fresh{n}.yaml", raw.config(at, s.template, fresh, s.dir + "/out", **settings))
            q = case.fresh_cli(command + [other], s.dir)
            for p, text in clutter.items():
                if not os.path.exists(p) or open(p).read() != text:
                    raise Violation(f"{what} changed or removed {os.path.basename(p)}, which is not its output")
            if kind == "broken":
                env.check(r.code != 0 and q.code != 0, f"{what}: raw data were missing, the command succeeded")
            else:
                case.must(env, q, f"{what}, in a fresh process")
                case.must(env, r, what)
                have, want = content(out), content(fresh)
                for name in want:
                    if have.get(name) != want[name]:
                        bad = [k for k in want[name] if have.get(name, {}).get(k) != want[name][k]]
                        raise Violation(f"{what}: {bad} in {name} are not what a fresh process gives")
                for name in set(have) - set(want):  # days of earlier runs
                    if have[name] != left.get(name):
                        raise Violation(f"{what}: {name} was written, or changed though it is not of the period")
            for p, q in moved:
                os.rename(q, p)
            env.label(kind, s.spec["source"])
            seen.add((i, kind))
    env.nontrivial = len(seen) > 1
