"""Unusable raw data."""

import glob
import os
import re

import numpy as np
from hypothesis import strategies as st

from wv import boot, case, raw
from wv.case import Violation

ID = "P07"
TECHNIQUE = "property-based testing with fault injection in the raw data; model of which records may exist afterwards"
CASES = {"quick": 700, "thorough": 16000}
RULE = (
    "one case = one generated data set with a defect put in (or with harmless peculiarities), preprocessed from one "
    "source; non-trivial when a defect was put in or a harmless peculiarity was present"
)
ASSUMPTIONS = ["missing values are NaN or the file's fill value", "a total-column-water file that does not exist at all is allowed for ERA5"]

# raw variable -> names under which the program may report it
NAMES = {
    "q": ["q", "hus", "specific_humidity"], "u": ["u", "ua", "u_component_of_wind"], "v": ["v", "va", "v_component_of_wind"],
    "sp": ["sp", "ps", "qs", "dp", "surface_pressure"], "d2m": ["d2m", "qs", "huss", "2m_dewpoint_temperature"],
    "u10": ["u10", "us", "uas", "10m_u_component_of_wind"], "v10": ["v10", "vs", "vas", "10m_v_component_of_wind"],
    "tp": ["tp", "precip", "pr", "total_precipitation"], "e": ["e", "evap", "precip", "hfls", "evaporation"],
    "tcw": ["tcw", "total_column_water"],
}
DEFECTS = ["nan", "nan", "omit", "extradim", "dropdim", "rename", "level", "time"]
HARMLESS = ["perm", "nan-other-time", "nan-other-level", "no-tcw", "extra-variable-order"]


@st.composite
def strategy(draw, tier):
    source = draw(st.sampled_from(["era5", "era5", "cmip", "arco"]))
    spec = draw(
        raw.atmospheres(
            "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=("6h",) if source == "cmip" else ("6h", "3h"), nt=(2, 6),
            cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap"), tcw={"arco": True, "cmip": False}.get(source),
        )
    )
    spec["source"] = source
    spec["start"] = spec["start"][:11] + draw(st.sampled_from(["06:00", "18:00"]))
    if source == "cmip":
        spec["start"] = spec["start"][:11] + "06:00"
        spec["pre"], spec["extra"] = 0, []
    spec["grid"]["ny"] = min(3, spec["grid"]["ny"])
    spec["levels"] = spec["levels"][:3]
    if spec["kind"] == "pl":
        spec["levels"] = sorted(set(spec["levels"]) | {300})
    spec["lay"] = draw(raw.layouts(cmip=source != "era5"))
    spec["lay"]["ztype"] = "f8"
    if source == "era5":
        spec["lay"]["split"] = "one"
    names = ["sp", "tp", "e", "q", "u", "v"] + (["d2m", "u10", "v10"] if spec["kind"] == "pl" else []) + (["tcw"] * 3 if spec["tcw"] else [])
    kind = draw(st.sampled_from(["defect", "defect", "defect", "harmless"]))
    spec["what"] = draw(st.sampled_from(DEFECTS if kind == "defect" else HARMLESS))
    spec["var"] = draw(st.sampled_from(names))
    spec["where"] = [draw(st.integers(0, 50)) for _ in range(4)]
    if source == "cmip" and draw(st.integers(0, 5)) == 0:  # gaps in the 3-hourly fluxes
        spec["what"], spec["var"] = "time", draw(st.sampled_from(["tp", "e"]))
        spec["nt"] = max(spec["nt"], 5)
    spec["parallel"] = draw(st.sampled_from([None] * 7 + [2]))
    spec["all_cells"] = draw(st.integers(0, 4)) == 4
    return spec


def poke(at, spec, k, z=None):
    a = at.f[spec["var"]]
    i, j = spec["where"][1] % at.ny, spec["where"][2] % at.nx
    if spec["all_cells"]:
        i, j = slice(None), slice(None)
    if a.ndim == 4:
        a[k, z, i, j] = np.nan
    else:
        a[k, i, j] = np.nan


def reshape(da, how, dims):
    """dims: actual names of (time, z, y, x) in this file."""
    if how == "extradim":
        return da.expand_dims(member=2)
    if how == "dropdim":
        z = dims[1]
        return da.isel({z: 0}, drop=True) if z in da.dims else da.isel({dims[3]: 0}, drop=True)
    return da.rename({dims[2]: "south_north"})


def run(spec, env):
    import xarray as xr

    at = raw.Atmos(spec)
    what, var, source = spec["what"], spec["var"], spec["source"]
    lay = dict(spec["lay"])
    deep = var in ("q", "u", "v")
    pick = spec["where"][0] % len(at.req)
    k = at.times.index(at.req[pick])
    zc = at.filelevels.index(at.levels[spec["where"][3] % len(at.levels)])
    good = list(at.req)  # times expected to be written
    harmless = what in HARMLESS
    edit = drop_level = None
    if what == "nan":
        poke(at, spec, k, zc)
        good = good[:pick]
    elif what == "nan-other-time":
        others = [n for n, t in enumerate(at.times) if t not in at.req]
        for n in others:
            poke(at, spec, n, zc)
        if source == "cmip" and var in ("tp", "e"):
            pass  # a record of the resampled series that is not requested
    elif what == "nan-other-level":
        rest = [z for z, n in enumerate(at.filelevels) if n not in at.levels]
        if rest and deep:
            poke(at, spec, k, rest[0])
    elif what == "no-tcw":
        at.f.pop("tcw", None) if source == "era5" else None
    elif what == "perm":
        lay["perm"] = [(n * 3 + spec["where"][0]) % 5 for n in range(7)]
    elif what == "omit":
        if var == "tcw" and source == "era5":
            var = "sp"
        good = []
    elif what in ("extradim", "dropdim", "rename"):
        edit, good = what, []
    elif what == "level":
        if source == "cmip":
            what = "omit"  # all common levels are used
        elif not deep:
            var = "u"
        deep, good = True, []
    elif what == "time":
        good = good[:pick] if source != "cmip" or var not in ("tp", "e") else []
    # ---- write
    d = env.dir()
    at_cfg = raw.config(at, "unused", d + "/pre", d + "/out")
    zname = tname = rest = None
    if source == "era5":
        at_cfg["filename_template"] = raw.write_era5(at, d + "/raw", lay)
        tname, zname = raw.era5_names(lay)
        path = lambda v: at_cfg["filename_template"].format(
            year=0, month=0, day=0, hour=0, minute=0, levtype=("_ml" if at.ml else "_pl") if v in ("q", "u", "v") else "", variable=v
        )
        yx = ("latitude", "longitude")
    elif source == "cmip":
        at_cfg["filename_template"] = raw.write_cmip(at, d + "/raw", lay)
        tname, zname, yx = "time", "plev", ("lat", "lon")
        path = lambda v: glob.glob(f"{d}/raw/{raw.CMIP[v]}_*.nc")[0]
    else:
        ds = raw.arco_store(at, lay)
        tname, zname, yx = "time", "level", ("latitude", "longitude")
        name = raw.ARCO[var]

    def change(ds, name):
        nonlocal rest
        if edit:
            new = reshape(ds[name], edit, (tname, zname) + yx)
        elif what == "level":
            rest = [n for n in ds[zname].values if n != at.levels[spec["where"][3] % len(at.levels)]]
            new = ds[name].sel({zname: rest}) if rest else ds[name].assign_coords({zname: ds[zname] + 1})
        else:
            gone = [k]
            if source == "cmip" and var in ("tp", "e"):  # 3-hourly records
                first = 2 * k + spec["where"][1] % 2
                gone = list(range(first, first + 1 + spec["where"][2] % 3))
                if spec["where"][2] % 5 >= 3:  # two records of different pairs: the number of records stays even
                    gone = [first, min(2 * at.nt - 1, first + 3 + 2 * (spec["where"][2] % 2))]
            new = ds[name].isel({tname: [n for n in range(ds.sizes[tname]) if n not in gone]})
        return new

    touch = edit or what in ("level", "time")
    if what == "omit":
        if source == "arco":
            ds = ds.drop_vars(name)
        else:
            os.remove(path(var))
    elif touch and source == "arco":
        new = change(ds, name)
        if what in ("level", "time"):
            if what == "level":
                ds = ds.sel({zname: new[zname]}) if rest else ds.assign_coords({zname: new[zname]})
            else:
                ds = ds.sel({tname: new[tname]})
        else:
            ds = ds.drop_vars(name).assign({name: new})
    elif touch:
        p = path(var)
        vname = var if source == "era5" else raw.CMIP[var]
        with xr.open_dataset.real(p, decode_times=False) as f:
            f.load()
        new = change(f, vname)
        new.encoding, new.attrs = {}, {}
        os.remove(p)
        new.to_dataset(name=vname).to_netcdf(p)
    # ---- run
    if spec.get("parallel"):
        at_cfg.update(parallel_preprocess=True, parallel_processes=spec["parallel"])
    cfg = case.write_json(d + "/config.yaml", at_cfg)
    if source == "arco":
        boot.HOOK["open_zarr"] = raw.opener(ds)
    r = (case.fresh_cli if spec.get("parallel") else case.cli)(["preprocess", {"era5": "era5", "cmip": "cmip", "arco": "arco-era5"}[source], cfg], d)
    boot.HOOK.pop("open_zarr", None)
    env.label(source, what, f"{what}:{var}", "parallel" if spec.get("parallel") else "serial")
    env.nontrivial = True
    days = raw.read_days(d + "/pre")
    if harmless:
        case.must(env, r, f"preprocess {source} of valid data ({what})")
    else:
        if r.code == 0 and r.exc is None:
            raise Violation(f"preprocess {source} accepts data with defect {what} in {var}")
        text = f"{type(r.exc).__name__} {r.exc} {r.output}"
        words = set(re.findall(r"[A-Za-z0-9_]+", text))
        words |= set(re.findall(r"[A-Za-z0-9]+", text))
        wanted = set(NAMES[var]) | {"latitude", "longitude", "level", "south_north", "lat", "lon", "plev"}
        if what == "time":
            wanted |= {"time", "cftime", "DatetimeGregorian", "DatetimeNoLeap", "DatetimeProlepticGregorian"}
        if what == "nan":
            wanted = set(NAMES[var])
            if not re.search("nan|missing", text, re.I):
                raise Violation(f"the error for missing values in {var} does not say so: {text[:300]}")
        if what == "omit":
            wanted = set(NAMES[var])
        if not words & wanted:
            raise Violation(f"the error for defect {what} in {var} ({source}) does not name the problem: {text[:300]}")
        if what == "time" and source == "cmip" and var in ("tp", "e"):
            got = set(raw.collect(env, days)[0]) if days else set()
            good = [t for t in at.req[:pick] if raw.key(t) in got]  # all or fewer, as the records are combined first
        elif spec.get("parallel") and good != list(at.req) and what in ("nan", "time"):  # other days may be complete or not
            got = set(raw.collect(env, days)[0]) if days else set()
            good = [t for n, t in enumerate(at.req) if n != pick and raw.key(t) in got]
    raw.verify(env, at, days, times=good, rtol=4e-4 if source == "arco" else 6e-5, column=True, whole=source == "arco") if good else none(days)


def none(days):
    if days:
        raise Violation(f"records were written although no time has usable data: {[d.name for d in days]}")
