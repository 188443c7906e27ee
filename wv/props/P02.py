"""Pressure-level preprocessing."""

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Skip, Violation

ID = "P02"
TECHNIQUE = "property-based testing: independent column integration as oracle; metamorphic: data below the surface, level order"
CASES = {"quick": 200, "thorough": 8000}
RULE = (
    "one case = one generated pressure-level data set, preprocessed by the command line and compared with an independent "
    "integration, then with the data below the surface and the level order changed; non-trivial when some columns have "
    "levels below the surface or the layer boundary lies between levels"
)
ASSUMPTIONS = [
    "the layer boundary lies above the surface and the surface pressure differs from every level by more than rounding",
    "relative tolerance of the summed magnitudes: 1e-6 for raw data in float64, 4e-5 in float32 (humidity from dew point)",
]


@st.composite
def strategy(draw, tier):
    spec = draw(raw.atmospheres("pl"))
    spec["lay"] = draw(raw.layouts())
    spec["lay"]["ztype"] = draw(st.sampled_from(["f8", "f8", "i4", "i8"]))
    if spec["lay"]["names"] == "new":
        spec["lay"]["names"] = "newpl"
    spec["split"] = draw(
        st.sampled_from([None, None, [0.5, 0.0], [0.0, 30000.0], [1.0, -12000.0], [0.9, 1234.5], [0.0, 40000.0], [0.72878581, 0.0], [0.05, 0.0]])
    )
    spec["lay"]["dtype"] = draw(st.sampled_from(["f8", "f4"]))
    spec["below"] = draw(st.sampled_from(["no", "values", "order"]))
    return spec


def preprocess(env, at, lay, name, extra, hook=None):
    d = env.dir(name)
    tmpl = raw.write_era5(at, d + "/raw", lay, hook)
    cfg = case.write_json(d + "/config.yaml", raw.config(at, tmpl, d + "/pre", d + "/out", **extra))
    case.must(env, case.fresh_cli(["preprocess", "era5", cfg], d), "preprocess era5")
    return raw.read_days(d + "/pre")


def run(spec, env):
    at = raw.Atmos(spec)
    extra, kw = {}, {}
    if spec["split"]:
        a, b = spec["split"]
        extra = {"pressure_boundary_factor": a, "pressure_boundary_offset": b}
        kw = {"factor": a, "offset": b}
    days = preprocess(env, at, spec["lay"], "a", extra)
    f8 = spec["lay"]["dtype"] == "f8"
    # float32 pressures are known to 0.01 Pa, which counts for thin layers: compare with the whole column
    tol = {"rtol": 1e-6} if f8 else {"rtol": 4e-5, "column": True}
    try:
        raw.verify(env, at, days, **tol, **kw)
    except Violation:
        if spec["lay"]["ztype"] == "f8":
            raise
        pb = kw.get("factor", 0.72878581) * at.f["sp"] + kw.get("offset", 7438.803223)
        if any(((np.abs(pb - n * 100) < 1.01) & (pb != n * 100)).any() for n in at.levels):
            raise Skip("boundary within 1 Pa of a level and cut to whole Pa") from None
        raw.verify(env, at, days, whole=True, **(tol if f8 else {"rtol": 3e-4, "column": True}), **kw)
        env.known_finding("integer-pressures", "surface and boundary pressure are cut to whole Pa if levels are stored as integers")
    below = any(n * 100 > at.f["sp"].min() for n in at.levels)
    env.label("below-surface" if below else "above", "tcw" if "tcw" in at.f else "no-tcw", f"split={spec['split']}", spec["below"])
    env.nontrivial = below or len(at.levels) > 3
    if spec["below"] == "no":
        return
    if spec["below"] == "values":
        rng = np.random.default_rng(spec["seed"] + 5)
        other = raw.Atmos(spec)
        for n in at.levels:
            z = at.filelevels.index(n)
            under = n * 100.0 > at.f["sp"]
            for name, scale in (("q", 0.05), ("u", 80.0), ("v", 80.0)):
                other.f[name][:, z][under] = (scale * rng.random(under.sum())).astype("f4")
        days2 = preprocess(env, other, spec["lay"], "b", extra)
    else:
        other = raw.Atmos(spec)
        other.levels = at.levels[::-1] if len(at.levels) < 3 else at.levels[1:] + at.levels[:1]
        lay = dict(spec["lay"], levorder={"asc": "desc", "desc": "mixed", "mixed": "asc"}[spec["lay"]["levorder"]])
        days2 = preprocess(env, other, lay, "b", extra)
    a, _ = raw.collect(env, days)
    b, _ = raw.collect(env, days2)
    for k in a:
        for name in raw.OUT:
            mag = np.abs(a[k][name]) + 1e-6 * np.abs(a[k][name]).max()
            err = np.abs(a[k][name] - b[k][name]) / (mag + 1e-30)
            if err.max() > 3e-6 and not np.allclose(a[k][name], b[k][name], rtol=0, atol=1e-5 * np.abs(a[k][name]).max()):
                raise Violation(f"{name} at {k} depends on the {spec['below']} of levels")
