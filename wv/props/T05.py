"""A restarted run continues exactly where the earlier run stopped."""

import os

import netCDF4
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import Skip, Violation

ID = "T05"
TECHNIQUE = "property-based testing with crash injection: restarted run vs uninterrupted run"
CASES = {"quick": 130, "thorough": 5000}
RULE = (
    "one case = one experiment run at once and run in two to four pieces, stopped at generated output times or by input "
    "files that are missing or end early; non-trivial when tracked moisture is in the air at a stop"
)
ASSUMPTIONS = ["the interrupted run and its continuation write to the same output folder"]


@st.composite
def strategy(draw, tier):
    spec = draw(
        W.worlds(max_steps=12 if tier == "quick" else 26, min_steps=4, kinds=("bbox", "mask"), max_span=3 * 1440)
    )
    dt, total = spec["dt"], spec["steps"] * spec["dt"]
    fits = [f for f, m in W.FREQ.items() if m * 60 % dt == 0 and 2 * m * 60 <= total]
    if fits:
        spec["outf"] = draw(st.sampled_from(fits))
        step = dt // 60
        spec["off"] = draw(st.sampled_from([0, step])) % W.FREQ[spec["inf"]] if step * 60 == dt else 0
    if draw(st.integers(0, 2)):
        spec["tag"] = [-60, spec["steps"] * spec["dt"] // 60 + 60]
    if draw(st.integers(0, 4)) == 0:
        spec["domain"] = draw(W.domains(spec["grid"], wrap=spec["periodic"] and draw(st.booleans())))
        if spec["domain"]:
            spec["periodic"] = False
    if draw(st.integers(0, 4)) == 0:
        span = spec["steps"] * spec["dt"] // 60
        spec["region"] = W.dyn_region(draw, spec["grid"]["ny"], spec["grid"]["nx"], span)
    spec["mode"] = draw(st.sampled_from(["stop", "stop", "anywhere", "missing", "short"]))
    spec["cuts"] = draw(st.lists(st.integers(0, 30), min_size=1, max_size=3))
    return spec


def segment(w, t):
    """Settings of a run that continues from the output at time t."""
    if w.direction == "forward":
        return {"tracking_start_date": W.iso(t), "restart": True}
    return {"tracking_end_date": W.iso(t), "restart": True}


def upto(w, t):
    return {"tracking_end_date" if w.direction == "forward" else "tracking_start_date": W.iso(t)}


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    env.label(spec["mode"])
    whole = w.run(env)
    times = [t for _, t in w.output_times()]
    inner = times[:-1]
    whole_minutes = [t for _, _, t in w.step_list()[:-1] if t.second == 0 and t.microsecond == 0]
    if not (whole_minutes if spec["mode"] == "anywhere" else inner):
        raise Skip("nowhere to stop")
    # the interrupted runs
    v = W.World(spec)
    v.prepare(env)
    stops = []

    def track(ok=True, **settings):
        case.write_json(v.cfgfile, v.config(v.inputs, v.output, v.region_cfg, **settings))
        r = case.fresh_cli(["track", v.cfgfile], v.dir_)
        if ok:
            case.must(env, r, "track")
        return r

    if spec["mode"] in ("stop", "anywhere"):
        if spec["mode"] == "anywhere":
            inner = whole_minutes
        stops = sorted({inner[c % len(inner)] for c in spec["cuts"]}, reverse=w.direction == "backward")
        track(**upto(w, stops[0]))
        for a, b in zip(stops, stops[1:]):
            track(**{**segment(w, a), **upto(w, b)})
        track(**segment(w, stops[-1]))
    else:
        # inputs from some record on are not there (yet)
        k = 1 + spec["cuts"][0] % (w.nrec - 1)
        if len(spec["cuts"]) > 1:  # mostly late, so that something was written before
            k = max(k, w.nrec - 1 - spec["cuts"][1] % 3)
            k = k if w.direction == "forward" else max(1, w.nrec - k)
        gone = (lambda i: i >= k) if w.direction == "forward" else (lambda i: i < k)
        files = sorted({t.strftime("%Y-%m-%d") for i, t in enumerate(w.times) if gone(i)})
        keep = {}
        for day in files:
            path = f"{v.inputs}/{day}_fluxes_storages.nc"
            keep[path] = open(path, "rb").read()
            idx = [i for i, t in enumerate(w.times) if t.strftime("%Y-%m-%d") == day]
            left = [n for n, i in enumerate(idx) if not gone(i)]
            os.remove(path)
            if spec["mode"] == "short" and left:
                with netCDF4.Dataset("full", mode="r", memory=keep[path]) as src, netCDF4.Dataset(path, "w") as dst:
                    for d in src.dimensions.values():
                        dst.createDimension(d.name, None if d.name == "time" else len(d))
                    for var in src.variables.values():
                        x = dst.createVariable(var.name, var.dtype, var.dimensions)
                        x.setncatts({a: var.getncattr(a) for a in var.ncattrs()})
                        x[:] = var[left] if "time" in var.dimensions else var[:]
        r = track(ok=False)
        if r.code == 0:
            needed = [gone_at for gone_at in range(w.nrec) if gone(gone_at)]
            env.check(not uses(w, gone), f"records {needed} were missing but the run succeeded")
        for path, data in keep.items():
            if os.path.exists(path):
                os.remove(path)
            open(path, "wb").write(data)
        done = W.Outputs(v.output)
        if r.code != 0:
            wrote = [t for t in times if W.tkey(t) in done.by_key]
            if wrote != times[: len(wrote)]:
                raise Violation(f"the failed run wrote outputs {wrote}, not the first of {times}")
            if wrote:
                stops = [wrote[-1]]
                if wrote[-1] != times[-1]:
                    track(**segment(w, wrote[-1]))
            else:
                track()
        env.label("died" if r.code else "unaffected", f"outputs-before={min(3, len(done))}")
    again = W.Outputs(v.output)
    env.nontrivial = any(again.by_key[W.tkey(t)].vars[n].any() for t in stops for n in W.REST if W.tkey(t) in again.by_key)
    if spec["mode"] == "anywhere":
        return pieces(env, w, whole, again, stops)
    W.compare_all(env, again, whole, w, "restarted run differs from the uninterrupted one", rtol=4 * W.tolerance(w))
    for key, o in whole.by_key.items():
        p = again.by_key[key]
        for name in ("time", "time_bnds", "latitude", "longitude"):
            if p.vars[name].tolist() != o.vars[name].tolist():
                raise Violation(f"{o.name}: {name} is {p.vars[name].tolist()} restarted, {o.vars[name].tolist()} at once")


def pieces(env, w, whole, again, stops):
    """Stopped between outputs: the same states, and amounts that add up."""
    want = set(whole.by_key) | {W.tkey(t) for t in stops}
    if set(again.by_key) != want:
        raise Violation(f"outputs at {sorted(again.by_key)}, expected {sorted(want)}")
    scale, rtol = W.scale_of(w), 6 * W.tolerance(w)
    parts = []
    for o in again.in_order(w.direction):
        parts.append(o)
        if o.key not in whole.by_key:
            continue
        ref = whole.by_key[o.key]
        for n in W.fields_of(w.direction):
            have = o.field(n) if n in W.REST else sum(p.field(n) for p in parts)
            dev = abs(have - ref.field(n)).max() / scale
            if not dev <= rtol:
                raise Violation(f"{o.name}: {n} deviates by {dev:.3g} when the run was stopped at {[str(t) for t in stops]}")
        if abs(parts[0].vars["time_bnds"].ravel()[0] - ref.vars["time_bnds"].ravel()[0]) > 0.5:
            raise Violation(f"{parts[0].name}: interval starts at another time when the run was stopped at {[str(t) for t in stops]}")
        parts = []


def uses(w, gone):
    """Does the run need a record for which gone() holds?"""
    for ta, th, tb in w.step_list():
        for t in (ta, th, tb):
            x = (t - w.start).total_seconds() / (w.inf * 60)
            if gone(int(x // 1)) or (x % 1 and gone(int(x // 1) + 1)):
                return True
    return False
