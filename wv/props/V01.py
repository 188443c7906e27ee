"""Figures show the sums of the data they claim to show."""

import contextlib
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import HarnessError, Skip, Violation

from . import T03

ID = "V01"
TECHNIQUE = "property-based testing: figures drawn from generated experiments are compared with sums of the raw files; missing-file faults"
CASES = {"quick": 130, "thorough": 3500}
RULE = (
    "one case = one generated experiment (inputs, outputs of a real run) and one or more visualize commands; the cell values "
    "and cell edges actually drawn are compared with sums of the raw data, data files are hashed before and after, and a "
    "needed file may be removed before a further command; non-trivial when a drawn field has a non-zero sum"
)
ASSUMPTIONS = [
    "tagging regions contain at least one cell of the (sub)domain",
    "maps are drawn as cells (pcolormesh or image); colours, projections and decoration are not judged",
    "input records with both ends of the tagging period included count for the whole of their interval",
]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=10 if tier == "quick" else 24, min_steps=2, cals=W.CALENDARS, max_span=3 * 1440))
    g = spec["grid"]
    ny, nx = g["ny"], g["nx"]
    span = spec["steps"] * spec["dt"] // 60
    kind = draw(st.sampled_from(["as-is", "mask", "wrap", "dyn", "shp"]))
    if kind == "mask":
        spec["region"] = {"kind": "mask", "w": W.weights(draw, ny, nx)}
    elif kind == "wrap":
        spec["region"] = {"kind": "bbox", "box": draw(W.boxes(g, allow_wrap=True))}
    elif kind == "dyn":
        spec["region"] = W.dyn_region(draw, ny, nx, span)
    elif kind == "shp":
        spec["region"] = {"kind": "shp", "frac": [draw(st.floats(0, 1).map(lambda x: round(x, 3))) for _ in range(4)]}
    if draw(st.integers(0, 2)) == 0:
        spec["domain"] = draw(W.domains(g, wrap=spec["periodic"] and draw(st.booleans())))
        if spec["domain"]:
            spec["periodic"] = False
    if draw(st.integers(0, 4)):  # a schedule the figures of outputs can be made for
        fits = [f for f, m in W.FREQ.items() if m * 60 % spec["dt"] == 0 and 2 * m * 60 <= spec["steps"] * spec["dt"]]
        if fits:
            spec["outf"] = draw(st.sampled_from(fits))
            f, inf = W.FREQ[spec["outf"]], W.FREQ[spec["inf"]]
            spec["off"], spec["rest"] = 0, 0
            if inf % f:
                spec["start"] = spec["start"][:10] + "T00:00"
            spec["aligned"] = True
    spec["tag_in"] = draw(st.integers(0, 5)) > 0
    spec["commands"] = draw(st.sampled_from([["input"], ["output"], ["both"], ["input", "output"], ["both", "input"]]))
    spec["remove"] = draw(st.sampled_from([None, None, "input", "output"]))
    spec["victim"] = draw(st.integers(0, 50))
    return spec


# ------------------------------------------------------------------ what is drawn


def maps_of(fig):
    found = []
    for ax in fig.axes:
        if ax.get_label() == "<colorbar>":
            continue
        for c in ax.collections:
            if hasattr(c, "get_coordinates") and c.get_array() is not None:
                xy = np.asarray(c.get_coordinates(), float)
                ny, nx = xy.shape[0] - 1, xy.shape[1] - 1
                values = np.ma.filled(np.ma.asarray(c.get_array(), float), np.nan).reshape(ny, nx)
                mid = (xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:] + xy[1:, 1:]) / 4
                wide = np.abs(xy[:-1, 1:, 0] - xy[:-1, :-1, 0])
                high = np.abs(xy[1:, :-1, 1] - xy[:-1, :-1, 1])
                found.append((values, mid[..., 0], mid[..., 1], wide, high))
        for im in ax.images:
            west, east, south, north = im.get_extent()
            values = np.ma.filled(np.ma.asarray(im.get_array(), float), np.nan)
            ny, nx = values.shape
            x = west + (np.arange(nx) + 0.5) * (east - west) / nx
            y = np.linspace(south, north, 2 * ny + 1)[1::2]
            if im.origin == "upper":
                y = y[::-1]
            xx, yy = np.meshgrid(x, y)
            found.append((values, xx, yy, np.full_like(xx, (east - west) / nx), np.full_like(xx, (north - south) / ny)))
    return found


@contextlib.contextmanager
def watching():
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib import pyplot as plt
    from matplotlib.figure import Figure

    original = Figure.savefig
    seen = []

    def savefig(self, fname, *args, **kwargs):
        seen.append((str(fname), maps_of(self)))
        kwargs["dpi"] = 20
        return original(self, fname, *args, **kwargs)

    Figure.savefig = savefig
    try:
        yield seen
    finally:
        Figure.savefig = original
        plt.close("all")


def visualize(what, w):
    import warnings

    with watching() as seen, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = case.cli(["visualize", what, w.cfgfile], w.dir_)
    return r, seen


def deviation(w, cells, want, tol):
    """None if the drawn cells show `want` (rows, cols, values), else what is wrong."""
    rows, cols, values = want
    g = w.spec["grid"]
    got, x, y, wide, high = cells
    if got.shape != values.shape:
        return f"{got.shape} cells drawn, expected {values.shape}"
    lat, lon = w.lat[rows].astype(float), w.lon[cols].astype(float)
    if y[0, 0] < y[-1, 0]:  # rows may be drawn from either side
        got, x, y, wide, high = got[::-1], x[::-1], y[::-1], wide[::-1], high[::-1]
    slack = 1e-3 * min(g["dlat"], g["dlon"])
    off = (x - lon[None, :] + 180) % 360 - 180
    if np.abs(y - lat[:, None]).max() > slack or np.abs(off).max() > slack:
        return f"cells drawn at lat {y[:, 0].tolist()} lon {x[0].tolist()}, data at {lat.tolist()} {lon.tolist()}"
    if np.abs(wide - g["dlon"]).max() > slack or np.abs(high - g["dlat"]).max() > slack:
        return f"cells drawn {wide.max():.4g} x {high.max():.4g} degrees wide and high, they are {g['dlon']} x {g['dlat']}"
    bad = ~(np.abs(got - values) <= tol * (np.abs(values) + np.abs(values).max()) + 1e-30)
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        return f"value drawn at {list(i)} is {got[i]:.8g}, the sum is {values[i]:.8g}"
    return None


# ------------------------------------------------------------------ expectations


def input_sum(w, rows, cols, cover):
    """Accumulated input of the tagging period: region x flux x seconds over its records."""
    name = "evap" if w.direction == "forward" else "precip"
    total = np.zeros((len(w.lat), len(w.lon)))
    for k, t in enumerate(w.times):
        if w.tag0 <= t <= w.tag1:
            weight = cover if cover is not None else w.mask(t)
            total += weight * w.fields[name][k].astype(float) * w.inf * 60
    return rows, cols, total[np.ix_(rows, cols)]


def days(a, b):
    t = a.replace(hour=0, minute=0, second=0)
    out = []
    while t <= b:
        out.append(t)
        t = t + W.minutes(1440)
    return out


def figure_times(w):
    """The times the known findings say the figure of outputs is limited to."""
    f = W.minutes(W.FREQ[w.outf])
    t, times = w.track0, []
    while t < w.track1:
        times.append(t)
        t = t + f
    return times[:-1] if w.direction == "backward" else times[1:]


def output_sum(w, outs, keys, rows, cols):
    names = ("e_track",) if w.direction == "backward" else ("p_track_lower", "p_track_upper")
    total = np.zeros((len(rows), len(cols)))
    for k in keys:
        for n in names:
            total += outs.by_key[k].field(n)
    return rows, cols, total


def hashes(*folders):
    res = {}
    for folder in folders:
        for f in sorted(os.listdir(folder)):
            p = os.path.join(folder, f)
            if os.path.isfile(p) and f.endswith(".nc"):
                with open(p, "rb") as fh:
                    res[p] = hashlib.sha1(fh.read()).hexdigest()
    return res


FILES = {"input": "input_event.png", "output": "cumulative_sources.png", "both": "summary_subplots.png"}


def run(spec, env):
    w = W.World(spec)
    g = spec["grid"]
    if spec["tag_in"]:
        w.tag0 = min(max(w.tag0, w.times[0]), w.times[-1])
        w.tag1 = min(max(w.tag1, w.tag0), w.times[-1])
    cover = None
    if w.region["kind"] == "shp":
        box = T03.rectangle(w, w.region["frac"])
        if box is None:
            raise Skip("no room for a rectangle")
        west, s, east, n = box
        w.region = {"kind": "shp", "rings": [[(west, s), (west, n), (east, n), (east, s), (west, s)]]}
        cover = T03.overlap(w.lat, g["dlat"], s, n)[:, None] * T03.overlap(w.lon, g["dlon"], west, east)[None, :]
    if spec.get("domain"):
        rows, cols, _ = W.domain_cells(w, spec["domain"])
        if len(rows) < 3 or len(cols) < 3:
            raise Skip("domain too small")
    else:
        rows, cols = list(range(len(w.lat))), list(range(len(w.lon)))
    present = cover if cover is not None else sum(w.mask(t) for t in w.times)
    if w.region["kind"] == "dyn":
        present = sum(np.asarray(x) for x in w.region["w"])
    inside = present[np.ix_(rows, cols)]
    if not (inside > 1e-6).any():
        raise Skip("region without cells in the domain")
    W.regime_labels(env, w)
    outs = w.run(env)
    env.label("region=" + w.region["kind"], "domain" if spec.get("domain") else "full-grid", w.direction)

    before = hashes(w.inputs, w.output)
    plan = [W.tkey(t) for t, _, _ in W.intervals(w)]
    if sorted(plan) != sorted(outs.by_key):
        raise Skip("outputs not on the documented schedule")
    have_days = {t.strftime("%Y-%m-%d") for t in w.times}
    need = [t.strftime("%Y-%m-%d") for t in days(w.tag0, w.tag1)]
    lacking = [d for d in need if d not in have_days]
    edge = lacking == need[-1:] and W.iso(w.tag1).endswith("T00:00")  # only its very end lies in a day without file
    limited = [W.tkey(t) for t in figure_times(w)]
    tol = 3e-6 if w.lat.dtype == np.float64 else 2e-5
    tol_in = tol if cover is None else max(tol, 1e-6 if w.lat.dtype == np.float64 else 2e-3)

    def judge_input(cells):
        if lacking and not edge:
            raise Violation(f"a figure of inputs was made although the input files of {lacking} are missing")
        want = input_sum(w, rows, cols, cover)
        wrong = deviation(w, cells, want, tol_in)
        if wrong:
            raise Violation(f"figure of inputs ({w.direction}, tagging {w.tag0} to {w.tag1}): {wrong}")
        env.nontrivial |= bool(want[2].any())
        env.label("input-figure")

    def judge_output(cells):
        want = output_sum(w, outs, plan, rows, cols)
        wrong = deviation(w, cells, want, tol)
        if wrong:
            cut = len(limited) > 0 and all(k in outs.by_key for k in limited) and set(limited) != set(plan)
            if not cut or deviation(w, cells, output_sum(w, outs, limited, rows, cols), tol):
                raise Violation(f"figure of outputs ({w.direction}, {len(plan)} outputs every {w.outf}): {wrong}")
            env.known_finding(
                "output-last-interval",
                "the figure of outputs leaves out the last output interval (of the outputs in chronological order)",
            )
        env.nontrivial |= bool(want[2].any())
        env.label("output-figure")

    input_must_work = not lacking
    for what in spec["commands"]:
        r, seen = visualize(what, w)
        failed = r.code != 0 or r.exc is not None
        if failed:
            text = r.describe()
            if r.code == 0:
                raise Violation(f"visualize {what} exits normally after {text}")
            if what in ("input", "both") and not input_must_work:
                env.label("missing-input-reported")
                continue
            if what == "input":
                raise Violation(f"visualize input failed: {text}")
            missing = [k for k in limited if k not in outs.by_key]
            if len(plan) < 2:
                env.label("single-output")
                continue
            if missing and "FileNotFoundError" in text and "Could not find all files" in text:
                env.known_finding(
                    "output-unaligned",
                    "visualising outputs fails if the tracking period does not start on a multiple of the output frequency",
                )
                continue
            if not limited and "Too few output files" in text:
                env.known_finding(
                    "output-last-interval",
                    "the figure of outputs leaves out the last output interval (of the outputs in chronological order)",
                )
                continue
            raise Violation(f"visualize {what} failed: {text}")
        target = os.path.join(w.output, "figures", FILES[what])
        if not os.path.isfile(target) or os.path.getsize(target) == 0:
            raise Violation(f"visualize {what} left no figure {target}")
        shown = [m for name, m in seen if os.path.basename(name) == FILES[what]]
        if len(shown) != 1:
            raise HarnessError(f"saved figures seen: {[n for n, _ in seen]}")
        maps = shown[0]
        if len(maps) != (2 if what == "both" else 1):
            raise HarnessError(f"{len(maps)} maps seen in the figure of {what}")
        if what in ("input", "both"):
            judge_input(maps[0])
        if what in ("output", "both"):
            judge_output(maps[-1])
        env.label(what)
    if hashes(w.inputs, w.output) != before:
        raise Violation("visualising changed data files")

    # ------------------------------------------------------------- missing files
    if spec["remove"] == "input" and not lacking:
        day = need[spec["victim"] % len(need)]
        if not (day == need[-1] and W.iso(w.tag1).endswith("T00:00")) and (
            isinstance(w.region_cfg, str) or day != days(w.track1, w.track1)[0].strftime("%Y-%m-%d")
        ):
            os.remove(f"{w.inputs}/{day}_fluxes_storages.nc")
            if w.region["kind"] != "shp" or os.listdir(w.inputs):
                for what in ("input", "both"):
                    r, seen = visualize(what, w)
                    if r.code == 0 or r.exc is None:
                        raise Violation(f"visualize {what} made a figure although the input file of {day} is missing")
                env.label("removed-input")
                env.nontrivial = True
    elif spec["remove"] == "output" and len(limited) > 1 and all(k in outs.by_key for k in limited) and not lacking:
        victims = [k for k in limited if k in plan]
        o = outs.by_key[victims[spec["victim"] % len(victims)]]
        os.remove(o.path)
        for what in ("output", "both"):
            r, seen = visualize(what, w)
            if r.code == 0 or r.exc is None:
                raise Violation(f"visualize {what} made a figure although {o.name} is missing")
        env.label("removed-output")
        env.nontrivial = True
