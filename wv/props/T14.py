"""The progress report agrees with the outputs and closes to 100%."""

import glob
import re

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation

ID = "T14"
TECHNIQUE = "property-based testing: percentages recomputed from the outputs; budget closure invariant"
CASES = {"quick": 200, "thorough": 7000}
RULE = (
    "one case = one experiment whose log lines are compared with area-weighted sums of all outputs up to then; non-trivial "
    "when at least one line follows tagging and at least two percentages are above 0.05"
)
ASSUMPTIONS = ["the budget closes in cos(latitude) weights only away from the poles; rows reach at most 80 degrees"]

LINE = re.compile(
    r"^(\S+ \S+) - Tracked moisture: (\S+)%\. Tagged in atmosphere: (\S+)%\. Boundary transport: (\S+)%\. "
    r"Lost moisture: (\S+)%\. Gained moisture: (\S+)%\. Tagging closure: (\S+)%\."
)


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=12 if tier == "quick" else 30))
    g = spec["grid"]
    span = g["dlat"] * (g["ny"] - 1)
    g["lat0"] = max(-80 + span, min(80.0, g["lat0"]))
    if spec["region"]["kind"] == "bbox":
        spec["region"] = {"kind": "mask", "w": W.weights(draw, g["ny"], g["nx"])}
    spec["outf"] = draw(st.sampled_from(["30min", "1h", "2h", "3h", "6h"]))
    if draw(st.integers(0, 2)):
        spec["tag"] = [-60, spec["steps"] * spec["dt"] // 60 + 60]
    spec["F"]["courant"] = draw(st.sampled_from([0.3, 3.0, 50.0, 0.05]))
    spec["F"]["s_upper"] = draw(st.sampled_from([10.0, 1.0, 0.1]))
    return W.variants(draw, spec)


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    w = W.as_tracked(env, w)
    logs = glob.glob(outs.folder + "/*.log")
    env.check(len(logs) == 1, f"log files: {logs}")
    lines = {}
    order = []
    for line in open(logs[0]):
        m = LINE.match(line)
        if m:
            lines[m.group(1)] = [float(x) for x in m.groups()[1:]]
            order.append(m.group(1))
    want = [str(t) for _, t in w.output_times()]
    if order != want:
        raise Violation(f"progress lines for {order}, outputs at {want}")
    area = np.cos(np.deg2rad(w.lat.astype(float)))[:, None]
    edge = np.ones((len(w.lat), len(w.lon)), bool)
    edge[1:-1, (slice(None) if w.periodic else slice(1, -1))] = False
    tot = dict.fromkeys(("tagged", "tracked", "boundary", "lost", "gained"), 0.0)
    tracked = ("p_track_upper", "p_track_lower") if w.direction == "forward" else ("e_track",)
    good = 0
    for _, t in w.output_times():
        o = outs.by_key[W.tkey(t)]
        s = lambda n, cells=slice(None): float((o.field(n) * area)[cells].sum())
        tot["tagged"] += s(W.tagged_name(w.direction))
        tot["tracked"] += sum(s(n) for n in tracked)
        tot["boundary"] += s("losses", edge)
        tot["lost"] += s("losses", ~edge)
        tot["gained"] += s("gains")
        stored = sum(s(n) for n in W.REST)
        if tot["tagged"] <= 0:
            env.label("before-tagging")
            continue
        got = dict(zip(("tracked", "stored", "boundary", "lost", "gained", "closure"), lines[str(t)]))
        expect = {k: 100 * tot[k] / tot["tagged"] for k in ("tracked", "boundary", "lost", "gained")}
        expect["stored"] = 100 * stored / tot["tagged"]
        biggest = max(max(abs(v) for v in expect.values()), 100)
        for k, v in expect.items():
            if not abs(got[k] - v) <= 0.0051 + 1e-5 * biggest:
                raise Violation(f"{t}: reported {k} {got[k]}%, the outputs give {v:.4f}%")
        budget = expect["tracked"] + expect["stored"] + expect["boundary"] + expect["lost"] - expect["gained"]
        env.metric("budget", abs(budget - 100) / biggest)
        if not abs(got["closure"] - 100) <= 0.0051 + 3e-5 * biggest * (1 if w.lat.dtype == np.float64 else 30):
            raise Violation(f"{t}: tagging closure reported as {got['closure']}%, the budget of the outputs is {budget:.4f}%")
        good += sum(v > 0.05 for v in expect.values()) >= 2
    env.label("with-gains" if tot["gained"] else "no-gains", "with-losses" if tot["lost"] else "no-losses")
    env.nontrivial = good > 0
