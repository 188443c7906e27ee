"""Transient read errors are retried without changing results."""

import os

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from wv import boot, case
from wv import world as W
from wv.case import Violation

ID = "T15"
LEVEL = "exploration"
TECHNIQUE = "property-based testing with fault injection on opening input files"
CASES = {"quick": 150, "thorough": 5000}
RULE = (
    "one case = one experiment run with a generated plan of faults (the error of remote servers for 1 to 8 consecutive "
    "attempts, a persistent one, other errors, a missing file, a missing record); non-trivial when the fault happens after "
    "the first step or is transient"
)
ASSUMPTIONS = [
    "a transient fault is an IndexError when opening a file through xarray (the error of remote servers named in the code)",
    "waiting is replaced by a recorded call of time.sleep",
]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=6, min_steps=2, kinds=("bbox",)))
    spec["outf"] = draw(st.sampled_from(["30min", "1h", "2h"]))
    spec["tag"] = [-60, spec["steps"] * spec["dt"] // 60 + 60]
    spec["fault"] = draw(st.sampled_from(["transient", "transient", "transient", "persistent", "other", "nofile", "norecord"]))
    spec["bursts"] = draw(st.lists(st.tuples(st.integers(0, 25), st.integers(1, 8)), min_size=1, max_size=4))
    spec["at"] = draw(st.integers(0, 25))
    spec["error"] = draw(st.sampled_from(["OSError", "ValueError", "KeyError", "RuntimeError", "FileNotFoundError", "PermissionError"]))
    return spec


class Faults:
    """Opens of input files fail according to a plan: {open number: (how often, error)}."""

    def __init__(self, folder, plan):
        self.folder, self.plan = folder, plan
        self.opens = 0
        self.raised = []
        self.left = 0
        self.error = None
        self.real = xr.open_dataset.real

    def __call__(self, name, *a, **k):
        if not str(name).startswith(self.folder):
            return self.real(name, *a, **k)
        if not self.left:
            n = self.opens
            self.opens += 1
            if n in self.plan:
                self.left, self.error = self.plan[n]
        if self.left:
            self.left -= 1
            self.raised.append(self.error)
            err = self.error(f"injected at open {self.opens - 1}")
            if not self.left:
                self.plan.pop(self.opens - 1, None)
                self.opens -= 1
            raise err
        return self.real(name, *a, **k)


def patched(faults, fn):
    slept = []
    boot.HOOK.update(sleep=slept.append, open_dataset=faults)
    try:
        return fn(), slept
    finally:
        boot.HOOK.clear()


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    kind = spec["fault"]
    env.label(kind)
    base = W.World(spec).run(env)
    w.prepare(env)
    case.write_json(w.cfgfile, w.config(w.inputs, w.output, w.region_cfg))
    go = lambda: case.cli(["track", w.cfgfile], w.dir_)
    counting = Faults(w.inputs, {})
    # count the opens of an undisturbed run in a separate process
    total = case.forked(lambda: (patched(counting, lambda: case.cli(["track", w.cfgfile], w.dir_)), counting.opens)[1])
    env.check(total > 0, "no input file was opened")
    import glob

    for f in glob.glob(w.output + "/*"):
        os.remove(f) if os.path.isfile(f) else None

    if kind == "transient":
        plan = {}
        for at, n in spec["bursts"]:
            plan[at % total] = (n, IndexError)
        n_faults = sum(n for n, _ in plan.values())
        faults = Faults(w.inputs, dict(plan))
        result, slept = patched(faults, go)
        case.must(env, result, f"track with transient faults {plan}")
        if len(faults.raised) != n_faults:
            raise case.HarnessError(f"{len(faults.raised)} of {n_faults} faults happened")
        if len(slept) < n_faults or not all(s > 0 for s in slept):
            raise Violation(f"{n_faults} failed attempts but waits {slept}")
        outs = W.Outputs(w.output)
        W.same_files(env, outs, base, "run with transient faults")
        for key, o in outs.by_key.items():
            for name in W.fields_of(w.direction):
                if not np.array_equal(o.vars[name], base.by_key[key].vars[name]):
                    raise Violation(f"{o.name}: {name} differs after transient read errors")
        env.nontrivial = True
        return

    at = spec["at"] % total
    if kind in ("persistent", "other"):
        error = IndexError if kind == "persistent" else {
            e.__name__: e for e in (OSError, ValueError, KeyError, RuntimeError, FileNotFoundError, PermissionError)
        }[spec["error"]]
        faults = Faults(w.inputs, {at: (10**9, error)})
        result, slept = patched(faults, go)
        if result.code == 0:
            raise Violation(f"{error.__name__} at every attempt to open input {at} but the run ended normally")
        if not isinstance(result.exc, error):
            raise Violation(f"{error.__name__} persisted, the run failed with {result.describe()}")
        if kind == "other" and slept and len(slept) > 20:
            raise Violation(f"{error.__name__} was retried {len(slept)} times")
        done = W.Outputs(w.output)
        check_prefix(w, done, base)
        env.nontrivial = at > 1
    else:
        # a file or a record that some step needs is not there
        k = spec["at"] % w.nrec
        day = w.times[k].strftime("%Y-%m-%d")
        idx = [i for i, t in enumerate(w.times) if t.strftime("%Y-%m-%d") == day]
        gone = set(idx) if kind == "nofile" else {k}
        path = f"{w.inputs}/{day}_fluxes_storages.nc"
        if kind == "nofile":
            os.remove(path)
        else:
            import netCDF4

            with netCDF4.Dataset(path, "a") as nc:
                v = nc.variables["time"]
                v[idx.index(k)] = int(v[idx.index(k)]) + 7  # another time
        bad = failing_step(w, gone)
        result, _ = patched(Faults(w.inputs, {}), go)
        if bad is None:
            case.must(env, result, "track without a file it does not need") if kind == "nofile" else None
            return
        if result.code == 0:
            raise Violation(f"the {kind[2:]} for {w.times[k]} is missing but the run ended normally")
        if kind == "nofile" and not isinstance(result.exc, OSError):
            raise Violation(f"the {kind[2:]} for {w.times[k]} is missing and the run failed with {result.describe()}")
        done = W.Outputs(w.output)
        check_prefix(w, done, base, bad)
        env.nontrivial = bad > 0


def failing_step(w, gone):
    for n, (ta, th, tb) in enumerate(w.step_list()):
        for t in (ta, th, tb):
            x = (t - w.start).total_seconds() / (w.inf * 60)
            need = {int(x // 1)} | ({int(x // 1) + 1} if x % 1 else set())
            if need & gone:
                return n
    return None


def check_prefix(w, done, base, bad=None):
    """The outputs written are the first ones and as without the fault."""
    order = [W.tkey(t) for _, t in w.output_times()]
    have = [k for k in order if k in done.by_key]
    if sorted(have) != sorted(done.by_key) or have != order[: len(have)]:
        raise Violation(f"outputs at {sorted(done.by_key)} after a failure, schedule {order}")
    if bad is not None:
        allowed = [W.tkey(t) for n, t in w.output_times() if n < bad]
        if have != allowed:
            raise Violation(f"step {bad} must fail: outputs {have} were written, {allowed} are possible")
    for key in have:
        for name in W.fields_of(w.direction):
            if not np.array_equal(done.by_key[key].vars[name], base.by_key[key].vars[name]):
                raise Violation(f"{done.by_key[key].name}: {name} differs although it precedes the failure")
