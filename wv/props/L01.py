"""Commands do what the configuration says and leave a record."""

import glob
import json
import os
import shutil

from hypothesis import strategies as st

from wv import boot, case, raw
from wv import world as W
from wv.case import Violation

ID = "L01"
TECHNIQUE = "property-based testing: generated command histories (locations, working directories, repetition, faults) against a model of what each leaves"
CASES = {"quick": 150, "thorough": 5000}
RULE = (
    "one case = a history of one to four commands, each a process of its own, with generated location and spelling of the "
    "configuration file, working directory, folder contents and injected faults; non-trivial when two commands succeed, a "
    "fault is injected, or the configuration lies in the results folder"
)
ASSUMPTIONS = ["the results folder is local and writable"]

NAMES = ["config.yaml", "my experiment.yaml", "räin ☂.yml", "a.b.json", "noext"]
PLACES = ["exp", "exp", "results", "elsewhere", "parent", "link-in-results"]
SPELL = ["abs", "rel", "dotrel"]
TRACK_FAULTS = ["no-input", "broken-input", "no-region", "bad-dates", "no-file", "bad-yaml", "unknown-direction", "file-as-folder"]
PREP_FAULTS = ["no-raw", "bad-dates", "no-file", "bad-yaml", "missing-variable", "file-as-folder"]
VIS_FAULTS = ["no-input", "no-file", "bad-yaml", "no-output"]
RUNS_AND_FAILS = ("no-input", "broken-input", "no-raw", "missing-variable", "no-output")


@st.composite
def event(draw):
    cmd = draw(st.sampled_from(["track", "track", "track", "preprocess", "preprocess", "visualize input", "visualize output", "visualize both", "backtrack", "forwardtrack"]))
    fault = None
    if draw(st.integers(0, 3)) == 0:
        fault = draw(st.sampled_from({"t": TRACK_FAULTS, "p": PREP_FAULTS, "v": VIS_FAULTS}.get(cmd[0], [None])))
    return {
        "cmd": cmd,
        "fault": fault,
        "place": draw(st.sampled_from(PLACES)),
        "name": draw(st.sampled_from(NAMES)),
        "spell": draw(st.sampled_from(SPELL)),
        "cwd": draw(st.sampled_from(["exp", "exp", "results", "elsewhere"])),
        "source": draw(st.sampled_from(["era5", "cmip", "arco-era5"])),
        "debug": draw(st.integers(0, 3)) == 0,
        "dir": draw(st.sampled_from(["forward", "backward"])),
        "out": draw(st.sampled_from(["out", "out", "out 2", "new/deep"])),
        "relout": draw(st.booleans()),
        "parallel": draw(st.integers(0, 3)) == 0,
        "stale": draw(st.sampled_from([None, None, "same-size", "newer", "older"])),
        "head": draw(st.sampled_from(["", "# configuration\n", "# Käfer ☂ 𝄞\r\n\r\n", "---\n# a\n", "\n\n"])),
        "tail": draw(st.sampled_from(["", "\n", "\n# end", "\n\n...\n"])),
    }


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=4, min_steps=3, kinds=("bbox", "mask"), max_span=720, aligned=True, full_tag=True))
    spec["outf"] = {1800: "30min", 3600: "1h", 600: "10min", 900: "15min", 2700: "90min", 5400: "90min", 1200: "1h", 7200: "2h", 10800: "3h"}[spec["dt"]]
    spec["start"] = spec["start"][:10] + "T00:00"
    at = draw(raw.atmospheres(kind="ml", freqs=("1h", "3h"), nt=(1, 2), tcw=False))
    at["grid"] = {"ny": 2, "nx": 3, "lat0": 10.0, "dlat": 1.0, "lon0": 4.0, "dlon": 1.0}
    pl = draw(raw.atmospheres(kind="pl", freqs=("6h",), nt=(1, 2), tcw=False))
    pl.update(grid=at["grid"], start=pl["start"][:11] + "06:00", pre=0, extra=[], levels=sorted(set(pl["levels"]) | {300}))
    n = draw(st.integers(1, 4 if tier == "quick" else 8))
    events = []
    for e in [draw(event()) for _ in range(n)]:
        if e["cmd"] in ("visualize output", "visualize both") and e["fault"] is None and draw(st.integers(0, 3)):
            first = dict(draw(event()), cmd="track", fault=None, dir=e["dir"], out=e["out"])
            first["name"] = draw(st.sampled_from([x for x in NAMES if x != e["name"]]))
            events.append(first)
        events.append(e)
    return {"world": spec, "atmos": at, "pl": pl, "events": events}


def snapshot(folder):
    res = {}
    for base, _, files in os.walk(folder):
        for f in files:
            p = os.path.join(base, f)
            if not os.path.islink(p):
                with open(p, "rb") as fh:
                    res[os.path.relpath(p, folder)] = (fh.read(), os.stat(p).st_mtime_ns)
    return res


def logs(folder):
    return {p: (os.stat(p).st_mtime_ns, open(p, "rb").read()) for p in glob.glob(glob.escape(folder) + "/*.log")}


def recorded(results, name, data, old_logs, what):
    """There is a copy of the configuration and a new log."""
    copy = os.path.join(results, name)
    if not os.path.isfile(copy):
        raise Violation(f"{what}: no copy of the configuration in the results folder, it has {sorted(os.listdir(results))}")
    with open(copy, "rb") as fh:
        if fh.read() != data:
            raise Violation(f"{what}: the copy of the configuration differs from the file given")
    changed = {p: b[1] for p, b in logs(results).items() if old_logs.get(p) != b}
    if not changed:
        raise Violation(f"{what}: no log file in the results folder {sorted(os.listdir(results))}")
    return changed


def text_of(content, e):
    """Valid YAML with generated decoration around the settings."""
    return (e["head"] + json.dumps(content, indent=1, ensure_ascii=False) + e["tail"]).encode()


def run(spec, env):
    root = env.dir("root")
    w = W.World(spec["world"])
    if not w.mask(w.track0).any():
        w.region = {"kind": "mask", "w": [[1.0] * len(w.lon)] * len(w.lat)}
    exp = os.path.join(root, "exp")
    elsewhere = os.path.join(root, "else where")
    os.makedirs(exp)
    os.makedirs(elsewhere)
    inputs = w.write_inputs(os.path.join(exp, "in"))
    region = w.write_region(os.path.join(exp, "region"))
    ats = {
        "era5": raw.Atmos(spec["atmos"]),
        "cmip": raw.Atmos(dict(spec["pl"], cal="noleap")),
        "arco-era5": raw.Atmos(dict(spec["pl"], cal="proleptic_gregorian", tcw=True)),
    }
    plain = {"lat": "desc", "lon": "360", "ctype": "f8"}
    templates = {
        "era5": raw.write_era5(ats["era5"], os.path.join(exp, "raw"), dict(plain, split="one", ztype="f8", tunits="seconds since 1900-01-01")),
        "cmip": raw.write_cmip(ats["cmip"], os.path.join(exp, "raw cmip"), plain),
        "arco-era5": "unused",
    }
    store = raw.arco_store(ats["arco-era5"], plain)
    tracked = {}  # results folder -> directions tracked there
    good = 0
    for i, e in enumerate(spec["events"]):
        if e["cmd"] in ("backtrack", "forwardtrack"):
            r = case.fresh_cli([e["cmd"]], exp)
            if r.code == 0:
                raise Violation(f"the removed command {e['cmd']} ends normally")
            continue
        prep = e["cmd"] == "preprocess"
        results = os.path.join(exp, ("pre " if prep else "") + e["out"])
        existed = os.path.isdir(results)
        before_run = set(os.listdir(results)) if existed else set()

        # -------- the configuration
        cwd = {"exp": exp, "results": results, "elsewhere": elsewhere}[e["cwd"]]
        if cwd == results and not existed:
            cwd = exp
        named = os.path.relpath(results, cwd) if e["relout"] else results
        if prep:
            at, source = ats[e["source"]], e["source"]
            content = raw.config(at, templates[source], named, os.path.join(exp, "unused"))
            if e.get("parallel"):
                content.update(parallel_preprocess=True, parallel_processes=2)
        else:
            content = w.config(inputs, named, region, tracking_direction=e["dir"])
        undo = []
        f = e["fault"]
        if prep and source == "arco-era5" and f == "no-raw":  # it has no files
            f = "missing-variable"
        expect_failure = f is not None
        if f == "no-input" or (f == "broken-input"):
            days = sorted(glob.glob(inputs + "/*.nc"))
            for p in days:
                shutil.move(p, p + ".away")
                undo.append((p + ".away", p))
                if f == "broken-input":
                    with open(p + ".away", "rb") as src, open(p, "wb") as dst:
                        dst.write(src.read()[:100])
        elif f == "no-region":
            content["tagging_region"] = os.path.join(exp, "no such region.nc")
        elif f == "bad-dates":
            b = "preprocess_end_date" if prep else "tracking_end_date"
            content[b] = "1850-01-01T00:00"  # before the start
        elif f == "unknown-direction":
            content["tracking_direction"] = "sideways"
        elif f == "no-raw":
            content["filename_template"] = os.path.join(exp, "no such", "{variable}.nc")
        elif f == "missing-variable" and source != "arco-era5":
            p = sorted(glob.glob(os.path.join(exp, "raw" if source == "era5" else "raw cmip") + "/*"))[0]
            shutil.move(p, p + ".away")
            undo.append((p + ".away", p))
        elif f == "no-output" and e["cmd"] != "visualize input":
            content["output_folder"] = results = os.path.join(exp, f"empty{i}")
            existed = False
        elif f == "no-output":
            expect_failure, f = False, None
        if f == "file-as-folder":
            results = os.path.join(exp, f"afile{i}")
            with open(results, "w") as fh:
                fh.write("x")
            content["preprocessed_data_folder" if prep else "output_folder"] = results
            before_run, existed = set(), False

        # -------- where it lies
        place = e["place"]
        if f in ("file-as-folder", "no-output") and "results" in place:
            place = "exp"
        if "results" in place and not os.path.isdir(results):
            os.makedirs(results)
            existed = True
        folder = {"exp": exp, "results": results, "elsewhere": elsewhere, "parent": root, "link-in-results": exp}[place]
        cfg = os.path.join(folder, e["name"])
        data = text_of(content, e)
        if f == "bad-yaml":
            data = b"{unclosed: [1, 2" + data
        if os.path.islink(cfg):
            os.remove(cfg)
        with open(cfg, "wb") as fh:
            fh.write(data)
        arg = cfg
        if place == "link-in-results":
            arg = os.path.join(results, e["name"])
            if os.path.lexists(arg):
                os.remove(arg)
            os.symlink(cfg, arg)
        if e["spell"] != "abs":
            arg = os.path.relpath(arg, cwd)
            if e["spell"] == "dotrel" and not arg.startswith("."):
                arg = "./" + arg
        if f == "no-file":
            arg = os.path.join(folder, "no such file.yaml")

        # -------- something of others in the folder
        if os.path.isdir(results):
            with open(os.path.join(results, "notes.txt"), "w") as fh:
                fh.write(f"mine {i}")
            if e.get("stale") and place not in ("results", "link-in-results"):  # an earlier version of the configuration
                old = os.path.join(results, e["name"])
                if os.path.lexists(old):
                    os.remove(old)
                with open(old, "wb") as fh:
                    fh.write(data[:-1] + bytes([data[-1] ^ 1]) if e["stale"] == "same-size" else b"# " + data)
                if e["stale"] != "older":
                    now = os.stat(cfg).st_mtime + (0 if e["stale"] == "same-size" else 3600)
                    os.utime(old, (now, now))
        before = snapshot(results) if os.path.isdir(results) else {}
        old_logs = logs(results)

        # -------- run
        sub = ["preprocess", source] if prep else e["cmd"].split()
        if prep:
            gone = ["evaporation"] if f == "missing-variable" else []
            boot.HOOK["open_zarr"] = raw.opener(store.drop_vars(gone))
        r = case.fresh_cli((["--debug"] if e["debug"] else []) + sub + [arg], cwd)
        boot.HOOK.pop("open_zarr", None)
        for a, b in undo:
            shutil.move(a, b)
        what = f"{' '.join(sub)} (config in {place}, cwd {e['cwd']}, fault {f})"
        env.label(" ".join(sub), f"place={place}", f"fault={f}")
        visual = e["cmd"].startswith("visualize")
        if visual and not expect_failure and e["cmd"] != "visualize input":
            expect_failure = None if e["dir"] not in tracked.get(results, ()) else False
        if expect_failure:
            env.nontrivial = True
            if r.code == 0:
                raise Violation(f"{what} ends normally")
            if f in RUNS_AND_FAILS:  # the configuration is fine: the record is there all the same
                recorded(results, e["name"], data, old_logs, what)
            continue
        if expect_failure is None:  # nothing tracked that way there
            if r.code == 0:
                raise Violation(f"{what} ends normally although there are no {e['dir']} results in {os.listdir(results)}")
            continue
        if r.code != 0 or r.exc is not None:
            if visual and e["cmd"] != "visualize input" and known_visual(r):
                continue
            raise Violation(f"{what} failed on valid input: {r.describe()}")
        good += 1
        env.nontrivial |= good >= 2 or "results" in place

        # -------- record
        with open(cfg, "rb") as fh:
            if fh.read() != data:
                raise Violation(f"{what} changed the configuration file")
        changed = recorded(results, e["name"], data, old_logs, what)
        lines = [x for b in changed.values() for x in b.decode("utf8", "replace").splitlines() if x.strip()]
        if not lines:
            raise Violation(f"{what}: the log is empty")
        shown = set(r.output.splitlines())
        own = not (prep and e.get("parallel"))  # lines of worker processes do not pass through the captured terminal
        if own and not shown & set(lines):
            raise Violation(f"{what}: nothing of the {len(lines)} log lines is shown on the terminal")
        if e["debug"] and own:
            hidden = [x for x in lines if x not in shown]
            if hidden:
                raise Violation(f"{what} --debug does not show the log line {hidden[0]!r}")

        text = "\n".join(lines)
        for level, message in r.records if own else ():  # (level and text of what the program reports)
            first = message.strip().splitlines()[:1]
            if first and level >= 10 and first[0] not in text:
                raise Violation(f"{what}: the log lacks the message {first[0]!r}")
            if first and level >= 20 and first[0] not in r.output:
                raise Violation(f"{what}: the message {first[0]!r} is not shown on the terminal")
            if first and level == 10 and not e["debug"] and first[0] in shown:
                raise Violation(f"{what}: the debug message {first[0]!r} is shown without --debug")

        # -------- results
        after = snapshot(results)
        lost = [k for k, v in before.items() if k not in after]
        if lost:
            raise Violation(f"{what} removed {lost}")
        touched = {k for k in after if before.get(k) != after[k]}
        # (runs in the same folder replace their own kind of files only)
        if e["cmd"] == "track":
            prefix = "forwardtrack" if e["dir"] == "forward" else "backtrack"
            v = W.World(dict(spec["world"], dir=e["dir"]))
            want = {f"{prefix}_{t.strftime('%Y-%m-%dT%H-%M')}.nc" for _, t in v.output_times()}
            have = {k for k in touched if k.endswith(".nc") and os.sep not in k}
            if have != want:
                raise Violation(f"{what} with direction {e['dir']} wrote {sorted(have)}, expected {sorted(want)}")
            unlogged = [n for n in want if not any(n in x for x in lines)]
            if unlogged:
                raise Violation(f"{what}: the log does not mention {unlogged}")
            tracked.setdefault(results, set()).add(e["dir"])
        elif prep:
            want = {t.strftime("%Y-%m-%d") + "_fluxes_storages.nc" for t in at.req}
            missing = [n for n in want if n not in after]
            if missing:
                raise Violation(f"{what} did not write {missing}")
        else:
            figures = [k for k in touched if k.endswith(".png")]
            if len([k for k in after if k.endswith(".png")]) < 1 or not (figures or before):
                raise Violation(f"{what} left no figure")
        allowed = {os.path.basename(p) for p in changed} | {e["name"]}
        foreign = [
            k for k in touched
            if k in before and os.path.basename(k) not in allowed and not k.endswith((".nc", ".png"))
        ]
        if foreign:
            raise Violation(f"{what} changed {foreign}")


def known_visual(r):
    """V01's findings about which outputs the figures look for."""
    text = r.describe()
    return "Could not find all files" in text or "Too few output files" in text
