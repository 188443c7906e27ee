"""Generated-input search: workers, isolation, shrinking, evidence."""

import gc
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from wv import boot
from wv.case import Env, HarnessError, Skip, Violation

CASE_LIMIT = 120.0  # seconds; a case takes about one second
RETRY_LIMIT = 300.0


class StopSearch(BaseException):
    pass


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def digest(spec):
    return hashlib.sha1(canon(spec).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ one case


def evaluate(prop, spec, root):
    """Run one case in this process and return a plain result."""
    env = Env(root)
    res = {"status": "ok", "message": ""}
    try:
        prop.run(spec, env)
    except Violation as e:
        res = {"status": "violation", "message": str(e)}
    except Skip as e:
        res = {"status": "skip", "message": str(e)}
    except (HarnessError, MemoryError) as e:
        res = {"status": "error", "message": f"{type(e).__name__}: {e}"}
    except OSError as e:
        tb = traceback.format_exc()
        if e.errno in (12, 24, 28):  # no memory, too many files, no space
            res = {"status": "error", "message": tb[-1500:]}
        else:
            res = {"status": "violation", "message": "unexpected " + _brief(e)}
    except Exception as e:
        res = {"status": "violation", "message": "unexpected " + _brief(e)}
    res.update(
        labels=env.labels, nontrivial=env.nontrivial, known=env.known, metrics=env.metrics
    )
    return res


def _brief(e):
    frames = traceback.extract_tb(e.__traceback__)[-4:]
    where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(frames))
    return f"{type(e).__name__}: {str(e)[:400]} at {where}"


def isolated(prop, spec, scratch, limit=CASE_LIMIT):
    """Run one case in a forked child with its own scratch folder."""
    root = tempfile.mkdtemp(prefix="case-", dir=scratch)
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid()
            os.close(r)
            devnull = os.open(os.devnull, os.O_RDWR)
            os.dup2(devnull, 0)
            if not os.environ.get("WV_DEBUG"):
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
            os.chdir(root)
            random.seed(0)
            import numpy

            numpy.random.seed(0)
            res = evaluate(prop, spec, root)
            with os.fdopen(w, "w") as f:
                f.write(json.dumps(res, default=str))
        except BaseException:
            code = 7
        finally:
            os._exit(code)
    os.close(w)
    chunks, deadline, timed_out = [], time.monotonic() + limit, False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, status = os.waitpid(pid, 0)
    shutil.rmtree(root, ignore_errors=True)
    base = {"labels": [], "nontrivial": False, "known": {}, "metrics": {}}
    if timed_out:
        return {"status": "timeout", "message": f"no answer within {limit:.0f} s", **base}
    try:
        return json.loads(b"".join(chunks).decode())
    except ValueError:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        kind = "error" if sig in (0, signal.SIGKILL) else "crash"
        return {"status": kind, "message": f"child ended with status {status}", **base}


def judged(prop, spec, scratch):
    """A case, with hangs and crashes confirmed by a second run."""
    res = isolated(prop, spec, scratch)
    if res["status"] in ("timeout", "crash"):
        again = isolated(prop, spec, scratch, RETRY_LIMIT)
        if again["status"] == res["status"]:
            again["status"] = "violation"
            again["message"] = "the program " + (
                "does not terminate: " if res["status"] == "timeout" else "crashes the process: "
            ) + again["message"]
        return again
    return res


# ------------------------------------------------------------------ a worker


def worker(pid_name, wid, nworkers, tier, seed, budget, scratch, out, stop):
    os.nice(0)
    prop = importlib.import_module(f"wv.props.{pid_name}")
    stats = {
        "evaluations": 0,
        "skips": 0,
        "nontrivial": [],
        "labels": {},
        "samples": [],
        "known": {},
        "metrics": {},
        "errors": [],
        "failure": None,
        "invalid": 0,
    }
    t_end = time.monotonic() + budget
    state = {"best": None, "first": None, "calls": 0}
    seen = {}
    gc.collect()
    gc.freeze()

    def one(spec):
        key = digest(spec)
        if key in seen:
            return seen[key]
        res = judged(prop, spec, scratch)
        stats["evaluations"] += 1
        if res["status"] == "skip":
            stats["skips"] += 1
        if res["status"] == "error":
            stats["errors"].append({"spec": spec, "message": res["message"]})
            if len(stats["errors"]) >= 3:
                raise StopSearch
        if res["nontrivial"] and res["status"] != "skip":
            stats["nontrivial"].append(key)
            if len(stats["samples"]) < 2:
                stats["samples"].append(spec)
        for name in res["labels"]:
            stats["labels"][name] = stats["labels"].get(name, 0) + 1
        for name, val in res["metrics"].items():
            stats["metrics"][name] = max(stats["metrics"].get(name, 0.0), val)
        stats["known"].update(res["known"])
        if res["status"] == "violation":
            size = len(canon(spec))
            if state["best"] is None or size <= state["best"][0]:
                state["best"] = (size, spec, res["message"])
            if state["first"] is None:
                state["first"] = time.monotonic()
                stop.set()
        seen[key] = res["status"], res["message"]
        return seen[key]

    shrink_s = 40.0 if tier == "quick" else 120.0
    try:
        examples = list(getattr(prop, "examples", lambda: [])())
        for i, spec in enumerate(examples):
            if i % nworkers == wid:
                spec = json.loads(canon(spec))
                one(spec)
                if state["best"] or stop.is_set():
                    raise StopSearch

        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        n = prop.CASES[tier]
        n = max(1, -(-n // nworkers))

        @hypothesis.seed((seed * 1000003 + wid * 7919 + int(prop.ID[1:]) * 31) % (1 << 32))
        @settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )
        @given(prop.strategy(tier))
        def search(spec):
            now = time.monotonic()
            if state["first"] is None:
                if now > t_end or stop.is_set():
                    raise StopSearch
            elif now > state["first"] + shrink_s:
                raise StopSearch
            status, message = one(json.loads(canon(spec)))
            if status == "violation":
                raise Violation(message)

        search()
    except StopSearch:
        pass
    except Violation:
        pass
    except BaseException as e:
        if state["best"] is None:
            stats["errors"].append({"spec": None, "message": traceback.format_exc()[-2000:]})
        del e
    if state["best"]:
        stats["failure"] = {"spec": state["best"][1], "message": state["best"][2]}
    stats["truncated"] = time.monotonic() > t_end
    out.put((wid, stats))
    out.close()
    out.join_thread()
    os._exit(0)


# ------------------------------------------------------------------ known findings


def findings(prop_id):
    path = os.path.join(boot.VERIF, "KNOWN_FINDINGS.txt")
    known = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                parts = line[6:].split(None, 2)
                if parts[0] == f"property={prop_id}":
                    known[parts[1].removeprefix("key=")] = parts[2]
    return known


# ------------------------------------------------------------------ a check


def scratch_dir():
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and _free("/dev/shm") > 4e9 else None
    return tempfile.mkdtemp(prefix="wv-", dir=base)


def _free(path):
    s = os.statvfs(path)
    return s.f_bavail * s.f_frsize


def replay(prop_id, path):
    prop = importlib.import_module(f"wv.props.{prop_id}")
    with open(path) as f:
        spec = json.load(f)["spec"]
    scratch = scratch_dir()
    try:
        res = judged(prop, spec, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return finish_single(prop_id, res, path)


def finish_single(prop_id, res, path):
    known = findings(prop_id)
    for key, text in res["known"].items():
        if key in known:
            print(f"KNOWN-FINDING: property={prop_id} {known[key]}")
        else:
            res = {"status": "violation", "message": f"unlisted finding {key}: {text}"}
    if res["status"] == "violation":
        print(f"  {res['message']}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    if res["status"] in ("error",):
        print(f"ERROR: {res['message']}")
        return 2
    print(f"ok ({res['status']}) {res['message']} {res.get('labels')}")
    return 0


def check(prop_id, tier, seed):
    t0 = time.monotonic()
    prop = importlib.import_module(f"wv.props.{prop_id}")
    known_list = findings(prop_id)
    nworkers = min(getattr(prop, "WORKERS", 8), max(2, os.cpu_count() or 2))
    budget = getattr(prop, "BUDGET", {}).get(tier, 240.0 if tier == "quick" else 1800.0)
    scratch = scratch_dir()
    ctx = mp.get_context("fork")
    out, stop = ctx.Queue(), ctx.Event()
    procs = []
    all_stats = {}
    try:
        for wid in range(nworkers):
            p = ctx.Process(
                target=worker,
                args=(prop_id, wid, nworkers, tier, seed, budget, scratch, out, stop),
            )
            p.start()
            procs.append(p)
        pending = set(range(nworkers))
        while pending:
            try:
                wid, stats = out.get(timeout=1.0)
                all_stats[wid] = stats
                pending.discard(wid)
            except queue.Empty:
                for wid in list(pending):
                    if not procs[wid].is_alive():
                        try:
                            w2, stats = out.get(timeout=2.0)
                            all_stats[w2] = stats
                            pending.discard(w2)
                        except queue.Empty:
                            pending.discard(wid)
                            all_stats.setdefault(wid, None)
        for p in procs:
            p.join(timeout=10)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)

    errors, failures, labels, known, metrics = [], [], {}, {}, {}
    nontrivial, samples, evaluations, skips, lost = set(), [], 0, 0, 0
    truncated = False
    for wid in sorted(all_stats):
        s = all_stats[wid]
        if s is None:
            lost += 1
            continue
        evaluations += s["evaluations"]
        skips += s["skips"]
        nontrivial.update(s["nontrivial"])
        samples.extend(s["samples"])
        errors.extend(s["errors"])
        truncated |= s["truncated"]
        known.update(s["known"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["metrics"].items():
            metrics[k] = max(metrics.get(k, 0.0), v)
        if s["failure"]:
            failures.append(s["failure"])
    for key, text in sorted(known.items()):
        if key not in known_list:
            failures.append({"spec": None, "message": f"finding {key} is not listed: {text}"})
    failures.sort(key=lambda f: len(canon(f["spec"])))

    wall = time.monotonic() - t0
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": samples[:4],
            "skipped": skips,
            "labels": dict(sorted(labels.items())),
            "largest_deviation": metrics,
            "stopped_by_time_budget": truncated,
            "workers": nworkers,
        },
        "wall_s": round(wall, 2),
        "violations": len(failures),
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop_id}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for key in sorted(known):
        if key in known_list:
            print(f"KNOWN-FINDING: property={prop_id} {known_list[key]}")
    print(
        f"{prop_id} {tier} seed={seed}: {evaluations} cases, {len(nontrivial)} distinct non-trivial, "
        f"{skips} skipped, {wall:.1f} s" + (" (time budget reached)" if truncated else "")
    )
    if failures:
        rdir = os.path.join(boot.VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        f0 = failures[0]
        path = os.path.join(rdir, f"{prop_id}-{digest(f0['spec'])}.json")
        with open(path, "w") as f:
            json.dump({"property": prop_id, **f0}, f, indent=1)
        print(f"  {f0['message'][:1500]}")
        print(f"VIOLATION property={prop_id} replay={path}")
        return 1
    if errors:
        for e in errors[:3]:
            print(f"ERROR: {e['message']}\n  spec: {canon(e['spec'])[:600]}")
        return 2
    if lost:
        print(f"ERROR: {lost} workers ended without a result")
        return 2
    if evaluations - skips == 0 or not nontrivial:
        print("ERROR: no non-trivial case was generated")
        return 2
    return 0
