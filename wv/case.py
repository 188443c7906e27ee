"""What a property's `run(spec, env)` gets to work with."""

import contextlib
import io
import json
import logging
import os
import shutil
import tempfile
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The check itself cannot work (missing resources, broken harness)."""


class Skip(Exception):
    """The case says nothing (counted, never a violation)."""


class Env:
    def __init__(self, root):
        self.root = root
        self.labels = []
        self.nontrivial = False
        self.known = {}
        self.n = 0
        self.metrics = {}

    def dir(self, name="d"):
        self.n += 1
        path = os.path.join(self.root, f"{name}{self.n}")
        os.makedirs(path)
        return path

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def known_finding(self, key, text):
        self.known[key] = text

    def metric(self, name, value):
        """Keep the largest value seen (tolerance monitoring)."""
        self.metrics[name] = max(self.metrics.get(name, 0.0), float(value))

    def check(self, ok, message, *args):
        if not ok:
            raise Violation(message.format(*args) if args else message)


# ------------------------------------------------------------------ running the program


@contextlib.contextmanager
def chdir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def reset_logging():
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
        with contextlib.suppress(Exception):
            h.close()


class Result:
    def __init__(self, code, output, exc):
        self.code, self.output, self.exc = code, output, exc

    def describe(self):
        if self.exc is None:
            return f"exit {self.code}: {self.output[-300:]}"
        tb = traceback.format_exception(self.exc)
        return f"{type(self.exc).__name__}: {self.exc} | " + " ".join("".join(tb[-3:]).split())[-500:]


def cli(args, cwd):
    """Run the command line in this process; never raises."""
    from click.testing import CliRunner

    from wam2layers.cli import cli as entry

    reset_logging()
    with chdir(cwd):
        r = CliRunner().invoke(entry, [str(a) for a in args])
    reset_logging()
    exc = r.exception
    if isinstance(exc, SystemExit):
        exc = None if r.exit_code == 0 else exc
    out = r.output
    return Result(r.exit_code, out, exc)


def forked(fn, *args):
    """Run fn in a forked child (its own process, as a separate program run has) and return its result."""
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = pickle.dumps((True, fn(*args)))
            except BaseException as e:
                data = pickle.dumps((False, "".join(traceback.format_exception(e))[-1500:]))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("forked part ended without a result")
    ok, value = pickle.loads(data)
    if not ok:
        raise HarnessError(f"forked part failed: {value}")
    return value


def fresh_cli(args, cwd):
    """Run the command line in a process of its own; the exception comes back as text."""

    def part():
        records, real = [], logging.Logger.callHandlers

        def note(self, record):
            if record.name.startswith("wam2layers"):
                records.append((record.levelno, record.getMessage()))
            return real(self, record)

        logging.Logger.callHandlers = note
        r = cli(args, cwd)
        return r.code, r.output, None if r.exc is None else r.describe(), records

    code, out, text, records = forked(part)
    r = Result(code, out, None if text is None else RuntimeError(text))
    r.records = records
    return r


class Companion:
    """A second process that runs one command line after another (this one stays pristine)."""

    def __enter__(self):
        import multiprocessing as mp

        self.conn, other = mp.Pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                self.conn.close()
                while True:
                    job = other.recv()
                    if job is None:
                        break
                    r = cli(*job)
                    other.send((r.code, r.output, None if r.exc is None else r.describe()))
            finally:
                os._exit(0)
        other.close()
        return self

    def cli(self, args, cwd):
        self.conn.send(([str(a) for a in args], cwd))
        try:
            code, out, text = self.conn.recv()
        except EOFError:
            raise HarnessError("companion process ended") from None
        return Result(code, out, None if text is None else RuntimeError(text))

    def __exit__(self, *exc):
        with contextlib.suppress(OSError):
            self.conn.send(None)
        self.conn.close()
        os.waitpid(self.pid, 0)


def must(env, result, what):
    if result.code != 0 or result.exc is not None:
        raise Violation(f"{what} failed on valid input: {result.describe()}")
    return result


def write_json(path, obj):
    with open(path, "w") as f:
        f.write(json.dumps(obj, indent=1, ensure_ascii=False))
    return path
