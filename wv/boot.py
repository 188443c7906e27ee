"""Environment set-up: the code under test comes from /repo/src, Hypothesis from the wheelhouse."""

import contextlib
import glob
import importlib
import os
import shutil
import sys
import tempfile
import warnings
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WV_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _unpack():
    wheels = sorted(glob.glob(f"{WHEELS}/hypothesis-*-cp3{sys.version_info.minor}-*.whl"))[-1:] + sorted(
        glob.glob(WHEELS + "/sortedcontainers-*.whl")
    )[-1:]
    if len(wheels) < 2:
        raise FileNotFoundError(f"no hypothesis/sortedcontainers wheels in {WHEELS}")
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=VERIF)
    try:
        for wheel in wheels:
            with zipfile.ZipFile(wheel) as z:
                z.extractall(tmp)
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            pass  # somebody else was faster
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def deps():
    """Make hypothesis importable."""
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            _unpack()
        except Exception as e:  # fall back to the tool venv's copy
            print(f"note: unpacking hypothesis failed ({e}); using {VT_SITE}", file=sys.stderr)
            fallback = tempfile.mkdtemp(prefix="wvdeps-")
            for name in os.listdir(VT_SITE):
                if name.startswith(("hypothesis", "_hypothesis", "sortedcontainers")):
                    os.symlink(os.path.join(VT_SITE, name), os.path.join(fallback, name))
            sys.path.insert(0, fallback)
            return
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


THIRD = (
    "numpy pandas xarray cftime yaml click click.testing pydantic netCDF4 psutil shapefile shapely shapely.geometry "
    "scipy.interpolate requests threddsclient cmocean matplotlib.pyplot xarray.backends.netCDF4_ dask.array "
    "pandas.plotting xarray.plot multiprocessing.pool"
).split()


@contextlib.contextmanager
def no_stale_bytecode():
    """Compile what is imported inside from source (a patch may fall within the same second)."""
    old = sys.pycache_prefix
    sys.pycache_prefix = tempfile.mkdtemp(prefix="wvpyc-")
    try:
        yield
    finally:
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
        sys.pycache_prefix = old


HOOK = {}  # name -> stand-in, used while a case injects faults


def _dispatch(module, name):
    """Replace module.name by a function that consults HOOK, however the program imports it."""
    import functools

    real = getattr(module, name)

    @functools.wraps(real)
    def call(*a, **k):
        return HOOK.get(name, real)(*a, **k)

    call.real = real
    setattr(module, name, call)


def target():
    """Import the working tree's package and check that it is what got imported."""
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    warnings.filterwarnings("ignore")
    for name in THIRD:
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    import time

    import xarray

    _dispatch(time, "sleep")
    _dispatch(xarray, "open_dataset")
    _dispatch(xarray, "open_zarr")
    with no_stale_bytecode():
        mod = importlib.import_module("wam2layers")
        if not os.path.abspath(mod.__file__).startswith(src + os.sep):
            raise RuntimeError(f"wam2layers imported from {mod.__file__}, not from {src}")
        importlib.import_module("wam2layers.cli")
        for path in glob.glob(src + "/wam2layers/**/*.py", recursive=True):
            name = os.path.relpath(path, src)[:-3].replace(os.sep, ".")
            name = name[: -len(".__init__")] if name.endswith(".__init__") else name
            if name.endswith("tagging_region"):  # needs cartopy; imported by M02 with a stand-in
                continue
            try:
                importlib.import_module(name)
            except ImportError as e:
                print(f"note: cannot import {name}: {e}", file=sys.stderr)
    return mod
