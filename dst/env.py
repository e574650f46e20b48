"""Process environment: the package under test is imported from DST_REPO's working tree, from inside a scratch
directory that this process owns (config.toml, type files, everything the package writes)."""
from __future__ import annotations

import atexit
import contextlib
import io
import logging
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("DST_REPO", "/repo")
SCRATCH: str | None = None


def _scratch_base() -> str:
    for d in ("/dev/shm", tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def make_scratch(types: bool = False, own_config: bool = True) -> str:
    """create the scratch directory, chdir into it; without an own configuration the package uses the one it ships"""
    global SCRATCH
    if SCRATCH is not None:
        return SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="dst-", dir=_scratch_base())
    owner = os.getpid()

    def clean(path=SCRATCH):
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(clean)
    cfg = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "data", "config.toml")
    if own_config:
        shutil.copyfile(cfg, os.path.join(SCRATCH, "config.toml"))
    if types:
        shutil.copytree(os.path.join(REPO, "test", "Types"), os.path.join(SCRATCH, "Types"))
    os.chdir(SCRATCH)
    return SCRATCH


def import_repo():
    """put the tree on sys.path and silence the import-time prints"""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def fresh_dir(types: bool = True):
    """a directory of this run only: config.toml and an empty Types/ in it, current directory while it lasts"""
    back = os.getcwd()
    d = tempfile.mkdtemp(prefix="run-", dir=SCRATCH)
    try:
        os.chdir(d)
        if types:
            os.mkdir("Types")
        yield d
    finally:
        os.chdir(back)
        shutil.rmtree(d, ignore_errors=True)


def forget(module):
    """what a new process starts with: nothing is in the caches of the module's functions, however they are named"""
    for v in list(vars(module).values()):
        clear = getattr(v, "cache_clear", None)
        if callable(clear) and getattr(v, "__module__", None) == module.__name__:
            clear()


def chosen(v):
    """the element of a Choice its value is of"""
    t = type(v.value)
    return next((e for e in v.ELEMENTS if e.type is t), None) or next(e for e in v.ELEMENTS if issubclass(t, e.type))
