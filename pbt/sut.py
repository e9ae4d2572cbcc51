"""Builds the code under test: /repo's working tree, which is Python 2,
translated with lib2to3 (the fixers of the project's own build) into a scratch
directory that is removed at exit."""

import atexit
import logging
import os
import shutil
import sys
import tempfile
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = {".git", "__pycache__", "tests", "docs"}


class BuildError(Exception):
    pass


def scratch():
    """A new directory, removed at exit by the process that made it."""
    path = tempfile.mkdtemp(prefix="verif-pbt-")
    pid = os.getpid()

    def remove():
        if os.getpid() == pid and path.startswith(tempfile.gettempdir()):
            shutil.rmtree(path, ignore_errors=True)
    atexit.register(remove)
    return path


def _tools():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from lib2to3 import refactor
    fixers = refactor.get_fixers_from_package("lib2to3.fixes")
    yield refactor.RefactoringTool(fixers)
    yield refactor.RefactoringTool(
        [f for f in fixers if not f.endswith(".fix_print")],
        {"print_function": True})


def build(tree):
    """Translate the repository (its tests and documentation left out)."""
    previous = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    tools = []
    maker = _tools()
    for path, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in SKIP)
        out = os.path.join(tree, os.path.relpath(path, REPO))
        os.makedirs(out, exist_ok=True)
        for name in sorted(files):
            src, dst = os.path.join(path, name), os.path.join(out, name)
            if name.endswith(".pyc") or not os.path.isfile(src):
                continue
            if not name.endswith(".py"):
                shutil.copyfile(src, dst)
                continue
            with open(src, encoding="utf-8") as f:
                text = f.read()
            if not text.endswith("\n"):
                text += "\n"
            error = None
            for k in range(2):
                if len(tools) == k:
                    tools.append(next(maker))
                try:
                    text2 = str(tools[k].refactor_string(text, name))
                    break
                except Exception as e:          # noqa: BLE001
                    error = error or e
            else:
                raise BuildError("%s: %s" % (src, error))
            with open(dst, "w", encoding="utf-8") as f:
                f.write(text2)
    logging.disable(previous)


def stub_nhlib():
    """nhlib is not to be had offline. Only its magnitude scaling relation is
    used; the stub records how it is called."""
    calls = []

    class WC1994(object):
        def get_median_mag(self, area, rake):
            calls.append((area, rake))
            return wc1994(area, rake)

    for name in ("nhlib", "nhlib.scalerel", "nhlib.scalerel.wc1994"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["nhlib.scalerel.wc1994"].WC1994 = WC1994
    return calls


def wc1994(area, rake):
    """Wells and Coppersmith (1994), magnitude from rupture area."""
    import math
    if rake is None:
        return 4.07 + 0.98 * math.log10(area)
    if -45 <= rake <= 45 or rake > 135 or rake < -135:
        return 3.98 + 1.02 * math.log10(area)
    if rake > 0:
        return 4.33 + 0.90 * math.log10(area)
    return 3.93 + 1.02 * math.log10(area)


def prepare():
    """Build, make the modules importable, and return (tree, work dir)."""
    root = scratch()
    tree = os.path.join(root, "tree")
    work = os.path.join(root, "work")
    os.mkdir(work)
    build(tree)
    sys.path.insert(0, tree)
    os.chdir(work)
    logging.getLogger("mt_logger").addHandler(logging.NullHandler())
    logging.getLogger("mt_logger").propagate = False
    return tree, work
