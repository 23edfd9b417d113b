"""Loads the code under test from /repo's working tree, and Hypothesis from the tool environment.

* `sawatabi` is always compiled from its current source text (no .pyc is read or written), so that a
  check judges the working tree and nothing older.
* Hypothesis is not installed beside sawatabi's dependencies; only that package (and what it ships) is
  taken from the verification tool environment, nothing else from there can shadow sawatabi's dependencies.
"""
import glob
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("VCHK_REPO", "/repo")
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


class _SourceOnlyLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _RepoFinder:
    @staticmethod
    def find_spec(fullname, path=None, target=None):
        if fullname != "sawatabi" and not fullname.startswith("sawatabi."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_SourceOnlyLoader(fullname, init), submodule_search_locations=[base]
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=_SourceOnlyLoader(fullname, base + ".py"))
        return None


class _HypothesisFinder:
    def __init__(self):
        self.roots = []
        if os.path.isdir(os.path.join(PYVENV, "hypothesis")):
            self.roots = [PYVENV]
        else:
            self.roots = sorted(glob.glob(os.path.join(WHEELS, "hypothesis-*.whl"))) + sorted(
                glob.glob(os.path.join(WHEELS, "sortedcontainers-*.whl"))
            )

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in ("hypothesis", "sortedcontainers") and not top.startswith("_hypothesis"):
            return None
        return importlib.machinery.PathFinder.find_spec(fullname, path if path is not None else self.roots, target)


_done = False


def boot():
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _RepoFinder())
    sys.meta_path.append(_HypothesisFinder())
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)
