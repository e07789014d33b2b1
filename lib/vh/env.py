"""Process set-up shared by all checks: import paths, source loader, scratch directory."""
from __future__ import annotations

import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parents[2]
SRC = Path(os.environ.get("DXSS_SRC", "/repo/src")).resolve()
HYPO = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _FreshSourceFinder(importlib.abc.MetaPathFinder):
    """Imports dxss straight from its .py sources: byte code caches are never consulted."""

    class _Loader(importlib.machinery.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            return self.source_to_code(self.get_data(path), path)

    def find_spec(self, name, path=None, target=None):  # noqa: ARG002
        if name != "dxss" and not name.startswith("dxss."):
            return None
        p = SRC.joinpath(*name.split("."))
        if (p / "__init__.py").is_file():
            return importlib.util.spec_from_file_location(
                name, p / "__init__.py", loader=self._Loader(name, str(p / "__init__.py")),
                submodule_search_locations=[str(p)],
            )
        p = p.with_suffix(".py")
        if p.is_file():
            return importlib.util.spec_from_file_location(name, p, loader=self._Loader(name, str(p)))
        return None


def setup():
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(100_000)
    for p in (str(VERIF / "lib" / "standin"), str(VERIF / "lib")):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    if HYPO not in sys.path:
        sys.path.append(HYPO)
    if not any(isinstance(f, _FreshSourceFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, _FreshSourceFinder())


_KSP = []


def track_ksp():
    """Remember every solver made through petsc4py: one with Python callbacks is never freed, and GMRES with its default
    restart of 1000 holds about 17 MB."""
    from petsc4py import PETSc

    if hasattr(PETSc.KSP, "_tracked"):
        return

    class KSP(PETSc.KSP):
        _tracked = True

        def create(self, *a, **k):
            _KSP.append(self)
            return super().create(*a, **k)

    PETSc.KSP = KSP


def release_ksp():
    """Free the work space of the iterative solvers made so far (direct ones may still be in use)."""
    while _KSP:
        k = _KSP.pop()
        try:
            if k.getType() == "gmres":
                k.reset()
        except Exception:  # noqa: BLE001, S110
            pass
