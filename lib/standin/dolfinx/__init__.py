"""Stand-in for DOLFINx (see _engine.py): serial, pure numpy, DOLFINx 0.6 API subset."""
from dolfinx._engine import config as _config

has_petsc = True
has_petsc4py = True
has_slepc = False


def __getattr__(name):
    if name == "__version__":
        return _config.version
    if name in ("fem", "mesh", "io", "cpp", "la", "geometry", "common", "log", "plot", "nls"):
        import importlib

        return importlib.import_module(f"dolfinx.{name}")
    raise AttributeError(f"module 'dolfinx' has no attribute {name!r}")


default_scalar_type = float


def _cheap_ufl_sums():
    """UFL rescans every operand for Constants on each `form + form` (quadratic cost); the
    engine looks constants up when it meets them, so the scan is switched off."""
    from ufl.algorithms import analysis

    analysis.extract_constants = lambda _form: []

    import ufl.form as uform

    full_sort = uform._sorted_integrals

    def quick_sort(integrals):
        d = integrals[0]._ufl_domain if integrals else None
        if d is None or any(i._ufl_domain is not d or i._subdomain_id != "everywhere" for i in integrals):
            return full_sort(integrals)
        return tuple(sorted(integrals, key=lambda i: i._integral_type))

    uform._sorted_integrals = quick_sort


_cheap_ufl_sums()
