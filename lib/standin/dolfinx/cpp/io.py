import numpy as np


def perm_gmsh(cell_type, num_nodes):
    """Permutation taking gmsh node order to DOLFINx node order (new[i] = old[perm[i]])."""
    name = getattr(cell_type, "name", str(cell_type))
    if name in ("triangle", "tetrahedron", "interval") and num_nodes in (2, 3, 4) and not (
        name == "triangle" and num_nodes == 4
    ):
        return np.arange(num_nodes)
    if name == "triangle" and num_nodes == 6:
        return np.array([0, 1, 2, 4, 5, 3])
    if name == "triangle" and num_nodes == 10:
        return np.array([0, 1, 2, 5, 6, 8, 7, 3, 4, 9])
    if name == "quadrilateral" and num_nodes == 4:
        return np.array([0, 1, 3, 2])
    raise RuntimeError(f"Unsupported cell {name} with {num_nodes} nodes")
