"""Stand-in for UCL/dxh: only what dxss imports."""
import numpy as np


def evaluate_function_at_points(function, points):
    """Values of a scalar `function` at `points` (n, 3): array (n,)."""
    points = np.atleast_2d(np.asarray(points, float))
    m = function.function_space.mesh
    cells = m._locate_cell(points[:, : m._gdim])
    if (cells < 0).any():
        msg = "One or more points not within domain"
        raise ValueError(msg)
    v = np.asarray(function.eval(points, cells))
    return v.reshape(len(points), -1).squeeze(axis=-1) if len(function.function_space._flat) == 1 else v
