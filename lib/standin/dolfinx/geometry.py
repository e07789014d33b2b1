import numpy as np


class BoundingBoxTree:
    def __init__(self, mesh, dim, entities=None, padding=0.0):
        self.mesh = mesh


def bb_tree(mesh, dim, entities=None, padding=0.0):
    return BoundingBoxTree(mesh, dim)


class _Adj:
    def __init__(self, l):
        self._l = l
        self.array = np.array([c for x in l for c in x], dtype=np.int32)

    def links(self, i):
        return np.array(self._l[i], dtype=np.int32)


def compute_collisions(tree, points):
    m = tree.mesh
    c = m._locate_cell(np.atleast_2d(points)[:, : m._gdim])
    return _Adj([[int(k)] if k >= 0 else [] for k in c])


compute_collisions_points = compute_collisions


def compute_colliding_cells(mesh, candidates, points):
    return candidates
