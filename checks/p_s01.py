"""S01: the assembled matrix is the discretisation of the stabilised space-time Lagrangian."""
import numpy as np

from vh import stx
from vh.core import Info, Prop, Sub, require

NAMES = ("u1", "u2", "z1", "z2")
TEST = ("w1", "w2", "y1", "y2")


def compare(B, A, R, what, tol=1e-10):
    """A, R sparse in reference numbering: block by block with the block's own scale."""
    L = B.L if A.shape[0] == B.L.n else B.L1
    require(A.shape == R.shape, f"{what}: shape {A.shape} != {R.shape}")
    D = (A - R).tocsr()
    R, A = R.tocsr(), A.tocsr()
    tot = abs(R).max()
    for f in range(4):
        for g in range(4):
            s, t = slice(L.off[f], L.off[f + 1]), slice(L.off[g], L.off[g + 1])
            d = abs(D[s, t]).max()
            sc = abs(R[s, t]).max()
            # terms of a block may cancel and the package adds 1e-20-sized dummy terms
            if not d <= tol * sc + 1e-13 * tot:
                blk = abs(D[s, t]).tocoo()
                i = int(np.argmax(blk.data))
                r, q = int(blk.row[i]), int(blk.col[i])
                require(False, f"{what}, block ({TEST[f]}, {NAMES[g]}): differs by {d:.3e} (block {sc:.3e}) at time levels "
                               f"{r // L.ns[f]}, {q // L.ns[g]}: got {A[s, t][r, q]:.10g}, expected {R[s, t][r, q]:.10g}")


def labels(c):
    return [c["mesh"]["kind"], f"q{c['q']}q*{c['qs']}", f"k{c['k']}k*{c['ks']}", f"N{c['N']}",
            *(["jumps"] if c["jumps"] else []), *(["well-posed"] if c["wp"] else [])]


def nontrivial(c):
    return c["N"] > 1 and c["ind"]["p"] == 0.5


def check(c):
    B = stx.build(c)
    F = stx.form(B)
    A = stx.to_ref(B, stx.csr(B.st.get_spacetime_matrix()))
    compare(B, A, F.total(), "space-time matrix")
    return Info(nontrivial(c), labels(c))


def check_precond(c):
    B = stx.build(c)
    F = stx.form(B)
    A = stx.to_ref(B, stx.csr(B.st.get_spacetime_matrix(precond=True)))
    compare(B, A, F.total(precond=True), "block lower triangular variant")
    return Info(nontrivial(c), labels(c))


def check_slab(c):
    B = stx.build(c)
    F = stx.slabform(B)
    S1 = stx.to_ref(B, stx.csr(B.st.get_slab_matrix()))
    p = F.p
    R = F.slab(True)
    if not p["jumps"]:
        compare(B, S1, R, "slab matrix with the jump terms of its lower end")
    first = stx.to_ref(B, stx.csr(B.st.get_slab_matrix_first_slab()))
    if not (p["jumps"] and p["well_posed"]):
        compare(B, first, F.slab(p["well_posed"]), "matrix of the first slab")
    return Info(nontrivial(c), labels(c))


PROP = Prop("S01", [
    Sub("matrix", lambda: stx.cfgs(), check, "several slabs, data domain a proper part of the mesh",
        quick=240, thorough=4000, shards_quick=8, shards_thorough=8, always=stx.grid(1)),
    Sub("precond-matrix", lambda: stx.cfgs(minN=2), check_precond, "as matrix", quick=80, thorough=1200, shards_quick=8, shards_thorough=8,
        always=stx.grid(2, minN=2)),
    Sub("slab-matrices", lambda: stx.cfgs(jumps=False), check_slab, "as matrix", quick=120, thorough=1500, shards_quick=8, shards_thorough=8,
        always=stx.grid(3, jumps=False)),
], assumptions=[
    "the DOLFINx/UFL behaviour is that of the stand-in in lib/standin (affine cells, serial)",
    "dual order in space at most one above the primal one, where the volume quadrature is exact",
])
