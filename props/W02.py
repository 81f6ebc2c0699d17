"""Primitive cell: the same crystal, exactly one lattice point."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib.core import Facet, fail
from props.W01 import kinds

PROPERTY = "W02"
RULE = (
    "Crystals of all 230 space groups, redescribed (unimodular change, supercell, rotation, left-handed basis, rigid "
    "shift, reordering, unwrapped positions) and labelled by types, species or names; the three conventions, with and "
    "without spglib_data, default and larger symprec. Non-trivial: at least one lattice point more in the given cell "
    "or a centred conventional cell, or a changed basis; classes name the Bravais type (* = supercell) and convention."
)
ASSUMPTIONS = [
    "the number of lattice points of the given cell is counted by the oracle itself, from the translations that map "
    "the generated crystal on itself within 1e-3 Angstrom",
    "positions are compared within 2e-5 Angstrom (1e-3 or twice symprec for a symprec of its own)",
]


def check_primitive(c, s):
    kw = {} if (s["conv"] == "HPKOT" and s["spell"] == 2) else {"convention": c.convention}
    kw.update(C.data_kwargs(c, s))
    if ambiguous(c):
        return None
    cell, atoms = wulfric.crystal.get_primitive(c.cell, c.atoms, **kw)
    judge(c, s, cell, atoms, f"primitive cell ({s['conv']})", tol=C.tolerance(kw, EXACT))
    return f"{C.sg_tag(c.cr)}-{s['conv']}"


def ambiguous(c, tol=1e-3):
    """A translation nearly maps the crystal on itself: the tolerances of spglib and of the oracle differ."""
    n = [X.n_translations(c.cr.cell, c.cr.positions, c.kinds, tol=t) for t in (1e-6, tol)]
    return n[0] != n[1]


EXACT = 2e-5  # Angstrom; the generated crystals are exact to rounding


def judge(c, s, cell, atoms, what, tol=EXACT):
    if np.shape(cell) != (3, 3):
        fail(f"{what}: shape {np.shape(cell)}")
    k = kinds(atoms, s, what)
    pos = np.array(atoms["positions"], dtype=float)
    r = X.same_crystal(c.cr.cell, c.cr.positions, c.kinds, cell, pos, k, tol=tol)
    if r:
        fail(f"{what} of space group {c.cr.sg} ({X.symbol(c.cr.sg)}) is another crystal: {r}")
    n = X.n_translations(c.cr.cell, c.cr.positions, c.kinds, tol=1e-3)
    v = abs(np.linalg.det(c.cr.cell)) / n
    if abs(abs(np.linalg.det(cell)) / v - 1) > (1e-5 if tol == EXACT else 1e-3):
        fail(f"{what} of space group {c.cr.sg}: volume {abs(np.linalg.det(cell)):.6g}, "
             f"the volume per lattice point is {v:.6g}")
    if len(pos) * n != len(c.cr.positions):
        fail(f"{what}: {len(pos)} atoms, {len(c.cr.positions)} in the given cell of {n} lattice points")
    # no atom twice
    d = pos[:, None, :] - pos[None, :, :]
    d -= np.round(d)
    r = np.linalg.norm(d @ np.array(cell, dtype=float), axis=2)
    np.fill_diagonal(r, 9)
    if len(pos) > 1 and r.min() < 1e-2:
        fail(f"{what}: one atom is listed twice")


@st.composite
def tolerance_specs(draw):
    s = draw(C.case_specs(crystal=X.crystal_specs(max_super=2)))
    s["symprec"] = draw(st.sampled_from([1e-5, 1e-4, 1e-3, 1e-2, 0.03, 0.1]))
    s["stretch"] = draw(st.sampled_from([1, 1, 2, 4, 8]))
    s["data"] = 1
    return s


def make_tolerance(s):
    s["crystal"]["scale"] = s["stretch"]
    c = C.make_case(s)
    if c is None:
        return None
    # a tolerance is reasonable when no two atoms come close to it
    p = c.cr.positions
    d = p[:, None, :] - p[None, :, :]
    d -= np.round(d)
    r = np.linalg.norm(d @ c.cr.cell, axis=2)
    np.fill_diagonal(r, 1e9)
    if len(p) > 1 and r.min() < 8 * s["symprec"]:
        return None
    return c


def check_tolerance(c, s):
    sp = s["symprec"]
    try:
        d = wulfric.get_spglib_data(c.cell, c.atoms, spglib_symprec=sp)
    except RuntimeError:
        return None
    own = X.spglib.get_symmetry_dataset((c.cr.cell, c.cr.positions, [int(t) for t in c.cr.types]), symprec=1e-5)
    if own is None or own.number != d.space_group_number:
        return None  # the tolerance makes the crystal more symmetric than it is
    if ambiguous(c, max(1e-3, 4 * sp)):
        return None
    cell, atoms = wulfric.crystal.get_primitive(c.cell, c.atoms, convention=c.convention, spglib_data=d)
    # spglib places the origin and the atoms within the tolerance only
    judge(c, s, cell, atoms, f"primitive cell ({s['conv']}, symprec {sp})", tol=max(1e-3, 2 * sp))
    return f"{C.sg_tag(c.cr)}-{s['conv']}-{sp}"


FACETS = [
    Facet("primitive", C.case_specs, check_primitive, C.make_case, quick=2400, thorough=60000, shards=8),
    Facet("axes", lambda: C.case_specs(crystal=C.axes_specs()), check_primitive, C.make_case, quick=1600, thorough=40000,
          shards=8),
    Facet("tolerance", tolerance_specs, check_tolerance, make_tolerance, quick=800, thorough=20000, shards=4),
]
