"""Conventional cell: the same crystal in the same orientation."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib.core import Facet, fail

PROPERTY = "W01"
RULE = (
    "Crystals generated from the symmetry operations of all 230 space groups (generic and special positions, "
    "exact borders between lattice variations included), redescribed by unimodular matrices, supercells, rotations, "
    "left-handed bases, translations, wrapping and reordering; atoms labelled by types, species or names. "
    "Non-trivial: the crystal has at least one atom and the description could be built; classes name the Bravais "
    "type (* = supercell) and the convention."
)
ASSUMPTIONS = [
    "crystals are at least 1e-4 away from accidental higher symmetry only statistically; the oracle does not rely on the group",
    "positions of exact crystals are compared within 2e-5 Angstrom (symprec is 1e-5), up to one rigid translation as spglib chooses the origin",
]


def kinds(out, s, what):
    n = len(out["positions"])
    ks = C.kind_of_output(out, s["dress"], n)
    first = None
    for key, k in ks.items():
        if len(k) != n:
            fail(f"{what}: {n} positions but {len(k)} values of {key!r}")
        if -1 in k:
            fail(f"{what}: unknown value in {key!r}")
        if first is None:
            first = k
        elif first != k:
            fail(f"{what}: the keys {list(ks)} disagree about the kind of the atoms")
    return np.array(first)


EXACT = 2e-5  # Angstrom; the generated crystals are exact to rounding


def check_conventional(c, s):
    kw = {} if (s["conv"] == "HPKOT" and s["spell"] == 2) else {"convention": c.convention}
    kw.update(C.data_kwargs(c, s))
    cell, atoms = wulfric.crystal.get_conventional(c.cell, c.atoms, **kw)
    what = f"conventional cell ({s['conv']})"
    if np.shape(cell) != (3, 3):
        fail(f"{what}: shape {np.shape(cell)}")
    r = X.same_crystal(c.cr.cell, c.cr.positions, c.kinds, cell, atoms["positions"], kinds(atoms, s, what), tol=C.tolerance(kw, EXACT))
    if r:
        fail(f"{what} of space group {c.cr.sg} ({X.symbol(c.cr.sg)}) is another crystal: {r}")
    return f"{C.sg_tag(c.cr)}-{s['conv']}"


def check_data(c, s):
    d = wulfric.get_spglib_data(c.cell, c.atoms)
    ot = list(d.original_types)
    back = {}
    for t, k in zip(ot, c.kinds):
        if back.setdefault(int(t), int(k)) != int(k):
            fail("one spglib type stands for two kinds of atoms")
    if len(set(back.values())) != len(back):
        fail("two spglib types stand for one kind of atoms")
    if not np.allclose(d.original_cell, c.cr.cell) or not np.allclose(d.original_positions, c.cr.positions):
        fail("original cell or positions of spglib_data differ from the given ones")
    for nm in ("conventional", "primitive"):
        ty = [back.get(int(t), -1) for t in getattr(d, nm + "_types")]
        if -1 in ty:
            fail(f"{nm}_types holds a type that is not in the crystal")
        r = X.same_crystal(c.cr.cell, c.cr.positions, c.kinds, getattr(d, nm + "_cell"),
                           getattr(d, nm + "_positions"), ty, tol=EXACT)
        if r:
            fail(f"spglib_data.{nm}_cell of space group {c.cr.sg} is another crystal: {r}")
    return C.sg_tag(c.cr)


# noisy crystal with a larger symprec given through spglib_data
@st.composite
def noisy_specs(draw):
    # general positions only: the noise of a special position can be larger than symprec sees
    s = draw(C.case_specs(crystal=X.crystal_specs(robust=True, max_super=1)))
    s["noise"] = [draw(st.integers(1, 10**6)), draw(st.sampled_from([1e-5, 1e-4, 5e-4]))]
    s["data"] = 1
    return s


def make_noisy(s):
    c = C.make_case(s)
    if c is None:
        return None
    rs = np.random.RandomState(s["noise"][0])
    cart = rs.uniform(-1, 1, size=c.cr.positions.shape) * s["noise"][1]
    c.cr.positions = c.cr.positions + cart @ np.linalg.inv(c.cr.cell)
    c.cell, c.atoms = C.dress(c.cr, s["dress"])
    return c


def check_noisy(c, s):
    amp = s["noise"][1]
    sp = 30 * amp
    try:
        d = wulfric.get_spglib_data(c.cell, c.atoms, spglib_symprec=sp)
    except RuntimeError:
        return None
    if d.symprec != sp:
        fail(f"symprec {d.symprec} recorded instead of {sp}")
    if d.space_group_number != c.cr.sg:
        # a merge of atoms or of axes within the tolerance: not the crystal meant
        return None
    cell, atoms = wulfric.crystal.get_conventional(c.cell, c.atoms, convention=c.convention, spglib_data=d)
    what = f"conventional cell ({s['conv']}, symprec {sp})"
    # spglib places the origin and the atoms within the tolerance only
    r = X.same_crystal(c.cr.cell, c.cr.positions, c.kinds, cell, atoms["positions"], kinds(atoms, s, what), tol=2 * sp + 1e-4)
    if r:
        fail(f"{what} of a noisy crystal of space group {c.cr.sg} is another crystal: {r}")
    return f"noise {amp}-{s['conv']}"


FACETS = [
    Facet("conventional", C.case_specs, check_conventional, C.make_case, quick=2000, thorough=60000, shards=8),
    Facet("axes", lambda: C.case_specs(crystal=C.axes_specs()), check_conventional, C.make_case, quick=1600, thorough=40000,
          shards=8),
    Facet("spglib_data", C.case_specs, check_data, C.make_case, quick=800, thorough=20000, shards=4),
    Facet("noisy", noisy_specs, check_noisy, make_noisy, quick=300, thorough=10000, shards=4),
]
