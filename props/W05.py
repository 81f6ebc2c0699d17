"""Symmetry classification: group, Bravais type, extended symbol, variation."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import reference as R
from vlib.core import Facet, fail
from vlib.gens import params_ref

PROPERTY = "W05"
RULE = (
    "Crystals of all space groups, half of them aimed at the variations of the lattices (both sides of and exactly on "
    "the published borders), redescribed; classes name the extended symbol or variation that was decided. The facet "
    "'invariance' describes one crystal twice (another basis, supercell, orientation, origin, order, labels). "
    "Non-trivial: symmetry found, two different descriptions."
)
ASSUMPTIONS = [
    "spglib is trusted for the space group number and its standardized cell; both are obtained by a direct call",
    "within 1e-5 (relative) of a published border both sides are accepted; within symprec the borders' own variations "
    "(ORCF3, MCLC2, MCLC4, TRI2) or the documented ValueError",
]


def cases():
    return st.one_of(C.case_specs(crystal=C.variant_specs()), C.case_specs())


def groups():
    return C.case_specs(crystal=C.group_specs())


def check_group(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    d = wulfric.get_spglib_data(c.cell, c.atoms)
    n = own.number
    if d.space_group_number != n:
        fail(f"space group {d.space_group_number}, spglib finds {n}")
    lat = R.lattice_type(n)
    if d.crystal_family != lat[0] or d.centring_type != lat[1]:
        fail(f"space group {n}: {d.crystal_family!r}, {d.centring_type!r}; its operations say {lat!r}")
    k = wulfric.constants
    for m in (n, c.cr.sg):
        if k.CRYSTAL_FAMILY[m] + k.CENTRING_TYPE[m] != R.lattice_type(m):
            fail(f"tables: space group {m} has {k.CRYSTAL_FAMILY[m] + k.CENTRING_TYPE[m]!r}, expected {R.lattice_type(m)!r}")
        if bool(k.INVERSION_SYMMETRY[m]) != X.has_inversion(m):
            fail(f"tables: inversion of space group {m} is {k.INVERSION_SYMMETRY[m]}, expected {X.has_inversion(m)}")
        if R.lattice_type(m) not in k.BRAVAIS_LATTICES:
            fail(f"tables: {R.lattice_type(m)} is not in BRAVAIS_LATTICES")
    return f"{n}"


def check_symbol(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    got = wulfric.crystal.hpkot_get_extended_bl_symbol(c.cell, c.atoms, **C.data_kwargs(c, s))
    want = R.hpkot_symbols(own.number, own.std_lattice)
    if got not in want:
        fail(f"extended Bravais lattice symbol {got!r} for space group {own.number} and parameters "
             f"{[round(float(x), 6) for x in params_ref(own.std_lattice)]}, expected {sorted(want)}")
    if got not in wulfric.constants.HPKOT_EXTENDED_BL_SYMBOLS:
        fail(f"{got!r} is not one of HPKOT_EXTENDED_BL_SYMBOLS")
    return got if len(want) == 1 else got + " (border)"


def variation(c, s):
    try:
        return wulfric.crystal.sc_get_variation(c.cell, c.atoms, **C.data_kwargs(c, s))
    except ValueError:
        return "refused"


def check_variation(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    kw = C.data_kwargs(c, s)
    symprec = kw["spglib_data"].symprec if kw else 1e-5
    want, may_refuse = R.sc_variations(own.number, own.std_lattice, own.primitive_lattice, symprec=symprec)
    try:
        got = wulfric.crystal.sc_get_variation(c.cell, c.atoms, **kw)
    except ValueError as e:
        if may_refuse:
            return "refused on a border"
        fail(f"ValueError for space group {own.number} and parameters {params_ref(own.std_lattice)}: {str(e)[:200]}")
    if got not in want:
        fail(f"variation {got!r} for space group {own.number} and parameters "
             f"{[round(float(x), 6) for x in params_ref(own.std_lattice)]}, expected {sorted(map(str, want))}")
    return got if len(want) == 1 else f"{got} (border)"


def check_groups(c, s):
    tag = check_group(c, s)
    if tag is None:
        return None
    check_symbol(c, s)
    check_variation(c, s)
    return tag


@st.composite
def two_specs(draw):
    s = draw(cases())
    s["again"] = draw(X.disguises(max_super=2))
    s["dress2"] = draw(C.dressings(extra=False))
    return s


def make_two(s):
    c = C.make_case(s)
    if c is None:
        return None
    other = dict(s["crystal"])
    for k in ("uni", "super", "quat", "shift", "perm", "wrap", "left"):
        other.pop(k, None)
        if k in s["again"]:
            other[k] = s["again"][k]
    n = len(c.cr.positions) / c.cr.n_cells
    if n * np.prod(other.get("super", [1, 1, 1])) > 200:
        other["super"] = [1, 1, 1]
    return c, C.make_case({**s, "crystal": other, "dress": s["dress2"]})


def check_two(x, s):
    c1, c2 = x
    o1, o2 = R.own_symmetry(c1.cr), R.own_symmetry(c2.cr)
    if o1 is None or o2 is None or o1.number != o2.number:
        return None
    p1, p2 = params_ref(o1.std_lattice), params_ref(o2.std_lattice)
    tied = not np.allclose(p1, p2, rtol=1e-5)
    d1 = wulfric.get_spglib_data(c1.cell, c1.atoms)
    d2 = wulfric.get_spglib_data(c2.cell, c2.atoms)
    if (d1.space_group_number, d1.crystal_family, d1.centring_type) != (
        d2.space_group_number, d2.crystal_family, d2.centring_type
    ):
        fail("two descriptions of one crystal have different symmetry")
    if tied:
        return None
    want = R.hpkot_symbols(o1.number, o1.std_lattice)
    if len(want) == 1:
        a = wulfric.crystal.hpkot_get_extended_bl_symbol(c1.cell, c1.atoms)
        b = wulfric.crystal.hpkot_get_extended_bl_symbol(c2.cell, c2.atoms)
        if a != b:
            fail(f"two descriptions of one crystal have the extended symbols {a!r} and {b!r}")
    want, refuse = R.sc_variations(o1.number, o1.std_lattice, o1.primitive_lattice)
    if len(want) == 1 and not refuse:
        a, b = variation(c1, s), variation(c2, s)
        if a != b:
            fail(f"two descriptions of one crystal have the variations {a!r} and {b!r}")
    lat = R.lattice_type(o1.number)
    # a tie of lengths or scalar products: several cells satisfy the convention
    if lat == "aP":
        k = R.recip(o1.std_lattice)
        q = sorted(abs(v) / np.abs(k).max() ** 2 for v in (k[0] @ k[1], k[0] @ k[2], k[1] @ k[2]))
        _, amb = R.dot_signs(k)
        ang = sorted(params_ref(k)[3:])
        if amb or q[1] - q[0] < 1e-3 or ang[1] - ang[0] < 1e-2 or ang[2] - ang[1] < 1e-2:
            return None
    for conv in C.CONVENTIONS:
        u, _ = wulfric.crystal.get_conventional(c1.cell, c1.atoms, convention=conv)
        v, _ = wulfric.crystal.get_conventional(c2.cell, c2.atoms, convention=conv)
        pu, pv = params_ref(u), params_ref(v)
        if not np.allclose(pu, pv, rtol=1e-4):
            fail(f"two descriptions of one crystal ({lat}) have the {conv} conventional cells {pu} and {pv}")
        u, _ = wulfric.crystal.get_primitive(c1.cell, c1.atoms, convention=conv)
        v, _ = wulfric.crystal.get_primitive(c2.cell, c2.atoms, convention=conv)
        pu, pv = params_ref(u), params_ref(v)
        if conv != "spglib" and not np.allclose(pu, pv, rtol=1e-4):
            fail(f"two descriptions of one crystal ({lat}) have the {conv} primitive cells {pu} and {pv}")
    return lat


FACETS = [
    Facet("group", C.case_specs, check_group, C.make_case, quick=1200, thorough=30000, shards=8),
    Facet("groups", groups, check_groups, C.make_case, quick=2800, thorough=40000, shards=8),
    Facet("symbol", cases, check_symbol, C.make_case, quick=2000, thorough=60000, shards=8),
    Facet("variation", cases, check_variation, C.make_case, quick=2000, thorough=60000, shards=8),
    Facet("invariance", two_specs, check_two, make_two, quick=1600, thorough=40000, shards=8),
]
