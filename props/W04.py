"""Cells obey the definitions of the convention they are asked for."""
import numpy as np

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import reference as R
from vlib.core import Facet, fail
from vlib.gens import params_ref

PROPERTY = "W04"
RULE = (
    "Generated crystals of all space groups and of the 14 Bravais lattices on and around exact coincidences of the "
    "lattice parameters, redescribed; the three conventions. Non-trivial: symmetry found and cell built; classes "
    "name the Bravais type found by a direct call of spglib, and the convention."
)
ASSUMPTIONS = [
    "spglib itself is trusted for the space group and for its own standardized cell",
    "angles are compared within 1e-3 degrees, lengths within 1e-4 relative; ties within these are accepted either way",
]


def eq(x, y):
    return abs(x - y) <= 1e-4 * max(abs(x), abs(y))


def right(x):
    return abs(x - 90.0) < 2e-3


def metric(lat, p, what):
    a, b, c, al, be, ga = p
    f = lat[0]
    bad = None
    if f == "c" and not (eq(a, b) and eq(b, c) and right(al) and right(be) and right(ga)):
        bad = "a = b = c, all angles 90"
    elif f == "t" and not (eq(a, b) and right(al) and right(be) and right(ga)):
        bad = "a = b, all angles 90"
    elif f == "o" and not (right(al) and right(be) and right(ga)):
        bad = "all angles 90"
    elif f == "h" and not (eq(a, b) and right(al) and right(be) and abs(ga - 120) < 2e-3):
        bad = "a = b, alpha = beta = 90, gamma = 120"
    if bad:
        fail(f"{what}: {bad} is not satisfied by {['%.6g' % x for x in p]}")


def axes(c, own, conv, lat, cell, what):
    """Symmetry axes of the crystal, found in its given cell, along the right vectors of the conventional cell."""
    order = {"m": 2, "o": 2, "t": 4, "h": 3}.get(lat[0])
    if order is None:
        return
    given, rotations = c.cr.cell, own.rotations
    types = [int(t) for t in c.cr.types]
    if X.n_translations(given, c.cr.positions, c.kinds) > 1:
        # a supercell need not have the symmetry of the crystal
        given, pos, types = X.spglib.standardize_cell((given, c.cr.positions, types), to_primitive=True, no_idealize=True,
                                                      symprec=1e-5)
        rotations = X.spglib.get_symmetry_dataset((given, pos, types), symprec=1e-5).rotations
    found = []
    for r in rotations:
        r = np.array(r, dtype=float) * round(float(np.linalg.det(r)))
        # rotation by 360/order, in Cartesian coordinates (rows are vectors)
        if abs(np.trace(r) - {2: -1, 4: 1, 3: 0}[order]) < 1e-6:
            w, v = np.linalg.eig(r)
            x = np.real(v[:, np.argmin(abs(w - 1))]) @ given
            found.append(x / np.linalg.norm(x))

    def along(x):
        x = x / np.linalg.norm(x)
        return any(np.linalg.norm(np.cross(x, y)) < 1e-3 for y in found)

    if lat[0] == "m":
        want = [cell[0]] if conv == "SC" else [cell[1]]
    elif lat[0] == "o":
        want = list(cell)
    else:
        want = [cell.sum(axis=0)] if conv == "SC" and lat == "hR" else [cell[2]]
    for x in want:
        if not along(x):
            fail(f"{what}: no {order}-fold axis of the crystal along {x.tolist()}, cell {cell.tolist()}")


def check(c, s):
    cr = c.cr
    own = R.own_symmetry(cr)
    if own is None:
        return None
    lat = R.lattice_type(own.number)
    conv = s["conv"]
    cell, atoms = wulfric.crystal.get_conventional(c.cell, c.atoms, convention=c.convention, **C.data_kwargs(c, s))
    prim, patoms = wulfric.crystal.get_primitive(c.cell, c.atoms, convention=c.convention, **C.data_kwargs(c, s))
    cell, prim = np.array(cell, dtype=float), np.array(prim, dtype=float)
    p = params_ref(cell)
    what = f"{conv} conventional cell of {lat}"
    v1 = abs(np.linalg.det(cr.cell)) / X.n_translations(cr.cell, cr.positions, c.kinds)
    mult = X.MULTIPLICITY[lat[1]]
    if conv == "SC" and lat == "hR":
        mult = 1
        if not (eq(p[0], p[1]) and eq(p[1], p[2]) and abs(p[3] - p[4]) < 2e-3 and abs(p[4] - p[5]) < 2e-3):
            fail(f"{what}: a = b = c, alpha = beta = gamma is not satisfied by {p}")
    elif conv == "SC" and lat[0] == "m":
        if not (right(p[4]) and right(p[5])):
            fail(f"{what}: beta = gamma = 90 is not satisfied by {p}")
        if p[3] > 90 + 2e-3:
            fail(f"{what}: alpha = {p[3]} > 90")
        if lat == "mP" and p[1] > p[2] * (1 + 1e-4):
            fail(f"{what}: b = {p[1]} > c = {p[2]}")
    elif lat[0] == "m":
        if not (right(p[3]) and right(p[5])):
            fail(f"{what}: alpha = gamma = 90 is not satisfied by {p}")
        if p[4] < 90 - 2e-3:
            fail(f"{what}: beta = {p[4]} < 90")
    elif lat[0] != "a":
        metric(lat, p, what)
    if conv == "SC" and lat[0] == "o":
        if lat[1] in "PFI" and not (p[0] <= p[1] * (1 + 1e-4) and p[1] <= p[2] * (1 + 1e-4)):
            fail(f"{what}: a <= b <= c is not satisfied by {p[:3]}")
        if lat[1] in "AC" and p[0] > p[1] * (1 + 1e-4):
            fail(f"{what}: a <= b is not satisfied by {p[:3]}")
    if lat == "aP" and conv != "spglib":
        triclinic(conv, cell, what)
    axes(c, own, conv, lat, cell, what)
    v = abs(np.linalg.det(cell))
    if abs(v / (mult * v1) - 1) > 1e-3:
        fail(f"{what}: volume {v:.6g}, expected {mult} x {v1:.6g}")
    # the centring letter: exactly these points of the cell are lattice points
    letter = lat[1]
    if conv == "SC" and lat == "oA":
        letter = "C"
    vectors = [] if mult == 1 else X.CENTRING_VECTORS[letter]
    kind = np.array(list(C.kind_of_output(atoms, s["dress"], 0).values())[0])
    inv = np.linalg.inv(cell)
    pos = np.array(atoms["positions"], dtype=float)
    for t in vectors:
        if not X._match((pos + np.array(t)) @ cell, kind, inv, pos, kind, cell, 1e-3):
            fail(f"{what}: {letter}-centring vector {t} is not a translation of the crystal")
    # spglib: the standardized cell of spglib, in the orientation of the given crystal
    if conv == "spglib" or (conv == "HPKOT" and lat != "aP"):
        q = params_ref(np.array(own.std_lattice))
        if not (np.allclose(p[:3], q[:3], rtol=1e-4) and np.allclose(p[3:], q[3:], atol=2e-3)):
            fail(f"{what}: parameters {p}, spglib's standardized cell has {q}")
        if np.linalg.det(cell) < 0:
            fail(f"{what}: left-handed")
    if np.linalg.det(cell) < 0:
        fail(f"{what} is left-handed: {cell.tolist()}")
    if np.linalg.det(prim) < 0:
        fail(f"{conv} primitive cell of {lat} is left-handed: {prim.tolist()}")
    # primitive cell from the conventional one
    if conv != "spglib":
        want = R.primitive_rows(conv, lat) @ cell
        if np.abs(prim - want).max() > 1e-4 * np.abs(cell).max():
            fail(f"{conv} primitive cell of {lat} is {prim.tolist()}; the convention builds {want.tolist()} from the "
                 f"conventional cell")
    return f"{lat}-{conv}"


def triclinic(conv, cell, what):
    k = R.recip(cell)
    _, _, _, al, be, ga = params_ref(k)
    tol = 1e-3
    obtuse = min(al, be, ga) >= 90 - tol
    acute = max(al, be, ga) <= 90 + tol
    if not (obtuse or acute):
        fail(f"{what}: reciprocal angles {al:.6f}, {be:.6f}, {ga:.6f} are neither all acute nor all obtuse")
    if conv == "HPKOT":
        d = [abs(k[1] @ k[2]), abs(k[0] @ k[2]), abs(k[0] @ k[1])]
        if d[2] > min(d) + 1e-5 * np.abs(k).max() ** 2:
            fail(f"{what}: |k_a k_b| is not the smallest of the scalar products {d}")
        reduced(k, f"{what}: the reciprocal cell")
    else:
        if abs(ga - 90) > tol:
            if obtuse and ga > min(al, be) + tol:
                fail(f"{what}: k_gamma is not the smallest of the obtuse {al:.6f}, {be:.6f}, {ga:.6f}")
            if acute and not obtuse and ga < max(al, be) - tol:
                fail(f"{what}: k_gamma is not the largest of the acute {al:.6f}, {be:.6f}, {ga:.6f}")


def reduced(k, what):
    """The three vectors are the three shortest of the lattice (a Niggli cell in any order)."""
    w = np.array([[i, j, l] for i in range(-2, 3) for j in range(-2, 3) for l in range(-2, 3)])
    n = np.sort(np.linalg.norm(k, axis=1))
    v = w @ X.reduce_short(k)
    r = np.linalg.norm(v, axis=1)
    order = np.argsort(r, kind="stable")
    chosen = []
    for i in order:
        if r[i] < 1e-12:
            continue
        m = chosen + [v[i]]
        if np.linalg.matrix_rank(np.array(m), tol=1e-6 * r[i]) == len(m):
            chosen.append(v[i])
        if len(chosen) == 3:
            break
    best = np.sort([np.linalg.norm(x) for x in chosen])
    if (n > best * (1 + 1e-4)).any():
        fail(f"{what} is not reduced: lengths {n.tolist()}, shortest vectors of the lattice {best.tolist()}")


FACETS = [
    Facet("rules", C.case_specs, check, C.make_case, quick=2400, thorough=60000, shards=8),
    Facet("bravais", lambda: C.case_specs(crystal=C.lattice_only()), check, C.make_case, quick=1600, thorough=40000,
          shards=8),
    Facet("axes", lambda: C.case_specs(crystal=C.axes_specs()), check, C.make_case, quick=3200, thorough=80000, shards=8),
    Facet("triclinic", lambda: C.case_specs(crystal=C.triclinic_specs()), check, C.make_case, quick=1600, thorough=40000, shards=8),
]
