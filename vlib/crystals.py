"""Structured generator of crystals with an independent ground truth.

A *spec* is a plain JSON dict.  ``build(spec)`` turns it into a ``Crystal``: a conventional
description built directly from the symmetry operations of a space group (taken from the
spglib database, which wulfric itself never reads), and a *disguised* description of the
same crystal: another choice of the cell (unimodular change, supercell), rigidly rotated,
translated, with reordered atoms.  Nothing of wulfric is used here.
"""
import functools
import math
import warnings

import numpy as np
from hypothesis import strategies as st, assume

warnings.filterwarnings("ignore")
import spglib  # noqa: E402

warnings.filterwarnings("ignore")
try:
    import spglib.error
    spglib.error.OLD_ERROR_HANDLING = True
except Exception:
    pass

SPECIES = ["Cr", "Br", "S", "Fe", "O", "Ni", "I", "H", "C", "U"]


@functools.lru_cache(maxsize=None)
def first_hall():
    first = {}
    for hall in range(1, 531):
        n = spglib.get_spacegroup_type(hall).number
        first.setdefault(n, hall)
    return first


@functools.lru_cache(maxsize=None)
def operations(sg):
    d = spglib.get_symmetry_from_database(first_hall()[sg])
    return np.array(d["rotations"], dtype=int), np.array(d["translations"], dtype=float)


@functools.lru_cache(maxsize=None)
def symbol(sg):
    return spglib.get_spacegroup_type(first_hall()[sg]).international_short


# ---- independent classification of space groups ----------------------------------
def family(sg):
    """Crystal family by the ranges of International Tables A."""
    for hi, f in ((2, "a"), (15, "m"), (74, "o"), (142, "t"), (194, "h"), (230, "c")):
        if sg <= hi:
            return f


@functools.lru_cache(maxsize=None)
def centring(sg):
    """Centring letter from the lattice translations in the group operations."""
    rot, tr = operations(sg)
    t = sorted(
        tuple(np.round(np.mod(v, 1), 4) % 1)
        for r, v in zip(rot, tr)
        if (r == np.eye(3)).all()
    )
    n = len(t)
    if n == 1:
        return "P"
    if n == 3:
        return "R"
    if n == 4:
        return "F"
    v = [x for x in t if any(x)][0]
    return {(0.5, 0.5, 0.5): "I", (0.5, 0.5, 0.0): "C", (0.0, 0.5, 0.5): "A", (0.5, 0.0, 0.5): "B"}[v]


@functools.lru_cache(maxsize=None)
def has_inversion(sg):
    rot, _ = operations(sg)
    return any((r == -np.eye(3)).all() for r in rot)


def bravais(sg):
    return family(sg) + centring(sg)


SG_BY_BRAVAIS = {}
for _n in range(1, 231):
    SG_BY_BRAVAIS.setdefault(bravais(_n), []).append(_n)


# ---- lattices -----------------------------------------------------------------------
def cell_from_params(a, b, c, al, be, ga):
    """Independent textbook construction."""
    al, be, ga = (math.radians(x) for x in (al, be, ga))
    ax = np.array([a, 0.0, 0.0])
    bx = np.array([b * math.cos(ga), b * math.sin(ga), 0.0])
    cx = c * math.cos(be)
    cy = c * (math.cos(al) - math.cos(be) * math.cos(ga)) / math.sin(ga)
    cz2 = c * c - cx * cx - cy * cy
    if cz2 <= 0:
        return None
    return np.array([ax, bx, [cx, cy, math.sqrt(cz2)]])


def rotation(q):
    """Proper rotation from an integer quaternion; zero -> identity."""
    q = np.array(q, dtype=float)
    n = np.linalg.norm(q)
    if n < 1e-9:
        return np.eye(3)
    w, x, y, z = q / n
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


CENTRING_VECTORS = {
    "P": [],
    "I": [(0.5, 0.5, 0.5)],
    "C": [(0.5, 0.5, 0)],
    "A": [(0, 0.5, 0.5)],
    "F": [(0, 0.5, 0.5), (0.5, 0, 0.5), (0.5, 0.5, 0)],
    "R": [(2 / 3, 1 / 3, 1 / 3), (1 / 3, 2 / 3, 2 / 3)],
}
# One primitive basis (rows, in units of the conventional vectors) per centring, written
# from the definitions of the centred lattices.
PRIMITIVE_ROWS = {
    "P": np.eye(3),
    "I": np.array([[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]]),
    "C": np.array([[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1.0]]),
    "A": np.array([[1.0, 0, 0], [0, 0.5, 0.5], [0, -0.5, 0.5]]),
    "F": np.array([[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]]),
    "R": np.array([[2 / 3, 1 / 3, 1 / 3], [-1 / 3, 1 / 3, 1 / 3], [-1 / 3, -2 / 3, 1 / 3]]),
}
MULTIPLICITY = {"P": 1, "I": 2, "C": 2, "A": 2, "F": 4, "R": 3}


def unimodular(ops):
    """Integer matrix of determinant +-1 from elementary row operations."""
    U = np.eye(3, dtype=int)
    for kind, i, j, k in ops:
        E = np.eye(3, dtype=int)
        if kind == 0:  # shear
            if i == j:
                continue
            E[i, j] = k
        elif kind == 1:  # swap
            E[[i, j]] = E[[j, i]]
        else:  # flip
            E[i, i] = -1
        U = E @ U
    return U


class Crystal:
    """cell, positions, types: the disguised description handed to the code under test.
    conv_*: the description it was built from."""

    __slots__ = (
        "sg", "robust", "conv_cell", "conv_positions", "conv_types", "prim_cell",
        "cell", "positions", "types", "rot", "n_cells", "params", "nat_prim", "lattice", "spec",
    )


def orbit(sg, xyz, tol=1e-5):
    rot, tr = operations(sg)
    p = (rot @ np.array(xyz, dtype=float) + tr) % 1.0
    out = []
    for v in p:
        for w in out:
            d = v - w
            d -= np.round(d)
            if np.abs(d).max() < tol:
                break
        else:
            out.append(v)
    return np.array(out)


def build(spec, min_dist=0.9, max_scale=8.0):
    """spec -> Crystal or None if the spec does not describe an acceptable crystal."""
    sg = spec["sg"]
    cell0 = cell_from_params(*lattice_params(spec))
    if cell0 is None:
        return None
    a, b, c = (np.linalg.norm(v) for v in cell0)
    if abs(np.linalg.det(cell0)) / (a * b * c) < 0.2:
        return None
    pos, typ = [], []
    for t, x, y, z in spec["orbits"]:
        o = orbit(sg, (x, y, z))
        pos.extend(o)
        typ.extend([t] * len(o))
    pos = np.array(pos)
    typ = np.array(typ, dtype=int)
    # nearest distance in the conventional cell (images -1..1)
    f = pos % 1.0
    d = f[:, None, :] - f[None, :, :]
    d -= np.round(d)
    cart = d @ cell0
    r = np.linalg.norm(cart, axis=2)
    np.fill_diagonal(r, np.inf)
    rmin = r.min() if len(f) > 1 else np.inf
    if np.isfinite(rmin) and rmin < 1e-3:
        return None
    scale = max(1.0, min_dist / rmin) if np.isfinite(rmin) else 1.0
    if scale > max_scale:
        return None
    factor = spec.get("scale", 1.0)
    if factor > 8:  # large cells, at most 1000 Angstrom
        factor = min(factor, max(1.0, 1000.0 / (scale * max(a, b, c))))
    cell0 = cell0 * scale * factor

    L = centring(sg)
    prim = PRIMITIVE_ROWS[L] @ cell0
    # atoms of the primitive cell
    fp = (pos @ cell0 @ np.linalg.inv(prim)) % 1.0
    keep_p, keep_t = [], []
    for v, t in zip(fp, typ):
        for w, tw in zip(keep_p, keep_t):
            if tw != t:
                continue
            dd = v - w
            dd -= np.round(dd)
            if np.abs(dd).max() < 1e-6:
                break
        else:
            keep_p.append(v)
            keep_t.append(t)
    fp, ft = np.array(keep_p), np.array(keep_t, dtype=int)

    M = np.diag(spec.get("super", [1, 1, 1])) @ unimodular(spec.get("uni", []))
    if "left" in spec and spec["left"]:
        M = -M
    n_cells = abs(int(round(np.linalg.det(M))))
    new_cell = M @ prim
    # fill the new cell
    Minv = np.linalg.inv(M)
    shifts = []
    reach = int(np.abs(M).sum(axis=0).max())
    if n_cells == 1:
        shifts = [np.zeros(3)]
    else:
        rng = np.arange(-reach, reach + 1)
        grid = np.array(np.meshgrid(rng, rng, rng, indexing="ij")).reshape(3, -1).T
        g = grid @ Minv
        g = np.round(g, 9)
        inside = np.all((g >= 0) & (g < 1), axis=1)
        shifts = [v @ M for v in g[inside]]
        if len(shifts) != n_cells:
            return None
    allp, allt = [], []
    for s in shifts:
        allp.extend((fp + s) @ Minv)
        allt.extend(ft)
    allp = np.array(allp)
    allt = np.array(allt, dtype=int)
    wrap = spec.get("wrap", 1)
    allp = allp + np.array(spec.get("shift", [0, 0, 0]), dtype=float) @ np.linalg.inv(new_cell)
    if wrap:
        allp = allp % 1.0
    # permutation
    n = len(allp)
    perm = np.random.RandomState(spec.get("perm", 0)).permutation(n) if spec.get("perm", 0) else np.arange(n)
    R = rotation(spec.get("quat", [0, 0, 0, 0]))

    cr = Crystal()
    cr.sg = sg
    cr.robust = bool(spec.get("robust"))
    cr.conv_cell = cell0 @ R.T
    cr.prim_cell = prim @ R.T
    cr.conv_positions = pos
    cr.conv_types = typ
    cr.cell = new_cell @ R.T
    cr.positions = allp[perm]
    cr.types = allt[perm]
    cr.rot = R
    cr.n_cells = n_cells
    cr.nat_prim = len(fp)
    cr.lattice = bravais(sg)
    cr.spec = spec
    if spec.get("noise"):  # of a file with few digits, of a relaxation: far below the tolerance of spglib
        seed, digits = spec["noise"]
        if seed:
            rs = np.random.RandomState(seed)
            cr.cell = cr.cell + rs.uniform(-1, 1, (3, 3)) * 10.0**-digits
            cr.positions = cr.positions + rs.uniform(-1, 1, cr.positions.shape) * 10.0**-digits @ np.linalg.inv(cr.cell)
        else:
            cr.cell = np.round(cr.cell, digits)
            cr.positions = np.round(cr.positions, digits + 1)
    al, be, ga = lattice_params(spec)[3:]
    cr.params = tuple(np.linalg.norm(v) for v in cell0) + (al, be, ga)
    return cr


def lattice_params(spec):
    a, b, c, al, be, ga = spec["lat"]
    f = family(spec["sg"])
    if f == "a":
        return a, b, c, al, be, ga
    if f == "m":
        return a, b, c, 90.0, be, 90.0
    if f == "o":
        return a, b, c, 90.0, 90.0, 90.0
    if f == "t":
        return a, a, c, 90.0, 90.0, 90.0
    if f == "h":
        return a, a, c, 90.0, 90.0, 120.0
    return a, a, a, 90.0, 90.0, 90.0


# ---- strategies ---------------------------------------------------------------------
def lengths():
    usual = st.integers(0, 65000).map(lambda i: round(2.5 + i / 10000, 4))
    whole = st.integers(3, 12).map(float)
    long = st.integers(1000, 6000).map(lambda i: i / 100)  # layers and chains in vacuum, large cells
    return st.integers(0, 19).flatmap(lambda k: whole if k in (1, 2) else long if k == 3 else usual)


@st.composite
def lattices(draw, fam):
    a, b, c = draw(lengths()), draw(lengths()), draw(lengths())
    if fam == "a":
        al = draw(st.integers(0, 6000)) / 100 + 60.37
        be = draw(st.integers(0, 6000)) / 100 + 60.23
        ga = draw(st.integers(0, 6000)) / 100 + 60.11
        return [a, b, c, round(al, 3), round(be, 3), round(ga, 3)]
    if fam == "m":
        be = draw(st.integers(0, 6000)) / 100 + 60.13
        if draw(st.integers(0, 9)) == 0:  # lattices of higher symmetry than that of the crystal
            be = draw(st.sampled_from([90.0, 90.0, 120.0]))
            c = draw(st.sampled_from([c, c, a]))
        return [a, b, c, 90.0, round(be, 3), 90.0]
    return [a, b, c, 90.0, 90.0, 90.0]


# Coordinates, their sums and differences either coincide exactly or are 1/(97*24) away from every special value, so no
# crystal has a symmetry that is only slightly broken (spglib itself is not consistent about those)
GENERIC = st.integers(1, 96).map(lambda i: i / 97)
TINY = st.sampled_from([0.0, 1e-13, -1e-13, 1e-10, -1e-10, 1e-8, -1e-8, 1e-7, -1e-7, 3e-6, -3e-6, 1e-4, -1e-4, 1 - 1e-7, -1.0])
SPECIAL = st.sampled_from([0.0, 0.5, 0.25, 0.75, 1 / 3, 2 / 3, 0.125, 0.375])


@st.composite
def orbits(draw, robust, n_types=3, max_orbits=3):
    if robust:
        # three general orbits of distinct types: the symmetry is exactly the group
        return [
            [t + 1, draw(GENERIC), draw(GENERIC), draw(GENERIC)] for t in range(3)
        ]
    n = draw(st.integers(1, max_orbits))
    out = []
    for _ in range(n):
        t = draw(st.integers(1, n_types))
        kind = draw(st.integers(0, 3))
        g = [draw(SPECIAL if kind in (0, 1) or (kind == 2 and k != 2) else GENERIC) for k in range(3)]
        out.append([t] + g)
    return out


@st.composite
def disguises(draw, plain=False, max_super=2, allow_left=True):
    d = {}
    if plain:
        return d
    d["uni"] = draw(
        st.lists(
            st.tuples(
                st.sampled_from([0, 0, 0, 1, 2]),
                st.integers(0, 2),
                st.integers(0, 2),
                st.integers(-2, 2),
            ).map(list),
            max_size=4,
        )
    )
    if draw(st.integers(0, 2)) == 0:
        d["super"] = [draw(st.integers(1, max_super)) for _ in range(3)]
    d["quat"] = draw(
        st.one_of(
            st.just([0, 0, 0, 0]),
            st.lists(st.integers(-9, 9), min_size=4, max_size=4),
        )
    )
    d["shift"] = draw(
        st.one_of(
            st.just([0.0, 0.0, 0.0]),
            st.lists(st.integers(-400, 400).map(lambda i: i / 100), min_size=3, max_size=3),
            st.lists(TINY, min_size=3, max_size=3),
        )
    )
    d["perm"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 7)) == 0:
        d["scale"] = draw(st.sampled_from([4.0, 15.0, 60.0]))
    d["wrap"] = draw(st.integers(0, 1))
    if allow_left:
        d["left"] = draw(st.sampled_from([0, 0, 0, 1]))
    return d


@st.composite
def crystal_specs(
    draw, sg=None, bravais_type=None, robust=None, plain=False, max_super=2, max_atoms=160,
    max_conv_atoms=400, allow_left=True,
):
    if sg is None:
        if bravais_type is None:
            bravais_type = draw(st.sampled_from(sorted(SG_BY_BRAVAIS)))
        sg = draw(st.sampled_from(SG_BY_BRAVAIS[bravais_type]))
    if robust is None:
        robust = draw(st.integers(0, 3)) == 0
    spec = {"sg": sg, "robust": int(robust)}
    spec["lat"] = draw(lattices(family(sg)))
    spec["orbits"] = draw(orbits(robust))
    spec.update(draw(disguises(plain=plain, max_super=max_super, allow_left=allow_left)))
    n = sum(len(orbit(sg, o[1:])) for o in spec["orbits"])
    assume(n <= max_conv_atoms)
    n_p = n / MULTIPLICITY[centring(sg)]
    s = spec.get("super", [1, 1, 1])
    if n_p * np.prod(s) > max_atoms:
        spec["super"] = [1, 1, 1]
        assume(n_p <= max_atoms)
    return spec


# ---- oracle: do two descriptions describe the same crystal? ----------------------------
def _match(points, types, cell_inv, ref_frac, ref_types, cell, tol):
    """True if every (point,type) coincides with a reference atom modulo the lattice."""
    f = points @ cell_inv
    for t in np.unique(types):
        a = f[types == t]
        b = ref_frac[ref_types == t]
        if len(b) == 0:
            return False
        d = a[:, None, :] - b[None, :, :]
        d -= np.round(d)
        # skewed cells: check neighbouring images too
        best = np.linalg.norm(d @ cell, axis=2)
        bad = best.min(axis=1) > tol
        if bad.any():
            return False
    return True


def same_crystal(cell1, pos1, typ1, cell2, pos2, typ2, tol=1e-3, translation=None, return_t=False):
    """None if both describe the same infinite crystal up to a rigid translation (the given
    one if ``translation`` is not None), otherwise a reason (str)."""
    cell1, cell2 = np.array(cell1, dtype=float), np.array(cell2, dtype=float)
    pos1, pos2 = np.array(pos1, dtype=float), np.array(pos2, dtype=float)
    typ1, typ2 = np.array(typ1), np.array(typ2)
    for x, nm in ((cell1, "first cell"), (cell2, "second cell"), (pos1, "first positions"), (pos2, "second positions")):
        if not np.isfinite(x).all():
            return f"non-finite numbers in the {nm}"
    if len(pos1) != len(typ1) or len(pos2) != len(typ2):
        return "number of positions and types differ"
    v1, v2 = abs(np.linalg.det(cell1)), abs(np.linalg.det(cell2))
    if v1 < 1e-9 or v2 < 1e-9:
        return "degenerate cell"
    s1, s2 = set(typ1.tolist()), set(typ2.tolist())
    if s1 != s2:
        return f"kinds of atoms differ: {sorted(s1)} / {sorted(s2)}"
    for t in s1:
        n1, n2 = (typ1 == t).sum() / v1, (typ2 == t).sum() / v2
        if abs(n1 / n2 - 1) > 1e-3:
            return f"density of atoms of kind {t}: {n1:.6g} against {n2:.6g} per volume"
    i1, i2 = np.linalg.inv(cell1), np.linalg.inv(cell2)
    p1, p2 = pos1 @ cell1, pos2 @ cell2
    f2 = pos2
    f1 = pos1
    # lattice vectors of each must be periods of the other
    for k in range(3):
        if not _match(p2 + cell1[k], typ2, i2, f2, typ2, cell2, tol):
            return f"lattice vector {k + 1} of the first cell is not a period of the second crystal"
        if not _match(p1 + cell2[k], typ1, i1, f1, typ1, cell1, tol):
            return f"lattice vector {k + 1} of the second cell is not a period of the first crystal"
    if translation is not None:
        if _match(p1 + translation, typ1, i2, f2, typ2, cell2, tol):
            return None
        return "atoms are not at the same places"
    # rarest kind of atom fixes candidates for translation
    cnt = {t: (typ1 == t).sum() for t in s1}
    t0 = min(sorted(cnt), key=lambda t: cnt[t])
    r1 = p1[typ1 == t0][0]
    for r2 in p2[typ2 == t0]:
        if _match(p1 + (r2 - r1), typ1, i2, f2, typ2, cell2, tol):
            return None
    return "no rigid translation maps the atoms of one onto the other"


def reduce_short(cell):
    """Greedy pairwise reduction: same lattice, short vectors (for nearest image work)."""
    c = np.array(cell, dtype=float)
    for _ in range(200):
        changed = False
        for i in range(3):
            for j in range(3):
                if i != j:
                    k = round(float(c[i] @ c[j] / (c[j] @ c[j])))
                    if k:
                        n = c[i] - k * c[j]
                        if n @ n < c[i] @ c[i] - 1e-12:
                            c[i] = n
                            changed = True
        if not changed:
            break
    return c


def n_translations(cell, positions, types, tol=1e-3):
    """Number of distinct pure translations modulo the cell that map the crystal on itself."""
    cell = np.array(cell, dtype=float)
    positions = np.array(positions, dtype=float)
    types = np.array(types)
    inv = np.linalg.inv(cell)
    p = positions @ cell
    vals, cnt = np.unique(types, return_counts=True)
    t0 = vals[cnt.argmin()]
    cand = p[types == t0]
    n = 0
    for r in cand:
        if _match(p + (r - cand[0]), types, inv, positions, types, cell, tol):
            n += 1
    return n
