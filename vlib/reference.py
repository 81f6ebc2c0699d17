"""Reference data and rules written from the publications, not from the code under test.

HPKOT: Hinuma, Pizzi, Kumagai, Oba, Tanaka, Comp. Mat. Sci. 128, 140 (2017).
SC:    Setyawan, Curtarolo, Comp. Mat. Sci. 49, 299 (2010).
"""
import math

import numpy as np

from vlib import crystals as X
from vlib.gens import params_ref

# rows: primitive vectors in units of the conventional vectors
PRIMITIVE = {
    "HPKOT": {
        "cF": [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
        "I": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
        "oA": [[0, 0.5, -0.5], [0, 0.5, 0.5], [1, 0, 0]],
        "oC": [[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]],
        "mC": [[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]],
        "hR": [[2 / 3, 1 / 3, 1 / 3], [-1 / 3, 1 / 3, 1 / 3], [-1 / 3, -2 / 3, 1 / 3]],
    },
    "SC": {
        "cF": [[0, 0.5, 0.5], [0.5, 0, 0.5], [0.5, 0.5, 0]],
        "I": [[-0.5, 0.5, 0.5], [0.5, -0.5, 0.5], [0.5, 0.5, -0.5]],
        "oA": [[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]],
        "oC": [[0.5, -0.5, 0], [0.5, 0.5, 0], [0, 0, 1]],
        "mC": [[0.5, 0.5, 0], [-0.5, 0.5, 0], [0, 0, 1]],
        "hR": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    },
}


def primitive_rows(convention, lattice):
    t = PRIMITIVE[convention]
    if lattice[1] == "P":
        return np.eye(3)
    if lattice[1] == "I":
        return np.array(t["I"])
    if lattice[1] == "F":
        return np.array(t["cF"], dtype=float)
    return np.array(t[lattice], dtype=float)


def own_symmetry(cr, symprec=1e-5):
    """(number, Bravais type of the standardized cell) from a direct call of spglib."""
    d = X.spglib.get_symmetry_dataset((cr.cell, cr.positions, [int(t) for t in cr.types]), symprec=symprec)
    if d is None:
        return None
    return d


def lattice_type(number):
    return X.family(number) + X.centring(number)


def recip(cell):
    return 2 * np.pi * np.linalg.inv(np.array(cell, dtype=float)).T


def angles_k(cell):
    return params_ref(recip(cell))[3:]


# -- lattice variations --------------------------------------------------------------------------
def _cmp(x, y, rel=1e-5):
    """-1, 0 (a tie) or 1."""
    if abs(x - y) <= rel * max(abs(x), abs(y), 1e-12):
        return 0
    return 1 if x > y else -1


def hpkot_symbols(number, std):
    """Acceptable extended Bravais lattice symbols (more than one on a border)."""
    lat = lattice_type(number)
    a, b, c, al, be, ga = params_ref(std)
    if lat == "cP":
        return {"cP1"} if number <= 206 else {"cP2"}
    if lat == "cF":
        return {"cF1"} if number <= 206 else {"cF2"}
    if lat in ("cI", "tP", "oP", "mP"):
        return {lat + "1"}
    if lat == "hP":
        one = set(range(143, 150)) | {151, 153, 157} | set(range(159, 164))
        return {"hP1"} if number in one else {"hP2"}

    def pick(x, y, low, high):
        k = _cmp(x, y)
        return {low, high} if k == 0 else ({low} if k < 0 else {high})

    if lat == "tI":
        return pick(c, a, "tI1", "tI2")
    if lat == "oC":
        return pick(a, b, "oC1", "oC2")
    if lat == "oA":
        return pick(b, c, "oA1", "oA2")
    if lat == "hR":
        return pick(math.sqrt(3) * a, math.sqrt(2) * c, "hR1", "hR2")
    if lat == "oF":
        out = set()
        k = _cmp(a**-2, b**-2 + c**-2)
        m = _cmp(c**-2, a**-2 + b**-2)
        if k >= 0:
            out.add("oF1")
        if m >= 0:
            out.add("oF2")
        if k <= 0 and m <= 0:
            out.add("oF3")
        return out
    if lat == "oI":
        m = max(a, b, c)
        return {n for x, n in ((c, "oI1"), (a, "oI2"), (b, "oI3")) if _cmp(x, m) == 0}
    if lat == "mC":
        sb, cb = math.sin(math.radians(be)), math.cos(math.radians(be))
        k = _cmp(b, a * sb)
        out = set()
        if k <= 0:
            out.add("mC1")
        if k >= 0:
            m = _cmp(-a * cb / c + (a * sb / b) ** 2, 1.0)
            if m <= 0:
                out.add("mC2")
            if m >= 0:
                out.add("mC3")
        return out
    # aP: type I or II of the reduced reciprocal cell
    d, amb = dot_signs(recip(std))
    if amb:
        return {"aP2", "aP3"}
    return {"aP3"} if d > 0 else {"aP2"}


def dot_signs(k):
    """Sign of the product of the three scalar products of the three shortest independent
    vectors and whether it is ambiguous (ties, right angles)."""
    r = X.reduce_short(k)
    w = np.array([[i, j, l] for i in range(-2, 3) for j in range(-2, 3) for l in range(-2, 3)
                  if (i, j, l) > (0, 0, 0)])
    v = w @ r
    n = np.linalg.norm(v, axis=1)
    o = np.argsort(n, kind="stable")
    v, n = v[o], n[o]
    chosen, ln, amb = [], [], False
    for x, y in zip(v, n):
        if len(chosen) == 3:
            if y < ln[2] * (1 + 1e-4):
                m = chosen[:2] + [x]
                if abs(np.linalg.det(np.array(m))) > 1e-6 * np.prod(ln):
                    amb = True
            continue
        m = chosen + [x]
        if np.linalg.matrix_rank(np.array(m), tol=1e-6 * y) == len(m):
            chosen.append(x)
            ln.append(y)
    # another vector as short as the second one
    for i in range(2):
        if sum(abs(n - ln[i]) < 1e-4 * ln[i]) > 1 + sum(abs(np.array(ln) - ln[i]) < 1e-4 * ln[i]) - 1:
            amb = True
    a, b, c = chosen
    ds = [b @ c / (ln[1] * ln[2]), a @ c / (ln[0] * ln[2]), a @ b / (ln[0] * ln[1])]
    if min(abs(x) for x in ds) < 1e-4:
        amb = True
    return float(np.prod(np.sign(ds))), amb


def sc_variations(number, std, prim_std, symprec=1e-5):
    """(acceptable variations, may it refuse with ValueError)."""
    lat = lattice_type(number)
    short = {"cP": "CUB", "cF": "FCC", "cI": "BCC", "tP": "TET", "oP": "ORC", "oI": "ORCI", "oA": "ORCC", "oC": "ORCC",
             "hP": "HEX", "mP": "MCL"}
    if lat in short:
        return {short[lat]}, False
    a, b, c, al, be, ga = params_ref(std)
    if lat == "tI":
        k = _cmp(c, a)
        return ({"BCT1", "BCT2"}, True) if k == 0 else ({"BCT1"} if k < 0 else {"BCT2"}, False)
    if lat == "oF":
        x, y, z = sorted([a, b, c])
        e = 1 / math.sqrt(y**-2 + z**-2) - x
        refuse = min(y - x, z - y) < 10 * symprec
        if abs(e) < 0.5 * symprec:
            return {"ORCF3"}, refuse
        if abs(e) < 2 * symprec:
            return {"ORCF1", "ORCF2", "ORCF3"}, refuse
        return {"ORCF1"} if e > 0 else {"ORCF2"}, refuse
    if lat == "hR":
        # rhombohedral angle from the hexagonal parameters
        cosr = (c * c / 9 - a * a / 6) / (c * c / 9 + a * a / 3)
        x = math.degrees(math.acos(cosr))
        if abs(x - 90) < 1e-3:
            return {"RHL1", "RHL2"}, True
        return ({"RHL1"} if x < 90 else {"RHL2"}), False
    if lat == "mC":
        # spglib: unique axis b; SC: unique axis a, (a, b, c)_SC = (b, a, c)
        sb, cb = math.sin(math.radians(be)), abs(math.cos(math.radians(be)))
        A, B, Cc = b, a, c
        kg = 180.0 - 2 * math.degrees(math.atan2(A, B * sb))
        # k_gamma > 90 iff A < B sin(alpha)
        out = set()
        if abs(kg - 90) < 2e-4:
            out.add("MCLC2")
        if kg > 90 + 5e-5:
            out.add("MCLC1")
        if kg < 90 - 5e-5:
            e = B * cb / Cc + (B * sb / A) ** 2
            if abs(e - 1) < 2 * symprec:
                out.add("MCLC4")
            if e < 1 - 0.5 * symprec:
                out.add("MCLC3")
            if e > 1 + 0.5 * symprec:
                out.add("MCLC5")
        return out, False
    k = angles_k(std)
    near = sum(abs(x - 90) < 2e-4 for x in k)
    exact = sum(abs(x - 90) < 5e-5 for x in k)
    s = np.prod([math.cos(math.radians(x)) for x in k])
    if near == 0:
        return ({"TRI1b"} if s > 0 else {"TRI1a"}), False
    if near > 1:
        return {"TRI1a", "TRI1b", "TRI2a", "TRI2b", "TRI", None}, True
    if exact == 1:
        return {"TRI2a", "TRI2b"}, False
    return {"TRI1a", "TRI1b", "TRI2a", "TRI2b", "TRI", None}, True
