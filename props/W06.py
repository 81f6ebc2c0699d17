"""High-symmetry points: published coordinates in the basis that is documented."""
import json
import os

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import kpoint_tables as K
from vlib import reference as R
from vlib.core import Facet, fail
from vlib.gens import params_ref
from props.W05 import two_specs, make_two

PROPERTY = "W06"
RULE = (
    "Crystals as in W05 (all space groups, aimed at every variation), described by primitive cells, supercells, skewed "
    "and rotated bases, HPKOT and SC, relative and absolute, with and without time reversal. Classes name the symbol. "
    "Non-trivial: points were returned and compared."
)
ASSUMPTIONS = [
    "the tables of Hinuma et al. 2017 and Setyawan, Curtarolo 2010 are retyped in vlib/kpoint_tables.py",
    "which plane of the zone a point touches was recorded once per symbol and label over many lattices "
    "(vlib/zone_planes.json) and is a lower bound; three labels of SC lie outside the zone by the published formula",
]
with open(os.path.join(os.path.dirname(os.path.abspath(K.__file__)), "zone_planes.json")) as _f:
    PLANES = json.load(_f)


@st.composite
def specs(draw):
    s = draw(st.one_of(C.case_specs(crystal=C.variant_specs()), C.case_specs()))
    s["conv"] = draw(st.sampled_from(["HPKOT", "SC"]))
    s["tr"] = draw(st.sampled_from([1, 1, 0]))
    return s


def symbol_of(c, s, own, kw):
    if s["conv"] == "HPKOT":
        return wulfric.crystal.hpkot_get_extended_bl_symbol(c.cell, c.atoms, **kw)
    _, refuse = R.sc_variations(own.number, own.std_lattice, own.primitive_lattice)
    if refuse:
        return None
    return wulfric.crystal.sc_get_variation(c.cell, c.atoms, **kw)


def table(c, s, sym):
    conv_cell, _ = wulfric.crystal.get_conventional(c.cell, c.atoms, convention=s["conv"])
    prim, _ = wulfric.crystal.get_primitive(c.cell, c.atoms, convention=s["conv"])
    a, b, cc, al, be, ga = params_ref(conv_cell)
    pts = K.points(s["conv"], sym, a, b, cc, al, be)
    k = R.recip(prim)
    return {n: np.array(v) @ k for n, v in pts.items()}, k


def ask(c, s, relative, kw):
    if s["conv"] == "HPKOT" and s["spell"] == 2 and s["tr"]:
        kw = dict(kw)
    else:
        kw = dict(kw, convention=c.convention)
    if not s["tr"]:
        kw["with_time_reversal"] = False
    if not relative:
        kw["relative"] = False
    return wulfric.kpoints.get_path_and_points(c.cell, c.atoms, **kw)


def check_published(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    kw = C.data_kwargs(c, s, angle_only=True)
    sym = symbol_of(c, s, own, kw)
    if sym is None:
        return None
    want, k = table(c, s, sym)
    if not s["tr"] and not X.has_inversion(own.number):
        for n in list(want):
            if n != "GAMMA":
                want[n + "_P"] = -want[n]
    _, rel = ask(c, s, True, kw)
    _, ab = ask(c, s, False, kw)
    what = f"{s['conv']} {sym} (space group {own.number})"
    if set(rel) != set(want) or set(ab) != set(want):
        fail(f"{what}: points {sorted(set(rel) ^ set(want)) or sorted(set(ab) ^ set(want))} are missing or extra")
    scale = max(np.linalg.norm(v) for v in k)
    rc = R.recip(c.cr.cell)
    for n in want:
        p = np.array(ab[n], dtype=float)
        if p.shape != (3,) or not np.isfinite(p).all() or np.abs(p - want[n]).max() > 2e-4 * scale:
            fail(f"{what}: absolute {n} is {p.tolist()}, the published one is {want[n].tolist()}")
        q = np.array(rel[n], dtype=float)
        if q.shape != (3,) or not np.isfinite(q).all() or np.abs(q @ rc - want[n]).max() > 2e-4 * scale:
            fail(f"{what}: relative {n} is {q.tolist()}; in the basis of get_reciprocal(cell) that is "
                 f"{(q @ rc).tolist()}, the published one is {want[n].tolist()}")
        # one and the same point in two ways: far better than the published comparison
        if np.abs(q @ rc - p).max() > 1e-7 * scale:
            fail(f"{what}: relative and absolute coordinates of {n} differ by {np.abs(q @ rc - p).max():.3g}")
    return sym


def touching(k, p, tol=1e-5):
    """(number of zone planes the point lies on, by how much it lies outside)."""
    r = X.reduce_short(k)
    w = np.array([[i, j, l] for i in range(-3, 4) for j in range(-3, 4) for l in range(-3, 4) if (i, j, l) != (0, 0, 0)])
    g = w @ r
    n2 = np.sum(g * g, axis=1)
    x = (2 * (g @ p) - n2) / np.sqrt(n2)  # > 0: outside the plane
    s = np.abs(k).max()
    return int((np.abs(x) < tol * s).sum()), float(x.max() / s)


def check_zone(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    sym = symbol_of(c, s, own, {})
    if sym is None:
        return None
    prim, _ = wulfric.crystal.get_primitive(c.cell, c.atoms, convention=s["conv"])
    k = R.recip(prim)
    s = dict(s, tr=1)
    _, ab = ask(c, s, False, {})
    known = PLANES[s["conv"]][sym]
    for n, p in ab.items():
        if n not in known:
            fail(f"{s['conv']} {sym}: unknown point {n}")
        if known[n] is None:
            continue
        # a variation that is a border holds within symprec of it: the zone is that of the border up to it
        tol = 3e-3 if sym in ("ORCF3", "MCLC2", "MCLC4", "TRI2a", "TRI2b") else 1e-5
        t, out = touching(k, np.array(p), tol)
        if out > max(1e-4, tol):
            fail(f"{s['conv']} {sym} (space group {own.number}): {n} lies outside the Brillouin zone of the primitive cell")
        if t < known[n]:
            fail(f"{s['conv']} {sym} (space group {own.number}): {n} lies on {t} planes of the zone's border, expected {known[n]}")
    return sym


def two():
    @st.composite
    def f(draw):
        s = draw(two_specs())
        s["conv"] = draw(st.sampled_from(["HPKOT", "SC"]))
        return s
    return f()


def check_two(x, s):
    c1, c2 = x
    o1, o2 = R.own_symmetry(c1.cr), R.own_symmetry(c2.cr)
    if o1 is None or o2 is None or o1.number != o2.number:
        return None
    s1, s2 = symbol_of(c1, s, o1, {}), symbol_of(c2, s, o2, {})
    if s1 is None or s1 != s2:
        return None
    cells = [wulfric.crystal.get_conventional(c.cell, c.atoms, convention=s["conv"])[0] for c in (c1, c2)]
    if not np.allclose(params_ref(cells[0]), params_ref(cells[1]), rtol=1e-5):
        return None
    (p1, q1), (p2, q2) = (
        wulfric.kpoints.get_path_and_points(c.cell, c.atoms, convention=s["conv"], relative=False) for c in (c1, c2)
    )
    if p1 != p2 or set(q1) != set(q2):
        fail(f"two descriptions of one crystal ({s1}) have the paths {p1} and {p2}")
    names = sorted(q1)
    g1 = np.array([[q1[a] @ q1[b] for b in names] for a in names])
    g2 = np.array([[q2[a] @ q2[b] for b in names] for a in names])
    if np.abs(g1 - g2).max() > 1e-4 * np.abs(g1).max():
        i, j = np.unravel_index(np.abs(g1 - g2).argmax(), g1.shape)
        fail(f"two descriptions of one crystal ({s['conv']} {s1}): scalar product of {names[i]} and {names[j]} is "
             f"{g1[i, j]} and {g2[i, j]}")
    return s1


FACETS = [
    Facet("published", specs, check_published, C.make_case, quick=2400, thorough=60000, shards=8),
    Facet("zone", specs, check_zone, C.make_case, quick=1000, thorough=30000, shards=8),
    Facet("descriptions", two, check_two, make_two, quick=800, thorough=20000, shards=8),
]
