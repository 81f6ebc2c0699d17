"""Wigner-Seitz cell and Brillouin zone."""
import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull

import wulfric
from vlib import gens
from vlib.core import Facet, fail
from vlib.crystals import reduce_short

PROPERTY = "W12"
RULE = (
    "Cells of all lattice types changed by unimodular matrices, rotated and scaled; kept when all lattice vectors "
    "that can bound the Voronoi cell have coordinates within the documented reach (10) of the implementation. "
    "Non-trivial: all such cells; the class names the number of faces of the polyhedron."
)
ASSUMPTIONS = [
    "lattices whose bounding vectors are within 1e-3 (relative) of changing are excluded, exactly degenerate ones are kept",
    "cells for which a bounding lattice vector has a coordinate above 9 are outside the documented reach",
]


def relevant(cell):
    """Short lattice vectors that can bound the Voronoi cell, with integer coordinates."""
    red = reduce_short(cell)
    rng = np.arange(-3, 4)
    n = np.array([v for v in itertools.product(rng, rng, rng) if any(v)])
    g = n @ red
    # Voronoi relevant: midpoint is closest to the origin and to g (weakly)
    mid = g / 2
    full = np.vstack([np.zeros(3), g])
    d = np.linalg.norm(mid[:, None, :] - full[None, :, :], axis=2)
    r = np.linalg.norm(mid, axis=1)
    weak = (d >= r[:, None] * (1 - 1e-9)).all(axis=1)
    ok = g[weak]
    return ok, g


def specs():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(max_ops=3, k=2, scales=(1.0, 1.0, 0.02, 50.0, 1e-3, 2e-5, 1e4)), "form": gens.forms(),
        "bz": st.integers(0, 1),
    })


def make(s):
    c = gens.cell_of(s["cell"])
    if c is None:
        return None
    lat = c if not s["bz"] else 2 * np.pi * np.linalg.inv(c).T
    rel, g = relevant(lat)
    coef = rel @ np.linalg.inv(lat)
    if np.abs(coef).max() > 9.1:
        return None
    # not nearly degenerate: distances of midpoints to other lattice points are clearly
    # equal or clearly different
    mid = g / 2
    full = np.vstack([np.zeros(3), g])
    d = np.linalg.norm(mid[:, None, :] - full[None, :, :], axis=2)
    r = np.linalg.norm(mid, axis=1)[:, None]
    q = d / r - 1
    q[:, 0] = np.inf
    np.fill_diagonal(q[:, 1:], np.inf)
    q = q.min(axis=1)
    if ((np.abs(q) > 1e-9) & (np.abs(q) < 1e-3)).any():
        return None
    return c, lat, rel


def check(x, s):
    c, lat, rel = x
    f = wulfric.cell.get_brillouin_zone if s["bz"] else wulfric.cell.get_wigner_seitz_cell
    vertices, edges = f(gens.as_form(c, s["form"]))
    v = np.array(vertices, dtype=float)
    e = np.array(edges)
    if v.ndim != 2 or v.shape[1] != 3 or e.ndim != 2 or e.shape[1] != 2:
        fail(f"shapes {v.shape} {e.shape}")
    if e.dtype.kind not in "iu" or e.min() < 0 or e.max() >= len(v):
        fail("edges do not index the vertices")
    scale = np.abs(v).max()
    # plane of G: v.G <= G^2/2
    h = (v @ rel.T) / (rel**2).sum(axis=1) - 0.5
    t = 1e-7
    if h.max() > t:
        i = int(np.unravel_index(h.argmax(), h.shape)[0])
        fail(f"vertex {v[i].tolist()} is closer to another lattice point than to the origin")
    tight = np.abs(h) < 1e-6
    for i in range(len(v)):
        if np.linalg.matrix_rank(rel[tight[i]] / scale, tol=1e-3) < 3:
            fail(f"point {v[i].tolist()} is not a vertex of the cell")
    hull = ConvexHull(v)
    vol = abs(np.linalg.det(lat))
    if abs(hull.volume / vol - 1) > 1e-6:
        fail(f"volume of the polyhedron {hull.volume}, volume of the cell {vol}: vertices are missing")
    # distinct vertices
    d = np.linalg.norm(v[:, None] - v[None], axis=2)
    np.fill_diagonal(d, np.inf)
    if d.min() < 1e-6 * scale:
        fail("a vertex is listed twice")
    # edges: pairs of vertices on two common independent faces
    got = set()
    for i, j in e.tolist():
        if i == j or (min(i, j), max(i, j)) in got:
            fail(f"edge {(i, j)} is degenerate or repeated")
        got.add((min(i, j), max(i, j)))
    want = set()
    for i in range(len(v)):
        for j in range(i + 1, len(v)):
            common = rel[tight[i] & tight[j]]
            if len(common) >= 2 and np.linalg.matrix_rank(common / scale, tol=1e-3) >= 2:
                want.add((i, j))
    # a pair sharing two faces is an edge of a convex polyhedron
    if got != want:
        fail(f"{len(want - got)} edges are missing, {len(got - want)} segments are not edges "
             f"(of {len(want)} edges, {len(v)} vertices)")
    faces = sum(1 for k in range(len(rel)) if np.linalg.matrix_rank(
        v[tight[:, k]] - v[tight[:, k]][0], tol=1e-6 * scale) == 2) if len(rel) else 0
    if len(v) - len(e) + faces != 2:
        fail(f"Euler characteristic: V {len(v)} E {len(e)} F {faces}")
    return f"{'bz' if s['bz'] else 'ws'}-{faces} faces"


FACETS = [Facet("voronoi", specs, check, make, quick=240, thorough=6000, shards=8)]
