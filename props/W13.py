"""Lattice points."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import gens
from vlib.core import Facet, fail

PROPERTY = "W13"
RULE = (
    "Generated cells and (asymmetric, zero included, up to 300 along one vector) ranges; every returned array is compared with an explicit "
    "triple loop. Non-trivial when the cell is non-degenerate."
)
ASSUMPTIONS = []


@st.composite
def long_ranges(draw):
    return list(draw(st.permutations([draw(st.integers(6, 300)), draw(st.integers(0, 3)), draw(st.sampled_from([0, 0, 1]))])))


def specs():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(), "form": gens.forms(),
        "range": st.one_of(*[st.lists(st.integers(0, 5), min_size=3, max_size=3)] * 4, long_ranges()),
        "rtype": st.sampled_from(["list", "tuple", "default", "array"]),
        "relative": st.sampled_from([None, True, False]), "flat": st.sampled_from([None, True, False]),
    })


def make(s):
    return gens.cell_of(s["cell"])


def check(c, s):
    kw = {}
    rng = list(s["range"])
    if s["rtype"] == "default":
        rng = [1, 1, 1]
    else:
        kw["range"] = {"list": list, "tuple": tuple, "array": np.array}[s["rtype"]](rng)
    if s["relative"] is not None:
        kw["relative"] = s["relative"]
    if s["flat"] is not None:
        kw["flat"] = s["flat"]
    got = np.array(wulfric.cell.get_lattice_points(gens.as_form(c, s["form"]), **kw))
    n = [2 * r + 1 for r in rng]
    want = np.zeros((*n, 3))
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                want[i, j, k] = (i - rng[0], j - rng[1], k - rng[2])
    if not s["relative"]:
        want = want[..., :1] * c[0] + want[..., 1:2] * c[1] + want[..., 2:] * c[2]
    flat = s["flat"] is not False
    shape = (n[0] * n[1] * n[2], 3) if flat else (*n, 3)
    if got.shape != shape:
        fail(f"shape {got.shape}, expected {shape}")
    if not flat:
        g = got.reshape(-1, 3)
    else:
        g = got
    w = want.reshape(-1, 3)
    scale = max(np.abs(w).max(), 1e-300)
    if not flat:
        # the first three axes index the coordinates
        if np.abs(got - want).max() > 1e-12 * scale:
            fail("lattice_points[i, j, k] is not the point with coordinates (i - r1, j - r2, k - r3)")
    else:
        # order is not documented: compare as sets of points
        if np.abs(g - w).max() > 1e-12 * scale:
            inv = np.eye(3) if s["relative"] else np.linalg.inv(c)
            if key_int(g @ inv) != key_int(w @ inv):
                fail("the set of lattice points is not {r1 a1 + r2 a2 + r3 a3 : |r_i| <= range_i}")
    return f"{'rel' if s['relative'] else 'abs'}-{'flat' if flat else 'grid'}-{'sym' if len(set(rng)) == 1 else 'asym'}"


def key_int(a):
    r = np.round(a)
    if np.abs(a - r).max() > 1e-6:
        fail("a returned point is not a lattice point")
    return sorted(map(tuple, r.astype(int).tolist()))


FACETS = [Facet("points", specs, check, make, quick=1200, thorough=30000, shards=4)]
