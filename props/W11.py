"""Niggli reduction, both implementations."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import gens
from vlib.core import Facet, fail
from vlib.crystals import rotation, unimodular

PROPERTY = "W11"
RULE = (
    "Cells of special lattices, integer matrices and parameter sets changed by unimodular matrices, rotated and "
    "reflected, both implementations; lattices on the boundaries of the conditions, exactly and with noise below eps. Non-trivial when the given cell is not already the returned one."
)
ASSUMPTIONS = [
    "Niggli inequalities are required within 1e-4 of the squared lengths (eps_relative is 1e-5, ten epsilons for cells shorter than 1)",
    "the boundary conditions (equalities) are required when the equality holds to 1e-9 and the alternatives are "
    "clearly distinct; cells with an inequality within 1e-3 but not 1e-9 of equality are not judged for uniqueness",
    "cells have lengths of 0.01 to 1e4 (the documented epsilon is proportional to V^(1/3): it is 1e-3 of the squares of the shortest ones)",
]


def specs():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(max_ops=4, k=3, scales=(1.0, 1.0, 3.7, 0.1, 0.03, 0.01, 100.0, 1000.0)), "form": gens.forms(),
        "impl": st.sampled_from(["spglib", "wulfric", "default", "SPGLIB", "Wulfric"]),
        "uni2": gens.unis(4, 2), "quat2": gens.quats(), "perm": st.permutations([0, 1, 2]),
    })


def make(s):
    c = gens.cell_of(s["cell"])
    if c is None or gens.skewness(c) > 3e3 or np.linalg.norm(c, axis=1).min() < 0.5 * s["cell"]["scale"]:
        return None
    return c if gens.skewness(c) < 100 or s["cell"]["scale"] < 100 else None


def epsilon(c):
    """The documented epsilon relative to the squared lengths."""
    return 1e-5 / abs(np.linalg.det(c)) ** (1 / 3)


def borderline(G):
    """Some equality of the Niggli conditions is nearly but not exactly satisfied."""
    A, B, C = np.diag(G)
    x, e, z = 2 * G[1, 2], 2 * G[0, 2], 2 * G[0, 1]
    m = (A * B * C) ** (1 / 3)
    qs = [A - B, B - C, abs(x) - B, abs(e) - A, abs(z) - A, x, e, z, A + B + x + e + z,
          abs(x) - abs(e), abs(e) - abs(z), 2 * abs(e) - abs(z), 2 * abs(x) - abs(z), 2 * abs(x) - abs(e),
          2 * abs(A + e) - abs(z), 2 * A + 2 * e + z]
    q = np.abs(np.array(qs)) / m
    return bool(((q > 1e-7) & (q < max(2e-3, 50 * (1e-5 / m**0.5)))).any())


def run(c, s):
    kw = {}
    if s["impl"] != "default":
        kw["implementation"] = s["impl"]
    r = wulfric.cell.get_niggli(gens.as_form(c, s["form"]), **kw)
    if np.shape(r) != (3, 3):
        fail(f"get_niggli returned {r!r}")
    return np.array(r, dtype=float)


def check(c, s):
    r = run(c, s)
    sk = gens.skewness(c)
    M = r @ np.linalg.inv(c)
    if np.abs(M - np.round(M)).max() > 1e-6 * sk or abs(np.linalg.det(np.round(M)) - 1) > 0.5:
        fail(f"the result is not a basis of the same lattice: {M.tolist()}")
    if np.abs(np.round(M) @ c - r).max() > 1e-6 * np.abs(c).max():
        fail("the result is not in the orientation of the given cell")
    G = r @ r.T
    A, B, C = np.diag(G)
    x, e, z = 2 * G[1, 2], 2 * G[0, 2], 2 * G[0, 1]
    t = max(1e-4, 10 * epsilon(c)) * (A * B * C) ** (1 / 3)
    st_ = (A, B, C, x, e, z)
    if A > B + t or B > C + t:
        fail(f"A <= B <= C fails: {st_}")
    if abs(x) > B + t or abs(e) > A + t or abs(z) > A + t:
        fail(f"|xi| <= B, |eta| <= A, |zeta| <= A fails: {st_}")
    pos = min(x, e, z) > 1e-3 * t
    if not pos and max(x, e, z) > t:
        fail(f"neither all scalar products are positive nor all non-positive: {st_}")
    if not pos and A + B + x + e + z < -t:
        fail(f"xi + eta + zeta + A + B >= 0 fails: {st_}")
    moved = not np.allclose(r, c, rtol=1e-9)
    if borderline(G):
        return "reduced, near a boundary" if moved else None
    # exact boundary conditions
    h = 1e-6 * (A * B * C) ** (1 / 3)
    eq = lambda p, q: abs(p - q) < h
    le = lambda p, q: p < q + h
    if eq(A, B) and not le(abs(x), abs(e)):
        fail(f"A = B but |xi| > |eta|: {st_}")
    if eq(B, C) and not le(abs(e), abs(z)):
        fail(f"B = C but |eta| > |zeta|: {st_}")
    if pos:
        if eq(x, B) and not le(z, 2 * e):
            fail(f"xi = B but zeta > 2 eta: {st_}")
        if eq(e, A) and not le(z, 2 * x):
            fail(f"eta = A but zeta > 2 xi: {st_}")
        if eq(z, A) and not le(e, 2 * x):
            fail(f"zeta = A but eta > 2 xi: {st_}")
    else:
        if eq(-x, B) and abs(z) > h:
            fail(f"xi = -B but zeta != 0: {st_}")
        if eq(-e, A) and abs(z) > h:
            fail(f"eta = -A but zeta != 0: {st_}")
        if eq(-z, A) and abs(e) > h:
            fail(f"zeta = -A but eta != 0: {st_}")
        if eq(A + B + x + e + z, 0) and not le(2 * (A + e) + z, 0):
            fail(f"xi + eta + zeta + A + B = 0 but 2 (A + eta) + zeta > 0: {st_}")
    # the Niggli form is unique: another description of the lattice gives the same metric
    c2 = (unimodular(s["uni2"]) @ c)[list(s["perm"])] @ rotation(s["quat2"]).T
    if gens.skewness(c2) < 3e3:
        r2 = run(c2, s)
        G2 = r2 @ r2.T
        if np.abs(G2 - G).max() > 1e-5 * np.abs(G).max():
            fail(f"the reduced form depends on the choice of the cell: {G.tolist()} / {G2.tolist()}")
    # reducing the reduced cell changes nothing
    G3 = run(r, s)
    G3 = G3 @ G3.T
    if np.abs(G3 - G).max() > 1e-5 * np.abs(G).max():
        fail("reduction of the reduced cell gives another form")
    # both implementations agree
    o = np.array(wulfric.cell.get_niggli(c, implementation="wulfric" if s["impl"] in ("spglib", "default", "SPGLIB") else "spglib"))
    Go = o @ o.T
    if np.abs(Go - G).max() > 1e-5 * np.abs(G).max():
        fail(f"the two implementations give different forms: {G.tolist()} / {Go.tolist()}")
    return (s["impl"].lower() + ("-I" if pos else "-II")) if moved else None


@st.composite
def boundary_specs(draw):
    """Forms on the boundaries of the Niggli conditions, in any basis."""
    A = draw(st.integers(4, 16))
    B = A + draw(st.sampled_from([0, 0, 1, 2, 5]))
    C = B + draw(st.sampled_from([0, 0, 1, 3, 7]))
    sign = draw(st.sampled_from([1, -1, -1]))
    x, e, z = draw(st.integers(0, B)), draw(st.integers(0, A)), draw(st.integers(0, A))
    k = draw(st.integers(0, 9))
    if k == 0:
        x = B
    elif k == 1:
        e = A
    elif k == 2:
        z = A
    elif k == 3:
        x, e = B, A
    elif k == 4:
        e = z
    elif k <= 7 and sign < 0:
        z = A + B - x - e  # may exceed A: then it is a boundary of another basis
    d = {"gram": [A, B, C, sign * x, sign * e, sign * z], "scale": draw(st.sampled_from([1.0, 1.0, 0.7, 3.0, 0.1, 0.02, 50.0])),
         "uni": draw(gens.unis(4, 2)), "quat": draw(gens.quats()), "form": draw(gens.forms()),
         "impl": draw(st.sampled_from(["spglib", "wulfric", "default", "SPGLIB", "Wulfric", "wulfric"])),
         "uni2": draw(gens.unis(4, 2)), "quat2": draw(gens.quats()), "perm": draw(st.permutations([0, 1, 2]))}
    return d


def make_boundary(s):
    A, B, C, x, e, z = s["gram"]
    G = np.array([[A, z / 2, e / 2], [z / 2, B, x / 2], [e / 2, x / 2, C]])
    if np.linalg.eigvalsh(G)[0] < 0.15:
        return None
    c = unimodular(s["uni"]) @ np.linalg.cholesky(G) * s["scale"] @ rotation(s["quat"]).T
    return None if gens.skewness(c) > 3e3 else c


@st.composite
def noisy_specs(draw):
    s = draw(boundary_specs())
    s["scale"] = draw(st.sampled_from([1.0, 0.7, 3.0, 0.1, 40.0]))
    s["eps"] = draw(st.sampled_from([0, 1e-6, 1e-5, 1e-4, 1e-3]))
    s["noise"] = draw(st.lists(st.integers(-100, 100), min_size=9, max_size=9))
    s["frac"] = draw(st.sampled_from([0.1, 0.01, 0.001]))
    return s


def check_noisy(c, s):
    """Lattices on the boundaries up to noise far below the tolerance: the form of the exact lattice within the noise."""
    size = abs(np.linalg.det(c)) ** (1 / 3)
    eps = (s["eps"] or 1e-5) * size
    A, B, C, x, e, z = np.array(s["gram"]) * s["scale"] ** 2
    if eps > 2e-3 * size**2 or s["frac"] * eps < 1e-9 * max(A, B, C):
        return None
    d = s["frac"] * eps / max(A, B, C) / 6
    given = c @ (np.eye(3) + d * np.array(s["noise"]).reshape(3, 3) / 100)
    kw = {"eps_relative": s["eps"]} if s["eps"] else {}
    r = np.array(wulfric.cell.get_niggli(gens.as_form(given, s["form"]), implementation="wulfric", max_iterations=10000, **kw))
    M = r @ np.linalg.inv(given)
    if np.abs(M - np.round(M)).max() > 1e-6 * gens.skewness(c) or abs(np.linalg.det(np.round(M)) - 1) > 0.5:
        fail(f"the result is not a basis of the same lattice: {M.tolist()}")
    o = np.array(wulfric.cell.get_niggli(c, implementation="spglib"))
    G, Go = r @ r.T, o @ o.T
    if np.abs(G - Go).max() > 20 * s["frac"] * eps:
        fail(f"noise of {s['frac']} eps in scalar products gives another form: {G.tolist()}, of the exact lattice {Go.tolist()}")
    return f"eps {s['eps']} noise {s['frac']}"


def bad_specs():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(max_ops=4, k=3, scales=(1.0,)), "what": st.sampled_from(["impl", "volume", "iterations"]),
        "name": st.sampled_from(["niggli", "", "spglib ", "ase", "wulfric2"]),
        "mix": st.lists(st.integers(-2, 2), min_size=2, max_size=2), "form": gens.forms(),
    })


def check_bad(c, s):
    f = wulfric.cell.get_niggli
    if s["what"] == "impl":
        try:
            f(c, implementation=s["name"])
        except ValueError:
            return "unknown implementation"
        fail(f"implementation {s['name']!r} accepted")
    if s["what"] == "volume":
        z = np.round(c)
        z[2] = s["mix"][0] * z[0]
        z[1] = [1.0, 2.0, 3.0]
        z[2] = [0.0, 0.0, 0.0] if s["mix"][1] % 2 else z[1] * 2
        exact = not z[2].any()
        try:
            r = f(gens.as_form(z, s["form"]), implementation="wulfric", max_iterations=300)
        except ValueError:
            return "zero volume"
        except Exception as e:
            # the computed determinant may be a rounding error away from zero
            if type(e).__name__ != "NiggliReductionFailed" or exact:
                raise
            return "zero volume within rounding"
        fail(f"cell of zero volume accepted: {r}")
    try:
        r = np.array(f(c, implementation="wulfric", max_iterations=0))
    except Exception as e:
        if type(e).__name__ != "NiggliReductionFailed":
            raise
        return "too few iterations"
    # success within one iteration: must agree with the unlimited run
    w = np.array(f(c, implementation="wulfric"))
    if not np.allclose(r, w):
        fail("max_iterations exceeded but an unreduced cell returned")
    return "reduced at once"


def limit_specs():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(max_ops=12, k=5, scales=(1.0,)), "limit": st.one_of(st.integers(0, 12), st.integers(10, 60)),
        "form": gens.forms(),
    })


def make_limit(s):
    c = gens.cell_of(s["cell"])
    return None if c is None or gens.skewness(c) > 1e4 else c


def check_limit(c, s):
    """With few iterations the reduced cell or the documented error, never a cell on the way to it."""
    f = wulfric.cell.get_niggli
    try:
        w = np.array(f(gens.as_form(c, s["form"]), implementation="wulfric", max_iterations=5000))
    except Exception as e:
        if type(e).__name__ != "NiggliReductionFailed":
            raise
        return None
    try:
        r = np.array(f(gens.as_form(c, s["form"]), implementation="wulfric", max_iterations=s["limit"]))
    except Exception as e:
        if type(e).__name__ != "NiggliReductionFailed":
            raise
        return "error"
    if np.abs(r - w).max() > 1e-6 * np.abs(w).max():
        fail(f"max_iterations={s['limit']}: {r.tolist()} without an error, the reduced cell is {w.tolist()}")
    return "enough"


FACETS = [
    Facet("reduction", specs, check, make, quick=2000, thorough=60000, shards=8),
    Facet("boundary", boundary_specs, check, make_boundary, quick=2400, thorough=80000, shards=8),
    Facet("noisy", noisy_specs, check_noisy, make_boundary, quick=2000, thorough=60000, shards=4),
    Facet("refusal", bad_specs, check_bad, make, quick=300, thorough=3000, shards=2),
    Facet("limit", limit_specs, check_limit, make_limit, quick=800, thorough=20000, shards=2),
]
