"""Cell algebra: reciprocal duality, parameters, scalar products, transformation, volume."""
import math

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import gens
from vlib.core import Facet, fail

PROPERTY = "W10"
RULE = (
    "Cells are special lattices, integer matrices or parameter sets, changed by a generated unimodular "
    "matrix, rotation, reflection and scale, and passed as list, tuple or array. A case is non-trivial when "
    "the cell is non-degenerate and not the cubic unit cell; for from_params when the parameters decide "
    "clearly (away from the tolerance) between a valid and an invalid parallelepiped."
)
ASSUMPTIONS = [
    "floating point: relations are required to relative 1e-9 times the skewness of the cell",
    "angles within 1e-6 degrees of a tolerance boundary are not judged",
]


def tol(*cells):
    return 1e-11 * max(gens.skewness(c) ** 2 for c in cells) + 1e-10


def stretches():
    """Factors of the vectors: mostly ones, else vectors of very different length."""
    f = st.sampled_from([1.0, 1.0, 300.0, 1e-4, 1e4, 1.0])
    return st.one_of(st.just([1.0, 1.0, 1.0]), st.just([1.0, 1.0, 1.0]), st.lists(f, min_size=3, max_size=3))


def stretched(c, f):
    return None if c is None else c * np.array(f)[:, np.newaxis]


def unit(m, rows, columns):
    """Matrix with its elements in units of the given lengths of rows and columns."""
    return np.array(m) / np.asarray(rows)[:, np.newaxis] / np.asarray(columns)[np.newaxis, :]


def lengths(c):
    return np.linalg.norm(c, axis=1)


def same_rows(x, y, rtol):
    return np.shape(x) == np.shape(y) and all(gens.close(a, b, rtol=rtol) for a, b in zip(np.array(x), np.array(y)))


def spec_cell():
    return st.fixed_dictionaries({"cell": gens.cell_specs(), "form": gens.forms(), "stretch": stretches()})


def make_cell(s):
    c = stretched(gens.cell_of(s["cell"]), s.get("stretch", [1, 1, 1]))
    if c is None or gens.skewness(c) > 300:
        return None
    return c


def tag(c, s):
    return s["cell"]["kind"] + ("-left" if np.linalg.det(c) < 0 else "")


def check_reciprocal(c, s):
    x = gens.as_form(c, s["form"])
    r = wulfric.cell.get_reciprocal(x)
    if np.shape(r) != (3, 3):
        fail(f"get_reciprocal returned shape {np.shape(r)}")
    d = np.array(c) @ np.array(r).T
    if np.abs(unit(d - 2 * math.pi * np.eye(3), lengths(c), lengths(r))).max() > 100 * tol(c):
        fail(f"a_i . b_j is not 2 pi delta_ij: {d.tolist()}")
    rr = wulfric.cell.get_reciprocal(r)
    if not same_rows(rr, c, 100 * tol(c)):
        fail(f"reciprocal of the reciprocal is not the cell: {np.array(rr).tolist()} / {c.tolist()}")
    v = wulfric.geometry.get_volume(r) * wulfric.geometry.get_volume(x)
    if abs(v / (2 * math.pi) ** 3 - 1) > 100 * tol(c):
        fail(f"V V* = {v} instead of (2 pi)^3")
    return tag(c, s)


def check_params(c, s):
    x = gens.as_form(c, s["form"])
    p = wulfric.cell.get_params(x)
    ref = gens.params_ref(c)
    if len(p) != 6 or not all(isinstance(v, float) for v in p):
        fail(f"get_params returned {p!r}")
    for i in range(3):
        if abs(p[i] / ref[i] - 1) > 1e-10:
            fail(f"length {i}: {p[i]} / {ref[i]}")
    for i in range(3, 6):
        # arccos loses digits near 0 and 180
        if abs(p[i] - ref[i]) > 1e-5 / max(math.sin(math.radians(ref[i])), 1e-3) * 1e-3 + 1e-7:
            fail(f"angle {i - 3}: {p[i]} / {ref[i]}")
    sp = wulfric.cell.get_scalar_products(x)
    want = (c[1] @ c[2], c[0] @ c[2], c[0] @ c[1])
    n = lengths(c)
    m = (n[1] * n[2], n[0] * n[2], n[0] * n[1])
    if len(sp) != 3 or any(abs(a - b) > 1e-12 * k for a, b, k in zip(sp, want, m)):
        fail(f"get_scalar_products {sp} instead of {want}")
    # scalar products and parameters are consistent
    a, b, cc, al, be, ga = p
    for q, w, k in zip(sp, (b * cc * math.cos(math.radians(al)), a * cc * math.cos(math.radians(be)),
                            a * b * math.cos(math.radians(ga))), m):
        if abs(q - w) > 1e-8 * k:
            fail(f"scalar product {q} against {w} from the parameters")
    # volumes of the three forms
    v0 = abs(float(np.linalg.det(c)))
    vs = {
        "cell": wulfric.geometry.get_volume(x),
        "vectors": wulfric.geometry.get_volume(*[gens.vec_form(v, s["form"]) for v in c]),
        "params": wulfric.geometry.get_volume(*p),
    }
    t = tol(c)
    for k, v in vs.items():
        if not (abs(v / v0 - 1) <= 1e3 * t):
            fail(f"get_volume({k}) = {v} instead of {v0}")
    return tag(c, s)


def check_from_params_of_cell(c, s):
    if gens.skewness(c) > 100:
        return None
    p = wulfric.cell.get_params(gens.as_form(c, s["form"]))
    if any(min(a, 180 - a) < 1 for a in p[3:]) or min(p[:3]) < 2e-8:  # documented tolerance of lengths
        return None
    new = np.array(wulfric.cell.from_params(*p))
    g1, g2 = c @ c.T, new @ new.T
    if np.abs(unit(g1 - g2, lengths(c), lengths(c))).max() > 1e-7:
        fail(f"from_params(get_params(cell)) has another metric: {g2.tolist()} / {g1.tolist()}")
    n = np.linalg.norm(c, axis=1)
    if abs(new[0, 1]) > 1e-12 * n[0] or abs(new[0, 2]) > 1e-12 * n[0] or new[0, 0] <= 0:
        fail("a1 is not along +x")
    if abs(new[1, 2]) > 1e-12 * n[1] or new[1, 1] <= 0:
        fail("a2 is not in the xy plane on the positive side")
    if new[2, 2] <= 0:
        fail("the constructed cell is left-handed")
    return tag(c, s)


# -- parameters --------------------------------------------------------------------------
@st.composite
def param_specs(draw):
    kind = draw(st.sampled_from(["valid", "valid", "any", "edge", "lengths", "tiny"]))
    s = {"kind": kind}
    s["abc"] = [draw(gens.ints(1, 99000, 0.001)) for _ in range(3)]
    if kind == "lengths":
        i = draw(st.integers(0, 2))
        s["abc"][i] = draw(st.sampled_from([0.0, -1.0, -0.5, 1e-9, 1e-7, 5e-7, 5e-6, 5e-5, 0.0005, 0.3]))
    if kind == "edge":
        al = draw(st.integers(1, 178))
        be = draw(st.integers(1, 178))
        which = draw(st.sampled_from(["sum", "diff", "360"]))
        ga = {"sum": al + be, "diff": abs(al - be), "360": 360 - al - be}[which]
        d = draw(st.sampled_from([-1.0, -0.01, -0.001, -2e-4, -5e-5, 0.0, 5e-5, 2e-4, 0.001, 0.01, 1.0]))
        ang = [float(al), float(be), float(ga + d)]
        p = draw(st.permutations([0, 1, 2]))
        s["ang"] = [ang[i] for i in p]
    elif kind == "tiny":  # needles: angles close to 0 or to 180 degrees, on both sides of the tolerance
        t = draw(st.sampled_from([5e-5, 2e-4, 1e-3, 4e-3, 9e-3, 0.012, 0.05, 0.3, 0.0, -1e-3]))
        be = draw(st.sampled_from([60.0, 90.0, 120.0, 0.001, 0.0095, 0.02, 179.0, 179.98, 179.995, 179.999]))
        ang = [t, be, be + t * draw(st.sampled_from([0.0, 0.3, -0.3, 0.6, -0.7, 1.5]))]
        if draw(st.booleans()):
            ang = [ang[0], 180.0 - ang[1], 180.0 - ang[2]]
        p = draw(st.permutations([0, 1, 2]))
        s["ang"] = [ang[i] for i in p]
    elif kind == "any":
        s["ang"] = [draw(gens.ints(-200, 2200, 0.1)) for _ in range(3)]
    else:
        s["ang"] = [draw(gens.ints(4000, 14000, 0.01)) for _ in range(3)]
    s["defaults"] = draw(st.sampled_from([0, 0, 0, 1]))
    if kind == "lengths" and s["defaults"]:
        s["ang"] = [90.0, 90.0, 90.0]
    s["tols"] = draw(st.sampled_from([None, None, [1e-8, 1e-4], [0.5, 0.5], [1e-3, 2.0], [0.0, 0.0]]))
    return s


def verdict(abc, ang, lt, at, margin=1e-9):
    """True / False / None (too close to call) from the documented inequalities."""
    al, be, ga = ang
    q = [(x - 0.0, lt) for x in abc]
    q += [(180.0 - x, at) for x in ang] + [(x - 0.0, at) for x in ang]
    q += [(al + be - ga, at), (360.0 - ga - al - be, at), (al + ga - be, at), (360.0 - be - al - ga, at),
          (be + ga - al, at), (360.0 - al - be - ga, at)]
    if any(abs(v - t) < margin and t > 0 for v, t in q) or any(abs(v) < 1e-10 and v != 0 and t == 0 for v, t in q):
        return None
    return all(v > t for v, t in q)


def check_params_valid(s, _):
    abc, ang = s["abc"], s["ang"]
    kw = {}
    lt, at = 1e-8, 1e-4
    if s["tols"]:
        lt, at = s["tols"]
        kw = {"length_tolerance": lt, "angle_tolerance": at}
    v = verdict(abc, ang, lt, at)
    if v is None:
        return None
    got = wulfric.geometry.parallelepiped_check(*abc, *ang, **kw)
    if bool(got) != v:
        fail(f"parallelepiped_check({abc}, {ang}, {kw}) = {got}, documented inequalities: {v}")
    try:
        r = wulfric.geometry.parallelepiped_check(*abc, *ang, raise_error=True, **kw)
        if not v:
            fail(f"parallelepiped_check({abc}, {ang}, {kw}, raise_error=True) did not raise, returned {r}")
        if not r:
            fail("raise_error=True returned False")
    except ValueError as e:
        if v:
            fail(f"parallelepiped_check raised on valid parameters {abc} {ang}: {e}")
    if not s["tols"]:
        # from_params accepts exactly those
        try:
            cell = np.array(wulfric.cell.from_params(*abc, *ang))
        except ValueError:
            if not v:
                return f"{s['kind']}-invalid"
            ca, cb, cg = (math.cos(math.radians(x)) for x in ang)
            if 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg > 1e-9:
                fail(f"from_params refuses valid parameters {abc} {ang}")
            return None
        if not v:
            fail(f"from_params accepts invalid parameters {abc} {ang}")
        ca, cb, cg = (math.cos(math.radians(x)) for x in ang)
        rad = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
        if rad < 1e-6:
            return "nearly flat"
        if cell.shape != (3, 3) or not np.isfinite(cell).all():
            fail(f"from_params returned {cell}")
        g = cell @ cell.T
        a, b, c = abc
        want = np.array([[a * a, a * b * cg, a * c * cb], [a * b * cg, b * b, b * c * ca],
                         [a * c * cb, b * c * ca, c * c]])
        if np.abs((g - want) / np.sqrt(np.outer(np.diag(want), np.diag(want)))).max() > 1e-9:
            fail(f"from_params({abc}, {ang}): metric {g.tolist()} instead of {want.tolist()}")
        if abs(cell[0, 1]) + abs(cell[0, 2]) > 1e-12 * a or abs(cell[1, 2]) > 1e-12 * b:
            fail("orientation is not the documented one")
        if cell[0, 0] <= 0 or cell[1, 1] <= 0 or cell[2, 2] <= 0:
            fail("orientation is not the documented one (signs)")
        vol = wulfric.geometry.get_volume(a, b, c, *ang)
        if abs(vol / (a * b * c * math.sqrt(rad)) - 1) > 1e-6:
            fail(f"get_volume of six parameters: {vol}")
        # keyword defaults
        if s["defaults"]:
            d = wulfric.cell.from_params(a=a, gamma=ang[2])
            w = np.array([[a, 0, 0], [cg, math.sqrt(1 - cg * cg), 0], [0, 0, 1]])
            if 0.001 < ang[2] < 179.9 and np.abs(np.array(d) - w).max() > 1e-9 * max(a, 1):
                fail(f"from_params(a, gamma) with defaults: {np.array(d).tolist()}")
    return f"{s['kind']}-{'valid' if v else 'invalid'}"


# -- transformation -----------------------------------------------------------------------
def spec_trans():
    return st.fixed_dictionaries({
        "a": gens.cell_specs(max_ops=2), "b": gens.cell_specs(max_ops=2), "c": gens.cell_specs(max_ops=2),
        "form": gens.forms(), "form2": gens.forms(), "stretch": st.lists(stretches(), min_size=3, max_size=3),
    })


def make_trans(s):
    cs = [stretched(gens.cell_of(s[k]), f) for k, f in zip("abc", s.get("stretch", [[1, 1, 1]] * 3))]
    if any(c is None or gens.skewness(c) > 60 for c in cs):
        return None
    return cs


def check_trans(cs, s):
    a, b, c = cs
    T = wulfric.cell.get_transformation_matrix
    ab = np.array(T(gens.as_form(a, s["form"]), gens.as_form(b, s["form2"])))
    if ab.shape != (3, 3):
        fail(f"shape {ab.shape}")
    if not same_rows(ab.T @ a, b, 1e-9):
        fail(f"(a1 a2 a3) T is not the transformed cell: {(ab.T @ a).tolist()} / {b.tolist()}")
    bc = np.array(T(b, gens.as_form(c, s["form"])))
    ac = np.array(T(a, c))
    la, lb, lc = (lengths(x) for x in cs)
    if not gens.close(unit(ab @ bc, 1 / la, lc), unit(ac, 1 / la, lc), rtol=1e-8):
        fail("transformations do not compose: T(a,b) T(b,c) != T(a,c)")
    if not gens.close(unit(ab @ np.array(T(b, a)), 1 / la, la), np.eye(3), rtol=1e-8, atol=1e-8):
        fail("T(a,b) T(b,a) is not the identity")
    if not gens.close(unit(T(a, a), 1 / la, la), np.eye(3), atol=1e-9):
        fail("T(a,a) is not the identity")
    # covariance of reciprocal vectors: b* = inv(T) a*
    ra, rb = np.array(wulfric.cell.get_reciprocal(a)), np.array(wulfric.cell.get_reciprocal(b))
    if not same_rows(np.linalg.inv(ab) @ ra, rb, 1e-8):
        fail("reciprocal cells do not transform with the inverse of the transformation")
    return s["a"]["kind"] + "-" + s["b"]["kind"]


# -- covariance ------------------------------------------------------------------------------
def spec_cov():
    return st.fixed_dictionaries({
        "cell": gens.cell_specs(max_ops=3), "q": gens.quats(), "k": gens.ints(1, 500, 0.01), "form": gens.forms(),
        "stretch": stretches(),
    })


def check_cov(c, s):
    if gens.skewness(c) > 100:
        return None
    from vlib.crystals import rotation
    R = rotation(s["q"])
    k = s["k"]
    c2 = k * c @ R.T
    x, y = gens.as_form(c, s["form"]), gens.as_form(c2, s["form"])
    r1, r2 = np.array(wulfric.cell.get_reciprocal(x)), np.array(wulfric.cell.get_reciprocal(y))
    if not same_rows(r2 * k, r1 @ R.T, 1e-9 * gens.skewness(c)):
        fail("reciprocal cell is not covariant under rotation and scaling")
    p1, p2 = wulfric.cell.get_params(x), wulfric.cell.get_params(y)
    for i in range(6):
        f = k if i < 3 else 1.0
        if abs(p2[i] - f * p1[i]) > 1e-9 * f * p1[i] + (1e-5 if i >= 3 else 0):
            fail(f"parameters are not covariant under rotation and scaling: {p1} {p2}")
    v1, v2 = wulfric.geometry.get_volume(x), wulfric.geometry.get_volume(y)
    if abs(v2 / (v1 * k**3) - 1) > 1e-9 * gens.skewness(c):
        fail(f"volume is not covariant: {v1} {v2} factor {k}")
    return tag(c, s)


FACETS = [
    Facet("reciprocal", spec_cell, check_reciprocal, make_cell, quick=800, thorough=40000),
    Facet("params", spec_cell, check_params, make_cell, quick=800, thorough=40000),
    Facet("round_trip", spec_cell, check_from_params_of_cell, make_cell, quick=800, thorough=40000),
    Facet("from_params", param_specs, check_params_valid, quick=1500, thorough=60000),
    Facet("transformation", spec_trans, check_trans, make_trans, quick=600, thorough=20000),
    Facet("covariance", spec_cov, check_cov, make_cell, quick=500, thorough=20000),
]
