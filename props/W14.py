"""Geometry: angles between vectors, spherical coordinates."""
import math

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import gens
from vlib.core import Facet, fail
from vlib.crystals import rotation

PROPERTY = "W14"
RULE = (
    "Vectors on integer and decimal grids over 12 orders of magnitude, parallel, antiparallel and nearly "
    "parallel pairs included; spherical coordinates with generated (also oblique) axes. A case is non-trivial "
    "when the vectors are not zero and, for spherical coordinates, the vector is exactly on the polar axis or "
    "at least 5e-5 rad away from it."
)
ASSUMPTIONS = [
    "the azimuth of a vector is compared modulo a full turn",
    "zero vectors and a zero line parallel to the polar axis are outside the domain of the azimuth",
    "vectors within 5e-5 rad of the polar axis count as on the axis or not, as the code likes (np.allclose)",
    "arccos looses digits near 0 and 180 degrees: 1e-6 rad there, 1e-9 rad otherwise",
]


def vec():
    return st.tuples(
        st.one_of(
            st.lists(st.integers(-5, 5), min_size=3, max_size=3),
            st.lists(gens.ints(-9999, 9999, 0.001), min_size=3, max_size=3),
        ),
        st.sampled_from([1.0, 1.0, 1e-6, 1e6, 0.1]),
    ).map(lambda t: [float(x) * t[1] for x in t[0]])


@st.composite
def angle_specs(draw):
    s = {"v": draw(vec()), "form": draw(gens.forms()), "form2": draw(gens.forms())}
    kind = draw(st.sampled_from(["any", "any", "parallel", "anti", "near", "ortho", "zero"]))
    s["kind"] = kind
    v = s["v"]
    k = draw(st.sampled_from([1.0, 0.37, 12.3, 3.0, 1e-3]))
    if kind == "any":
        s["w"] = draw(vec())
    elif kind == "parallel":
        s["w"] = [k * x for x in v]
    elif kind == "anti":
        s["w"] = [-k * x for x in v]
    elif kind == "near":
        e = draw(st.lists(gens.ints(-99, 99, 1.0), min_size=3, max_size=3))
        d = draw(st.sampled_from([1e-3, 1e-5, 1e-7]))
        n = max(abs(x) for x in v) or 1.0
        s["w"] = [x + d * n * y / 100 for x, y in zip(v, e)]
    elif kind == "ortho":
        u = draw(vec())
        s["w"] = np.cross(v, u).tolist()
    else:
        s["w"] = [0.0, 0.0, 0.0]
    s["swap"] = draw(st.integers(0, 1))
    return s


def ref_angle(v, w):
    v, w = np.array(v) / np.linalg.norm(v), np.array(w) / np.linalg.norm(w)
    return 2 * math.atan2(float(np.linalg.norm(v - w)), float(np.linalg.norm(v + w)))


def check_angle(s, _):
    v, w = s["v"], s["w"]
    if s["swap"]:
        v, w = w, v
    nv, nw = np.linalg.norm(v), np.linalg.norm(w)
    a, b = gens.vec_form(v, s["form"]), gens.vec_form(w, s["form2"])
    f = wulfric.geometry.get_angle
    if nv == 0 or nw == 0:
        for kw in ({}, {"radians": True}):
            try:
                r = f(a, b, **kw)
            except ValueError:
                continue
            fail(f"get_angle with a zero vector returned {r} instead of raising ValueError")
        return "zero vector"
    if min(nv, nw) < 1e-12:
        return None
    want = ref_angle(v, w)
    got = f(a, b, radians=True)
    if not isinstance(got, float) or not (0 <= got <= math.pi):
        fail(f"angle {got!r} outside [0, pi]")
    t = 1e-9 + 1e-14 / max(math.sin(want), 2e-7)
    if abs(got - want) > t:
        fail(f"get_angle({v}, {w}, radians=True) = {got}, expected {want}")
    deg = f(a, b)
    if abs(deg - math.degrees(got)) > 1e-9:
        fail(f"degrees {deg} and radians {got} disagree")
    if abs(f(b, a) - deg) > 1e-9:
        fail("the angle is not symmetric")
    neg = [-x for x in w]
    if abs(f(a, neg, radians=True) - (math.pi - want)) > t:
        fail("angle to the opposite vector is not pi minus the angle")
    return s["kind"]


# -- spherical -----------------------------------------------------------------------------
def axis():
    return st.one_of(
        st.sampled_from([[0, 0, 1], [1, 0, 0], [0, 1, 0], [0, 0, -1], [1, 1, 0], [1, 1, 1], [-1, 2, 0.5], [0, 0, 3]]),
        st.lists(st.integers(-5, 5), min_size=3, max_size=3),
    ).map(lambda v: [float(x) for x in v])


@st.composite
def sph_specs(draw):
    s = {"kind": draw(st.sampled_from(["default", "axis", "axis", "ortho", "oblique", "oblique"]))}
    s["form"] = draw(gens.forms())
    p, z = [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]
    if s["kind"] != "default":
        p = draw(axis())
    if s["kind"] in ("ortho", "axis"):
        # perpendicular zero line
        u = draw(axis())
        z = np.cross(p, u).tolist()
    elif s["kind"] == "oblique":
        z = draw(axis())
    s["polar"], s["zero"] = p, z
    where = draw(st.sampled_from(["any", "any", "grid", "grid", "polar", "antipolar", "plane", "zeroline", "minus", "near", "near"]))
    s["where"] = where
    s["r"] = draw(st.sampled_from([1.0, 0.01, 42.0, 1e-4, 1e5]))
    s["th"] = draw(gens.ints(1, 1799, 0.1))
    s["ph"] = draw(gens.ints(0, 3599, 0.1))
    s["near"] = [draw(st.sampled_from([6e-5, 1e-4, 1e-3, 0.01, 0.03])), draw(st.integers(0, 1))]
    s["grid"] = [float(draw(st.integers(-3, 3))) for _ in range(3)]
    s["deg"] = draw(st.sampled_from([0, 1, 2]))
    s["kwargs"] = draw(st.integers(0, 1))
    return s


def make_sph(s):
    p, z = np.array(s["polar"]), np.array(s["zero"])
    if np.linalg.norm(p) < 0.1 or np.linalg.norm(z) < 0.1:
        return None
    p = p / np.linalg.norm(p)
    zp = z - p * (z @ p)
    if np.linalg.norm(zp) < 1e-3 * np.linalg.norm(z):
        return None
    x = zp / np.linalg.norm(zp)
    y = np.cross(p, x)
    w = s["where"]
    if w == "polar":
        v = p * s["r"]
    elif w == "antipolar":
        v = -p * s["r"]
    elif w == "grid":
        v = np.array(s["grid"])
        if np.linalg.norm(v) == 0:
            return None
    else:
        th, ph = math.radians(s["th"]), math.radians(s["ph"])
        if w == "near":
            th = s["near"][0] if s["near"][1] else math.pi - s["near"][0]
        if w == "plane":
            th = math.pi / 2
        if w == "zeroline":
            ph = 0.0
        if w == "minus":
            ph = math.pi
        v = s["r"] * (math.sin(th) * (math.cos(ph) * x + math.sin(ph) * y) + math.cos(th) * p)
    return v, p, x, y


def check_sph(t, s):
    v, p, x, y = t
    kw = {}
    if s["kind"] != "default" or s["kwargs"]:
        kw = {"polar_axis": gens.vec_form(s["polar"], s["form"]),
              "radial_line_zero": gens.vec_form(s["zero"], s["form"])}
    if s["deg"] != 2:
        kw["in_degrees"] = bool(s["deg"])
    res = wulfric.geometry.get_spherical(gens.vec_form(v, s["form"]), **kw)
    if len(res) != 3:
        fail(f"get_spherical returned {res!r}")
    r, th, ph = res
    if s["deg"] != 0:
        th, ph = math.radians(th), math.radians(ph)
    n = float(np.linalg.norm(v))
    if not abs(r / n - 1) < 1e-12:
        fail(f"r = {r}, norm of the vector {n}")
    if not (-1e-12 <= th <= math.pi + 1e-12 and -1e-12 <= ph <= 2 * math.pi + 1e-12):
        fail(f"angles out of range: polar {th}, azimuth {ph} rad")
    c, sx, sy = float(v @ p) / n, float(v @ x) / n, float(v @ y) / n
    perp = math.hypot(sx, sy)
    if perp < 1e-9:
        want = 0.0 if c > 0 else math.pi
        if abs(th - want) > 1e-6 or abs(ph - want) > 1e-6:
            fail(f"on the polar axis: polar {th} azimuth {ph}, expected both {want}")
        return "on axis"
    if perp < 5e-5:
        return None
    wt, wp = math.atan2(perp, c), math.atan2(sy, sx)
    if abs(th - wt) > 1e-7:
        fail(f"polar angle {th}, expected {wt}")
    d = (ph - wp) / (2 * math.pi)
    d -= round(d)
    if abs(d) > 1e-7 + 1e-12 / perp:
        fail(f"azimuth {ph} rad, expected {wp % (2 * math.pi)} for vector {v.tolist()} polar {s['polar']} zero {s['zero']}")
    # the coordinates give the vector back
    back = r * (math.sin(th) * (math.cos(ph) * x + math.sin(ph) * y) + math.cos(th) * p)
    if np.abs(back - v).max() > 1e-6 * n:
        fail("spherical coordinates do not give the vector back")
    return f"{s['kind']}/{s['where']}"


FACETS = [
    Facet("angle", angle_specs, check_angle, quick=2500, thorough=100000),
    Facet("spherical", sph_specs, check_sph, make_sph, quick=3000, thorough=100000),
]
