"""Small generators shared by the property modules (plain JSON specs only)."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.crystals import cell_from_params, rotation, unimodular

FORMS = ["list", "tuple", "array", "list_of_arrays", "ints", "int_array", "fortran", "readonly", "small_ints"]


def as_form(m, form):
    """The same (N, M) numbers as one of the accepted array-likes."""
    a = np.array(m, dtype=float)
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(tuple(r) for r in a.tolist())
    if form in ("ints", "int_array"):
        if a.size and (a == np.round(a)).all() and np.abs(a).max() < 1e9:
            b = a.astype(int)
            return b if form == "int_array" else b.tolist()
        return a.tolist() if form == "ints" else a
    if form == "small_ints":
        if a.size and (a == np.round(a)).all() and np.abs(a).max() < 1e9:
            return a.astype(narrow(a))
        return a
    if form == "list_of_arrays":
        return [np.array(r) for r in a]
    if form == "fortran":
        return np.asfortranarray(a)
    if form == "readonly":
        a.setflags(write=False)
        return a
    return a


def narrow(a):
    """The smallest integer type that holds the numbers."""
    m = np.abs(a).max()
    return np.int8 if m < 128 else np.int16 if m < 32768 else np.int32


def vec_form(v, form):
    a = np.array(v, dtype=float)
    if form == "small_ints" and a.size and (a == np.round(a)).all() and np.abs(a).max() < 1e9:
        return a.astype(narrow(a))
    if form in ("ints", "int_array") and (a == np.round(a)).all() and np.abs(a).max() < 1e9:
        b = a.astype(int)
        return b if form == "int_array" else b.tolist()
    if form == "list":
        return a.tolist()
    if form == "tuple":
        return tuple(a.tolist())
    return a


def forms():
    return st.sampled_from(FORMS)


def ints(lo, hi, scale=1.0, nd=6):
    return st.integers(lo, hi).map(lambda i: round(i * scale, nd))


def unis(max_ops=4, k=2):
    return st.lists(
        st.tuples(st.sampled_from([0, 0, 0, 1, 2]), st.integers(0, 2), st.integers(0, 2),
                  st.integers(-k, k)).map(list),
        max_size=max_ops,
    )


def quats():
    return st.one_of(st.just([0, 0, 0, 0]), st.lists(st.integers(-9, 9), min_size=4, max_size=4))


@st.composite
def cell_specs(draw, max_ops=4, k=2, scales=(1.0, 1.0, 1.0, 0.01, 37.0, 1000.0, 1e-6, 1e6), left=True, special=True):
    """Non-degenerate cells: parameters of a not too flat parallelepiped or a special
    lattice, then a unimodular change of the basis, a rotation, a scale, a reflection."""
    s = {}
    kind = draw(st.sampled_from(["params", "params", "special", "int"] if special else ["params"]))
    s["kind"] = kind
    if kind == "special":
        s["lattice"] = draw(st.sampled_from(["sc", "fcc", "bcc", "hex", "tet", "ort", "rhl", "bct", "orcc"]))
        s["abc"] = [draw(ints(10, 90, 0.1)) for _ in range(3)]
    elif kind == "int":
        s["mat"] = [[draw(st.integers(-4, 4)) for _ in range(3)] for _ in range(3)]
        s["abc"] = [1.0, 1.0, 1.0]
    else:
        s["params"] = [draw(ints(1000, 9000, 0.001)) for _ in range(3)] + [
            draw(ints(6000, 12000, 0.01)) for _ in range(3)
        ]
    s["uni"] = draw(unis(max_ops, k))
    s["quat"] = draw(quats())
    s["scale"] = draw(st.sampled_from(list(scales)))
    s["left"] = draw(st.sampled_from([0, 0, 1])) if left else 0
    if kind == "int" and draw(st.booleans()):  # whole numbers
        s["quat"] = [0, 0, 0, 0]
        s["scale"] = draw(st.sampled_from([1.0, 11.0, 30.0, 1000.0]))
    return s


def cell_of(s, min_flat=0.25):
    """Cell of the spec or None.  ``min_flat`` bounds det / (product of lengths) of the
    starting basis only; the unimodular change may skew the cell arbitrarily."""
    k = s["kind"]
    if k == "params":
        c = cell_from_params(*s["params"])
        if c is None:
            return None
    elif k == "int":
        c = np.array(s["mat"], dtype=float)
        if abs(np.linalg.det(c)) < 0.5:
            return None
    else:
        a, b, d = s["abc"]
        L = s["lattice"]
        c = {
            "sc": a * np.eye(3),
            "fcc": a / 2 * np.array([[0, 1, 1], [1, 0, 1], [1, 1, 0.0]]),
            "bcc": a / 2 * np.array([[-1, 1, 1], [1, -1, 1], [1, 1, -1.0]]),
            "hex": np.array([[a / 2, -a * math.sqrt(3) / 2, 0], [a / 2, a * math.sqrt(3) / 2, 0], [0, 0, d]]),
            "tet": np.diag([a, a, d]),
            "ort": np.diag([a, b, d]),
            "rhl": np.array([[a, 0, d], [-a / 2, a * math.sqrt(3) / 2, d], [-a / 2, -a * math.sqrt(3) / 2, d]]),
            "bct": 0.5 * np.array([[-a, a, d], [a, -a, d], [a, a, -d]]),
            "orcc": np.array([[a / 2, -b / 2, 0], [a / 2, b / 2, 0], [0, 0, d]]),
        }[L]
    n = np.prod(np.linalg.norm(c, axis=1))
    if abs(np.linalg.det(c)) < min_flat * n * (0.3 if k != "params" else 1):
        return None
    c = unimodular(s["uni"]) @ c
    if s.get("left"):
        c = -c
    return (c @ rotation(s["quat"]).T) * s["scale"]


def params_ref(cell):
    """Independent lengths and angles (degrees): atan2, no arccos."""
    c = np.array(cell, dtype=float)
    n = [math.sqrt(math.fsum(x * x for x in v)) for v in c]

    def ang(u, v):
        return math.degrees(math.atan2(float(np.linalg.norm(np.cross(u, v))), float(u @ v)))

    return n + [ang(c[1], c[2]), ang(c[0], c[2]), ang(c[0], c[1])]


def skewness(cell):
    c = np.array(cell, dtype=float)
    return float(np.prod(np.linalg.norm(c, axis=1)) / abs(np.linalg.det(c)))


def close(x, y, rtol=1e-9, atol=0.0):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        return False
    if not (np.isfinite(x).all() and np.isfinite(y).all()):
        return False
    scale = max(float(np.abs(y).max()) if y.size else 0.0, 0.0)
    return bool((np.abs(x - y) <= atol + rtol * scale).all()) if x.size else True
