"""Moving atoms and measuring between them: rigid shifts, boxes, vectors and distances."""
import copy
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail
from vlib.gens import as_form, cell_of, cell_specs, vec_form

PROPERTY = "W18"
RULE = (
    "1-8 atoms at relative coordinates over [-6, 6] on grids, at cell borders and within 1e-17..1e-3 of them, positions "
    "as array, lists, list of arrays or tuple; gravity point relative or Cartesian; lattice translations in [-9, 9]. "
    "Non-trivial: the call moves at least one atom, or the vector is not zero."
)
ASSUMPTIONS = ["ensure_000 writes into the given rows: rows are lists or arrays", "1.0 is inside [0, 1] (documented interval)"]


def coordinate():
    return st.one_of(
        st.integers(-48, 48).map(lambda i: i / 8), st.integers(-6000, 6000).map(lambda i: i / 1000),
        st.sampled_from([0.0, 1.0, -1.0, 2.0, -2.0, 1e-17, -1e-17, -1e-9, 1 - 1e-9, 0.9999999999999999, -1e-3, 3.0000001]),
    )


@st.composite
def specs(draw):
    s = {"pos": draw(st.lists(st.lists(coordinate(), min_size=3, max_size=3), min_size=1, max_size=8))}
    s["form"] = draw(st.sampled_from(["array", "list", "list_of_arrays", "tuple", "ints"]))
    s["gp"] = draw(st.one_of(st.none(), st.lists(coordinate(), min_size=3, max_size=3)))
    s["gform"] = draw(st.sampled_from(["list", "tuple", "array"]))
    s["cart"] = draw(st.integers(0, 1))
    s["cell"] = draw(cell_specs(max_ops=2, scales=(1.0, 1.0, 0.1, 30.0)))
    s["cform"] = draw(st.sampled_from(["array", "list", "tuple"]))
    s["i"], s["j"] = draw(st.integers(0, 7)), draw(st.integers(0, 7))
    s["R"] = draw(st.one_of(st.none(), st.lists(st.integers(-9, 9), min_size=3, max_size=3)))
    s["rform"] = draw(st.sampled_from(["tuple", "list", "array"]))
    s["rel"] = draw(st.integers(0, 1))
    return s


def make(s):
    return cell_of(s["cell"])


def dictionary(s, rows_mutable=False):
    form = s["form"]
    if rows_mutable and form == "tuple":
        form = "list"
    return {"names": [f"A{i}" for i in range(len(s["pos"]))], "positions": as_form(s["pos"], form), "tag": list(range(len(s["pos"])))}


def after(s, a, what):
    n = len(s["pos"])
    if list(a) != ["names", "positions", "tag"] or a["names"] != [f"A{i}" for i in range(n)] or a["tag"] != list(range(n)):
        fail(f"{what}: other keys changed: {a}")
    p = np.array(a["positions"], dtype=float)
    if p.shape != (n, 3) or not np.isfinite(p).all():
        fail(f"{what}: positions {a['positions']}")
    return p


def check_shift(cell, s):
    a = dictionary(s)
    p0 = np.array(s["pos"], dtype=float)
    kw = {}
    gp = np.array([0.5, 0.5, 0.5])
    if s["gp"] is not None:
        gp = np.array(s["gp"], dtype=float)
        if s["cart"]:
            kw["gravity_point"] = vec_form(gp @ cell, s["gform"])
            kw["cell"], kw["gp_is_relative"] = as_form(cell, s["cform"]), False
        else:
            kw["gravity_point"] = vec_form(gp, s["gform"])
    what = f"shift_atoms({s['pos']}, {s['gp']}, Cartesian={s['cart']})"
    r = wulfric.crystal.shift_atoms(a, **kw)
    if r is not None:
        fail(f"{what} returned {r}")
    p = after(s, a, what)
    d = p - p0
    tol = 1e-9 * (10 + np.abs(gp).max())
    if np.abs(d - d[0]).max() > tol:
        fail(f"{what}: atoms are shifted differently: {d.tolist()}")
    mid = (p.max(axis=0) + p.min(axis=0)) / 2
    if np.abs(mid - gp).max() > tol:
        fail(f"{what}: the middle is at {mid.tolist()} instead of {gp.tolist()}")
    # second application: a fixed point
    wulfric.crystal.shift_atoms(a, **kw)
    if np.abs(after(s, a, what) - p).max() > tol:
        fail(f"{what}: not idempotent")
    if s["gp"] is not None and s["cart"]:
        kw.pop("cell")
        try:
            wulfric.crystal.shift_atoms(a, **kw)
        except ValueError:
            pass
        else:
            fail("shift_atoms accepts a Cartesian point without cell")
    return ("Cartesian" if s["cart"] else "relative") if np.abs(d).max() > 0 else None


def check_cure(cell, s):
    a = dictionary(s)
    p0 = np.array(s["pos"], dtype=float)
    what = f"cure_negative({s['pos']})"
    if wulfric.crystal.cure_negative(a) is not None:
        fail(f"{what} returns something")
    p = after(s, a, what)
    if p.min() < 0:
        fail(f"{what}: negative coordinate {p.tolist()}")
    want = np.where(p0.min(axis=0) < 0, -p0.min(axis=0), 0)
    if np.abs(p - p0 - want).max() > 1e-12:
        fail(f"{what}: shifts {(p - p0).tolist()}, expected {want.tolist()} (the smallest one, nothing where not needed)")
    wulfric.crystal.cure_negative(a)
    if not np.array_equal(after(s, a, what), p):
        fail(f"{what}: not idempotent")
    return f"{int((want > 0).sum())} directions" if want.any() else None


def check_ensure(cell, s):
    a = dictionary(s, rows_mutable=True)
    p0 = np.array(s["pos"], dtype=float)
    what = f"ensure_000({s['pos']})"
    if isinstance(a["positions"], np.ndarray):
        a["positions"] = a["positions"].astype(float)
    if wulfric.crystal.ensure_000(a) is not None:
        fail(f"{what} returns something")
    p = after(s, a, what)
    if p.min() < 0 or p.max() > 1:
        fail(f"{what}: outside [0, 1]: {p.tolist()}")
    for x, y in zip(p0.ravel(), p.ravel()):
        d = Fraction(float(y)) - Fraction(float(x))
        if abs(d - round(d)) > Fraction(1, 10**14):
            fail(f"{what}: {x!r} becomes {y!r}, not the same up to a lattice translation")
    wulfric.crystal.ensure_000(a)
    q = after(s, a, what)
    d = np.abs(q - p)
    if np.minimum(d, np.abs(d - 1)).max() > 1e-14:
        fail(f"{what}: not idempotent")
    return "moved" if np.abs(p - p0).max() > 0.5 else None


def check_vector(cell, s):
    a = dictionary(s)
    n = len(s["pos"])
    i, j = s["i"] % n, s["j"] % n
    p = np.array(s["pos"], dtype=float)
    kw, R = {}, np.zeros(3)
    if s["R"] is not None:
        R = np.array(s["R"], dtype=float)
        kw["R"] = {"tuple": tuple, "list": list, "array": np.array}[s["rform"]](s["R"])
    keep = copy.deepcopy(a)
    c = as_form(cell, s["cform"])
    rel = p[j] + R - p[i]
    want = rel @ cell
    scale = np.abs(cell).max() * 20
    what = f"atoms {i} -> {j} of {s['pos']}, R = {s['R']}"
    v = np.array(wulfric.crystal.get_vector(c, a, i, j, **kw), dtype=float)
    if v.shape != (3,) or np.abs(v - want).max() > 1e-12 * scale:
        fail(f"get_vector, {what}: {v}, expected {want}")
    v = np.array(wulfric.crystal.get_vector(c, a, i, j, return_relative=True, **kw), dtype=float)
    if v.shape != (3,) or np.abs(v - rel).max() > 1e-12 * 20:
        fail(f"relative get_vector, {what}: {v}, expected {rel}")
    d = wulfric.crystal.get_distance(c, a, i, j, **kw)
    if not isinstance(d, float) or abs(d - np.sqrt((want ** 2).sum())) > 1e-12 * scale:
        fail(f"get_distance, {what}: {d}, expected {np.sqrt((want ** 2).sum())}")
    kw["R"] = tuple(int(-x) for x in R)
    if abs(wulfric.crystal.get_distance(c, a, j, i, **kw) - d) > 1e-12 * scale:
        fail(f"get_distance, {what}: the distance back differs")
    if repr(a) != repr(keep):
        fail(f"get_vector/get_distance change atoms")
    return ("R" if R.any() else "0") if rel.any() else None


FACETS = [
    Facet("shift", specs, check_shift, make, quick=800, thorough=20000, shards=2),
    Facet("cure", specs, check_cure, make, quick=800, thorough=20000, shards=2),
    Facet("ensure", specs, check_ensure, make, quick=1000, thorough=30000, shards=2),
    Facet("vector", specs, check_vector, make, quick=1000, thorough=30000, shards=2),
]
