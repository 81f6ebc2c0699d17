"""Constructors and examples of both conventions are what their names say."""
import math

import numpy as np
from hypothesis import strategies as st

import wulfric
from props import W10
from vlib import crystals as X
from vlib import kpoint_tables as K
from vlib import reference as R
from vlib.core import Facet, fail
from vlib.gens import params_ref, quats, unis

PROPERTY = "W21"
RULE = (
    "constructors: all fourteen SC_* functions over lengths 0.05-60 times 1e-6..1e4 and angles, against the published matrices and the "
    "lattice parameters; tri: SC_TRI over valid, impossible and border parameters, direct and reciprocal. examples: every name (of sc_get_example in any letter case); the example as returned and redescribed (other "
    "basis, rotation, supercell, scale) has the symmetry and the variation of its name. Non-trivial: all."
)
ASSUMPTIONS = [
    "angles of SC_TRI come from a real cell",
    "TRI2a and TRI2b are one lattice in two descriptions; only the example as returned has to be of its own name",
]


def length():
    return st.tuples(st.integers(5, 6000), st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e-6, 1e4])).map(lambda x: x[0] / 100 * x[1])


FUN = ["CUB", "FCC", "BCC", "TET", "BCT", "ORC", "ORCF", "ORCI", "ORCC", "HEX", "RHL", "MCL", "MCLC", "TRI"]


@st.composite
def ctor_specs(draw):
    s = {"f": draw(st.sampled_from(FUN)), "l": [draw(length()) for _ in range(3)]}
    s["alpha"] = draw(st.integers(2500, 11900)) / 100
    s["vec"] = draw(st.lists(st.lists(st.integers(-9, 9), min_size=3, max_size=3), min_size=3, max_size=3))
    s["num"] = draw(st.sampled_from(["float", "int", "np"]))
    s["kw"] = draw(st.integers(0, 1))
    s["rec"] = draw(st.integers(0, 1))
    return s


def check_ctor(s, _):
    conv = {"float": float, "int": lambda x: max(1, int(x)), "np": np.float64}[s["num"]]
    a, b, c = (conv(x) for x in s["l"])
    al = s["alpha"]
    h = 0.5
    fa, fb, fc = float(a), float(b), float(c)
    co, si = math.cos(math.radians(al)), math.sin(math.radians(al))
    f = s["f"]
    fun = getattr(wulfric.cell, "SC_" + f)
    args = {"CUB": "a", "FCC": "a", "BCC": "a", "TET": "ac", "BCT": "ac", "HEX": "ac", "RHL": "aA",
            "MCL": "abcA", "MCLC": "abcA", "TRI": ""}.get(f, "abc")
    val = {"a": a, "b": b, "c": c, "A": al}
    names = {"a": "a", "b": "b", "c": "c", "A": "alpha"}
    if f == "TRI":
        m = np.array(s["vec"], dtype=float)
        if abs(np.linalg.det(m)) < 0.5:
            return None
        if np.linalg.det(m) < 0:
            m = -m
        p = params_ref(m)
        if min(min(x, 180 - x) for x in p[3:]) < 5:
            return None
        got = wulfric.cell.SC_TRI(*p, **({"input_reciprocal": True} if s["rec"] else {}))
        want = np.array(got, dtype=float)
        if s["rec"]:
            want = R.recip(want)
        if want.shape != (3, 3) or np.abs(np.array(params_ref(want)) - p).max() > 1e-6 * max(p):
            fail(f"SC_TRI({p}, input_reciprocal={bool(s['rec'])}): parameters {params_ref(want)}")
        if not s["rec"]:
            if np.abs(got[0][1:]).max() > 1e-9 * max(p) or abs(got[1][2]) > 1e-9 * max(p) or got[1][1] <= 0 or got[2][2] <= 0:
                fail(f"SC_TRI({p}) is not oriented as published: {got}")
        return f
    want = {
        "CUB": [[fa, 0, 0], [0, fa, 0], [0, 0, fa]],
        "FCC": [[0, h * fa, h * fa], [h * fa, 0, h * fa], [h * fa, h * fa, 0]],
        "BCC": [[-h * fa, h * fa, h * fa], [h * fa, -h * fa, h * fa], [h * fa, h * fa, -h * fa]],
        "TET": [[fa, 0, 0], [0, fa, 0], [0, 0, fc]],
        "BCT": [[-h * fa, h * fa, h * fc], [h * fa, -h * fa, h * fc], [h * fa, h * fa, -h * fc]],
        "ORC": [[fa, 0, 0], [0, fb, 0], [0, 0, fc]],
        "ORCF": [[0, h * fb, h * fc], [h * fa, 0, h * fc], [h * fa, h * fb, 0]],
        "ORCI": [[-h * fa, h * fb, h * fc], [h * fa, -h * fb, h * fc], [h * fa, h * fb, -h * fc]],
        "ORCC": [[h * fa, -h * fb, 0], [h * fa, h * fb, 0], [0, 0, fc]],
        "HEX": [[h * fa, -h * math.sqrt(3) * fa, 0], [h * fa, h * math.sqrt(3) * fa, 0], [0, 0, fc]],
        "MCL": [[fa, 0, 0], [0, fb, 0], [0, fc * co, fc * si]],
        "MCLC": [[h * fa, h * fb, 0], [-h * fa, h * fb, 0], [0, fc * co, fc * si]],
        "RHL": None,
    }[f]
    if f == "RHL":
        ch, sh = math.cos(math.radians(al / 2)), math.sin(math.radians(al / 2))
        want = [[fa * ch, -fa * sh, 0], [fa * ch, fa * sh, 0], [fa * co / ch, 0, fa * math.sqrt(1 - co**2 / ch**2)]]
    got = fun(**{names[k]: val[k] for k in args}) if s["kw"] else fun(*[val[k] for k in args])
    if np.shape(got) != (3, 3) or np.abs(np.array(got, dtype=float) - np.array(want)).max() > 1e-12 * np.abs(want).max():
        fail(f"SC_{f}({[val[k] for k in args]}) = {np.array(got).tolist()}, published: {want}")
    if f == "RHL":
        p = params_ref(got)
        if np.abs(np.array(p[:3]) - fa).max() > 1e-8 * fa or np.abs(np.array(p[3:]) - al).max() > 1e-6:
            fail(f"SC_RHL({a}, {al}): parameters {p}")
    return f


SC_NAMES = sorted(K.PATHS["SC"])
HP_NAMES = sorted(K.PATHS["HPKOT"])
SC_SHORT = sorted({n.rstrip("ab").rstrip("12345") for n in SC_NAMES})
HP_SHORT = sorted({n[:2] for n in HP_NAMES})


@st.composite
def ex_specs(draw):
    s = {"conv": draw(st.sampled_from(["SC", "HPKOT"]))}
    s["name"] = draw(st.sampled_from((SC_NAMES + SC_NAMES + SC_SHORT) if s["conv"] == "SC" else (HP_NAMES + HP_NAMES + HP_SHORT)))
    s["case"] = draw(st.sampled_from(["as", "lower", "upper"]))
    s["inv"] = draw(st.integers(0, 1))
    s["again"] = draw(st.integers(0, 1))
    s["uni"] = draw(unis(3, 1))
    s["quat"] = draw(quats())
    s["scale"] = draw(st.sampled_from([1.0, 1.0, 0.7, 3.0]))
    s["super"] = draw(st.sampled_from([[1, 1, 1], [1, 1, 1], [2, 1, 1], [1, 1, 2]]))
    return s


def redescribe(s, cell, pos, typ):
    cell, pos = np.array(cell, dtype=float), np.array(pos, dtype=float)
    n = s["super"]
    cells = [(i, j, k) for i in range(n[0]) for j in range(n[1]) for k in range(n[2])]
    p2 = np.array([(p + np.array(v)) / np.array(n) for v in cells for p in pos])
    t2 = [t for _ in cells for t in typ]
    cell = np.diag(n) @ cell
    U = X.unimodular(s["uni"])
    p2 = p2 @ np.linalg.inv(U)
    cell = (U @ cell) @ X.rotation(s["quat"]).T * s["scale"]
    return cell, p2 - np.floor(p2 + 1e-9), t2


def check_examples(s, _):
    name = s["name"]
    if s["conv"] == "SC":
        arg = {"as": name, "lower": name.lower(), "upper": name.upper()}[s["case"]]
        cell = wulfric.cell.sc_get_example(arg)
        if s["again"] and not np.array_equal(cell, wulfric.cell.sc_get_example(arg)):
            fail(f"sc_get_example({arg!r}) differs between calls")
        if np.shape(cell) != (3, 3):
            fail(f"sc_get_example({arg!r}) = {cell}")
        want = name if name in SC_NAMES else (name + "1a" if name == "TRI" else name + "1")
        got = wulfric.crystal.sc_get_variation(cell, {"positions": [[0, 0, 0]], "spglib_types": [1]})
        if got != want:
            fail(f"sc_get_example({arg!r}) is of the variation {got}")
        # TRI examples are tiny (0.5): bring them to the usual scale first
        if np.linalg.norm(cell[0]) < 1:
            cell = np.array(cell) * 6
        c2, p2, t2 = redescribe(s, cell, [[0, 0, 0]], [1])
        got = wulfric.crystal.sc_get_variation(c2, {"positions": p2, "spglib_types": t2})
        # k_gamma = 90: both descriptions (k3 and -k3) exist, the paper does not choose
        if got != want and not ({got, want} == {"TRI2a", "TRI2b"}):
            fail(f"sc_get_example({arg!r}) redescribed is of the variation {got}")
        return f"SC {name}"
    inv = bool(s["inv"])
    full = name if len(name) == 3 else ("aP2" if name == "aP" else name + "1")
    if inv and full in ("oF2", "oI2", "oA1", "oA2"):
        try:
            wulfric.crystal.hpkot_get_example(name, with_inversion=True)
        except ValueError:
            return f"refused {name}"
        fail(f"hpkot_get_example({name!r}, with_inversion=True) is not refused")
    cell, atoms = wulfric.crystal.hpkot_get_example(name, **({"with_inversion": True} if inv else {}))
    if not wulfric.crystal.validate_atoms(atoms, required_keys=["positions"], raise_errors=False):
        fail(f"hpkot_get_example({name!r}): invalid atoms")
    if s["again"]:
        c3, a3 = wulfric.crystal.hpkot_get_example(name, with_inversion=inv)
        if not np.array_equal(cell, c3) or not np.array_equal(atoms["positions"], a3["positions"]):
            fail(f"hpkot_get_example({name!r}) differs between calls")
    typ = wulfric.get_spglib_types(atoms)
    c2, p2, t2 = redescribe(s, cell, atoms["positions"], typ)
    if len(t2) > 100:
        return None
    d = X.spglib.get_symmetry_dataset((c2, p2, t2), symprec=1e-5 * s["scale"])
    if d is None:
        return None
    if X.has_inversion(d.number) != inv:
        fail(f"hpkot_get_example({name!r}, with_inversion={inv}) has the space group {d.number}")
    a2 = {"positions": p2, "spglib_types": t2}
    got = wulfric.crystal.hpkot_get_extended_bl_symbol(c2, a2, spglib_data=wulfric.get_spglib_data(c2, a2, spglib_symprec=1e-5 * s["scale"]))
    if got != full:
        fail(f"hpkot_get_example({name!r}, with_inversion={inv}) redescribed has the symbol {got}")
    return f"HPKOT {name}{'i' if inv else ''}"


@st.composite
def sweep_specs(draw):
    s = draw(ex_specs())
    for k in ("name", "inv", "conv"):
        s.pop(k)
    return s


def check_sweep(s, _):
    """every name of both conventions, with and without inversion, described in one more way"""
    for conv, names in (("SC", SC_NAMES + SC_SHORT), ("HPKOT", HP_NAMES + HP_SHORT)):
        for name in names:
            for inv in (0, 1) if conv == "HPKOT" else (0,):
                check_examples(dict(s, conv=conv, name=name, inv=inv), None)
    return s["case"]


@st.composite
def bad_specs(draw):
    return {"conv": draw(st.sampled_from(["SC", "HPKOT"])),
            "name": draw(st.one_of(st.sampled_from(["", "cub1", "RHL3", "xP1", "cp1", "CF1", "tI3", "TRI3a", "MCLC6", "oA3", "aP1", "ORCF4"]),
                                   st.text(alphabet="CUBFTERIOHLMXabcmpotFIhRA123", max_size=5)))}


def check_bad(s, _):
    n = s["name"]
    if s["conv"] == "SC":
        if n.lower() in {x.lower() for x in SC_NAMES + SC_SHORT}:
            return None
        f = wulfric.cell.sc_get_example
    else:
        if n in HP_NAMES + HP_SHORT:
            return None
        f = wulfric.crystal.hpkot_get_example
    try:
        r = f(n)
    except ValueError:
        return s["conv"]
    fail(f"{f.__name__}({n!r}) returned {r}")


# -- SC_TRI accepts what forms a parallelepiped ------------------------------------------------
@st.composite
def tri_specs(draw):
    s = draw(W10.param_specs())
    s["rec"] = draw(st.integers(0, 2))
    return s


def check_tri(s, _):
    p = [*s["abc"], *s["ang"]]
    ok = W10.verdict(s["abc"], s["ang"], 1e-8, 1e-4)
    if ok is None:
        return None
    ca, cb, cg = (math.cos(math.radians(x)) for x in s["ang"])
    rad = 1 + 2 * ca * cb * cg - ca * ca - cb * cb - cg * cg
    kw = {} if not s["rec"] else {"input_reciprocal": s["rec"] == 1}
    try:
        cell = np.array(wulfric.cell.SC_TRI(*p, **kw), dtype=float)
    except ValueError:
        if ok and rad > 1e-9:
            fail(f"SC_TRI({p}, {kw}) refuses parameters of a cell")
        return None if ok else "refused"
    if not ok:
        fail(f"SC_TRI({p}, {kw}) = {cell.tolist()} although the parameters form no parallelepiped")
    if rad < 1e-4:
        return None
    if s["rec"] == 1:
        cell = R.recip(cell)
    got = params_ref(cell)
    if any(abs(g / w - 1) > 1e-7 for g, w in zip(got[:3], p[:3])) or any(abs(g - w) > 1e-4 for g, w in zip(got[3:], p[3:])):
        fail(f"SC_TRI({p}, {kw}) has the parameters {got}")
    return "reciprocal" if s["rec"] == 1 else "direct"


FACETS = [
    Facet("tri", tri_specs, check_tri, quick=600, thorough=20000),
    Facet("constructors", ctor_specs, check_ctor, quick=1200, thorough=30000, shards=2),
    Facet("examples", ex_specs, check_examples, quick=600, thorough=8000, shards=8),
    Facet("sweep", sweep_specs, check_sweep, quick=4, thorough=200, shards=4),
    Facet("refused", bad_specs, check_bad, quick=200, thorough=4000),
]
