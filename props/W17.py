"""validate_atoms: exactly the documented dictionaries pass; error or False, never both."""
import collections
import copy

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail

PROPERTY = "W17"
RULE = (
    "A valid atoms dictionary of 0-5 atoms with any subset of the known and two unknown keys, in several containers (strings, sets, ranges and others for unknown keys), "
    "with 0-2 defects injected (length, missing key, no length, shape, ragged rows, wrong element type, invalid "
    "species, non-positive type). Classes name the defects. Non-trivial: all; the defect decides the expected verdict."
)
ASSUMPTIONS = [
    "bool and numpy integers in spglib_types, and a str in place of a list of str, are not judged",
]
ELEMENTS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo "
    "Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl "
    "Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og"
).split()
KEYS = ["positions", "names", "species", "spglib_types", "spins", "tag"]
DEFECTS = {
    "positions": ["shape2", "shape4", "flat", "ragged", "nolen", "longer", "shorter", "deep"],
    "names": ["int", "none", "longer", "nolen", "float"],
    "species": ["int", "upper", "lower", "unknown", "longer", "nolen", "empty", "indexed"],
    "spglib_types": ["float", "zero", "negative", "str", "longer", "nolen", "none"],
    "spins": ["longer", "nolen", "shorter", "array0", "generator", "nothing"],
    "tag": ["longer", "nolen", "shorter", "array0", "generator", "nothing"],
}


@st.composite
def specs(draw):
    s = {"n": draw(st.integers(1, 5)), "keys": draw(st.lists(st.sampled_from(KEYS), unique=True, max_size=6))}
    s["species"] = [draw(st.sampled_from(ELEMENTS + ["X", "X"])) for _ in range(s["n"])]
    s["types"] = [draw(st.sampled_from([1, 1, 2, 3, 118, 10**6])) for _ in range(s["n"])]
    s["form"] = draw(st.sampled_from(["list", "tuple", "array"]))
    s["uform"] = [draw(st.sampled_from(["as", "as", "as", "str", "bytes", "dict", "set", "range", "deque", "objects"])) for _ in range(2)]
    s["required"] = draw(st.lists(st.sampled_from(KEYS + ["charges"]), unique=True, max_size=3))
    s["bad"] = []
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        if s["keys"]:
            k = draw(st.sampled_from(s["keys"]))
            s["bad"].append([k, draw(st.sampled_from(DEFECTS[k])), draw(st.integers(0, 4))])
    s["sugar"] = draw(st.integers(0, 1))
    s["req_none"] = draw(st.integers(0, 1))
    return s


def build(s):
    n = s["n"]
    a = {}
    for k in s["keys"]:
        v = {
            "positions": [[0.1 * i, 0.5, -1.25] for i in range(n)], "names": [f"A{i}" for i in range(n)],
            "species": list(s["species"]), "spglib_types": list(s["types"]),
            "spins": [[0, 0, i] for i in range(n)], "tag": [None] * n,
        }[k]
        a[k] = v
    hit, seen = {}, set()  # key: the defect that stands
    for k, d, i in s["bad"]:
        if k in seen:
            continue
        seen.add(k)
        hit[k] = d
        v, i = a[k], i % n
        if d == "nolen":
            a[k] = 7
        elif d == "array0":
            a[k] = np.array(3.5)
        elif d == "generator":
            a[k] = (x for x in range(n))
        elif d == "nothing":
            a[k] = []
            if len(s["keys"]) == 1:
                del hit[k]
        elif d == "longer":
            a[k] = v + [copy.deepcopy(v[-1])]
            if len(s["keys"]) == 1:
                del hit[k]
        elif d == "shorter":
            a[k] = v[:-1]
            if len(s["keys"]) == 1 and not (k == "positions" and n == 1):
                del hit[k]
        elif d == "shape2":
            a[k] = [r[:2] for r in v]
        elif d == "shape4":
            a[k] = [r + [0.0] for r in v]
        elif d == "flat":
            a[k] = [r[0] for r in v]
        elif d == "deep":
            a[k] = [[r] for r in v]
        elif d == "ragged":
            v[i] = v[i][:2]
        elif d in ("int", "float", "none", "zero", "negative", "str", "upper", "lower", "unknown", "empty", "indexed"):
            v[i] = {"int": 1, "float": 1.0, "none": None, "zero": 0, "negative": -3, "str": "1", "upper": "CR",
                    "lower": "cr", "unknown": "Xx", "empty": "", "indexed": "Cr1"}[d]
    # two defects of equal effect may cancel: lengths
    lengths = [number_of(v) for v in a.values()]
    bad = -1 in lengths or len(set(lengths)) > 1
    for k in a:
        if hit.get(k, "longer") not in ("longer", "shorter", "nolen", "array0", "generator", "nothing"):
            bad = True
    if "positions" in a and hasattr(a["positions"], "__len__") and len(a["positions"]) == 0:
        bad = True
    for k in list(a):
        if k not in hit and isinstance(a[k], list):
            if s["form"] == "tuple":
                a[k] = tuple(a[k])
            elif s["form"] == "array" and k in ("positions", "spins", "names", "species"):
                a[k] = np.array(a[k])
    for k, f in zip(("spins", "tag"), s["uform"]):
        if isinstance(a.get(k), (list, tuple)):
            a[k] = UNKNOWN[f](a[k])
    return a, bad


def number_of(v):
    try:
        return len(v)
    except TypeError:
        return -1


UNKNOWN = {
    "as": lambda v: v, "str": lambda v: "u" * len(v), "bytes": lambda v: b"\0" * len(v), "dict": lambda v: dict(enumerate(v)),
    "set": lambda v: set(range(len(v))), "range": lambda v: range(len(v)), "deque": collections.deque,
    "objects": lambda v: np.array([None] * len(v), dtype=object),
}


def check(s, _):
    a, bad = build(s)
    req = s["required"]
    bad = bad or any(k not in a for k in req)
    if s["sugar"]:
        a = wulfric.add_sugar(a)
    keep = repr(dict(a))
    kw = {} if (not req and s["req_none"]) else {"required_keys": req}
    r = wulfric.crystal.validate_atoms(a, raise_errors=False, **kw)
    if r is not True and r is not False:
        fail(f"validate_atoms({keep}, {req}) = {r!r}")
    if r == bad:
        fail(f"validate_atoms({keep}, required {req}, raise_errors=False) = {r}, defects {s['bad']}")
    err = None
    try:
        r2 = wulfric.crystal.validate_atoms(a, **kw)
    except (ValueError, TypeError) as e:
        err = e
    if (err is not None) != bad:
        fail(f"validate_atoms({keep}, required {req}): {'raises ' + repr(err) if err else 'no error'}, defects {s['bad']}")
    if err is None and r2 is not True:
        fail(f"validate_atoms({keep}) = {r2!r}")
    if err is not None and any(d in ("nolen", "array0", "generator") for _, d, _ in s["bad"]) and not isinstance(err, TypeError) and len(s["bad"]) == 1:
        fail(f"validate_atoms({keep}): {type(err).__name__} for a value that is not iterable, TypeError is documented")
    if err is not None and not any(d in ("nolen", "array0", "generator") for _, d, _ in s["bad"]) and not isinstance(err, ValueError):
        fail(f"validate_atoms({keep}): {type(err).__name__}, ValueError is documented")
    if repr(dict(a)) != keep:
        fail("validate_atoms changes atoms")
    kinds = sorted({f"{k}:{d}" for k, d, _ in s["bad"]})
    if bad and not kinds:
        return "missing key"
    return "+".join(kinds) if bad and len(kinds) == 1 else ("several" if bad else "valid")


@st.composite
def species_specs(draw):
    return {"e": draw(st.one_of(st.sampled_from(ELEMENTS + ["X"]), st.text(alphabet="abcdefghiklmnoprstuyzABCDEFGHIKLMNOPRSTUVWXYZ1", max_size=2)))}


def check_species(s, _):
    e = s["e"]
    r = wulfric.crystal.validate_atoms({"species": [e]}, raise_errors=False)
    if r != (e in ELEMENTS or e == "X"):
        fail(f"species {e!r}: {r}")
    return "element" if r else "other"


def consumers():
    """Functions that take atoms refuse invalid ones."""
    return st.fixed_dictionaries({
        "f": st.sampled_from(["types", "data", "conventional", "primitive", "path", "symbol", "variation", "unique", "species",
                              "kpoints"]),
        "defect": st.sampled_from(["length", "shape", "names", "types", "missing"]),
        "data": st.booleans(), "convention": st.sampled_from(["HPKOT", "SC", "spglib"]),
    })


def check_consumers(s, _):
    a = {"positions": [[0, 0, 0], [0.5, 0.5, 0.4]], "names": ["Cr1", "Cr2"]}
    if s["f"] not in ("unique", "species"):
        a["spglib_types"] = [1, 2]
    cell = [[3.0, 0, 0], [0, 4, 0], [0, 0, 5]]
    data = wulfric.get_spglib_data(cell, a) if s["data"] else None
    c = s["convention"]
    c2 = c if c != "spglib" else "HPKOT"
    d = s["defect"]
    if d == "length":
        a["names"] = ["Cr1"]
    elif d == "shape":
        a["positions"] = [[0, 0], [0.5, 0.5]]
    elif d == "names":
        a["names"] = ["Cr1", 2]
    elif d == "types":
        a["spglib_types"] = [1, 0]
    elif s["f"] in ("unique", "species"):
        del a["names"]
    elif s["f"] == "types":
        a = {"positions": a["positions"]}
    else:
        del a["positions"]
    f = {
        "types": lambda: wulfric.get_spglib_types(a),
        "data": lambda: wulfric.get_spglib_data(cell, a),
        "conventional": lambda: wulfric.crystal.get_conventional(cell, a, c, data),
        "primitive": lambda: wulfric.crystal.get_primitive(cell, a, c, data),
        "path": lambda: wulfric.kpoints.get_path_and_points(cell, a, data, convention=c2),
        "symbol": lambda: wulfric.crystal.hpkot_get_extended_bl_symbol(cell, a, data),
        "variation": lambda: wulfric.crystal.sc_get_variation(cell, a, data),
        "kpoints": lambda: wulfric.Kpoints.from_crystal(cell, a, convention=c2, spglib_data=data),
        "unique": lambda: wulfric.crystal.get_unique_names(a),
        "species": lambda: wulfric.crystal.get_atoms_species(a),
    }[s["f"]]
    try:
        r = f()
    except (ValueError, TypeError):
        return f"{s['f']}-{d}"
    fail(f"{s['f']} accepts {a} and returns {r}")


FACETS = [
    Facet("validate", specs, check, quick=2000, thorough=60000, shards=4),
    Facet("species", species_specs, check_species, quick=800, thorough=8000, shards=2),
    Facet("consumers", consumers, check_consumers, quick=900, thorough=6000),
]
