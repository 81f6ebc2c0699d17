"""The gate to spglib: deduction of types, faithful data, validation in every consumer."""
import copy
import dataclasses

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import reference as R
from props.W17 import ELEMENTS
from vlib.core import Facet, fail

PROPERTY = "W16"
RULE = (
    "types: atoms labelled by any combination of spglib_types, species and names. table: structures of up to all elements, every element in several spellings. data: crystals of all space groups, "
    "also distorted by 1e-4..1e-2 with symprec below and above the distortion, against a direct call of spglib. gate: "
    "spglib_data of the same, an equal or a different structure (cell, positions, types, order of atoms, foreign "
    "object) handed to each of the seven consumers. Non-trivial: all judged cases; classes name the rule/the mismatch."
)
ASSUMPTIONS = ["structures that differ by less than 1e-3 but more than 1e-9 are not offered to the gate"]


# -- types -------------------------------------------------------------------------------------
KNOWN = {"Cr": ["Cr", "Cr1", "cr2", "CR_3", "1Cr"], "Br": ["Br", "Br7", "br"], "S": ["S", "S2", "s", "_S"],
         "O": ["O", "O11", "o"], "Fe": ["Fe", "FE1", "fe-up"], "X": ["@", "@1", "@2", "#1", "?", "_1", "_11", "q", "Q", "q1"]}


@st.composite
def type_specs(draw):
    n = draw(st.integers(1, 7))
    pool = [draw(st.sampled_from(ELEMENTS)) for _ in range(3)] + ["X"]
    if draw(st.integers(0, 1)):
        pool = sorted(KNOWN)
    el = [draw(st.sampled_from(pool)) for _ in range(n)]
    forms = ["{0}", "{0}1", "{0}2", "_{0}", "{1}_3", "{2}"]
    s = {"names": [draw(st.sampled_from(KNOWN[e])) if e in KNOWN else
                   draw(st.sampled_from(forms)).format(e, e.lower(), e.upper()) for e in el], "name_el": el}
    species = ["Cr", "Br", "S", "O", "Fe", "X", "Sn", "H", "He"] if draw(st.integers(0, 1)) else pool
    s["species"] = [draw(st.sampled_from(species)) for _ in range(n)]
    s["types"] = [draw(st.sampled_from([1, 2, 3, 7, 100, 5])) for _ in range(n)]
    s["keys"] = draw(st.lists(st.sampled_from(["names", "species", "types"]), unique=True, max_size=3))
    s["extra"] = draw(st.integers(0, 1))
    s["form"] = draw(st.sampled_from(["list", "tuple"]))
    return s


def check_types(s, _):
    n = len(s["names"])
    atoms = {}
    for k in s["keys"]:
        v = list(s[k])
        atoms["spglib_types" if k == "types" else k] = tuple(v) if s["form"] == "tuple" and k != "types" else v
    if s["extra"]:
        atoms["positions"] = [[0.1 * i, 0, 0] for i in range(n)]
    keep = copy.deepcopy(atoms)
    if not s["keys"]:
        try:
            r = wulfric.get_spglib_types(atoms)
        except ValueError:
            return "none"
        fail(f"get_spglib_types({atoms}) returned {r} without any label")
    got = wulfric.get_spglib_types(atoms)
    if repr(atoms) != repr(keep):
        fail("get_spglib_types changes atoms")
    if len(got) != n or any(not isinstance(x, (int, np.integer)) or isinstance(x, bool) or x < 1 for x in got):
        fail(f"get_spglib_types({keep}) = {got}: not {n} positive integers")
    if "types" in s["keys"]:
        if list(got) != s["types"]:
            fail(f"get_spglib_types({keep}) = {got}, expected the given types")
        return "types"
    if "species" in s["keys"]:
        ident, rule = s["species"], "species"
    else:
        ident, rule = [n if e == "X" else "=" + e for n, e in zip(s["names"], s["name_el"])], "names"
    for i in range(n):
        for j in range(i):
            if (got[i] == got[j]) != (ident[i] == ident[j]):
                fail(f"get_spglib_types({keep}) = {got}: atoms {j} and {i} are "
                     f"{'merged' if got[i] == got[j] else 'distinguished'} by {rule}")
    return f"{rule}-{len(set(ident))}"


# -- types of all elements in one structure ------------------------------------------------------
FORMS = ["{0}", "{0}1", "{0}2", "_{0}", "{1}_3", "{2}", "{1}", "12{0}"]


@st.composite
def table_specs(draw):
    k = draw(st.integers(1, 4))
    return {"forms": [draw(st.sampled_from(FORMS)) for _ in range(k)], "key": draw(st.sampled_from(["names", "names", "species"])),
            "start": draw(st.integers(0, len(ELEMENTS) - 1)), "step": draw(st.sampled_from([1, -1, 5, 7, 11])),
            "x": draw(st.lists(st.sampled_from(KNOWN["X"]), max_size=4)),
            "count": draw(st.sampled_from([2, 5, 20, len(ELEMENTS)]))}


def check_table(s, _):
    m = len(ELEMENTS)
    els = list(dict.fromkeys(ELEMENTS[(s["start"] + s["step"] * k) % m] for k in range(min(s["count"], m))))
    if s["key"] == "species":
        labels = ident = (els + ["X"] * (len(s["x"]) > 0)) * len(s["forms"])
    else:
        labels = [f.format(e, e.lower(), e.upper()) for f in s["forms"] for e in els] + s["x"]
        ident = ["=" + e for _ in s["forms"] for e in els] + s["x"]
    got = [int(t) for t in wulfric.get_spglib_types({s["key"]: list(labels)})]
    if len(got) != len(labels) or min(got) < 1:
        fail(f"get_spglib_types of {s['key']} {labels} = {got}: not {len(labels)} positive integers")
    seen, back = {}, {}
    for label, i, t in zip(labels, ident, got):
        if seen.setdefault(i, (t, label))[0] != t:
            fail(f"get_spglib_types: {s['key']} {label} and {seen[i][1]} are distinguished")
        if back.setdefault(t, (i, label))[0] != i:
            fail(f"get_spglib_types: {s['key']} {label} and {back[t][1]} are merged")
    return f"{s['key']}-{s['count']}"


# -- data --------------------------------------------------------------------------------------
@st.composite
def data_specs(draw):
    s = draw(C.case_specs())
    s["amp"] = draw(st.sampled_from([0.0, 0.0, 1e-4, 1e-3, 1e-2]))
    s["noise"] = draw(st.lists(st.integers(-10, 10), min_size=12, max_size=12))
    s["symprec"] = draw(st.sampled_from([None, 1e-5, 1e-3, 1e-2, 0.1]))
    s["angle"] = draw(st.sampled_from([None, None, -1, 1.0, 5.0]))
    return s


def make_data(s):
    c = C.make_case(s)
    if c is None:
        return None
    if s["amp"]:
        p = c.cr.positions.copy()
        inv = np.linalg.inv(c.cr.cell)
        for i in range(len(p)):
            v = np.array([s["noise"][(3 * i + j + i // 4) % 12] for j in range(3)]) / 10 * s["amp"]
            p[i] += v @ inv
        c.cr.positions = p
        c.cell, c.atoms = C.dress(c.cr, s["dress"])
    return c


def check_data(c, s):
    kw, own = {}, {"symprec": 1e-5, "angle_tolerance": -1}
    if s["symprec"] is not None:
        kw["spglib_symprec"] = own["symprec"] = s["symprec"]
    if s["angle"] is not None:
        kw["spglib_angle_tolerance"] = own["angle_tolerance"] = s["angle"]
    types = [int(t) for t in wulfric.get_spglib_types(c.atoms)]
    ref = X.spglib.get_symmetry_dataset((c.cr.cell, c.cr.positions, types), **own)
    try:
        d = wulfric.get_spglib_data(c.cell, c.atoms, **kw)
    except RuntimeError:
        if ref is None:
            return None
        fail("get_spglib_data raises RuntimeError, a direct call of spglib succeeds")
    if ref is None:
        fail("get_spglib_data returns data, a direct call of spglib fails")
    if d.space_group_number != ref.number:
        fail(f"space group {d.space_group_number}, direct call with {own}: {ref.number}")
    if d.crystal_family != X.family(ref.number) or d.centring_type != X.centring(ref.number):
        fail(f"space group {ref.number}: crystal family {d.crystal_family}, centring {d.centring_type}")
    if d.symprec != own["symprec"] or d.angle_tolerance != own["angle_tolerance"]:
        fail(f"tolerances {d.symprec}, {d.angle_tolerance} recorded instead of {own}")
    if d.spglib_version != X.spglib.__version__:
        fail(f"version {d.spglib_version}")
    if not np.array_equal(d.original_cell, c.cr.cell) or not np.array_equal(d.original_positions, np.array(c.atoms["positions"], dtype=float)):
        fail("original_cell or original_positions are not the given ones")
    if list(d.original_types) != types:
        fail(f"original_types {d.original_types} instead of {types}")
    for f in ("original_cell", "original_positions", "conventional_cell", "conventional_positions", "primitive_cell",
              "primitive_positions"):
        if not isinstance(getattr(d, f), np.ndarray):
            fail(f"{f} is documented as an array, got {type(getattr(d, f)).__name__}")
    # conventional and primitive: the standardized structure in the given orientation
    rot = np.array(ref.std_rotation_matrix)
    want = np.array(ref.std_lattice) @ rot
    if not np.allclose(d.conventional_cell, want, rtol=0, atol=1e-7 * np.abs(want).max()):
        fail(f"conventional_cell {d.conventional_cell} instead of {want}")
    if not np.allclose(d.conventional_positions, ref.std_positions, rtol=0, atol=1e-9) or \
            [int(t) for t in d.conventional_types] != [int(t) for t in ref.std_types]:
        fail("conventional_positions or conventional_types are not those of spglib")
    lat, pos, typ = X.spglib.find_primitive((c.cr.cell, c.cr.positions, types), **own)
    want = np.array(lat) @ rot
    if not np.allclose(d.primitive_cell, want, rtol=0, atol=1e-7 * np.abs(want).max()):
        fail(f"primitive_cell {d.primitive_cell} instead of {want}")
    if not np.allclose(d.primitive_positions, pos, rtol=0, atol=1e-9) or [int(t) for t in d.primitive_types] != [int(t) for t in typ]:
        fail("primitive_positions or primitive_types are not those of spglib")
    # frozen and decoupled
    for f in ("space_group_number", "original_cell", "symprec", "conventional_cell"):
        try:
            setattr(d, f, 0)
        except (dataclasses.FrozenInstanceError, AttributeError):
            continue
        fail(f"{f} of the data can be overwritten")
    keep = [np.array(d.original_cell), np.array(d.original_positions), list(d.original_types)]
    a = dict(c.atoms)
    if isinstance(c.cell, np.ndarray) and c.cell.flags.writeable:
        c.cell += 1
    if isinstance(a["positions"], np.ndarray) and a["positions"].flags.writeable:
        a["positions"] += 0.25 if a["positions"].dtype.kind == "f" else 1
    elif isinstance(a["positions"], list):
        for row in a["positions"]:
            if isinstance(row, list) or (isinstance(row, np.ndarray) and row.flags.writeable):
                row[0] += 0.25
    if isinstance(a.get("spglib_types"), list):
        a["spglib_types"][0] += 50
    if not (np.array_equal(d.original_cell, keep[0]) and np.array_equal(d.original_positions, keep[1]) and list(d.original_types) == keep[2]):
        fail("the data change together with the arguments")
    return f"{ref.number}{'~' if s['amp'] else ''}"


# -- coarse tolerance is honoured by the consumers ----------------------------------------------
def check_coarse(c, s):
    sp = s["symprec"] or 1e-5
    types = [int(t) for t in wulfric.get_spglib_types(c.atoms)]
    ref = X.spglib.get_symmetry_dataset((c.cr.cell, c.cr.positions, types), symprec=sp)
    if ref is None:
        return None
    d = wulfric.get_spglib_data(c.cell, c.atoms, spglib_symprec=sp)
    lat = X.family(ref.number) + X.centring(ref.number)
    sym = wulfric.crystal.hpkot_get_extended_bl_symbol(c.cell, c.atoms, spglib_data=d)
    if sym not in R.hpkot_symbols(ref.number, ref.std_lattice):
        fail(f"extended symbol {sym} with spglib_data of space group {ref.number} (symprec {sp})")
    path, pts = wulfric.kpoints.get_path_and_points(c.cell, c.atoms, spglib_data=d)
    from vlib import kpoint_tables as K
    if path != K.PATHS["HPKOT"][sym]:
        fail(f"path {path} with spglib_data of symbol {sym} (symprec {sp})")
    kp = wulfric.Kpoints.from_crystal(c.cell, c.atoms, spglib_data=d)
    if kp.path_string != path:
        fail(f"Kpoints.from_crystal: path {kp.path_string} with spglib_data of symbol {sym} (symprec {sp})")
    for conv in ("HPKOT", "SC", "spglib"):
        if conv == "SC" and X.family(ref.number) == "a":
            continue
        cell, _ = wulfric.crystal.get_conventional(c.cell, c.atoms, convention=conv, spglib_data=d)
        v, w = abs(np.linalg.det(cell)), abs(np.linalg.det(ref.std_lattice))
        if conv == "SC" and lat == "hR":
            w /= 3
        if abs(v / w - 1) > 0.02:
            fail(f"{conv} conventional cell of volume {v} with spglib_data of space group {ref.number} (symprec {sp}), expected {w}")
    return f"{lat}{'~' if s['amp'] else ''}-{sp}"


# -- gate --------------------------------------------------------------------------------------
CONSUMERS = ["conventional", "primitive", "symbol", "variation", "path", "kpoints", "validate"]
MISMATCH = ["cell", "positions", "types", "swap", "scale", "fewer", "shift", "image", "images", "hand", "turn", "small"]
FOREIGN = ["dataset", "dict", "sugar", "str", "int", "tuple"]


@st.composite
def gate_specs(draw):
    s = draw(C.case_specs(crystal=X.crystal_specs(max_super=1), with_data=False))
    s["consumer"] = draw(st.sampled_from(CONSUMERS))
    s["kind"] = draw(st.sampled_from(["same", "same", "equal"] + MISMATCH + MISMATCH + ["foreign"]))
    s["foreign"] = draw(st.sampled_from(FOREIGN))
    s["i"] = draw(st.integers(0, 8))
    return s


def call(consumer, cell, atoms, conv, data):
    kw = {} if data is None else {"spglib_data": data}
    if consumer == "conventional":
        return wulfric.crystal.get_conventional(cell, atoms, convention=conv, **kw)
    if consumer == "primitive":
        return wulfric.crystal.get_primitive(cell, atoms, convention=conv, **kw)
    if consumer == "symbol":
        return wulfric.crystal.hpkot_get_extended_bl_symbol(cell, atoms, **kw)
    if consumer == "variation":
        return wulfric.crystal.sc_get_variation(cell, atoms, **kw)
    if consumer == "path":
        return wulfric.kpoints.get_path_and_points(cell, atoms, **kw)
    if consumer == "kpoints":
        k = wulfric.Kpoints.from_crystal(cell, atoms, **kw)
        return k.path_string, k.hs_coordinates
    return wulfric.validate_spglib_data(cell, atoms, wulfric.get_spglib_data(cell, atoms) if data is None else data)


def same_result(x, y):
    if isinstance(x, dict):
        return set(x) == set(y) and all(same_result(x[k], y[k]) for k in x)
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and all(same_result(a, b) for a, b in zip(x, y))
    if isinstance(x, (np.ndarray, float)):
        return np.array(x).shape == np.array(y).shape and np.allclose(x, y, rtol=1e-7, atol=1e-7)
    return x == y


def check_gate(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    if s["consumer"] == "variation" and R.sc_variations(own.number, own.std_lattice, own.primitive_lattice)[1]:
        return None
    kind, conv = s["kind"], c.convention
    cell = np.array(c.cr.cell)
    atoms = {"positions": np.array(c.cr.positions), "spglib_types": [int(t) + 1 for t in c.cr.types]}
    n = len(atoms["spglib_types"])
    i, j = s["i"] % n, (s["i"] // 3) % 3
    what = f"{s['consumer']} with spglib_data"
    if kind == "foreign":
        d = wulfric.get_spglib_data(cell, atoms)
        obj = {"dataset": own, "dict": {k: getattr(d, k) for k in ("space_group_number", "original_cell")},
               "sugar": wulfric.add_sugar(dict(vars(d))), "str": "spglib", "int": 5, "tuple": (cell, atoms)}[s["foreign"]]
        if s["consumer"] == "validate":
            return None
        try:
            r = call(s["consumer"], cell, atoms, conv, obj)
        except TypeError:
            return f"{s['consumer']}-foreign"
        fail(f"{what} of type {type(obj).__name__} returned {r}")
    if kind in ("same", "equal"):
        d = wulfric.get_spglib_data(cell, atoms)
        c2, a2 = cell, atoms
        if kind == "equal":
            c2, a2 = cell.tolist(), {"spglib_types": list(atoms["spglib_types"]), "positions": atoms["positions"].tolist(),
                                     "names": [f"Cr{k}" for k in range(n)]}
        r1 = call(s["consumer"], c2, a2, conv, d)
        r2 = call(s["consumer"], c2, a2, conv, None)
        if s["consumer"] in ("conventional", "primitive"):
            r1, r2 = (r1[0], dict(r1[1])), (r2[0], dict(r2[1]))
        if not same_result(r1, r2):
            fail(f"{what} of the same structure returned {r1}, without it {r2}")
        return f"{s['consumer']}-{kind}"
    # data of another structure
    oc, oa = cell.copy(), {"positions": atoms["positions"].copy(), "spglib_types": list(atoms["spglib_types"])}
    if kind == "cell":
        oc[i % 3, j] += 0.02 + 0.02 * np.abs(oc).max()
    elif kind == "scale":
        oc = oc * 1.01
    elif kind == "positions":
        oa["positions"][i, j] += 0.05
    elif kind == "shift":
        oa["positions"] += 0.25
    elif kind == "image":
        oa["positions"][i, j] += (-1, 1, 2)[s["i"] % 3]
    elif kind == "images":
        oa["positions"] += 1.0
    elif kind == "hand":
        oc = -oc
    elif kind == "turn":
        oc = oc @ X.rotation([3, 1, 2, 5])
    elif kind == "small":
        oa["positions"][i, j] += 1e-3
    elif kind == "types":
        oa["spglib_types"][i] += 1
    elif kind == "swap":
        k = next((k for k in range(n) if oa["spglib_types"][k] != oa["spglib_types"][i]), None)
        if k is None:
            return None
        t = oa["spglib_types"]
        t[i], t[k] = t[k], t[i]
    elif kind == "fewer":
        if n < 2:
            return None
        keep = [k for k in range(n) if k != i]
        oa = {"positions": oa["positions"][keep], "spglib_types": [oa["spglib_types"][k] for k in keep]}
    try:
        d = wulfric.get_spglib_data(oc, oa)
    except RuntimeError:
        return None
    try:
        r = call(s["consumer"], cell, atoms, conv, d)
    except ValueError:
        return f"{s['consumer']}-{kind}"
    fail(f"{what} of another structure ({kind}) returned {r}")


FACETS = [
    Facet("types", type_specs, check_types, quick=800, thorough=20000, shards=2),
    Facet("table", table_specs, check_table, quick=400, thorough=6000, shards=2),
    Facet("data", data_specs, check_data, make_data, quick=800, thorough=20000, shards=8),
    Facet("coarse", data_specs, check_coarse, make_data, quick=600, thorough=16000, shards=8),
    Facet("gate", gate_specs, check_gate, C.make_case, quick=1200, thorough=30000, shards=8),
]
