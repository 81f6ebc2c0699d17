"""Functions are pure: arguments stay as they were, results are the caller's own, calls repeat."""
import copy
import os
import pickle
import sys
import tempfile
import threading
import warnings

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import other
from vlib.core import Facet, fail
from vlib.gens import as_form, cell_of, cell_specs, vec_form

PROPERTY = "W22"
RULE = (
    "Two crystals (cell and atoms in any accepted form, with or without precomputed spglib_data, plain or sugared "
    "dictionaries) and a history of 3-9 calls of 30 public functions over them; every returned object is overwritten "
    "before the history goes on and every call of the history is repeated at its end and, in a forked process, made in the opposite order. The second facet does the same with "
    "cell-level and geometry functions over arbitrary cells. "
    "session: the crystal is changed (in the same objects or in copies) after calls on it and the calls are compared "
    "with those of a forked process that has not seen the first crystal. "
    "threads: a call stops before a generated line, a call on another crystal (or the same objects) runs in another thread up to a "
    "line of its own, then both go on; or the call is interrupted there and calls are made after it. "
    "sets: the calls are compared with those of a Python process started with another PYTHONHASHSEED. "
    "Non-trivial: at least two distinct calls of the history returned a value (not an error)."
)
ASSUMPTIONS = [
    "functions documented to act in place (shift_atoms, cure_negative, ensure_000) are judged by W18, not here",
    'get_unique_names(strategy="repeated-only") is excluded: its doctest documents that it rewrites the given names',
    "add_sugar and remove_sugar return the same values in another dictionary (documented), so they are judged by W24",
]

CONV = ("HPKOT", "SC", "spglib")


def crystal_calls():
    t = {}

    def add(name, f):
        t[name] = f

    add("types", lambda e: wulfric.get_spglib_types(e.atoms))
    add("data", lambda e: wulfric.get_spglib_data(e.cell, e.atoms))
    add("validate_atoms", lambda e: wulfric.crystal.validate_atoms(e.atoms, required_keys=["positions"], raise_errors=False))
    add("validate_data", lambda e: wulfric.validate_spglib_data(e.cell, e.atoms, e.data))
    for c in CONV:
        for d in (0, 1):
            add(f"conventional/{c}/{d}", lambda e, c=c, d=d: wulfric.crystal.get_conventional(e.cell, e.atoms, c, e.data if d else None))
            add(f"primitive/{c}/{d}", lambda e, c=c, d=d: wulfric.crystal.get_primitive(e.cell, e.atoms, c, e.data if d else None))
            if c != "spglib":
                for tr in (True, False):
                    u = "t" if tr else "n"
                    add(f"path/{c}/{u}/{d}", lambda e, c=c, d=d, tr=tr: wulfric.kpoints.get_path_and_points(
                        e.cell, e.atoms, e.data if d else None, convention=c, relative=bool(d), with_time_reversal=tr))
                    add(f"kpoints/{c}/{u}/{d}", lambda e, c=c, d=d, tr=tr: wulfric.Kpoints.from_crystal(
                        e.cell, e.atoms, convention=c, n=5, spglib_data=e.data if d else None, with_time_reversal=tr))
                add(f"path/{c}/cartesian", lambda e, c=c: wulfric.kpoints.get_path_and_points(e.cell, e.atoms, convention=c, relative=False))
    for d in (0, 1):
        add(f"symbol/{d}", lambda e, d=d: wulfric.crystal.hpkot_get_extended_bl_symbol(e.cell, e.atoms, e.data if d else None))
        add(f"variation/{d}", lambda e, d=d: wulfric.crystal.sc_get_variation(e.cell, e.atoms, e.data if d else None))
        add(f"vector/{d}", lambda e, d=d: wulfric.crystal.get_vector(e.cell, e.atoms, e.atom, 0, e.R, bool(d)))
    add("distance", lambda e: wulfric.crystal.get_distance(e.cell, e.atoms, e.atom, 0, e.R))
    add("species", lambda e: wulfric.crystal.get_atoms_species(e.named))
    add("species/raise", lambda e: wulfric.crystal.get_atoms_species(e.named, raise_on_fail=True))
    add("data/loose", lambda e: wulfric.get_spglib_data(e.cell, e.atoms, spglib_symprec=0.05))
    add("data/angle", lambda e: wulfric.get_spglib_data(e.cell, e.atoms, spglib_angle_tolerance=4.0))
    add("unique", lambda e: wulfric.crystal.get_unique_names(e.named, "all"))
    add("dump", lambda e: dump(e.cell, e.with_species))
    add("dump/cartesian", lambda e: dump(e.cell, e.with_species, mode="Cartesian"))
    add("dump/short", lambda e: dump(e.cell, e.with_species, decimals=3))
    add("lepage", lambda e: wulfric.lepage(e.cell, give_all_results=True))
    return t


def dump(cell, atoms, **kw):
    with tempfile.TemporaryDirectory(prefix="wulfric-w22-") as d:
        p = os.path.join(d, "POSCAR")
        wulfric.io.dump_poscar(cell, atoms, p, comment="w22", **kw)
        with open(p) as f:
            return f.read()


CALLS = crystal_calls()
CALL_NAMES = sorted(CALLS)


class Env:
    pass


# -- state as comparable plain values -------------------------------------------------------
def freeze(x):
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, x.tobytes() if x.dtype != object else tuple(freeze(i) for i in x.ravel()))
    if isinstance(x, np.generic):
        return ("scalar", str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("dict", type(x).__name__, tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(i) for i in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(repr(i) for i in x)))
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return (type(x).__name__, repr(x))
    if callable(x) and not hasattr(x, "__dict__"):
        return ("callable", repr(x))
    if hasattr(x, "__dict__"):
        return (type(x).__name__, freeze(vars(x)))
    if hasattr(x, "_fields"):
        return (type(x).__name__, tuple(freeze(getattr(x, f)) for f in x._fields))
    return ("repr", repr(x))


def scribble(x, depth=0):
    """Overwrite everything that can be written in a returned value."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object and x.size:
            x[...] = 77 if x.dtype.kind in "iufc" else x.dtype.type()
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v, depth + 1)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            scribble(v, depth + 1)
        x.clear()
        x.append("scribble")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v, depth + 1)
    elif isinstance(x, (wulfric.Kpoints, wulfric.SpglibData)):
        for v in list(vars(x).values()):
            scribble(v, depth + 1)


def clone(e):
    c = Env()
    for k, v in vars(e).items():
        w = copy.deepcopy(v)
        if isinstance(v, np.ndarray):  # same memory order and flags
            w = v.copy(order="K")
            w.setflags(write=v.flags.writeable)
        setattr(c, k, w)
    return c


def outcome(f, e):
    try:
        return f(e), None
    except Exception as ex:  # the same refusal has to repeat
        return None, (type(ex).__name__, str(ex))


def session_state():
    """Settings of the interpreter that belong to the user."""
    return (freeze(np.get_printoptions()), freeze(np.geterr()), os.getcwd(), len(warnings.filters), sys.getrecursionlimit(),
            tuple(sorted(os.environ.items())))


def session_keep(odd):
    """A function that brings the settings back, for the next case to start from the same ones."""
    po, er, wd, fl, rl, env = np.get_printoptions(), np.geterr(), os.getcwd(), list(warnings.filters), sys.getrecursionlimit(), dict(os.environ)

    # settings that nobody has by default
    np.set_printoptions(precision=5, suppress=True)
    np.seterr(**({"divide": "warn", "invalid": "warn", "over": "ignore", "under": "ignore"} if odd else
                 {"divide": "ignore", "invalid": "ignore", "over": "warn", "under": "ignore"}))

    def back():
        np.set_printoptions(**{k: v for k, v in po.items() if k != "legacy" or v})
        np.seterr(**er)
        os.chdir(wd)
        warnings.filters[:] = fl
        sys.setrecursionlimit(rl)
        if dict(os.environ) != env:
            os.environ.clear()
            os.environ.update(env)

    return back


def constants_now():
    return freeze({k: getattr(wulfric.constants, k) for k in sorted(dir(wulfric.constants)) if k.isupper()})


CONSTANTS = constants_now()


@st.composite
def specs(draw):
    s = {"cases": [draw(C.case_specs()) for _ in range(draw(st.integers(1, 2)))]}
    s["ops"] = draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(CALL_NAMES)).map(list), min_size=3, max_size=9))
    s["atom"] = draw(st.integers(0, 3))
    s["R"] = draw(st.lists(st.integers(-3, 3), min_size=3, max_size=3))
    s["rform"] = draw(st.sampled_from(["tuple", "list", "array", "int_array"]))
    s["tr"] = draw(st.integers(0, 1))
    return s


def make(s):
    out = []
    for cs in s["cases"]:
        c = C.make_case(cs)
        if c is None:
            return None
        if len(c.cr.types) > 60:
            return None
        e = Env()
        e.cell, e.atoms = c.cell, c.atoms
        e.atom = s["atom"] % len(c.cr.types)
        e.R = vec_form(s["R"], s["rform"])
        e.tr = bool(s["tr"])
        lab = C.labels("species_names", cs["dress"]["map"], c.cr.types)
        e.with_species = {"positions": copy.deepcopy(c.atoms["positions"]), **copy.deepcopy(lab)}
        e.named = {"names": [f"{x}{i}" for i, x in enumerate(lab["names"])]} if s["atom"] % 2 else {"names": list(lab["names"])}
        e.data = None
        out.append(e)
    return out


def check(envs, s):
    back = session_keep(len(s["ops"]) % 2)
    try:
        return check_calls(envs, s)
    finally:
        back()


def own(e):
    return freeze([e.cell, e.atoms["positions"], e.R, e.data])


def check_calls(envs, s):
    state = session_state()
    for e in envs:
        e.data = wulfric.get_spglib_data(copy.deepcopy(e.cell), copy.deepcopy(e.atoms))
    pristine, envs = envs, [clone(x) for x in envs]
    before = [freeze(vars(e)) for e in envs]
    mine = [own(e) for e in envs]
    reverse = in_fresh_session(lambda: reversed_calls(pristine, s["ops"]))
    first, values = {}, 0
    for k, (i, name) in enumerate(s["ops"] + s["ops"]):
        i %= len(envs)
        e = envs[i]
        r, err = outcome(CALLS[name], e)
        fr = freeze(r) if err is None else err
        for j, en in enumerate(envs):
            if freeze(vars(en)) != before[j]:
                changed = [a for a in sorted(vars(en)) if not same_attr(before[j], en, a)]
                fail(f"{name} of crystal {i} changed its arguments (of crystal {j}): {changed}")
        if (i, name) in first:
            if first[i, name] != fr:
                fail(f"{name} of crystal {i}, called again (call {k} of {s['ops']}), returned something else: {short(fr)} instead of {short(first[i, name])}")
        else:
            first[i, name] = fr
            values += err is None
        scribble(r)
        for j, en in enumerate(envs):
            if own(en) != mine[j]:
                fail(f"overwriting the result of {name} of crystal {i} changes the cell, positions or spglib_data (of crystal {j}) it was made from")
        envs = [clone(x) for x in pristine]  # values of other keys are handed on to the result
        if constants_now() != CONSTANTS:
            fail(f"wulfric.constants changed after {name}")
        if session_state() != state:
            fail(f"{name} changed settings of the session: {session_state()} instead of {state}")
    other_order(first, reverse, s["ops"])
    return f"{len(envs)} crystals, {values} calls" if values >= 2 else None


def reversed_calls(pristine, ops, calls=CALLS):
    out = {}
    for i, name in reversed(ops):
        i %= len(pristine)
        r, err = outcome(calls[name], clone(pristine[i]))
        out.setdefault((i, name), freeze(r) if err is None else err)
    return out


def other_order(first, reverse, ops):
    """Every call gave what it gives when the calls are made in the opposite order in another session."""
    for k in first:
        if reverse is not None and first[k] != reverse[k]:
            fail(f"{k[1]} returned {short(first[k])} after the calls before it in {ops}, "
                 f"and {short(reverse[k])} after those behind it")


def same_attr(frozen_vars, en, a):
    for k, v in frozen_vars[2]:
        if k == freeze(a):
            return v == freeze(getattr(en, a))
    return False


def short(x):
    return str(x)[:200]


# -- a session with another order of sets ---------------------------------------------------
def answers(s):
    """Frozen answers to the calls of a history, each made on objects of its own."""
    out = []
    if "cases" in s:
        envs = make(s)
        for e in envs:
            e.data = wulfric.get_spglib_data(copy.deepcopy(e.cell), copy.deepcopy(e.atoms))
        calls, ops = CALLS, s["ops"]
    else:
        envs, calls, ops = with_kpoints(make_numbers(s)), NUM, [[0, name] for name in s["ops"]]
    for i, name in ops:
        r, err = outcome(calls[name], clone(envs[i % len(envs)]))
        out.append(freeze(r) if err is None else err)
    return out


def alike(a, b):
    """Equal, numbers up to rounding."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b) == 4 and a[0] == b[0] == "array" and a[1:3] == b[1:3] and a[1].startswith(("float", "complex")):
            x, y = np.frombuffer(a[3], dtype=a[1]), np.frombuffer(b[3], dtype=a[1])
            return bool(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True))
        if len(a) == len(b) == 2 and a[0] == b[0] == "float":
            return bool(np.isclose(float(a[1]), float(b[1]), rtol=1e-9, atol=1e-9, equal_nan=True))
        if len(a) == len(b) == 3 and a[0] == b[0] == "scalar" and a[1] == b[1] == "float64":
            return alike(("array", "float64", (), a[2]), ("array", "float64", (), b[2]))
        return len(a) == len(b) and all(alike(i, j) for i, j in zip(a, b))
    return a == b


@st.composite
def sets_specs(draw):
    s = draw(specs()) if draw(st.integers(0, 3)) else draw(number_specs())
    s["hash_seed"] = draw(st.integers(1, 2))
    return s


def make_sets(s):
    return make(s) if "cases" in s else make_numbers(s)


def check_sets(envs, s):
    here = answers(s)
    there = other.ask("props.W22", "answers", s, s["hash_seed"])
    for op, a, b in zip(s["ops"], here, there):
        if not alike(a, b):
            name = op if isinstance(op, str) else op[1]
            fail(f"{name} returned {short(b)} in a session with PYTHONHASHSEED={s['hash_seed']} instead of {short(a)}")
    return "crystals" if "cases" in s else "cells"


# -- cells and vectors ----------------------------------------------------------------------
NUM = {
    "reciprocal": lambda e: wulfric.cell.get_reciprocal(e.cell),
    "params": lambda e: wulfric.cell.get_params(e.cell),
    "products": lambda e: wulfric.cell.get_scalar_products(e.cell),
    "niggli_coarse": lambda e: wulfric.cell.get_niggli(e.cell, 1e-2),
    "niggli_wulfric_coarse": lambda e: wulfric.cell.get_niggli(e.cell, 1e-2, implementation="wulfric"),
    "niggli_limit": lambda e: wulfric.cell.get_niggli(e.cell, implementation="wulfric", max_iterations=1),
    "niggli_spglib": lambda e: wulfric.cell.get_niggli(e.cell),
    "niggli_wulfric": lambda e: wulfric.cell.get_niggli(e.cell, implementation="wulfric"),
    "transformation": lambda e: wulfric.cell.get_transformation_matrix(e.cell, e.other),
    "lattice_points": lambda e: wulfric.cell.get_lattice_points(e.cell, range=e.range, relative=e.flag, flat=e.flag2),
    "wigner_seitz": lambda e: wulfric.cell.get_wigner_seitz_cell(e.cell),
    "brillouin_zone": lambda e: wulfric.cell.get_brillouin_zone(e.cell),
    "volume": lambda e: wulfric.geometry.get_volume(e.cell),
    "volume3": lambda e: wulfric.geometry.get_volume(*e.rows),
    "angle": lambda e: wulfric.geometry.get_angle(e.rows[0], e.rows[1], radians=e.flag),
    "spherical": lambda e: wulfric.geometry.get_spherical(e.rows[0], e.flag, e.rows[1], e.rows[2]),
    "angle_deg": lambda e: wulfric.geometry.get_angle(e.rows[0], e.rows[1]),
    "angle_rad": lambda e: wulfric.geometry.get_angle(e.rows[0], e.rows[1], radians=True),
    "angle_other": lambda e: wulfric.geometry.get_angle(e.rows[1], e.rows[2]),
    "spherical_rad": lambda e: wulfric.geometry.get_spherical(e.rows[0], False),
    "lattice_points_rel": lambda e: wulfric.cell.get_lattice_points(e.cell, relative=True),
    "lattice_points_abs": lambda e: wulfric.cell.get_lattice_points(e.cell),
    "lattice_points_grid": lambda e: wulfric.cell.get_lattice_points(e.cell, flat=False),
    "kp_points_rel": lambda e: e.kp.points(relative=True),
    "kp_points_abs": lambda e: e.kp.points(),
    "kp_flat_rel": lambda e: e.kp.flat_points(relative=True),
    "kp_flat_abs": lambda e: e.kp.flat_points(),
    "kp_ticks_rel": lambda e: e.kp.ticks(relative=True),
    "kp_ticks_abs": lambda e: e.kp.ticks(),
    "kp_table3": lambda e: e.kp.hs_table(3),
    "species_quiet": lambda e: wulfric.crystal.get_atom_species(e.word),
    "species_raise": lambda e: wulfric.crystal.get_atom_species(e.word, raise_on_fail=True),
    "species_list": lambda e: wulfric.crystal.get_atoms_species({"names": [e.word, "Cr1"]}),
    "path_list_word": lambda e: wulfric.kpoints.get_path_as_list(f"{e.word}-X|X-{e.word}"),
    "volume_params": lambda e: wulfric.geometry.get_volume(*e.params),
    "check_tolerance": lambda e: wulfric.geometry.parallelepiped_check(*e.params, angle_tolerance=50.0),
    "compare_eps": lambda e: wulfric.compare_with_tolerance(e.cellv[0], "<", e.cellv[1], eps=0.5),
    "example_hpkot_inversion": lambda e: wulfric.crystal.hpkot_get_example(e.ex_h, with_inversion=True),
    "tri": lambda e: wulfric.cell.SC_TRI(*e.params),
    "tri_reciprocal": lambda e: wulfric.cell.SC_TRI(*e.params, input_reciprocal=True),
    "spherical_default": lambda e: wulfric.geometry.get_spherical(e.rows[0]),
    "check": lambda e: wulfric.geometry.parallelepiped_check(*e.params),
    "from_params": lambda e: wulfric.cell.from_params(*e.params),
    "compare": lambda e: wulfric.compare_with_tolerance(e.cellv[0], "<", e.cellv[1]),
    "lepage": lambda e: wulfric.lepage(e.cell),
    "path_list": lambda e: wulfric.kpoints.get_path_as_list("G-X-Y|Z-G"),
    "path_string": lambda e: wulfric.kpoints.get_path_as_string(e.path),
    "kpoints": lambda e: wulfric.Kpoints(e.cell, coordinates=e.coords, names=e.knames, labels=e.klabels, path=e.path, n=3),
    "kp_points": lambda e: e.kp.points(relative=e.flag),
    "kp_flat": lambda e: e.kp.flat_points(relative=e.flag),
    "kp_ticks": lambda e: e.kp.ticks(relative=e.flag),
    "kp_copy": lambda e: e.kp.copy(),
    "kp_labels": lambda e: e.kp.labels,
    "kp_table": lambda e: e.kp.hs_table(),
    "example_hpkot": lambda e: wulfric.crystal.hpkot_get_example(e.ex_h),
    "example_sc": lambda e: wulfric.cell.sc_get_example(e.ex_s),
}
SLOW = ["wigner_seitz", "brillouin_zone"]
NUM_NAMES = sorted(set(NUM) - set(SLOW))


@st.composite
def number_specs(draw, names=tuple(NUM_NAMES), n=12):
    return {
        "cell": draw(cell_specs(max_ops=2, scales=(1.0, 1.0, 0.1, 30.0))), "form": draw(st.sampled_from(["array", "list", "tuple", "list_of_arrays", "fortran", "readonly"])),
        "vform": draw(st.sampled_from(["array", "list", "tuple"])), "flags": [draw(st.integers(0, 1)) for _ in range(3)],
        "range": [draw(st.integers(0, 2)) for _ in range(3)],
        "pathform": draw(st.integers(0, 1)), "extra": draw(st.integers(0, 1)),
        "ops": draw(st.lists(st.sampled_from(names), min_size=min(3, n), max_size=n)),
        "ex": draw(st.integers(0, 99)), "word": draw(st.integers(0, 10**8)),
    }


def make_numbers(s):
    c = cell_of(s["cell"])
    if c is None:
        return None
    e = Env()
    e.cell = as_form(c, s["form"])
    e.other = as_form(c[[1, 2, 0]], s["form"])
    e.rows = [vec_form(r, s["vform"]) for r in c]
    e.params = [3.0, 4.0, 5.0, 80.0, 95.0, 100.0]
    e.cellv = [as_form(c, s["form"] if s["form"] in ("array", "fortran", "readonly") else "array"), np.array(c).T.copy()]
    e.flag, e.flag2 = bool(s["flags"][0]), bool(s["flags"][1])
    e.range = tuple(s["range"])
    e.word = f"?{s.get('word', 0)}"  # contains no element and is not seen again
    e.coords = as_form([[0, 0, 0], [0.5, 0, 0], [0, 0.5, 0.25]], s["form"])
    e.knames = ["G", "X", "Y"]
    e.klabels = ["g", "x", "y"] if s["extra"] else None
    e.path = [["G", "X", "Y"], ["X", "G"]] if s["pathform"] else (["G", "X", "Y"], ["X", "G"])
    ex_h = ["cP1", "cF2", "tI1", "oF1", "oI2", "hP2", "mC2", "aP2", "hR1", "oC1"]
    ex_s = ["CUB", "FCC", "BCT1", "ORCF3", "RHL2", "MCLC5", "TRI1a", "HEX", "ORCI"]
    e.ex_h, e.ex_s = ex_h[s["ex"] % len(ex_h)], ex_s[s["ex"] % len(ex_s)]
    return [e]


def with_kpoints(envs):
    for e in envs:
        e.kp = wulfric.Kpoints(np.array(e.cell, dtype=float), coordinates=[[0, 0, 0], [0.5, 0, 0], [0, 0.5, 0.25]], names=["G", "X", "Y"], path="G-X-Y|X-G", n=4)
    return envs


def check_numbers(envs, s):
    back = session_keep(len(s["ops"]) % 2)
    try:
        return check_number_calls(envs, s)
    finally:
        back()


def check_number_calls(envs, s):
    state = session_state()
    e = with_kpoints(envs)[0]
    pristine, e = e, clone(e)
    before = freeze(vars(e))
    reverse = in_fresh_session(lambda: reversed_calls([pristine], [[0, name] for name in s["ops"]], NUM))
    first, values = {}, 0
    for k, name in enumerate(s["ops"] + s["ops"]):
        r, err = outcome(NUM[name], e)
        fr = freeze(r) if err is None else err
        if freeze(vars(e)) != before:
            fail(f"{name} changed its arguments: {[a for a in sorted(vars(e)) if not same_attr(before, e, a)]} (form {s['form']})")
        if first.setdefault(name, fr) != fr:
            fail(f"{name} called again (call {k} of {s['ops']}) returned something else: {short(fr)} instead of {short(first[name])}")
        values += err is None
        scribble(r)
        if freeze(vars(e)) != before:
            fail(f"overwriting the result of {name} changes {[a for a in sorted(vars(e)) if not same_attr(before, e, a)]} it was made from (form {s['form']})")
        e = clone(pristine)
        if constants_now() != CONSTANTS:
            fail(f"wulfric.constants changed after {name}")
        if session_state() != state:
            fail(f"{name} changed settings of the session: {session_state()} instead of {state}")
    other_order({(0, k): v for k, v in first.items()}, reverse, s["ops"])
    return f"{s['form']}" if values >= 2 or set(s["ops"]) <= set(SLOW) else None


# -- one session, several crystals ----------------------------------------------------------
RELATIONS = ["moved", "moved_all", "types", "relabel", "scaled", "strained", "permuted_cell", "fewer", "reversed", "negated"]


@st.composite
def session_specs(draw):
    s = draw(C.case_specs(crystal=X.crystal_specs(max_super=1)))
    names = [n for n in CALL_NAMES if n not in ("dump", "lepage", "species", "unique")]
    s["relation"] = draw(st.sampled_from(RELATIONS))
    s["in_place"] = draw(st.integers(0, 1))
    s["i"] = draw(st.integers(0, 20))
    s["same_call"] = draw(st.sampled_from([1, 1, 0]))
    s["calls"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))
    s["before"] = draw(st.lists(st.sampled_from(names), min_size=1, max_size=3))
    s["tr"] = draw(st.integers(0, 1))
    return s


def make_session(s):
    c = C.make_case(s)
    if c is None or len(c.cr.types) > 40:
        return None
    e = Env()
    e.cell = np.array(c.cr.cell)
    e.atoms = {"positions": np.array(c.cr.positions), "spglib_types": [int(t) for t in c.cr.types]}
    e.atom, e.R, e.tr, e.data = s["i"] % len(c.cr.types), (1, 0, -1), bool(s["tr"]), None
    return e


def alter(e, s):
    """Another crystal in the same containers."""
    r, n, i = s["relation"], len(e.atoms["spglib_types"]), s["i"]
    pos, types = e.atoms["positions"], e.atoms["spglib_types"]
    if r == "moved":
        pos[i % n, i % 3] += 0.07
    elif r == "moved_all":
        pos += 0.13
        pos[i % n, 0] += 0.02
    elif r == "types":
        types[i % n] += 1
    elif r == "relabel":
        types[:] = [t + 3 for t in types]
    elif r == "scaled":
        e.cell *= 1.5
    elif r == "strained":
        e.cell[i % 3] *= 1.002
    elif r == "permuted_cell":
        e.cell[...] = e.cell[[1, 2, 0]].copy()
    elif r == "reversed":
        pos[...] = pos[::-1].copy()
    elif r == "negated":
        e.cell *= -1
    elif r == "fewer":
        if n < 2:
            types[0] += 1
        else:
            e.atoms["positions"] = pos[:-1].copy()
            types.pop()
            e.atom = 0
    return e


def in_fresh_session(f):
    """Result of f in a copy of this process, which has not seen what comes next here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as g:
                pickle.dump(f(), g)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as g:
        data = g.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else None


def run_calls(e, names):
    out = []
    for name in names:
        e.data = wulfric.get_spglib_data(e.cell, e.atoms) if name.endswith("/1") else None
        r, err = outcome(CALLS[name], e)
        out.append(freeze(r) if err is None else err)
        e.data = None
    return out


def check_session(e, s):
    try:
        b = alter(clone(e), s)
        X.spglib.get_symmetry_dataset((b.cell, b.atoms["positions"], b.atoms["spglib_types"])).number
    except Exception:
        return None
    before = list(s["calls"] if s["same_call"] else s["before"])
    calls = list(s["calls"])
    want = in_fresh_session(lambda: run_calls(clone(b), calls))
    if want is None:
        return None
    a = clone(e)
    run_calls(a, before)
    if s["in_place"]:
        again = alter(a, s)
    else:
        again = clone(b)
    got = run_calls(again, calls)
    for name, g, w in zip(calls, got, want):
        if g != w:
            fail(f"{name} after {before} of another crystal ({s['relation']}{', in the same objects' if s['in_place'] else ''}) "
                 f"returned {short(g)}, in a fresh session {short(w)}")
    return f"{s['relation']}{'-in-place' if s['in_place'] else ''}"


# -- calls made at the same time ------------------------------------------------------------
HERE = os.path.dirname(os.path.abspath(wulfric.__file__))
STUCK = 5.0  # seconds after which a call that waits for the other one (a lock) is left waiting


class Stop(BaseException):
    """Interruption of a call, as Ctrl-C makes it."""


def traced(f, at_line):
    """Result of f with at_line(k, place) called before the k-th line of the package that it runs."""
    k = [0]

    def local(frame, event, arg):
        if event == "line":
            k[0] += 1
            at_line(k[0], (frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno))
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(HERE) else None

    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        return f()
    finally:
        sys.settrace(old)


def answer(call, e):
    r, err = outcome(call, e)
    return freeze(r) if err is None else err


def places(call, e):
    """Moments of a call: the first and the last time it is at each of its lines, a list per function."""
    first, last = {}, {}

    def note(k, place):
        first.setdefault(place, k)
        last[place] = k

    traced(lambda: answer(call, e), note)
    out = {}
    for place in first:
        out.setdefault(place[:2], set()).update({first[place], last[place]})
    return [sorted(v) for v in out.values()]


def pick(moments, x):
    return moments[x % len(moments)][x // len(moments) % len(moments[x % len(moments)])]


def at_once(call_a, a, k, call_b, b, m):
    """Answers of two calls: a runs up to its line k, then b up to its line m (or the end), then a to its end and b to its end."""
    out = {}
    b_stopped, a_done = threading.Event(), threading.Event()

    def pause(i, place):
        if i == m:
            b_stopped.set()
            a_done.wait(STUCK)

    def other_thread():
        try:
            out["b"] = traced(lambda: answer(call_b, b), pause) if m else answer(call_b, b)
        finally:
            b_stopped.set()

    t = threading.Thread(target=other_thread, daemon=True)

    def switch(i, place):
        if i == k:
            t.start()
            b_stopped.wait(STUCK)

    out["a"] = traced(lambda: answer(call_a, a), switch)
    a_done.set()
    if not t.ident:  # the call took another way this time
        t.start()
    t.join(60)
    return out["a"], out.get("b")


@st.composite
def threads_specs(draw):
    s = draw(specs()) if draw(st.integers(0, 2)) else draw(number_specs(n=4))
    s["pair"] = draw(st.lists(st.integers(0, 99), min_size=2, max_size=2))
    s["at"] = draw(st.lists(st.tuples(st.integers(0, 9999), st.integers(0, 9999)).map(list), min_size=4, max_size=16))
    s["how"] = draw(st.sampled_from(["switch"] * 4 + ["interrupt"]))
    s["shared"] = int(draw(st.integers(0, 3)) == 3)
    s["same"] = draw(st.integers(0, 1))
    return s


def check_threads(envs, s):
    if "cases" in s:
        for e in envs:
            e.data = wulfric.get_spglib_data(copy.deepcopy(e.cell), copy.deepcopy(e.atoms))
        calls, ops = CALLS, [(i % len(envs), name) for i, name in s["ops"]]
    else:
        with_kpoints(envs)
        envs = [envs[0], clone(envs[0])]
        envs[1].cell, envs[1].other = envs[0].other, envs[0].cell
        envs[1].rows = list(reversed(envs[0].rows))
        envs[1].params, envs[1].coords = [5.0, 3.0, 4.0, 100.0, 85.0, 75.0], as_form([[0, 0, 0], [0.5, 0.5, 0], [0, 0.5, 0.5]], s["form"])
        with_kpoints(envs)
        calls, ops = NUM, [(n % 2, name) for n, name in enumerate(s["ops"])]
    (i, first), (_, second) = (ops[p % len(ops)] for p in s["pair"])
    if s["same"]:
        second = first
    if len(envs) == 1:
        envs.append(clone(envs[0]))
        envs[1].cell = np.array(envs[0].cell, dtype=float) * 1.25
        envs[1].data = wulfric.get_spglib_data(copy.deepcopy(envs[1].cell), copy.deepcopy(envs[1].atoms))
    j = i if s["shared"] else 1 - i
    f, g = calls[first], calls[second]
    want, want_b = answer(f, clone(envs[i])), answer(g, clone(envs[j]))
    moments, moments_b = places(f, clone(envs[i])), places(g, clone(envs[j]))
    if not moments or not moments_b:
        return None
    for x, y in s["at"]:
        k, m = pick(moments, x), pick(moments_b, y // 2) if y % 2 else 0
        a = clone(envs[i])
        b = a if s["shared"] else clone(envs[j])
        if s["how"] == "interrupt":
            def stop(n, place):
                if n == k:
                    raise Stop()

            try:
                traced(lambda: answer(f, a), stop)
            except Stop:
                pass
            got, got_b = answer(f, clone(envs[i])), answer(g, clone(envs[j]))
            when = f"after a {first} that was interrupted before its {k}-th line"
        else:
            got, got_b = at_once(f, a, k, g, b, m)
            when = f"while {first} (up to line {k}) and {second} (up to line {m or 'last'}) took turns{' on the same objects' if s['shared'] else ''}"
        for name, r, w in ((first, got, want), (second, got_b, want_b)):
            if r != w:
                fail(f"{name} returned {short(r)} {when}, and {short(w)} alone")
        if constants_now() != CONSTANTS:
            fail(f"wulfric.constants changed {when}")
    return f"{s['how']} {'crystals' if 'cases' in s else 'cells'}"


FACETS = [
    Facet("session", session_specs, check_session, make_session, quick=500, thorough=12000, shards=4, min_nontrivial=0.4),
    Facet("threads", threads_specs, check_threads, make_sets, quick=320, thorough=10000, shards=8, min_nontrivial=0.4),
    Facet("sets", sets_specs, check_sets, make_sets, quick=160, thorough=4000, shards=4, min_nontrivial=0.4),
    Facet("crystals", specs, check, make, quick=260, thorough=6000, shards=4, min_nontrivial=0.4),
    Facet("zones", lambda: number_specs(tuple(SLOW), 2), check_numbers, make_numbers, quick=8, thorough=120, shards=2, min_nontrivial=0.3),
    Facet("cells", number_specs, check_numbers, make_numbers, quick=300, thorough=8000, shards=2, min_nontrivial=0.4),
]
