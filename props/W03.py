"""Properties of atoms are carried into conventional and primitive cells."""
import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib.core import Facet, fail

PROPERTY = "W03"
RULE = (
    "Generated crystals whose atoms carry labels (types, species, names in nine combinations) and further per-atom "
    "keys (an index, spins, tags as a tuple, masses as an array, values of mixed types) that differ between atoms of one kind; then one "
    "to four calls of get_conventional/get_primitive with random conventions, each fed with the result of the "
    "previous. Non-trivial: two kinds of atoms or two atoms of a kind; classes name the labels and number of calls."
)
ASSUMPTIONS = ["two atoms are of one kind iff the generator made them of one kind; the labels are built to say so"]


@st.composite
def chain_specs(draw):
    s = draw(C.case_specs(crystal=X.crystal_specs(max_conv_atoms=200, max_atoms=80)))
    s["dress"]["extra"] = draw(st.integers(0, 4))
    s["steps"] = draw(
        st.lists(st.tuples(st.sampled_from(["conventional", "primitive"]), st.sampled_from(C.CONVENTIONS),
                           st.integers(0, 1)).map(list), min_size=1, max_size=4)
    )
    return s


def equal(a, b):
    if isinstance(b, (str, bool, dict, list, tuple)) or b is None:
        # bool may come back as a scalar of numpy
        return bool(a == b) and (isinstance(a, type(b)) or isinstance(b, bool) and type(a) is np.bool_)
    try:
        return bool(np.all(np.asarray(a) == np.asarray(b))) and np.shape(a) == np.shape(b)
    except Exception:
        return a == b


def describe(what, key):
    return f"{what}, key {key!r}"


def check_chain(c, s):
    given = c.atoms
    last = {}
    for i, k in enumerate(c.kinds):
        last[int(k)] = i
    cell, atoms = c.cell, c.atoms
    for i, (fn, conv, data) in enumerate(s["steps"]):
        kw = {"convention": conv}
        if data:
            kw["spglib_data"] = wulfric.get_spglib_data(cell, atoms)
        f = wulfric.crystal.get_conventional if fn == "conventional" else wulfric.crystal.get_primitive
        own = wulfric.get_spglib_types(atoms)
        type_of = {int(k): own[j] for j, k in enumerate(list(C.kind_of_output(atoms, s["dress"], 0).values())[0])}
        cell, atoms = f(cell, atoms, **kw)
        what = f"call {i + 1}: get_{fn} ({conv})"
        want = set(given) | {"spglib_types"}
        if set(atoms) != want:
            fail(f"{what}: keys {sorted(atoms)}, expected {sorted(want)}")
        n = len(atoms["positions"])
        if np.shape(atoms["positions"]) != (n, 3) or n == 0:
            fail(f"{what}: positions of the shape {np.shape(atoms['positions'])}")
        ks = C.kind_of_output(atoms, s["dress"], n)
        if not ks:
            fail(f"{what}: no labels returned")
        for key in atoms:
            if len(atoms[key]) != n:
                fail(f"{describe(what, key)}: {len(atoms[key])} values for {n} atoms")
        kind = list(ks.values())[0]
        for key, k in ks.items():
            if k != kind:
                fail(f"{describe(what, key)}: disagrees with {list(ks)[0]!r} about the kinds of atoms")
        if -1 in kind:
            fail(f"{what}: unknown label")
        if set(kind) != set(last):
            fail(f"{what}: kinds {sorted(set(kind))} instead of {sorted(last)}")
        for key in given:
            if key == "positions":
                continue
            for j in range(n):
                v = given[key][last[kind[j]]]
                if not equal(atoms[key][j], v):
                    fail(f"{describe(what, key)}: atom {j} of kind {kind[j]} has {atoms[key][j]!r}, the last atom of "
                         f"this kind in the given atoms has {v!r}")
        types = atoms["spglib_types"]
        if not isinstance(types, list):
            fail(f"{what}: spglib_types is {type(types).__name__}, not a list")
        pairs = {}
        for t, k in zip(types, kind):
            if not isinstance(t, int) or t < 1:
                fail(f"{what}: spglib_types holds {t!r} ({type(t).__name__}), not an int >= 1")
            if t != type_of[k]:
                fail(f"{what}: spglib_types {types}; get_spglib_types of the given atoms says {type_of} for the kinds {kind}")
            if pairs.setdefault(t, k) != k:
                fail(f"{what}: one type for two kinds of atoms")
        if len(set(pairs.values())) != len(pairs):
            fail(f"{what}: two types for one kind of atoms")
        if not wulfric.crystal.validate_atoms(atoms, required_keys=["positions", "spglib_types"], raise_errors=True):
            fail(f"{what}: returned atoms are not valid")
        r = X.same_crystal(c.cr.cell, c.cr.positions, c.kinds, cell, atoms["positions"], kind, tol=2e-3)
        if r:
            fail(f"{what}: another crystal: {r}")
    if len(c.kinds) < 2:
        return None
    return f"{s['dress']['how']}-{len(s['steps'])}"


FACETS = [
    Facet("chain", chain_specs, check_chain, C.make_case, quick=2000, thorough=50000, shards=8),
]
