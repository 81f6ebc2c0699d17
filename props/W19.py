"""Deduction of species from names; unique names."""
import re
import warnings

from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail
from props.W17 import ELEMENTS

PROPERTY = "W19"
RULE = (
    "species: names made of an element symbol in any letter case between prefixes and suffixes, of two symbols, and of "
    "arbitrary text; oracle: substring search of its own. unique: 1-14 names with repetitions, digits at the end that "
    "collide with the added indices, both strategies in any case. Non-trivial: a species is contained / names repeat."
)
ASSUMPTIONS = [
    "of several contained two-letter symbols any one is accepted; of several one-letter symbols any one is accepted",
]
TWO = [e for e in ELEMENTS if len(e) == 2]
ONE = [e for e in ELEMENTS if len(e) == 1]


@st.composite
def specs(draw):
    k = draw(st.integers(0, 5))
    pad = st.one_of(st.just(""), st.text(alphabet="0123456789_-+ .#@*()", max_size=5))
    if k <= 2:
        e = draw(st.sampled_from(ELEMENTS))
        c = draw(st.sampled_from(["as", "lower", "upper"]))
        t = draw(pad) + {"as": e, "lower": e.lower(), "upper": e.upper()}[c] + draw(pad)
    elif k == 3:
        t = draw(st.sampled_from(ELEMENTS)) + draw(pad) + draw(st.sampled_from(ELEMENTS)) + draw(pad)
    elif k == 4:
        t = draw(st.text(alphabet="aeglqjxzAEGLQJXZ0123 _", max_size=6))
    else:
        t = draw(st.text(max_size=6))
    return {"name": t, "more": draw(st.lists(st.sampled_from(["Cr1", "fe", "O", "?", "Br-2"]), max_size=3))}


def possible(name):
    low = name.lower()
    two = {e for e in TWO if e.lower() in low}
    if two:
        return two
    one = {e for e in ONE if e.lower() in low}
    return one or {"X"}


def deduce(f, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = f(**kw)
    return r, [x for x in w if issubclass(x.category, RuntimeWarning)]


def check_species(s, _):
    name = s["name"]
    want = possible(name)
    got, w = deduce(wulfric.crystal.get_atom_species, name=name)
    if got not in want:
        fail(f"get_atom_species({name!r}) = {got!r}, contained: {sorted(want)}")
    if bool(w) != (want == {"X"}):
        fail(f"get_atom_species({name!r}): {'a' if w else 'no'} warning")
    try:
        got2 = wulfric.crystal.get_atom_species(name, raise_on_fail=True)
    except wulfric.FailedToDeduceAtomSpecies:
        got2 = "X"
    else:
        if want == {"X"}:
            fail(f"get_atom_species({name!r}, raise_on_fail=True) does not raise")
    if got2 != got:
        fail(f"get_atom_species({name!r}) = {got!r}, with raise_on_fail {got2!r}")
    names = s["more"] + [name] + s["more"][::-1]
    keep = list(names)
    got3, _ = deduce(wulfric.crystal.get_atoms_species, atoms={"names": names})
    if len(got3) != len(names) or names != keep or list(got3) != [deduce(wulfric.crystal.get_atom_species, name=x)[0] for x in names]:
        fail(f"get_atoms_species({keep}) = {got3}")
    failing = any(possible(x) == {"X"} for x in names)
    try:
        wulfric.crystal.get_atoms_species({"names": names}, raise_on_fail=True)
    except wulfric.FailedToDeduceAtomSpecies:
        if not failing:
            fail(f"get_atoms_species({names}, raise_on_fail=True) raises")
    else:
        if failing:
            fail(f"get_atoms_species({names}, raise_on_fail=True) does not raise")
    if want == {"X"}:
        return None
    return f"{len(next(iter(want)))}-letter{'' if len(want) == 1 else '-several'}"


@st.composite
def unique_specs(draw):
    base = st.sampled_from(["Cr", "Cr1", "Br", "S", "Cr11", "Br2", "S1", "A", "A1", "A11", "A2", "", "1", "11", "X", "cr", "CR1", "a1", "Cr ", " Cr"])
    base = st.one_of(base, base, base, st.text(max_size=3))
    return {"names": draw(st.lists(base, min_size=1, max_size=14, unique=draw(st.integers(0, 3)) == 0)),
            "strategy": draw(st.sampled_from(["all", "ALL", "repeated-only", "Repeated-Only", None]))}


def check_unique(s, _):
    names = list(s["names"])
    kw = {} if s["strategy"] is None else {"strategy": s["strategy"]}
    what = f"get_unique_names({s['names']}, {s['strategy']})"
    got = wulfric.crystal.get_unique_names({"names": names}, **kw)
    if len(got) != len(s["names"]):
        fail(f"{what} = {got}")
    repeated = {n for n in s["names"] if s["names"].count(n) > 1}
    if len(set(got)) != len(got):
        fail(f"{what} = {got}: not unique")
    if not repeated:
        if list(got) != s["names"]:
            fail(f"{what} = {got}: unique names are changed")
        return None
    only = s["strategy"] is not None and s["strategy"].lower() == "repeated-only"
    last = {}
    for i, (a, b) in enumerate(zip(s["names"], got)):
        if not b.startswith(a) or not re.fullmatch(r"\d*", b[len(a):]):
            fail(f"{what} = {got}: {a!r} becomes {b!r}")
        if only:
            if (a in repeated) == (a == b):
                fail(f"{what} = {got}: {a!r} becomes {b!r}")
            if a in repeated:
                idx = int(b[len(a):])
                if idx <= last.get(a, 0):
                    fail(f"{what} = {got}: indices of {a!r} do not grow")
                last[a] = idx
        else:
            if not b.startswith(f"{a}{i + 1}"):
                fail(f"{what} = {got}: {a!r} becomes {b!r}, its index is {i + 1}")
    simple = [f"{n}{i + 1}" for i, n in enumerate(s["names"])]
    if not only and len(set(simple)) == len(simple) and list(got) != simple:
        fail(f"{what} = {got}, expected {simple}")
    if only:
        # the documented indices, when they do not collide with anything
        cnt, want = {}, []
        for n in s["names"]:
            cnt[n] = cnt.get(n, 0) + 1
            want.append(f"{n}{cnt[n]}" if n in repeated else n)
        if len(set(want)) == len(want) and not (set(want) - set(s["names"])) & set(s["names"]) and \
                not any(w in s["names"] and n in repeated for n, w in zip(s["names"], want)) and list(got) != want:
            fail(f"{what} = {got}, expected {want}")
    return ("repeated" if only else "all") + f"-{len(repeated)}"


def bad_strategy():
    return st.fixed_dictionaries({"s": st.one_of(st.sampled_from(["", "none", "repeated", "all ", "repeated_only"]), st.text(max_size=5))})


def check_bad(s, _):
    try:
        r = wulfric.crystal.get_unique_names({"names": ["A", "A"]}, strategy=s["s"])
    except ValueError:
        if s["s"].lower() in ("all", "repeated-only"):
            fail(f"strategy {s['s']!r} is refused")
        return "refused"
    if s["s"].lower() not in ("all", "repeated-only"):
        fail(f"strategy {s['s']!r} returned {r}")
    return "accepted"


FACETS = [
    Facet("species", specs, check_species, quick=2000, thorough=60000, shards=4),
    Facet("unique", unique_specs, check_unique, quick=1500, thorough=60000, shards=4),
    Facet("strategy", bad_strategy, check_bad, quick=80, thorough=400),
]
