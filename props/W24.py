"""Sugared dictionaries behave as the dictionaries they are made from, everywhere."""
import collections
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib.core import Facet, fail
from props import W22

PROPERTY = "W24"
RULE = (
    "histories of 1-14 operations (read, write, delete by key and by attribute, membership, get, pop, update, copy, "
    "deepcopy, pickle, add_sugar, remove_sugar) on a sugared dictionary against a plain dict, with keys that are "
    "identifiers or not and mutable values; the same function calls on crystals given with plain and with sugared "
    "dictionaries; objects that are not dictionaries. Non-trivial: the history writes, or the calls return a value."
)
ASSUMPTIONS = ["keys equal to names of the methods of dict (keys, items, copy, ...) are read by key only"]

KEYS = ["names", "positions", "species", "number", "spglib_types", "a", "x1", "_private", "A_b", "original_cell", "κ"]
METHODS = ["items", "keys", "values", "copy", "update", "pop", "get", "clear"]  # read by key only
NUMBERS = [0, 1, 77]
ODD = ["not an identifier", "1a", "", "class", "with-dash"]


def values():
    return st.one_of(st.none(), st.booleans(), st.integers(-9, 9), st.sampled_from([0.5, "text", ""]),
                     st.lists(st.integers(-3, 3), max_size=3), st.dictionaries(st.sampled_from(["k", "l"]), st.integers(0, 5), max_size=2))


OPS = ["set_key", "set_attr", "get_key", "get_attr", "del_key", "del_attr", "in", "get", "pop", "update", "copy", "deepcopy",
       "pickle", "resugar", "desugar", "mutate", "setdefault", "hasattr", "getattr_default"]


@st.composite
def specs(draw):
    key = st.sampled_from(KEYS * 3 + ODD + METHODS + NUMBERS)
    return {
        "init": draw(st.lists(st.tuples(key, values()).map(list), max_size=5)),
        "kind": draw(st.sampled_from(["dict", "ordered", "sugar", "subclass"])),
        "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), key, values()).map(list), min_size=1, max_size=14)),
    }


class MyDict(dict):
    pass


def same(d, m, what):
    if not isinstance(d, dict) or dict(d) != m or list(d) != list(m) or list(d.items()) != list(m.items()) or len(d) != len(m) or not d == m:
        fail(f"{what}: {d} instead of {m}")


def check_history(x, s):
    m = {}
    for k, v in s["init"]:
        m[k] = copy.deepcopy(v)
    src = {"dict": dict, "ordered": collections.OrderedDict, "sugar": lambda z: wulfric.add_sugar(dict(z)), "subclass": MyDict}[s["kind"]](m)
    d = wulfric.add_sugar(src)
    if type(d) is not wulfric.SyntacticSugar:
        fail(f"add_sugar({src}) is {type(d)}")
    if d is src and s["kind"] != "sugar":
        fail("add_sugar returned the plain dictionary")
    for k in m:
        if d[k] is not src[k]:
            fail(f"add_sugar copied or changed the value of {k!r}")
    same(d, m, "add_sugar")
    keys = list(src)
    for f in (wulfric.add_sugar, wulfric.remove_sugar):
        c = f(src)
        c["brand new"] = 1
        for k in keys[:1]:
            del c[k]
        if list(src) != keys:
            fail(f"a change of the keys of {f.__name__}({s['init']}) changes the given {type(src).__name__}")
    m = copy.deepcopy(m)
    d = wulfric.add_sugar(copy.deepcopy(src))
    wrote = 0
    for n, (op, k, v) in enumerate(s["ops"]):
        what = f"operation {n} ({op} {k!r} {v!r}) of {s['ops']} on {s['init']}"
        v1, v2 = copy.deepcopy(v), copy.deepcopy(v)
        if k in METHODS + NUMBERS:
            op = {"get_attr": "get_key", "hasattr": "in", "getattr_default": "get"}.get(op, op)
            if k in NUMBERS:
                op = {"set_attr": "set_key", "del_attr": "del_key"}.get(op, op)
        if op == "set_key":
            d[k], m[k] = v1, v2
            wrote += 1
        elif op == "set_attr":
            setattr(d, k, v1)
            m[k] = v2
            wrote += 1
        elif op == "get_key":
            try:
                r = d[k]
            except KeyError:
                if k in m:
                    fail(f"{what}: KeyError")
            else:
                if k not in m or r != m[k]:
                    fail(f"{what}: {r!r}")
        elif op in ("get_attr", "hasattr", "getattr_default"):
            if op == "hasattr":
                if hasattr(d, k) != (k in m):
                    fail(f"{what}: hasattr is {hasattr(d, k)}")
                continue
            if op == "getattr_default":
                r = getattr(d, k, "missing!")
                if r != m.get(k, "missing!"):
                    fail(f"{what}: {r!r}")
                continue
            try:
                r = getattr(d, k)
            except AttributeError:
                if k in m:
                    fail(f"{what}: AttributeError")
            else:
                if k not in m or r != m[k] or r is not d[k]:
                    fail(f"{what}: {r!r}")
        elif op == "del_key" or op == "del_attr":
            if k not in m:
                continue
            if op == "del_key":
                del d[k]
            else:
                delattr(d, k)
            del m[k]
            wrote += 1
        elif op == "in":
            if (k in d) != (k in m):
                fail(what)
        elif op == "get":
            if d.get(k, "nope") != m.get(k, "nope"):
                fail(f"{what}: {d.get(k, 'nope')!r}")
        elif op == "pop":
            if d.pop(k, None) != m.pop(k, None):
                fail(what)
            wrote += 1
        elif op == "update":
            d.update({k: v1})
            m.update({k: v2})
            wrote += 1
        elif op == "setdefault":
            if d.setdefault(k, v1) != m.setdefault(k, v2):
                fail(what)
            wrote += 1
        elif op == "copy":
            c = d.copy()
            c["brand new"] = 1
            same(d, m, what)
        elif op == "deepcopy":
            c = copy.deepcopy(d)
            if type(c) is not type(d):
                fail(f"{what}: deepcopy is {type(c)}")
            same(c, m, what)
            for kk in m:
                if isinstance(c[kk], (list, dict)) and c[kk] is d[kk]:
                    fail(f"{what}: deepcopy shares {kk!r}")
            d = c
        elif op == "pickle":
            c = pickle.loads(pickle.dumps(d))
            if type(c) is not type(d):
                fail(f"{what}: unpickled {type(c)}")
            d = c
        elif op == "resugar":
            e = wulfric.add_sugar(d)
            if type(e) is not wulfric.SyntacticSugar:
                fail(f"{what}: {type(e)}")
            same(e, m, what)
            d = e
        elif op == "desugar":
            p = wulfric.remove_sugar(d)
            if type(p) is not dict:
                fail(f"{what}: remove_sugar gives {type(p)}")
            same(p, m, what)
            for kk in m:
                if p[kk] is not d[kk]:
                    fail(f"{what}: remove_sugar copied or changed the value of {kk!r}")
            if k in KEYS:
                try:
                    getattr(p, k)
                except AttributeError:
                    pass
                else:
                    fail(f"{what}: attribute of a plain dictionary")
            d = wulfric.add_sugar(p)
        elif op == "mutate":
            if isinstance(m.get(k), list):
                (d[k] if k in METHODS + NUMBERS else getattr(d, k)).append(7)
                m[k].append(7)
                wrote += 1
            elif isinstance(m.get(k), dict):
                d[k]["new"] = 7
                m[k]["new"] = 7
        same(d, m, what)
    return s["kind"] if wrote or s["init"] else None


# -- same results for plain and sugared dictionaries -----------------------------------------------
@st.composite
def accepted_specs(draw):
    cs = draw(C.case_specs())
    cs["dress"]["sugar"] = 0
    return {"cases": [cs], "ops": [[0, n] for n in draw(st.lists(st.sampled_from([n for n in W22.CALL_NAMES if n != "lepage"]), min_size=2, max_size=6))],
            "atom": draw(st.integers(0, 3)), "R": [0, 1, -1], "rform": "tuple", "tr": draw(st.integers(0, 1))}


def neutral(x):
    """frozen value without the difference between dictionaries with and without sugar"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == "dict":
            return ("dict", neutral(x[2]))
        return tuple(neutral(i) for i in x)
    return x


def check_accepted(envs, s):
    e = envs[0]
    e.data = wulfric.get_spglib_data(copy.deepcopy(e.cell), copy.deepcopy(e.atoms))
    values = 0
    for _, name in s["ops"]:
        plain, sweet = W22.clone(e), W22.clone(e)
        for a in ("atoms", "with_species", "named"):
            setattr(sweet, a, wulfric.add_sugar(getattr(sweet, a)))
        r1, e1 = W22.outcome(W22.CALLS[name], plain)
        r2, e2 = W22.outcome(W22.CALLS[name], sweet)
        if e1 != e2:
            fail(f"{name}: {e1} for a dictionary, {e2} for the same dictionary with sugar")
        if e1 is None and neutral(W22.freeze(r1)) != neutral(W22.freeze(r2)):
            fail(f"{name}: {W22.short(r1)} for a dictionary, {W22.short(r2)} for the same dictionary with sugar")
        values += e1 is None
    return "calls" if values >= 2 else None


# -- refused ---------------------------------------------------------------------------------------
BAD = [None, 1, 2.5, "text", [], [["a", 1]], (), [("a", 1)], {"set"}, b"b"]


def bad_value(i):
    extra = [np.zeros(3), object(), dict, collections.UserDict({"a": 1}), iter([("a", 1)])]
    return (BAD + extra)[i % (len(BAD) + len(extra))]


def check_refused(x, s):
    v = bad_value(s["i"])
    f = wulfric.add_sugar if s["add"] else wulfric.remove_sugar
    try:
        r = f(v)
    except ValueError:
        return "refused"
    fail(f"{f.__name__}({v!r}) returned {r!r}, ValueError is documented")


FACETS = [
    Facet("history", specs, check_history, quick=900, thorough=20000, shards=2, min_nontrivial=0.5),
    Facet("accepted", accepted_specs, check_accepted, W22.make, quick=160, thorough=4000, shards=3, min_nontrivial=0.3),
    Facet("refused", lambda: st.fixed_dictionaries({"i": st.integers(0, 14), "add": st.integers(0, 1)}), check_refused, quick=40, thorough=60, min_nontrivial=0.2),
]
