"""Kpoints against a plain model over histories of operations."""
import copy

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail
from vlib.gens import cell_of, cell_specs, as_form, vec_form

PROPERTY = "W08"
RULE = (
    "A reciprocal cell, 2-6 points, names/labels/path given or default, then 0-14 operations (add in relative or "
    "Cartesian coordinates, remove, set path from string, lists or tuples, refused operations, change n, copy and "
    "continue with the copy), all observables compared with a model after every operation. Non-trivial: at least one "
    "operation changed the object, or the constructor built a path."
)
ASSUMPTIONS = [
    "while the path refers to a removed point no observable of the path is judged (undocumented)",
    "points are unique and their names contain no '-' and '|'",
]
POOL = ["GAMMA", "X", "Y", "Z", "K1", "K2", "K3", "X1_P", "K10", "a b", "Γ"]


def coord():
    eighth = st.integers(-12, 12).map(lambda i: i / 8)
    fine = st.integers(-21000000, 21000000).map(lambda i: i / 10485763)
    third = st.integers(-7, 7).map(lambda i: i / 3)
    near = st.sampled_from([1e-7, -1e-9, 0.5 + 1e-8, 1 - 1e-7, 1e-14, -0.0])
    return st.one_of(*[st.lists(x, min_size=3, max_size=3) for x in (eighth, eighth, fine, st.one_of(third, near, fine))])


@st.composite
def specs(draw):
    n = draw(st.integers(2, 6))
    s = {"cell": draw(cell_specs(max_ops=2, scales=(1.0, 1.0, 6.28, 0.01, 50.0))), "form": draw(st.sampled_from(
        ["array", "list", "tuple"]))}
    s["coords"] = [draw(coord()) for _ in range(n)]
    s["cform"] = draw(st.sampled_from(["array", "list", "tuple", "lists", "ints"]))
    s["names"] = draw(st.one_of(st.none(), st.permutations(POOL).map(lambda p: list(p[:n]))))
    s["labels"] = draw(st.one_of(st.none(), st.just([f"$L_{i}$" for i in range(n)])))
    s["n"] = draw(st.one_of(st.none(), st.integers(0, 9)))
    nm = s["names"] or [f"K{i+1}" for i in range(n)]
    s["path"] = draw(st.one_of(st.none(), paths(nm), paths(nm)))
    s["pform"] = draw(st.sampled_from(["str", "list", "tuple"]))
    ops = st.one_of(
        st.tuples(st.just("add"), st.sampled_from(POOL + ["N1", "N2"]), coord(), st.integers(0, 1),
                  st.sampled_from([None, "lab", "$\\Gamma$"]), st.sampled_from(["array", "list", "tuple"])),
        st.tuples(st.just("remove"), st.sampled_from(POOL + nm + ["nothing"])),
        st.tuples(st.just("path"), paths(nm + POOL[:2]), st.sampled_from(["str", "list", "tuple"])),
        st.tuples(st.just("path"), paths(nm), st.sampled_from(["str", "list", "tuple"])),
        st.tuples(st.just("path1"), st.sampled_from(nm), st.sampled_from(["str", "list"])),
        st.tuples(st.just("n"), st.sampled_from([0, 1, 2, 5, 17, 100])),
        st.tuples(st.just("nbad"), st.sampled_from([1.5, "3", None, 3.0])),
        st.tuples(st.just("copy"), st.integers(0, 1)),
    )
    s["spoil"] = draw(st.integers(0, 1))
    s["ops"] = [list(o) for o in draw(st.lists(ops, max_size=14))]
    return s


def paths(names):
    return st.lists(st.lists(st.sampled_from(names), min_size=2, max_size=5), min_size=1, max_size=4)


def text(p):
    return "|".join("-".join(x) for x in p)


def path_form(p, form):
    if form == "str":
        return text(p)
    return [list(x) for x in p] if form == "list" else tuple(tuple(x) for x in p)


class Model:
    def __init__(self, rcell, names, coords, labels, path, n):
        self.rcell = np.array(rcell, dtype=float)
        self.names = list(names)
        self.coords = {a: np.array(c, dtype=float) for a, c in zip(names, coords)}
        self.labels = dict(zip(names, labels))
        self.path = copy.deepcopy(path)
        self.n = n


def make(s):
    cell = cell_of(s["cell"])
    if cell is None:
        return None
    return cell


def check(cell, s):
    N = len(s["coords"])
    kw = {}
    names = s["names"]
    if names is not None:
        kw["names"] = list(names)
    if s["labels"] is not None:
        kw["labels"] = list(s["labels"])
        labels = s["labels"]
    elif names is not None:
        labels = names
    else:
        labels = [f"K$_{i + 1}$" for i in range(N)]
    if names is None:
        names = [f"K{i + 1}" for i in range(N)]
    path = s["path"]
    if path is not None:
        kw["path"] = path_form(path, s["pform"])
    else:
        path = [list(names)]
    if s["n"] is not None:
        kw["n"] = s["n"]
    if s["cform"] == "lists":
        co = [np.array(x) for x in s["coords"]]
    else:
        co = as_form(s["coords"], s["cform"])
    before = copy.deepcopy((kw, co))
    given = (kw, co)
    rc = as_form(cell, s["form"])
    kp = wulfric.Kpoints(rc, coordinates=co, **kw)
    m = Model(cell, names, s["coords"], labels, path, 100 if s["n"] is None else s["n"])
    compare(kp, m, "the constructor")
    if repr((kw, co)) != repr(before):
        fail("the constructor changes its arguments")
    if s.get("spoil"):
        spoil(rc, co, list(kw.values()))
        before = copy.deepcopy((kw, co))
        compare(kp, m, "changes of the arguments of the constructor by the caller")
    changed = 0
    others = []  # (object, model): frozen copies
    for i, op in enumerate(s["ops"]):
        what = f"operation {i + 1} {op}"
        before_names = list(m.names)
        if op[0] == "add":
            _, name, xyz, rel, lab, form = op
            arg = xyz if rel else (np.array(xyz) @ cell).tolist()
            kw = {} if lab is None else {"label": lab}
            if not rel:
                kw["relative"] = False
            arg = vec_form(arg, form)
            refused = attempt(lambda: kp.add_hs_point(name, arg, **kw))
            if s.get("spoil"):
                spoil(arg)
            if (name in m.names) != refused:
                fail(f"{what}: {'accepted a second time' if not refused else 'refused'}")
            if not refused:
                m.names.append(name)
                m.coords[name] = np.array(xyz, dtype=float)
                m.labels[name] = name if lab is None else lab
                changed += 1
        elif op[0] == "remove":
            kp.remove_hs_point(op[1])
            if op[1] in m.names:
                m.names.remove(op[1])
                del m.coords[op[1]], m.labels[op[1]]
                changed += 1
        elif op[0] in ("path", "path1"):
            if op[0] == "path":
                p, arg = op[1], path_form(op[1], op[2])
                bad = any(x not in m.names for y in p for x in y)
            else:
                p, bad = None, True
                arg = op[1] if op[2] == "str" else [[op[1]]]

            def f():
                kp.path = arg
            keep = copy.deepcopy(arg)
            refused = attempt(f)
            if refused != bad:
                fail(f"{what}: {'refused' if refused else 'accepted'} with points {m.names}")
            if not refused:
                m.path = copy.deepcopy(p)
                changed += 1
            if arg != keep:
                fail(f"{what}: the given path is modified")
            if s.get("spoil"):
                spoil(arg)
        elif op[0] == "n":
            kp.n = op[1]
            m.n = op[1]
            changed += 1
        elif op[0] == "nbad":
            def f():
                kp.n = op[1]
            if not attempt(f):
                fail(f"{what}: accepted")
        elif op[0] == "copy":
            k2, m2 = kp.copy(), copy.deepcopy(m)
            if k2 is kp or type(k2) is not type(kp):
                fail(f"{what}: not a copy")
            if op[1]:
                others.append((kp, m2))
                kp = k2
            else:
                others.append((k2, m2))
            changed += 1
        compare(kp, m, what)
    if repr(given) != repr(before):
        fail("operations on the k-points change the arguments of the constructor")
    if s.get("spoil") and all(x in m.names for y in m.path for x in y):
        # results belong to the caller
        spoil(kp.points(), kp.flat_points(), kp.ticks(), kp.labels, kp.points(relative=True))
        compare(kp, m, "changes of the results by the caller")
    for k2, m2 in others:
        compare(k2, m2, "a copy, after operations on the other one")
    return f"{min(changed, 9)} changes"


def spoil(*objects):
    """The caller goes on to use what it has given or got."""
    for x in objects:
        if isinstance(x, np.ndarray):
            if x.flags.writeable:
                x[...] = 7
        elif isinstance(x, (list, tuple)):
            spoil(*[y for y in x if isinstance(y, (np.ndarray, list, tuple))])
            if isinstance(x, list) and x and not isinstance(x[0], (np.ndarray, list, tuple)):
                x[:] = [7] * len(x)


def attempt(f):
    try:
        f()
    except ValueError:
        return True
    return False


def near(x, y, scale):
    x, y = np.array(x, dtype=float), np.array(y, dtype=float)
    return x.shape == y.shape and bool((np.abs(x - y) <= 1e-9 * scale).all())


def compare(kp, m, what):
    if [str(x) for x in kp.hs_names] != m.names:
        fail(f"after {what}: names {kp.hs_names} instead of {m.names}")
    if set(kp.hs_coordinates) != set(m.names) or set(kp.hs_labels) != set(m.names):
        fail(f"after {what}: coordinates of {sorted(kp.hs_coordinates)}, labels of {sorted(kp.hs_labels)}")
    if not near(kp.rcell, m.rcell, 1e-3 * np.abs(m.rcell).max()):
        fail(f"after {what}: rcell {kp.rcell}")
    for a in m.names:
        if not near(kp.hs_coordinates[a], m.coords[a], 1.0):
            fail(f"after {what}: coordinate of {a} is {kp.hs_coordinates[a]} instead of {m.coords[a]}")
        if kp.hs_labels[a] != m.labels[a]:
            fail(f"after {what}: label of {a} is {kp.hs_labels[a]!r} instead of {m.labels[a]!r}")
    if kp.n != m.n:
        fail(f"after {what}: n is {kp.n} instead of {m.n}")
    if [list(x) for x in kp.path] != m.path or kp.path_string != text(m.path):
        fail(f"after {what}: path {kp.path} ({kp.path_string}) instead of {m.path}")
    table(kp, m, what)
    if any(x not in m.names for y in m.path for x in y):
        return
    labels = [m.labels[m.path[0][0]]]
    for i, sub in enumerate(m.path):
        if i:
            labels[-1] = labels[-1] + "|" + m.labels[sub[0]]
        labels += [m.labels[x] for x in sub[1:]]
    if list(kp.labels) != labels:
        fail(f"after {what}: labels {kp.labels} instead of {labels}")
    for relative in (False, True):
        cell = np.eye(3) if relative else m.rcell
        scale = max(1e-300, np.abs(cell).max() * 20)
        xyz, flat, ticks, x = [], [], [0.0], 0.0
        for sub in m.path:
            for p, q in zip(sub, sub[1:]):
                a, b = m.coords[p] @ cell, m.coords[q] @ cell
                d = float(np.sqrt(((b - a) ** 2).sum()))
                for j in range(m.n + 2):
                    t = j / (m.n + 1)
                    xyz.append(a * (1 - t) + b * t)
                    flat.append(x + d * t)
                x += d
                ticks.append(x)
        kw = {"relative": relative} if relative else {}
        for name, want in (("points", xyz), ("flat_points", flat), ("ticks", ticks)):
            got = getattr(kp, name)(**kw)
            if not near(got, want, scale * max(1, len(ticks))):
                fail(f"after {what}: {name}(relative={relative}) is {np.array(got).tolist()} instead of {np.array(want).tolist()}"[:500])


def table(kp, m, what):
    for d in (8, 3):
        lines = (kp.hs_table() if d == 8 else kp.hs_table(decimals=3)).split("\n")
        if len(lines) != len(m.names) + 1:
            fail(f"after {what}: hs_table has {len(lines)} lines")
        if lines[0].split() != ["Name", "rel_b1", "rel_b2", "rel_b3", "k_x", "k_y", "k_z"]:
            fail(f"after {what}: header of hs_table is {lines[0]!r}")
        for name, line in zip(m.names, lines[1:]):
            if not line.startswith(name):
                fail(f"after {what}: line of {name} in hs_table is {line!r}")
            rest = line[len(name):].split()
            want = np.concatenate([m.coords[name], m.coords[name] @ m.rcell])
            got = [float(x) for x in rest]
            if len(got) != 6 or np.abs(np.array(got) - want).max() > 0.51 * 10.0 ** -d + 1e-9 * np.abs(m.rcell).max():
                fail(f"after {what}: line of {name} in hs_table is {line!r}, coordinates {want}")
            if any(len(x.split(".")[-1]) != d for x in rest):
                fail(f"after {what}: hs_table(decimals={d}) prints {line!r}")


@st.composite
def ctor_specs(draw):
    n = draw(st.integers(2, 4))
    return {"n": n, "names": draw(st.sampled_from([None, 0, 0, -1, 1])), "labels": draw(st.sampled_from([None, 0, 0, -1, 1])),
            "path": draw(st.sampled_from([None, "ok", "unknown", "short"]))}


def check_ctor(s, _):
    n = s["n"]
    kw = {}
    if s["names"] is not None:
        kw["names"] = [f"P{i}" for i in range(n + s["names"])]
    if s["labels"] is not None:
        kw["labels"] = [f"L{i}" for i in range(n + s["labels"])]
    nm = kw.get("names", [f"K{i+1}" for i in range(n)])
    if s["path"] == "ok":
        kw["path"] = f"{nm[0]}-{nm[-1]}"
    elif s["path"] == "unknown":
        kw["path"] = f"{nm[0]}-nowhere"
    elif s["path"] == "short":
        kw["path"] = f"{nm[0]}-{nm[0]}|{nm[-1]}"
    bad = bool(s["names"]) or bool(s["labels"]) or s["path"] in ("unknown", "short")
    try:
        wulfric.Kpoints(np.eye(3), coordinates=[[i, 0, 0.5] for i in range(n)], **kw)
    except ValueError:
        if not bad:
            fail(f"Kpoints({kw}) of {n} points is refused")
        return "refused"
    if bad:
        fail(f"Kpoints({kw}) of {n} points is accepted")
    return "accepted"


@st.composite
def gradual_specs(draw):
    n = draw(st.integers(2, 5))
    return {"cell": draw(cell_specs(max_ops=2, scales=(1.0, 6.28, 0.1))), "n0": draw(st.integers(0, 1)), "how": draw(st.integers(0, 2)),
            "coords": [draw(coord()) for _ in range(n)],
            "order": draw(st.permutations(list(range(n)))), "rel": draw(st.lists(st.booleans(), min_size=n, max_size=n))}


def check_gradual(cell, s):
    """An object that starts with no points, or one, and is filled point by point."""
    n0, co = s["n0"], s["coords"]
    if n0 == 0 and s["how"] == 0:
        kp = wulfric.Kpoints(cell)
    elif n0 == 0 and s["how"] == 1:
        kp = wulfric.Kpoints(cell, coordinates=[], names=[], labels=[])
    else:
        kp = wulfric.Kpoints(cell, coordinates=co[:n0])
    what = f"Kpoints of {n0} points"
    if list(kp.path) != [] or kp.path_string != "" or list(kp.labels) != [] or len(kp.ticks()) != 0:
        fail(f"{what}: path {kp.path} ({kp.path_string!r}), labels {kp.labels}, ticks {kp.ticks()}")
    for rel in (False, True):
        for name, shape in (("points", (0, 3)), ("flat_points", (0,)), ("ticks", (0,))):
            r = getattr(kp, name)(relative=rel)
            if np.shape(r) != shape:
                fail(f"{what}: {name}() is {r!r}")
    if n0 == 0 and (len(kp.hs_table().split("\n")) != 1 or kp.hs_table().split()[0] != "Name"):
        fail(f"{what}: hs_table() is {kp.hs_table()!r}")
    if list(kp.hs_names) != [f"K{i + 1}" for i in range(n0)]:
        fail(f"{what}: names {kp.hs_names}")
    for i in range(n0, len(co)):
        if s["rel"][i]:
            kp.add_hs_point(f"K{i + 1}", co[i], label=f"K$_{i + 1}$")
        else:
            kp.add_hs_point(f"K{i + 1}", np.array(co[i]) @ cell, label=f"K$_{i + 1}$", relative=False)
    path = [[f"K{i + 1}" for i in s["order"]]]
    kp.path = path
    names = [f"K{i + 1}" for i in range(len(co))]
    compare(kp, Model(cell, names, co, [f"K$_{i + 1}$" for i in range(len(co))], path, 100), what + " filled later")
    return f"{n0} points first"


FACETS = [
    Facet("history", specs, check, make, quick=1200, thorough=40000, shards=8),
    Facet("gradual", gradual_specs, check_gradual, make, quick=300, thorough=6000, shards=2),
    Facet("constructor", ctor_specs, check_ctor, quick=150, thorough=400),
]
