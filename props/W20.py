"""POSCAR files: what is written is what is read, in the documented format."""
import io
import os
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail
from vlib.gens import as_form, cell_of, cell_specs

PROPERTY = "W20"
RULE = (
    "round_trip: cells and 1-9 atoms (sometimes up to 360) of up to 10 species (species or names, interleaved, inside and outside the cell), "
    "both modes, 0-20 decimals, comments with line breaks, written to a stream, a name, the default name or a "
    "directory; the text is also read by a parser of our own. load: texts written by our own writer (1 or 3 scale "
    "factors, negative factor, no species line, selective dynamics, modes in any spelling, trailing data, CRLF). "
    "Non-trivial: every case; classes name mode and target."
)
ASSUMPTIONS = [
    "comments are compared without leading and trailing white space; no surrogates",
    "order of atoms within one species is the given one; the order of species is free",
]
EL = ["Cr", "Br", "S", "O", "C", "K", "Fe", "Sn", "Sc", "I"]


def positions():
    c = st.one_of(st.integers(-4000, 4000).map(lambda i: i / 2000), st.sampled_from([0.0, 1.0, 0.5, -0.25, 1 / 3, 2 / 3, -1e-13, 12.75]))
    return st.lists(c, min_size=3, max_size=3)


@st.composite
def specs(draw):
    n = draw(st.integers(1, 9))
    s = {"cell": draw(cell_specs(max_ops=2, scales=(1.0, 1.0, 0.5, 20.0)))}
    s["cform"] = draw(st.sampled_from(["array", "list", "tuple", "ints"]))
    s["pos"] = [draw(positions()) for _ in range(n)]
    s["pform"] = draw(st.sampled_from(["array", "list", "list_of_arrays", "ints"]))
    s["sp"] = [draw(st.sampled_from(EL)) for _ in range(n)]
    times = draw(st.sampled_from([1, 1, 1, 1, 1, 1, 12, 40]))  # many atoms
    s["times"] = times
    s["key"] = draw(st.sampled_from(["species", "names", "both", "names_num"]))
    s["mode"] = draw(st.sampled_from([None, "Direct", "Cartesian", "Cartesian"]))
    s["dec"] = draw(st.sampled_from([None, 0, 1, 3, 6, 8, 10, 12, 14, 16, 20]))
    s["comment"] = draw(st.one_of(st.none(), st.sampled_from(["", "a crystal", "two\nlines", "a\r\nb\n\nc", " x \t", "Γ ü", "\r", "1.0"]),
                                  st.text(alphabet=st.characters(exclude_categories=("Cs",)), max_size=12)))
    s["target"] = draw(st.sampled_from(["stream", "stream", "file", "default", "dir"]))
    return s


def make(s):
    return cell_of(s["cell"])


def own_parse(text):
    """One scale factor, species line, mode as the documentation of VASP says."""
    lines = text.split("\n")
    scale = float(lines[1])
    cell = np.array([[float(x) for x in l.split()] for l in lines[2:5]]) * scale
    sp = lines[5].split()
    num = [int(x) for x in lines[6].split()]
    mode = lines[7].strip()
    rest = [l for l in lines[8:] if l.strip()]
    pos = np.array([[float(x) for x in l.split()] for l in rest])
    if len(sp) != len(num) or len(pos) != sum(num) or pos.shape[1:] != (3,):
        fail(f"malformed file:\n{text}")
    raw = pos
    if mode[0] in "CcKk":
        pos = pos @ np.linalg.inv(cell) * scale
    el = [e for e, k in zip(sp, num) for _ in range(k)]
    return lines[0], cell, el, pos, mode, sp, raw


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = tempfile.mkdtemp(prefix="w20_")
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d)


def check_round(cell, s):
    if s.get("times", 1) > 1:
        k = range(s["times"])
        s = dict(s, pos=[[x + i / 8 for x in p] for i in k for p in s["pos"]],
                 sp=[EL[(EL.index(e) + i * (i % 3)) % len(EL)] for i in k for e in s["sp"]])
    n = len(s["pos"])
    r = np.round(cell, 8 if s["dec"] is None else s["dec"])
    if abs(np.linalg.det(r)) < 0.2 * abs(np.linalg.det(cell)):
        return None  # the requested decimals flatten the cell
    atoms = {"positions": as_form(s["pos"], s["pform"])}
    if s["key"] in ("species", "both"):
        atoms["species"] = list(s["sp"])
    if s["key"] == "names":
        atoms["names"] = list(s["sp"])
    if s["key"] == "names_num":
        atoms["names"] = [f"{e}{i}" for i, e in enumerate(s["sp"])]
    if s["key"] == "both":
        atoms["names"] = [f"?{i}" for i in range(n)]
    kw = {}
    if s["mode"]:
        kw["mode"] = s["mode"]
    if s["dec"] is not None:
        kw["decimals"] = s["dec"]
    if s["comment"] is not None:
        kw["comment"] = s["comment"]
    dec = 8 if s["dec"] is None else s["dec"]
    arg = as_form(cell, s["cform"])
    with Scratch() as d:
        if s["target"] == "stream":
            f = io.StringIO()
            wulfric.io.dump_poscar(arg, atoms, f, **kw)
            text = f.getvalue()
        else:
            name = {"file": os.path.join(d, "some name.vasp"), "default": "POSCAR", "dir": os.path.join(d, "POSCAR")}[s["target"]]
            if s["target"] == "default":
                wulfric.io.dump_poscar(arg, atoms, **kw)
            else:
                wulfric.io.dump_poscar(arg, atoms, name, **kw)
            with open(name, encoding="utf-8", newline="") as g:
                text = g.read()
            if sorted(os.listdir(d)) != [os.path.basename(name)]:
                fail(f"files {os.listdir(d)} are written")
        comment, c, el, p, mode, sp, raw = own_parse(text)
        if s["target"] == "stream":
            c2, a2, com2 = wulfric.io.load_poscar(io.StringIO(text))
        elif s["target"] == "file":
            c2, a2, com2 = wulfric.io.load_poscar(name)
        elif s["target"] == "default":
            c2, a2, com2 = wulfric.io.load_poscar()
        else:
            c2, a2, com2 = wulfric.io.load_poscar(d)
    what = f"mode {s['mode']}, {dec} decimals"
    if mode != (s["mode"] or "Direct"):
        fail(f"{what}: mode line is {mode!r}")
    if s["comment"] is not None:
        want = s["comment"].replace("\n", " ").replace("\r", " ")
        if comment.strip() != want.strip() or com2 != want.strip():
            fail(f"comment {s['comment']!r} is written as {comment!r} and read as {com2!r}")
    elif not comment.strip() or com2 != comment.strip():
        fail(f"default comment {comment!r} is read as {com2!r}")
    if len(set(sp)) != len(sp):
        fail(f"species line {sp} repeats a species")
    if re.search(r"\d\.\d{%d}\d" % max(dec, 2), "\n".join(text.split("\n")[2:])) and dec >= 2:
        fail(f"{what}: more decimals are written:\n{text}")
    for what2, v in (("cell", c), ("positions", raw)):
        if dec <= 12 and np.abs(v - np.round(v, dec)).max() > 4e-16 * max(np.abs(v).max(), 1):
            fail(f"{what}: more decimals are written for {what2}: {v.tolist()}")
    half = 0.5000001 * 10.0 ** -dec
    if np.abs(c - cell).max() > half + 4e-16 * np.abs(cell).max():
        fail(f"{what}: cell {c.tolist()} is written for {cell.tolist()}")
    # the order: grouped by species, given order inside
    want = [i for e in sp for i in range(n) if s["sp"][i] == e]
    if [s["sp"][i] for i in want] != el or len(want) != n:
        fail(f"{what}: species {el} are written for {s['sp']}")
    pos = np.array(s["pos"], dtype=float)[want]
    # compare in the units that are rounded
    if mode == "Direct":
        dev, size = np.abs(raw - pos).max(), np.abs(pos).max()
    else:
        dev, size = np.abs(raw - pos @ cell).max(), 8 * np.abs(pos).max() * np.abs(cell).max()
    if dev > half + 4e-16 * size:
        fail(f"{what}: positions are written with the error {dev}")
    # what wulfric reads is what our parser reads
    if np.shape(c2) != (3, 3) or np.abs(np.array(c2) - c).max() > 1e-12 * np.abs(c).max():
        fail(f"cell {c2} is read from\n{text}")
    if list(a2["names"]) != el:
        fail(f"names {a2['names']} are read from\n{text}")
    q = np.array(a2["positions"], dtype=float)
    if abs(np.linalg.det(c)) > 1e-6 * np.abs(c).max() ** 3 and (q.shape != p.shape or np.abs(q - p).max() > (1e-6 if mode != "Direct" else 4e-16) * np.abs(p).max() + (1e-12 if mode != "Direct" else 0)):
        fail(f"positions {q.tolist()} are read, expected {p.tolist()}")
    return f"{mode}-{s['target']}"


@st.composite
def load_specs(draw):
    n = draw(st.integers(1, 4))
    s = {"cell": draw(cell_specs(max_ops=2, scales=(1.0, 1.0, 0.3, 20.0)))}
    s["sp"] = draw(st.lists(st.sampled_from(EL + ["Cr_pv", "X", "?"]), min_size=n, max_size=n))
    s["num"] = [draw(st.sampled_from([1, 2, 3, 4, 1, 2, 3, 4, 0, 12])) for _ in range(n)]
    if not any(s["num"]):
        s["num"][-1] = 1
    N = sum(s["num"])
    s["pos"] = [draw(positions()) for _ in range(N)]
    s["named"] = draw(st.sampled_from([1, 1, 0]))
    s["scale"] = draw(st.sampled_from(["1.0", "1", "2.5", "0.2", "5.43", "-1", "-40.5", "-0.7", "3", "3v", "1e1", "0.0004",
                                             "2e-7", "52917.7", "-1e-6", "-2.5e7", "+1.5"]))
    s["three"] = [draw(st.sampled_from([1.0, 2.0, 0.5, 3.25, 1e-4, 2000.0])) for _ in range(3)]
    s["selective"] = draw(st.sampled_from(["", "", "Selective dynamics", "s", "selective", "Sel"]))
    s["flags"] = draw(st.integers(0, 1))
    s["mode"] = draw(st.sampled_from(["Direct", "direct", "D", "fractional", "Cartesian", "cartesian", "C", "c", "K", "kartesian"]))
    s["trail"] = draw(st.sampled_from(["", "\n", "\n 0.0 0.0 0.0\n", "Cartesian\n 0.1 0.2 0.3\n"]))
    s["eol"] = draw(st.sampled_from(["\n", "\n", "\r\n"]))
    s["comment"] = draw(st.sampled_from(["x", "", "  two words  ", "1.0 2.0", "Γ"]))
    s["tail"] = draw(st.sampled_from(["", "  Cr", " ! 1"]))
    s["target"] = draw(st.sampled_from(["stream", "file"]))
    s["wide"] = draw(st.sampled_from([" ", "   ", "\t"]))
    return s


def num(x):
    return repr(float(x))


def check_load(cell, s):
    sep = s["wide"]
    scale = s["scale"]
    three = scale.startswith("3") and scale != "3"
    raw = np.array(cell)
    vec = np.array(s["three"]) if three else None
    lines = [s["comment"], sep.join(num(x) for x in vec) if three else scale]
    lines += [sep + sep.join(num(x) for x in r) for r in raw]
    if three:
        true, factor = raw * vec, vec
    else:
        k = float(scale)
        if k < 0:
            k = (abs(k) / abs(np.linalg.det(raw))) ** (1 / 3)
        true, factor = raw * k, k
    if s["named"]:
        lines.append(sep.join(s["sp"]))
    lines.append(sep.join(str(k) for k in s["num"]))
    if s["selective"]:
        lines.append(s["selective"])
    lines.append(s["mode"])
    pos = np.array(s["pos"])
    cart = s["mode"][0] in "cCkK"
    written = (pos @ true) / factor if cart else pos
    for r in written:
        lines.append(sep.join(num(x) for x in r) + ((sep + "T F T") if s["selective"] and s["flags"] else s["tail"]))
    text = s["eol"].join(lines) + s["eol"] + s["trail"]
    if s["target"] == "stream":
        c, a, com = wulfric.io.load_poscar(io.StringIO(text))
    else:
        with Scratch() as d:
            with open(os.path.join(d, "p"), "w", encoding="utf-8", newline="") as g:
                g.write(text)
            c, a, com = wulfric.io.load_poscar(os.path.join(d, "p"))
    if com != s["comment"].strip():
        fail(f"comment {com!r} is read from\n{text}")
    if np.shape(c) != (3, 3) or np.abs(c - true).max() > 1e-9 * np.abs(true).max():
        fail(f"cell {np.array(c).tolist()} instead of {true.tolist()} is read from\n{text}")
    want = [e for i, k in enumerate(s["num"]) for e in [s["sp"][i] if s["named"] else f"X{i + 1}"] * k]
    if list(a["names"]) != want:
        fail(f"names {a['names']} instead of {want} are read from\n{text}")
    q = np.array(a["positions"], dtype=float)
    if q.shape != pos.shape or np.abs(q - pos).max() > 1e-7:
        fail(f"positions {q.tolist()} instead of {pos.tolist()} are read from\n{text}")
    if wulfric.crystal.validate_atoms(a, raise_errors=False) is not True:
        fail("load_poscar returns invalid atoms")
    return f"{'C' if cart else 'D'}-{'3' if three else ('-' if scale[0] == '-' else '+')}{'-selective' if s['selective'] else ''}"


@st.composite
def bad_specs(draw):
    return {"k": draw(st.sampled_from(["mode", "unknown", "scale2", "scale3neg", "scale3zero", "missing", "missing_default"])),
            "v": draw(st.sampled_from(["direct", "cartesian", "", "D", "Fractional"]))}


def check_bad(s, _):
    cell, atoms = np.eye(3) * 3, {"positions": [[0, 0, 0]], "names": ["Cr"]}
    k = s["k"]
    try:
        with Scratch():
            if k == "mode":
                wulfric.io.dump_poscar(cell, atoms, io.StringIO(), mode=s["v"])
            elif k == "unknown":
                wulfric.io.dump_poscar(cell, {"positions": [[0, 0, 0], [0.5, 0, 0]], "names": ["Cr", "?1"]}, io.StringIO())
            elif k in ("scale2", "scale3neg", "scale3zero"):
                t = "x\n%s\n3 0 0\n0 3 0\n0 0 3\nCr\n1\nDirect\n0 0 0\n" % ({"scale2": "1 2", "scale3neg": "1 -1 1"}.get(k, "1 0.0 1"))
                wulfric.io.load_poscar(io.StringIO(t))
            else:
                try:
                    wulfric.io.load_poscar(*(["no such file"] if k == "missing" else []))
                except FileNotFoundError:
                    return k
    except ValueError:
        if not k.startswith("missing"):
            return k
    fail(f"{k} {s['v']!r} is accepted")


FACETS = [
    Facet("round_trip", specs, check_round, make, quick=1500, thorough=50000, shards=8),
    Facet("load", load_specs, check_load, make, quick=1500, thorough=50000, shards=8),
    Facet("refused", bad_specs, check_bad, quick=60, thorough=200),
]
