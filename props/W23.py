"""Figures show what was given: positions, labels, legend, subplots and a view that contains everything."""
import itertools
import json
import os
import re
import tempfile
import base64

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import gens
from vlib.core import Facet, fail
from vlib.crystals import reduce_short
from props import W12, W22

PROPERTY = "W23"
RULE = (
    "Sequences of 1-5 plotting calls (points, line, vector, cell, lattice, atoms, k-points, k-path, and Wigner-Seitz cell "
    "and Brillouin zone in their own facet) in figures of 1-2 x 1-2 subplots or in a figure of the user, with arbitrary "
    "cells, positions, shifts, colors, scales, legend labels and groups, then show or save. Geometry is read back from the "
    "traces of the figure and compared with the expected points and segments. Non-trivial: every compared case."
)
ASSUMPTIONS = [
    "geometry is read from the traces (marker positions, polylines, cones, texts), not from rendered pixels",
    "k-points are plotted only when the selection is not empty; the content a user's figure had before is not judged",
]

COLORS = ["#000000", "#FF4D67", "#ffffff", "red", "rgb(10, 20, 30)", "#0A0", "rgba(1,2,3,0.5)", "hsl(120,50%,50%)"]
SP = ["Cr", "Br", "S", "Fe", "O"]


def num(k=60, s=0.125):
    return st.one_of(st.integers(-k, k).map(lambda i: i * s), st.sampled_from([0.0, -0.0, 12.5, -30.0, 1e-9, -2e-7]))


def vec():
    return st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(num(), min_size=3, max_size=3))


@st.composite
def op(draw, kinds):
    k = draw(st.sampled_from(kinds))
    o = {"k": k, "row": draw(st.integers(0, 1)), "col": draw(st.integers(0, 1)),
         "color": draw(st.one_of(st.none(), st.sampled_from(COLORS))),
         "legend": draw(st.sampled_from([None, None, "label", "Other label", ""])), "group": draw(st.sampled_from([None, "g1", "g2"])),
         "shift": draw(st.one_of(st.none(), vec())), "form": draw(st.sampled_from(["array", "list", "tuple", "list_of_arrays", "readonly", "fortran"])),
         "vform": draw(st.sampled_from(["array", "list", "tuple"])),
         "scale": draw(st.sampled_from([None, 1, 0.5, 3]))}
    if k in ("points", "atoms"):
        o["pts"] = draw(st.lists(vec(), min_size=1, max_size=6))
        if draw(st.integers(0, 3)) == 0:
            for p in o["pts"]:
                p[draw(st.integers(0, 2))] = 0.0
        o["colors"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(COLORS), min_size=len(o["pts"]), max_size=len(o["pts"]))))
    if k == "atoms":
        o["how"] = draw(st.sampled_from(["names", "species", "both", "none", "types", "extra"]))
        o["sp"] = draw(st.lists(st.integers(0, 4), min_size=len(o["pts"]), max_size=len(o["pts"])))
        o["hover"] = draw(st.sampled_from([None, True, False]))
    if k in ("line", "vector"):
        o["pts"] = [draw(vec()), draw(vec())]
    if k in ("cell", "ws", "bz", "lattice", "atoms"):
        o["cell"] = draw(gens.cell_specs(max_ops=1, k=1, scales=(1.0, 1.0, 0.1, 20.0)))
    if k in ("vector", "cell", "ws", "bz"):
        o["vectors"] = draw(st.sampled_from([None, 1, 0]))
        o["vlabel"] = draw(st.sampled_from([None, "v", "long label", "κ"]))
    if k == "lattice":
        o["range"] = draw(st.one_of(st.none(), st.lists(st.integers(0, 2), min_size=3, max_size=3)))
    if k in ("kpath", "kpoints"):
        o["cell"] = draw(gens.cell_specs(max_ops=1, k=1, scales=(1.0,)))
        n = draw(st.integers(2, 6))
        o["coords"] = draw(st.lists(st.lists(st.integers(-8, 8).map(lambda i: i / 8), min_size=3, max_size=3), min_size=n, max_size=n))
        o["path"] = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=2, max_size=4), min_size=1, max_size=3))
        o["only"] = draw(st.sampled_from([None, True, False]))
    return o


@st.composite
def specs(draw, kinds=("points", "line", "vector", "cell", "lattice", "atoms", "kpath", "kpoints"), n=5):
    return {
        "rows": draw(st.integers(1, 2)), "cols": draw(st.integers(1, 2)),
        "fig": draw(st.sampled_from(["new", "new", "new", "plain", "content", "subplots"])),
        "ops": draw(st.lists(op(kinds), min_size=1, max_size=n)),
        "end": draw(st.sampled_from(["show", "show", "show", "save"])), "axes": draw(st.sampled_from([None, True, False])),
        "pos": draw(st.sampled_from([None, "top", "bottom", "left", "right", "TOP", "Left"])),
        "again": draw(st.integers(0, 3)),
    }


class Op:
    pass


def make(s):
    out = []
    for o in s["ops"]:
        q = Op()
        q.o = o
        if "cell" in o:
            q.cell = gens.cell_of(o["cell"])
            if q.cell is None:
                return None
            if o["k"] in ("ws", "bz"):
                q.ref = voronoi(q.cell if o["k"] == "ws" else 2 * np.pi * np.linalg.inv(q.cell).T)
                if q.ref is None:
                    return None
        out.append(q)
    return out


def voronoi(lat):
    """edges of the Wigner-Seitz cell as segments, by intersection of planes."""
    rel, g = W12.relevant(lat)
    if np.abs(rel @ np.linalg.inv(lat)).max() > 6.1:
        return None
    mid = g / 2
    full = np.vstack([np.zeros(3), g])
    d = np.linalg.norm(mid[:, None, :] - full[None, :, :], axis=2)
    q = d / np.linalg.norm(mid, axis=1)[:, None] - 1
    q[:, 0] = np.inf
    np.fill_diagonal(q[:, 1:], np.inf)
    q = q.min(axis=1)
    if ((np.abs(q) > 1e-9) & (np.abs(q) < 1e-3)).any():
        return None
    idx = np.array(list(itertools.combinations(range(len(rel)), 3)))
    m = rel[idx]
    det = np.abs(np.linalg.det(m))
    ok = det > 1e-6 * np.prod(np.linalg.norm(m, axis=2), axis=1)
    h = (rel**2).sum(axis=1) / 2
    pts = np.linalg.solve(m[ok], h[idx[ok]][..., None])[..., 0]
    slack = pts @ rel.T / (rel**2).sum(axis=1) - 0.5
    pts = pts[slack.max(axis=1) < 1e-9]
    size = np.abs(pts).max()
    vs = []
    for p in pts:
        if not any(np.abs(p - v).max() < 1e-7 * size for v in vs):
            vs.append(p)
    vs = np.array(vs)
    tight = np.abs(vs @ rel.T / (rel**2).sum(axis=1) - 0.5) < 1e-7
    segs = []
    for i in range(len(vs)):
        for j in range(i):
            c = rel[tight[i] & tight[j]]
            if len(c) >= 2 and np.linalg.matrix_rank(c / size, tol=1e-3) >= 2:
                segs.append((vs[i], vs[j]))
    return segs


# -- reading traces --------------------------------------------------------------------------------
def arr(x):
    if x is None:
        return []
    if isinstance(x, dict):
        return np.frombuffer(base64.b64decode(x["bdata"]), dtype=x["dtype"]).tolist()
    return [None if v is None or (isinstance(v, float) and np.isnan(v)) else float(v) for v in x]


def pts_of(t):
    return list(zip(arr(t.x), arr(t.y), arr(t.z)))


def segments(t):
    p, out = pts_of(t), []
    for a, b in zip(p, p[1:]):
        if None not in a and None not in b:
            out.append((np.array(a), np.array(b)))
    return out


def read(traces, what):
    segs, marks, cones, texts = [], [], [], []
    for t in traces:
        if t.visible not in (None, True):
            fail(f"{what}: a trace is not visible")
        if t.type == "scatter3d":
            mode = t.mode or "lines+markers"
            if "lines" in mode:
                segs += segments(t)
            p = pts_of(t)
            if "markers" in mode:
                n = len(p)
                col = t.marker.color
                size = t.marker.size
                for i, x in enumerate(p):
                    c = col if isinstance(col, str) or col is None else col[i]
                    z = size if isinstance(size, (int, float)) or size is None else size[i]
                    marks.append((np.array(x), c, z, listed(t.hovertext, i, n)))
            if "text" in mode:
                for i, x in enumerate(p):
                    texts.append((np.array(x), listed(t.text, i, len(p))))
        elif t.type == "cone":
            for x, d in zip(pts_of(t), zip(arr(t.u), arr(t.v), arr(t.w))):
                cones.append((np.array(x), np.array(d), t.anchor))
        else:
            fail(f"{what}: trace of type {t.type}")
    return segs, marks, cones, texts


def listed(x, i, n):
    if x is None or isinstance(x, str):
        return x
    return x[i]


def match_segments(got, want, tol, what):
    def near(s, w):
        return (np.abs(s[0] - w[0]).max() < tol and np.abs(s[1] - w[1]).max() < tol) or (
            np.abs(s[0] - w[1]).max() < tol and np.abs(s[1] - w[0]).max() < tol)

    for w in want:
        if not any(near(g, w) for g in got):
            fail(f"{what}: the segment {w[0].tolist()} - {w[1].tolist()} is not drawn")
    for g in got:
        if np.abs(g[0] - g[1]).max() < tol:
            continue
        if not any(near(g, w) for w in want):
            fail(f"{what}: a segment {g[0].tolist()} - {g[1].tolist()} does not belong there")


def check_vectors(cones, texts, base, vectors, labels, tol, what):
    """cones at the tips of the vectors, labels beyond the tips"""
    want = [(base, base + v) for v in vectors]
    if len(cones) != len(want):
        fail(f"{what}: {len(cones)} arrow heads for {len(want)} vectors")
    left = list(cones)
    for a, b in want:
        for i, (p, d, anchor) in enumerate(left):
            # an arrow head with the tip at the end of the vector, pointing along it
            if np.abs(p - b).max() > tol or anchor != "tip":
                continue
            n = np.linalg.norm(d) * np.linalg.norm(b - a)
            if n == 0 and np.linalg.norm(b - a) > tol:
                continue
            if n > 0 and d @ (b - a) / n < 1 - 1e-9:
                continue
            left.pop(i)
            break
        else:
            fail(f"{what}: no arrow head at {b.tolist()} pointing from {a.tolist()}")
    if labels is None:
        if texts:
            fail(f"{what}: unexpected labels {[t[1] for t in texts]}")
        return
    if sorted(str(t[1]) for t in texts) != sorted(labels):
        fail(f"{what}: labels {[t[1] for t in texts]} instead of {labels}")
    for lab, (a, b) in zip(labels, want):
        if labels.count(lab) > 1:
            continue
        p = next(t[0] for t in texts if t[1] == lab)
        n2 = (b - a) @ (b - a)
        f = (p - a) @ (b - a) / n2 if n2 > tol**2 else 1
        if np.linalg.norm(p - a - f * (b - a)) > 1e-6 * (np.linalg.norm(b - a) + np.abs(p).max() + tol) or not 0.4 <= f <= 1.6:
            fail(f"{what}: label {lab} is at {p.tolist()}, the vector goes from {a.tolist()} to {b.tolist()}")


# -- one plotting call -------------------------------------------------------------------------------
def kw_of(o, color="color", shift=True, scale=False):
    kw = {}
    if o["color"] is not None:
        kw[color] = o["color"]
    if o["legend"] is not None:
        kw["legend_label"] = o["legend"]
    if o["group"] is not None:
        kw["legend_group"] = o["group"]
    if shift and o["shift"] is not None:
        kw["shift"] = gens.vec_form(o["shift"], o["vform"])
    if scale and o["scale"] is not None:
        kw["scale"] = o["scale"]
    return kw


def run(pe, q, where, what):
    """calls wulfric; returns expected (segments, marks, vectors, texts)"""
    o = q.o
    k = o["k"]
    shift = np.array(o["shift"] if o["shift"] is not None else [0, 0, 0], dtype=float)
    E = {"segs": [], "marks": None, "vec": None, "texts": None}
    if k == "points":
        p = np.array(o["pts"], dtype=float)
        kw = kw_of(o, "colors", False, True)
        if o["colors"] is not None:
            kw["colors"] = o["colors"]
        args = [gens.as_form(p, o["form"])]
        f = pe.plot_points
        col = o["colors"] if o["colors"] is not None else [o["color"] or "#000000"] * len(p)
        E["marks"] = [(p[i], col[i], None) for i in range(len(p))]
    elif k == "line":
        a, b = np.array(o["pts"], dtype=float)
        args, kw, f = [gens.vec_form(a, o["vform"]), gens.vec_form(b, o["form"] if o["form"] != "list_of_arrays" else "list")], kw_of(o, shift=False), pe.plot_line
        E["segs"] = [(a, b)]
    elif k == "vector":
        a, b = np.array(o["pts"], dtype=float)
        args, kw, f = [gens.vec_form(a, o["vform"]), gens.vec_form(b, "list")], kw_of(o, shift=False), pe.plot_vector
        if o["vlabel"] is not None:
            kw["vector_label"] = o["vlabel"]
        E["segs"] = [(a, b)]
        E["vec"] = (a, [b - a], None if o["vlabel"] is None else [o["vlabel"]])
    elif k in ("cell", "ws", "bz"):
        kw = kw_of(o)
        args = [gens.as_form(q.cell, o["form"])]
        f = {"cell": pe.plot_cell, "ws": pe.plot_wigner_seitz_cell, "bz": pe.plot_brillouin_zone}[k]
        v = q.cell if k != "bz" else 2 * np.pi * np.linalg.inv(q.cell).T
        if o["vectors"] is not None:
            kw["plot_vectors"] = bool(o["vectors"])
        if o["vlabel"] is not None:
            kw["vector_label"] = o["vlabel"]
        if k == "cell":
            for i in range(3):
                for n1, n2 in itertools.product((0, 1), repeat=2):
                    b0 = shift + n1 * v[(i + 1) % 3] + n2 * v[(i + 2) % 3]
                    E["segs"].append((b0, b0 + v[i]))
        else:
            E["segs"] = [(shift + a, shift + b) for a, b in q.ref]
        if o["vectors"] is None or o["vectors"]:
            lab = o["vlabel"] or ("b" if k == "bz" else "a")
            E["vec"] = (shift, list(v), [f"{lab}{i + 1}" for i in range(3)])
            E["segs"] += [(shift, shift + x) for x in v]
    elif k == "lattice":
        kw = kw_of(o)
        args, f = [gens.as_form(q.cell, o["form"])], pe.plot_lattice
        r = o["range"] or [1, 1, 1]
        if o["range"] is not None:
            kw["range"] = tuple(o["range"])
        E["marks"] = [(shift + np.array(n) @ q.cell, o["color"] or "#000000", None)
                      for n in itertools.product(*[range(-i, i + 1) for i in r])]
    elif k == "atoms":
        p = np.array(o["pts"], dtype=float)
        kw = kw_of(o, "colors", True, True)
        if o["colors"] is not None:
            kw["colors"] = o["colors"]
        if o["hover"] is not None:
            kw["add_hoverinfo"] = o["hover"]
        sp = [SP[i] for i in o["sp"]]
        names = [f"{x}{i}" for i, x in enumerate(sp)]
        atoms = {"positions": gens.as_form(p, o["form"])}
        if o["how"] in ("names", "both", "types", "extra"):
            atoms["names"] = names
        if o["how"] in ("species", "both"):
            atoms["species"] = sp
        if o["how"] in ("types", "extra"):
            atoms["spglib_types"] = [i + 1 for i in o["sp"]]
        if o["how"] == "extra":
            atoms["charge"] = [f"q{i}" for i in range(len(p))]
        args, f = [gens.as_form(q.cell, o["form"]), atoms], pe.plot_atoms
        if o["colors"] is not None:
            col = o["colors"]
        elif o["color"] is not None:
            col = [o["color"]] * len(p)
        elif o["how"] == "none":
            col = [wulfric.constants.ATOM_COLORS["X"]] * len(p)
        else:
            col = [wulfric.constants.ATOM_COLORS[x] for x in sp]
        xyz = p @ q.cell + shift
        hover = []
        for i in range(len(p)):
            need = []
            if "names" in atoms:
                need.append(f"Name: {names[i]}")
            if "species" in atoms:
                need.append(f"Species: {sp[i]}")
            if "spglib_types" in atoms:
                need.append(f"Spglib type: {o['sp'][i] + 1}")
            if "charge" in atoms:
                need.append(f"charge: q{i}")
            need.append(("relative", p[i]))
            need.append(("absolute", xyz[i]))
            hover.append(need if o["hover"] in (None, True) else None)
        E["marks"] = [(xyz[i], col[i], hover[i]) for i in range(len(p))]
        if "names" in atoms:
            E["texts"] = [(xyz[i], names[i]) for i in range(len(p))]
        E["nohover"] = o["hover"] is False
    else:
        v = q.cell
        names = [f"P{i}" for i in range(len(o["coords"]))]
        kp = wulfric.Kpoints(v.copy(), coordinates=[list(c) for c in o["coords"]], names=list(names), labels=[f"L{i}" for i in range(len(names))],
                             path=[[names[i] for i in sub] for sub in o["path"]], n=3)
        xyz = shift + np.array(o["coords"], dtype=float) @ v
        args, kw = [kp], kw_of(o, scale=k == "kpoints")
        f = pe.plot_kpath if k == "kpath" else pe.plot_kpoints
        if k == "kpath":
            for sub in o["path"]:
                E["segs"] += [(xyz[i], xyz[j]) for i, j in zip(sub, sub[1:])]
        else:
            sel = range(len(names))
            if o["only"] is not None:
                kw["only_from_kpath"] = o["only"]
                if o["only"]:
                    used = {i for sub in o["path"] for i in sub}
                    sel = [i for i in sel if i in used]
            E["marks"] = [(xyz[i], o["color"] or "#000000",
                           [f"Name: {names[i]}", f"Label: L{i}", ("Relative", np.array(o["coords"][i])), ("Absolute", xyz[i])]) for i in sel]
            E["texts"] = [(xyz[i], names[i]) for i in sel]
    kw.update(where)
    before = (W22.freeze(args), W22.freeze(kw))
    r = f(*args, **kw)
    if (W22.freeze(args), W22.freeze(kw)) != before:
        fail(f"{what}: the arguments changed")
    if r is not None:
        fail(f"{what} returned {r}")
    return E


def match_marks(marks, want, tol, what, nohover=False):
    if len(marks) != len(want):
        fail(f"{what}: {len(marks)} markers for {len(want)} points")
    left = list(marks)
    for p, c, hover in want:
        cand = [i for i, m in enumerate(left) if np.abs(m[0] - p).max() <= tol]
        if not cand:
            fail(f"{what}: no marker at {np.asarray(p).tolist()}")
        good = [i for i in cand if str(left[i][1]).lower() == str(c).lower() and good_hover(left[i][3], hover, nohover)]
        if not good:
            fail(f"{what}: marker at {np.asarray(p).tolist()} is {left[cand[0]][1]}, {left[cand[0]][3]!r}; expected {c}, {hover}")
        left.pop(good[0])


def good_hover(text, need, nohover):
    if need is None:
        return True
    if not isinstance(text, str):
        return False
    for n in need:
        if isinstance(n, str):
            if not re.search(re.escape(n) + r"(?![\w.])", text):
                return False
        else:
            # a line naming the coordinates, with the three numbers to the printed precision
            m = [x for x in text.split("<br>") if n[0].lower() in x.lower()]
            if len(m) != 1:
                return False
            v = [float(x) for x in re.findall(r"-?\d+\.\d+", m[0])]
            if len(v) != 3 or np.abs(np.array(v) - n[1]).max() > 6e-5 + 1e-9 * np.abs(n[1]).max():
                return False
    return True


def scene_name(fig, row, col):
    s = fig.get_subplot(row, col)
    return s.plotly_name if hasattr(s, "plotly_name") else s._plotly_name


def check(ops, s):
    import plotly.graph_objects as go
    from plotly.subplots import make_subplots

    rows, cols = s["rows"], s["cols"]
    kw = {"_sphinx_gallery_fix": True}
    own = None
    if s["fig"] == "new":
        kw.update(rows=rows, cols=cols)
    elif s["fig"] == "subplots":
        own = make_subplots(rows=rows, cols=cols, specs=[[{"type": "scene"}] * cols for _ in range(rows)])
    else:
        rows = cols = 1
        own = go.Figure()
        if s["fig"] == "content":
            own.add_scatter3d(x=[0.5], y=[0.25], z=[0.75], name="mine")
    if own is not None:
        kw["fig"] = own
    pe = wulfric.PlotlyEngine(**kw)
    if own is not None and pe.fig is not own:
        fail("PlotlyEngine(fig=...) plots on another figure")
    if s["fig"] == "content" and (len(pe.fig.data) != 1 or pe.fig.data[0].name != "mine"):
        fail("content of the given figure is lost")
    drawn = {}
    for n, q in enumerate(ops):
        o = q.o
        row, col = 1 + o["row"] % rows, 1 + o["col"] % cols
        where = {} if (row, col) == (1, 1) and o["scale"] is None else {"row": row, "col": col}
        what = f"plot {n} ({o['k']}) in ({row}, {col})"
        n0 = len(pe.fig.data)
        E = run(pe, q, where, what)
        traces = pe.fig.data[n0:]
        segs, marks, cones, texts = read(traces, what)
        allpts = [x for g in segs for x in g] + [m[0] for m in marks] + [c[0] for c in cones] + [t[0] for t in texts]
        if not allpts or not np.isfinite(np.array(allpts)).all():
            fail(f"{what}: nothing is drawn or coordinates are not finite")
        size = max(1e-9, np.abs(np.array(allpts)).max())
        if E["segs"]:
            size = max(size, max(np.abs(x).max() for g in E["segs"] for x in g))
        tol = 1e-9 * size if o["k"] not in ("ws", "bz") else 1e-6 * size
        match_segments(segs, E["segs"], tol, what)
        match_marks(marks, E["marks"] or [], tol, what, E.get("nohover", False))
        if E["vec"] is not None:
            check_vectors(cones, texts, E["vec"][0], E["vec"][1], E["vec"][2], tol, what)
        elif cones:
            fail(f"{what}: unexpected arrow heads")
        if E["texts"] is not None:
            got = sorted((str(t[1]), tuple(np.round(t[0] / size, 7) + 0.0)) for t in texts)
            want = sorted((str(t[1]), tuple(np.round(t[0] / size, 7) + 0.0)) for t in E["texts"])
            if [g[0] for g in got] != [w[0] for w in want] or any(
                    not any(x[0] == w[0] and np.abs(np.array(x[1]) - w[1]).max() < 1e-6 for x in got) for w in want):
                fail(f"{what}: texts {got} instead of {want}")
        # scene, legend, sizes
        sc = scene_name(pe.fig, row, col)
        if {t.scene or "scene" for t in traces} != {sc}:
            fail(f"{what} is drawn in {[t.scene for t in traces]} instead of {sc}")
        if len({t.legendgroup for t in traces}) != 1 or (o["group"] is not None and traces[0].legendgroup != o["group"]):
            fail(f"{what}: legend groups {[t.legendgroup for t in traces]}")
        shown = [t.name for t in traces if t.showlegend is not False]
        if shown != ([o["legend"]] if o["legend"] is not None else []):
            fail(f"{what}: legend entries {shown} for legend_label={o['legend']!r}")
        if o["color"] is not None and o["k"] not in ("points", "lattice", "atoms", "kpoints"):
            for t in traces:
                cs = [t.line.color] if t.type == "scatter3d" and "lines" in t.mode else [x[1] for x in t.colorscale] if t.type == "cone" else [t.textfont.color]
                if any(str(x).lower() != o["color"].lower() for x in cs):
                    fail(f"{what}: color {cs} instead of {o['color']}")
        drawn.setdefault((row, col), []).extend(allpts)
        q.sizes = [m[2] for m in marks]
        if o["k"] in ("points", "atoms", "kpoints"):
            if any(z is None or not z > 0 for z in q.sizes):
                fail(f"{what}: sizes of the markers {q.sizes}")
    # larger scale - larger markers, of the same kind
    for k in ("points", "atoms", "kpoints"):
        z = sorted((q.o["scale"] if q.o["scale"] is not None else 1, x) for q in ops if q.o["k"] == k for x in q.sizes)
        for (a, x), (b, y) in zip(z, z[1:]):
            if (a < b and not x < y) or (a == b and x != y):
                fail(f"sizes of the markers {z} of {k} do not follow the scale")
    n0 = len(pe.fig.data)
    kw = {}
    if s["axes"] is not None:
        kw["axes_visible"] = s["axes"]
    if s["pos"] is not None:
        kw["legend_position"] = s["pos"]
    if s["again"] == 0:
        kw["width"] = 432
    if s["end"] == "show":
        f = pe.show(**kw)
        if s["again"] == 1:
            f = pe.show(**kw)
        if f is not pe.fig:
            fail("show() shows another figure")
        layout = json.loads(f.to_json())["layout"]
        data = f.data
        if len(data) != n0:
            fail("show() changes the content")
    else:
        with tempfile.TemporaryDirectory(prefix="wulfric-w23-") as d:
            path = os.path.join(d, "figure of mine.html")
            r = pe.save(path, kwargs_write_html={"include_plotlyjs": False}, **kw)
            if r is not None or os.listdir(d) != ["figure of mine.html"]:
                fail(f"save() left {os.listdir(d)}")
            with open(path, encoding="utf-8") as fh:
                txt = fh.read()
        i = txt.index("Plotly.newPlot(")
        i = txt.index("[", i)
        dec = json.JSONDecoder()
        data, k = dec.raw_decode(txt, i)
        layout, _ = dec.raw_decode(txt, txt.index("{", k))
        if len(data) != n0:
            fail(f"{len(data)} traces are saved out of {n0}")
        want = json.loads(pe.fig.to_json())["data"]
        if data != want:
            fail("saved data differ from the figure")
    if s["again"] == 0 and layout.get("width") != 432:
        fail("arguments for the layout are not passed")
    leg = layout.get("legend", {})
    side = {"top": ("y", 1.0), "bottom": ("y", 0.0), "left": ("x", 0.0), "right": ("x", 1.0)}[(s["pos"] or "top").lower()]
    if leg.get(side[0]) != side[1]:
        fail(f"legend {leg} for the position {s['pos']}")
    for (row, col), pts in drawn.items():
        sc = layout[scene_name(pe.fig, row, col)]
        pts = np.array(pts)
        lens = []
        for i, ax in enumerate(("xaxis", "yaxis", "zaxis")):
            r = sc.get(ax, {}).get("range")
            vis = sc.get(ax, {}).get("visible", True)
            if vis != (s["axes"] in (None, True)):
                fail(f"axes_visible={s['axes']}: {ax} visible: {vis}")
            if r is None:
                lens.append(None)
                continue
            r = [float(r[0]), float(r[1])]
            slack = 1e-9 * (abs(r[0]) + abs(r[1]))
            if not (r[0] <= pts[:, i].min() + slack and pts[:, i].max() - slack <= r[1] and r[0] < r[1]):
                fail(f"{ax} of subplot ({row}, {col}) shows {r}, but the content spans [{pts[:, i].min()}, {pts[:, i].max()}]")
            ext = np.ptp(pts, axis=0)
            if ext[i] > 1e-3 * ext.max() and r[1] - r[0] > 4 * ext.max():
                fail(f"{ax} of subplot ({row}, {col}) shows {r}, much more than the content, which spans at most {ext.max()}")
            lens.append(r[1] - r[0])
        asp = sc.get("aspectratio")
        if None in lens:
            if sc.get("aspectmode") != "data" and any(x is not None for x in lens):
                fail(f"aspect mode {sc.get('aspectmode')} with ranges {lens}")
            continue
        if sc.get("aspectmode") != "data":
            if asp is None:
                fail(f"no aspect ratio: {sc}")
            q = np.array([asp["x"], asp["y"], asp["z"]], dtype=float) / np.array(lens)
            if not np.isfinite(q).all() or q.min() <= 0 or q.max() / q.min() > 1 + 1e-6:
                fail(f"aspect ratio {asp} with axes of lengths {lens}: the picture is distorted")
    return f"{rows}x{cols} {s['end']} {'+'.join(sorted({q.o['k'] for q in ops}))}"


# -- refused -----------------------------------------------------------------------------------------
def refused_specs():
    return st.fixed_dictionaries({"pos": st.sampled_from(["", "center", "topp", "middle", "top ", "1", "north"]), "save": st.integers(0, 1)})


def check_refused(x, s):
    pe = wulfric.PlotlyEngine(_sphinx_gallery_fix=True)
    pe.plot_points([[0, 0, 0], [1, 1, 1]])
    with tempfile.TemporaryDirectory(prefix="wulfric-w23-") as d:
        p = os.path.join(d, "f.html")
        try:
            pe.save(p, legend_position=s["pos"]) if s["save"] else pe.show(legend_position=s["pos"])
        except ValueError:
            if os.path.exists(p):
                fail("a file is written although the position of the legend is refused")
            return "refused"
    fail(f"legend_position={s['pos']!r} is accepted")


FACETS = [
    Facet("figures", specs, check, make, quick=640, thorough=8000, shards=8, min_nontrivial=0.4),
    Facet("zones", lambda: specs(("ws", "bz"), 2), check, make, quick=24, thorough=600, shards=4, min_nontrivial=0.2),
    Facet("refused", refused_specs, check_refused, quick=12, thorough=14, min_nontrivial=0.1),
]
