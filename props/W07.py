"""Recommended k-path: the published one, over defined points, extended without time reversal."""
import re

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib import cases as C
from vlib import crystals as X
from vlib import kpoint_tables as K
from vlib import reference as R
from vlib.core import Facet, fail
from props.W06 import specs as point_specs, symbol_of

PROPERTY = "W07"
RULE = (
    "Crystals of all space groups, aimed at every variation of both conventions, in arbitrary descriptions, with and "
    "without time reversal, through get_path_and_points and Kpoints.from_crystal. Classes name the symbol. "
    "Non-trivial: a path was returned and compared."
)
ASSUMPTIONS = ["the published paths are retyped in vlib/kpoint_tables.py; symbol and points themselves are W05 and W06"]

GREEK = {"GAMMA": r"\Gamma", "DELTA": r"\Delta", "SIGMA": r"\Sigma", "LAMBDA": r"\Lambda"}


def plot_name(name):
    """(symbol, subscript, primed) every label stands for."""
    m = re.fullmatch(r"([A-Z]+?)(\d*)(_P)?", name)
    return GREEK.get(m[1], m[1]), m[2], bool(m[3])


def parse_plot_name(text):
    t = text.replace("$", "").replace("{", "").replace("}", "").replace(" ", "")
    m = re.fullmatch(r"(\\[A-Z][a-z]+|[A-Z])(?:_(\d+))?(?:_(\d+))?(\^\\prime|')?(?:_(\d+))?", t)
    if not m:
        return None
    subs = [x for x in (m[2], m[3], m[5]) if x]
    return (m[1], "".join(subs), bool(m[4]))


def split(path):
    return [p.split("-") for p in path.split("|")]


@st.composite
def specs(draw):
    s = draw(point_specs())
    s["tr"] = draw(st.sampled_from([1, 0, 0]))
    s["n"] = draw(st.integers(0, 40))
    s["rel"] = draw(st.integers(0, 1))
    return s


@st.composite
def group_specs(draw):
    s = draw(C.case_specs(crystal=C.group_specs()))
    s["conv"] = draw(st.sampled_from(["HPKOT", "SC"]))
    s["tr"] = draw(st.sampled_from([1, 0, 0, 0, 0]))
    s["rel"] = draw(st.integers(0, 1))
    return s


def check_groups(c, s):
    own = R.own_symmetry(c.cr)
    return None if check_path(c, s) is None else f"{own.number}"


def wanted(s, own, sym):
    path = split(K.PATHS[s["conv"]][sym])
    ext = not s["tr"] and not X.has_inversion(own.number)
    if ext:
        path = path + [[n if n == "GAMMA" else n + "_P" for n in sub] for sub in path]
    return path, ext


def check_path(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    sym = symbol_of(c, s, own, {})
    if sym is None:
        return None
    what = f"{s['conv']} {sym} (space group {own.number}, time reversal {s['tr']})"
    kw = {"convention": c.convention}
    if not s["tr"]:
        kw["with_time_reversal"] = False
    kw.update(C.data_kwargs(c, s, angle_only=True))
    path, pts = wulfric.kpoints.get_path_and_points(c.cell, c.atoms, relative=bool(s["rel"]), **kw)
    if not isinstance(path, str):
        fail(f"{what}: path is {path!r}")
    want, ext = wanted(s, own, sym)
    got = split(path)
    if got != want:
        fail(f"{what}: path {path}, expected {'|'.join('-'.join(p) for p in want)}")
    missing = {n for sub in got for n in sub} - set(pts)
    if missing:
        fail(f"{what}: the path visits undefined points {sorted(missing)}")
    if wulfric.kpoints.get_path_as_list(path) != want:
        fail(f"{what}: get_path_as_list does not read the path")
    scale = max(np.abs(np.array(v)).max() for v in pts.values())
    if not np.abs(pts["GAMMA"]).max() <= 1e-12 * max(scale, 1):
        fail(f"{what}: GAMMA is {pts['GAMMA']}")
    if not s["tr"]:
        # the same without the extension, and opposite points in it
        kw.pop("with_time_reversal")
        path0, pts0 = wulfric.kpoints.get_path_and_points(c.cell, c.atoms, relative=bool(s["rel"]), **kw)
        want0, _ = wanted(dict(s, tr=1), own, sym)
        if split(path0) != want0:
            fail(f"{what}: path with time reversal {path0}")
        for n, v in pts.items():
            if n in pts0:
                if not np.allclose(v, pts0[n], rtol=0, atol=1e-9 * scale):
                    fail(f"{what}: {n} depends on time reversal")
            elif not (ext and n.endswith("_P") and n[:-2] in pts0):
                fail(f"{what}: unexpected point {n}")
            elif not np.allclose(v, -np.array(pts0[n[:-2]]), rtol=0, atol=1e-9 * scale):
                fail(f"{what}: {n} is not opposite to {n[:-2]}")
        alone = {n for n in pts0 if ext and n != "GAMMA" and n + "_P" not in pts}
        if alone:
            fail(f"{what}: points {sorted(alone)} have no opposite ones")
        if set(pts0) - set(pts):
            fail(f"{what}: points {sorted(set(pts0) - set(pts))} are lost without time reversal")
    return f"{sym}{'+' if ext else ''}"


def check_class(c, s):
    own = R.own_symmetry(c.cr)
    if own is None:
        return None
    sym = symbol_of(c, s, own, {})
    if sym is None:
        return None
    what = f"Kpoints.from_crystal: {s['conv']} {sym} (space group {own.number})"
    kw = {"convention": c.convention}
    if not s["tr"]:
        kw["with_time_reversal"] = False
    kw.update(C.data_kwargs(c, s, angle_only=True))
    path, pts = wulfric.kpoints.get_path_and_points(c.cell, c.atoms, **kw)
    if s["n"] % 2:
        kw["n"] = s["n"]
    kp = wulfric.Kpoints.from_crystal(c.cell, c.atoms, **kw)
    rc = R.recip(c.cr.cell)
    if np.abs(np.array(kp.rcell) - rc).max() > 1e-8 * np.abs(rc).max():
        fail(f"{what}: rcell {kp.rcell} is not the reciprocal cell {rc}")
    if kp.n != kw.get("n", 100):
        fail(f"{what}: n = {kp.n}")
    if kp.path != split(path) or split(kp.path_string) != split(path):
        fail(f"{what}: path {kp.path_string} instead of {path}")
    if list(kp.hs_names) != list(dict.fromkeys(kp.hs_names)) or set(kp.hs_names) != set(pts):
        fail(f"{what}: names {kp.hs_names} instead of {list(pts)}")
    if set(kp.hs_coordinates) != set(pts) or set(kp.hs_labels) != set(pts):
        fail(f"{what}: coordinates or labels of {sorted(set(kp.hs_coordinates) ^ set(pts))}")
    scale = max(np.abs(np.array(v)).max() for v in pts.values())
    for n in pts:
        if not np.allclose(kp.hs_coordinates[n], pts[n], rtol=0, atol=1e-9 * max(scale, 1)):
            fail(f"{what}: {n} is {kp.hs_coordinates[n]} instead of {pts[n]}")
        if parse_plot_name(kp.hs_labels[n]) != plot_name(n):
            fail(f"{what}: label of {n} is {kp.hs_labels[n]!r}")
    # geometry of the walk: absolute ticks measured by the reference
    ab = {n: np.array(pts[n]) @ rc for n in pts}
    ticks, labels, x = [0.0], [kp.hs_labels[split(path)[0][0]]], 0.0
    for i, sub in enumerate(split(path)):
        if i:
            labels[-1] += "|" + kp.hs_labels[sub[0]]
        for p, q in zip(sub, sub[1:]):
            x += float(np.linalg.norm(ab[q] - ab[p]))
            ticks.append(x)
            labels.append(kp.hs_labels[q])
    if list(kp.labels) != labels:
        fail(f"{what}: tick labels {kp.labels} instead of {labels}")
    if len(kp.ticks()) != len(ticks) or np.abs(np.array(kp.ticks()) - ticks).max() > 1e-7 * max(x, 1e-300):
        fail(f"{what}: ticks {kp.ticks()} instead of {ticks}")
    return f"{sym}{'' if s['tr'] else '-'}"


@st.composite
def refused_specs(draw):
    s = draw(C.case_specs())
    s["bad"] = draw(st.one_of(
        st.sampled_from(["spglib", "SPGLIB", "hpkot ", "HPKOT1", "Setyawan", "", "S C", "cs", "sc_", "hinuma", "None"]),
        st.text(alphabet="hpkotscHPKOTSC -", max_size=6)))
    return s


def check_refused(c, s):
    if s["bad"].lower() in ("hpkot", "sc"):
        return None
    for f in (wulfric.kpoints.get_path_and_points, wulfric.Kpoints.from_crystal):
        try:
            r = f(c.cell, c.atoms, convention=s["bad"])
        except wulfric.ConventionNotSupported:
            continue
        fail(f"{f.__name__}(convention={s['bad']!r}) returned {r}")
    return "spglib" if s["bad"].lower() == "spglib" else "unknown"


FACETS = [
    Facet("path", specs, check_path, C.make_case, quick=2000, thorough=50000, shards=8),
    Facet("groups", group_specs, check_groups, C.make_case, quick=2800, thorough=40000, shards=8),
    Facet("from_crystal", specs, check_class, C.make_case, quick=800, thorough=20000, shards=8),
    Facet("refused", refused_specs, check_refused, C.make_case, quick=200, thorough=4000, shards=4),
]
