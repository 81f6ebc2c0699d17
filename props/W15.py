"""Comparison of numbers with tolerance."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail

PROPERTY = "W15"
RULE = (
    "Pairs x, y with |x-y| a generated multiple of the tolerance over 20 orders of magnitude, with explicit eps, "
    "rtol/atol or defaults. Non-trivial: every pair. All six conditions are decided exactly with rational arithmetic "
    "when |x - y| differs from eps by more than the rounding of the formula; the laws between them are decided for every pair."
)
ASSUMPTIONS = ["pairs with | |x-y| - eps | below 8 units in the last place of max(|x|,|y|,eps) are judged by the laws between the conditions only"]


@st.composite
def specs(draw):
    s = {}
    mant = st.integers(-10**6, 10**6)
    e = draw(st.integers(-8, 8))
    s["y"] = draw(mant) * 10.0 ** (e - 6)
    mode = draw(st.sampled_from(["eps", "eps", "default", "rtol", "atol", "both"]))
    s["mode"] = mode
    s["eps"] = draw(st.sampled_from([0.0, 1e-12, 1e-8, 1e-5, 1e-3, 0.5, 2.0, 100.0]))
    s["rtol"] = draw(st.sampled_from([0.0, 1e-9, 1e-5, 1e-3, 0.5]))
    s["atol"] = draw(st.sampled_from([0.0, 1e-12, 1e-8, 1e-4, 1.0]))
    eps = tolerance(s)
    how = draw(st.sampled_from(["near", "near", "near", "edge", "equal", "far", "neg"]))
    if how == "near":
        s["x"] = s["y"] + eps * draw(st.integers(-300, 300)) / 100
    elif how == "edge":  # up to rounding
        s["x"] = s["y"] + draw(st.sampled_from([-1, 1])) * eps
        if draw(st.booleans()):
            s["x"] = round(s["x"], 6)
    elif how == "equal":
        s["x"] = s["y"]
    elif how == "neg":
        s["x"] = -s["y"]
    else:
        s["x"] = draw(mant) * 10.0 ** (draw(st.integers(-8, 8)) - 6)
    s["num"] = draw(st.sampled_from(["float", "float", "np", "int", "npint", "mixed"]))
    if s["num"] in ("int", "npint"):
        s["x"], s["y"] = float(round(s["x"])), float(round(s["y"]))
    return s


def tolerance(s):
    if s["mode"] == "eps":
        return s["eps"]
    rtol = s["rtol"] if s["mode"] in ("rtol", "both") else 1e-5
    atol = s["atol"] if s["mode"] in ("atol", "both") else 1e-8
    return atol + rtol * abs(s["y"])


def check(s, _):
    x, y = s["x"], s["y"]
    kw = {}
    if s["mode"] == "eps":
        kw["eps"] = s["eps"]
    if s["mode"] in ("rtol", "both"):
        kw["rtol"] = s["rtol"]
    if s["mode"] in ("atol", "both"):
        kw["atol"] = s["atol"]
    eps = tolerance(s)
    margin = abs(abs(Fraction(x) - Fraction(y)) - Fraction(eps))
    same = x == y and eps >= 0
    d = Fraction(x) - Fraction(y)
    close = margin <= 8 * Fraction(math.ulp(max(abs(x), abs(y), eps))) and not same
    lt, gt = d < -Fraction(eps), d > Fraction(eps)
    want = {"<": lt, ">": gt, "<=": not gt, ">=": not lt, "==": not lt and not gt, "!=": lt or gt}
    conv, conv_y = {"float": (float, float), "np": (np.float64, np.float64), "int": (int, int), "npint": (np.int64, np.int64),
                    "mixed": (np.float64, lambda v: int(v) if v == int(v) else v)}[s["num"]]
    got = {c: bool(wulfric.compare_with_tolerance(conv(x), c, conv_y(y), **kw)) for c in want}
    if got != want and not close:
        bad = [c for c in want if got[c] != want[c]]
        fail(f"compare_with_tolerance({x!r}, {bad}, {y!r}, {kw}) = {[got[c] for c in bad]}, formula: {[want[c] for c in bad]}")
    # laws
    if got["<"] + got["=="] + got[">"] != 1 or got["!="] == got["=="] or got["<="] == got[">"] or got[">="] == got["<"]:
        fail(f"the conditions contradict each other: compare_with_tolerance({x!r}, condition, {y!r}, {kw}) is {got}")
    if close:
        return f"{s['mode']}-boundary"
    if s["mode"] == "eps":
        for c, m in (("<", ">"), ("<=", ">="), ("==", "=="), ("!=", "!=")):
            if bool(wulfric.compare_with_tolerance(conv_y(y), m, conv(x), **kw)) != got[c]:
                fail(f"{c} and the mirrored {m} disagree")
    return f"{s['mode']}-{'<' if lt else '>' if gt else '='}"


def bad_specs():
    return st.fixed_dictionaries({
        "c": st.one_of(st.sampled_from(["=", "=>", "=<", "===", "<>", "", " <", "< ", "lt", "eq", "≤"]),
                       st.text(max_size=3)),
        "x": st.integers(-3, 3), "y": st.integers(-3, 3), "eps": st.sampled_from([None, 0.1]),
    })


def check_bad(s, _):
    ok = s["c"] in ("<", ">", "<=", ">=", "==", "!=")
    try:
        r = wulfric.compare_with_tolerance(s["x"], s["c"], s["y"], eps=s["eps"])
    except ValueError:
        if ok:
            fail(f"supported condition {s['c']!r} refused")
        return "refused"
    if not ok:
        fail(f"unsupported condition {s['c']!r} returned {r!r}")
    return "accepted"


def infinite_specs():
    """infinities: the tolerance does not matter (explicit eps, so that it is finite)"""
    return st.fixed_dictionaries({
        "x": st.sampled_from(["inf", "-inf", "0.0", "-3.5", "1e300", "-1e-300"]), "y": st.sampled_from(["inf", "-inf", "0.0", "2.25", "1e300"]),
        "eps": st.sampled_from([0.0, 1e-8, 1.0, 1e5])})


def check_infinite(s, _):
    x, y = float(s["x"]), float(s["y"])
    if x == y or not (math.isinf(x) or math.isinf(y)):
        return None
    want = {"<": x < y, ">": x > y, "<=": x < y, ">=": x > y, "==": False, "!=": True}
    got = {c: bool(wulfric.compare_with_tolerance(x, c, y, eps=s["eps"])) for c in want}
    if got != want:
        fail(f"compare_with_tolerance({x!r}, condition, {y!r}, eps={s['eps']}) is {got}")
    return "infinite"


FACETS = [
    Facet("compare", specs, check, quick=6000, thorough=300000),
    Facet("infinite", infinite_specs, check_infinite, quick=120, thorough=200),
    Facet("unsupported", bad_specs, check_bad, quick=400, thorough=4000),
]
