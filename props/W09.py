"""k-path: string <-> list of lists."""
from hypothesis import strategies as st

import wulfric
from vlib.core import Facet, fail

PROPERTY = "W09"
RULE = (
    "Paths of 1-6 subpaths of 2-7 points, names from the published labels and arbitrary text without '-' and '|' "
    "(including '', unicode, digits); containers list, tuple, generator. Non-trivial: more than one point is involved."
)
ASSUMPTIONS = ["names do not contain '-' and '|', which the format reserves"]

NAMES = ["GAMMA", "X", "X1", "X1_P", "H_2", "SIGMA0", "K10", "G", "gamma", "1", "$\\Gamma$"]


def names():
    return st.one_of(st.sampled_from(NAMES), st.text(alphabet="ABCXYZ012_' .,Γ/", min_size=1, max_size=4),
                     st.text(max_size=4).map(lambda t: t.replace("-", "").replace("|", "")))


@st.composite
def specs(draw):
    return {
        "path": draw(st.lists(st.lists(names(), min_size=2, max_size=7), min_size=1, max_size=6)),
        "form": draw(st.sampled_from(["list", "tuple", "mixed", "gen"])),
    }


def formed(p, form):
    if form == "list":
        return [list(x) for x in p]
    if form == "tuple":
        return tuple(tuple(x) for x in p)
    if form == "mixed":
        return [tuple(x) for x in p]
    return (list(x) for x in p)


def check_round(s, _):
    p = s["path"]
    text = wulfric.kpoints.get_path_as_string(formed(p, s["form"]))
    want = ""
    for i, sub in enumerate(p):
        if i:
            want += "|"
        for j, n in enumerate(sub):
            want += ("-" if j else "") + n
    if text != want:
        fail(f"get_path_as_string({p}) = {text!r}, expected {want!r}")
    back = wulfric.kpoints.get_path_as_list(text)
    if [list(x) for x in back] != p:
        fail(f"{p} -> {text!r} -> {back}")
    if wulfric.kpoints.get_path_as_string(back) != text:
        fail(f"string -> list -> string changes {text!r}")
    return f"{len(p)} subpaths"


@st.composite
def strings(draw):
    """any sequence of names and separators."""
    parts = draw(st.lists(st.tuples(names(), st.sampled_from(["-", "-", "-", "|"])).map(list), min_size=1, max_size=9))
    return {"text": "".join(n + s for n, s in parts[:-1]) + parts[-1][0]}


def check_string(s, _):
    text = s["text"]
    # parser of its own: a state machine over characters
    want, cur, tok = [], [], ""
    for ch in text:
        if ch in "-|":
            cur.append(tok)
            tok = ""
            if ch == "|":
                want.append(cur)
                cur = []
        else:
            tok += ch
    cur.append(tok)
    want.append(cur)
    bad = any(len(x) < 2 for x in want)
    try:
        got = wulfric.kpoints.get_path_as_list(text)
    except ValueError:
        if bad:
            return "refused"
        fail(f"valid path {text!r} is refused")
    if bad:
        fail(f"{text!r} has a subpath of one point, result {got}")
    if [list(x) for x in got] != want:
        fail(f"get_path_as_list({text!r}) = {got}, expected {want}")
    if wulfric.kpoints.get_path_as_string(got) != text:
        fail(f"{text!r} -> {got} -> {wulfric.kpoints.get_path_as_string(got)!r}")
    return f"{len(want)} subpaths"


def bad():
    return st.sampled_from([
        ["list", [["G", "X"]]], ["list", None], ["list", 3], ["list", ["G-X"]], ["list", 1.5], ["list", True],
        ["string", None], ["string", 3], ["string", 1.5], ["string", [1, 2]], ["string", [["G", "X"], 5]],
        ["string", [None]], ["list", {"a": 1}],
    ]).map(lambda x: {"what": x[0], "arg": x[1]})


def check_bad(s, _):
    f = wulfric.kpoints.get_path_as_list if s["what"] == "list" else wulfric.kpoints.get_path_as_string
    try:
        r = f(s["arg"])
    except ValueError:
        return s["what"]
    fail(f"{f.__name__}({s['arg']!r}) returned {r!r} instead of ValueError")


FACETS = [
    Facet("round_trip", specs, check_round, quick=1500, thorough=60000),
    Facet("strings", strings, check_string, quick=1500, thorough=60000),
    Facet("refused", bad, check_bad, quick=60, thorough=200),
]
