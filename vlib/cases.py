"""Crystals dressed as the (cell, atoms) arguments of wulfric, for several properties."""
import functools
import math

import numpy as np
from hypothesis import strategies as st, assume

from vlib import crystals as X
from vlib.gens import as_form

SPECIES = ["Cr", "Br", "S", "Fe", "O", "Ni", "I", "H", "C", "U", "As", "Sn", "Co", "Cs", "Xe", "Hg"]
UNKNOWN = ["@1", "_", "#7", "?", "**", "%%", "a", "q1", "x", "j_", "d", "z7", "&", "xx", "-", "="]
HOW = ["types", "species", "names", "names_num", "types_names", "species_names", "all", "unknown_names", "mixed_names"]
CONVENTIONS = ["HPKOT", "SC", "spglib"]
SPELLING = {"HPKOT": ["HPKOT", "hpkot", "Hpkot"], "SC": ["SC", "sc", "Sc"], "spglib": ["spglib", "SPGLIB", "Spglib"]}
HOLOHEDRY = {"aP": 2, "mP": 10, "mC": 12, "oP": 47, "oC": 65, "oI": 71, "oF": 69, "tP": 123, "tI": 139,
             "hP": 191, "hR": 166, "cP": 221, "cI": 229, "cF": 225}

NOTES = [1, "a", None, 2.5, "1", [1, 2], (3, "b"), {"k": 1}, True, "long text", [1], -1, "", [[1.0], "c"], 1 + 2j]


@st.composite
def dressings(draw, extra=True):
    d = {"how": draw(st.sampled_from(HOW))}
    d["map"] = draw(st.permutations(list(range(6)) if draw(st.booleans()) else list(range(16))))[:4]
    d["pform"] = draw(st.sampled_from(["array", "list", "tuple", "list_of_arrays", "readonly", "fortran", "ints", "int_array"]))
    d["cform"] = draw(st.sampled_from(["array", "list", "tuple", "fortran", "readonly", "list_of_arrays", "int_array", "ints"]))
    d["extra"] = draw(st.integers(0, 3)) if extra else 0
    d["order"] = draw(st.integers(0, 1))
    d["sugar"] = draw(st.sampled_from([0, 0, 1]))
    return d


def type_number(mp, t):
    """spglib type of the kind t; mp[0] (no kind has the number 0) chooses how large the numbers are"""
    return {5: 300, 14: 70000, 15: 100000003}.get(mp[0], 3) * mp[t] + 1


def labels(how, mp, types):
    """identity of the atoms as wulfric is documented to see it; names, species, types."""
    types = [int(t) for t in types]
    out = {}
    sp = [SPECIES[mp[t]] for t in types]
    ty = [type_number(mp, t) for t in types]
    if how in ("types", "types_names", "all"):
        out["spglib_types"] = ty
    if how in ("species", "species_names", "all"):
        out["species"] = sp
    if how in ("names", "species_names"):
        out["names"] = list(sp)
    if how in ("names_num", "types_names", "all"):
        cnt = {}
        nm = []
        for s in sp:
            cnt[s] = cnt.get(s, 0) + 1
            nm.append(f"{s}{cnt[s]}")
        out["names"] = nm
    if how == "unknown_names":
        out["names"] = [UNKNOWN[mp[t]] for t in types]
    if how == "mixed_names":
        # some deducible, some not: the name itself identifies the latter
        out["names"] = [UNKNOWN[mp[t]] if mp[t] % 2 else f"{SPECIES[mp[t]]}{i}" for i, t in enumerate(types)]
    return out


def dress(crystal, d):
    """(cell argument, atoms argument)"""
    pos = as_form(crystal.positions, d["pform"])
    lab = labels(d["how"], d["map"], crystal.types)
    atoms = {}
    if d["order"]:
        atoms.update(lab)
        atoms["positions"] = pos
    else:
        atoms["positions"] = pos
        atoms.update(lab)
    n = len(crystal.types)
    if d["extra"] >= 1:
        atoms["index"] = list(range(n))
    if d["extra"] >= 2:
        atoms["spins"] = [[0.5 * i, -1.0 * i, float(crystal.types[i])] for i in range(n)]
    if d["extra"] >= 3:
        atoms["tag"] = tuple(f"t{i}" for i in range(n))
        atoms["mass"] = np.arange(n) * 1.5
    if d["extra"] >= 4:  # values of several types under one key
        atoms["note"] = [NOTES[(i + d["map"][0]) % len(NOTES)] for i in range(n)]
        atoms["flag"] = [i % 2 == 0 if i % 3 else i for i in range(n)]
    if d.get("sugar"):
        import wulfric
        atoms = wulfric.add_sugar(atoms)
    return as_form(crystal.cell, d["cform"]), atoms


def identity(crystal, d):
    """Integer identity of every input atom: two atoms are the same kind iff equal."""
    return np.array([int(t) for t in crystal.types])


# -- crystals ------------------------------------------------------------------------------
@st.composite
def special_lattice(draw, fam, cen):
    """Lattice parameters at or around the borders between variations."""
    a, b, c = draw(X.lengths()), draw(X.lengths()), draw(X.lengths())
    al = be = ga = 90.0
    if fam == "a":
        return draw(X.lattices("a"))
    if fam == "m":
        be = draw(st.sampled_from([60.0, 75.0, 100.0, 120.0, 95.5, 101.3, 110.0]))
        k = draw(st.integers(0, 3))
        if k == 0:
            b = a
        elif k == 1:
            c = a
        elif k == 2:
            b = draw(st.sampled_from([0.4, 0.7, 1.3, 2.2])) * a
    if fam == "o":
        if cen == "F":
            k = draw(st.integers(0, 5))
            if k < 2:
                x, y = sorted([b, c])
                # exact border 1/a^2 = 1/b^2 + 1/c^2
                a = 1 / math.sqrt(1 / b**2 + 1 / c**2)
                if draw(st.integers(0, 1)):
                    a *= draw(st.sampled_from([0.9, 1.1, 0.8]))
        k = draw(st.integers(0, 5))
        if k == 0:
            b = a
        elif k == 1:
            c = b
        elif k == 2:
            c = a
        elif k == 3:
            a, b, c = draw(st.permutations([a, b, c]))
    if fam in ("t", "h"):
        k = draw(st.integers(0, 4))
        if k == 0:
            c = a
        elif k == 1:
            c = a * draw(st.sampled_from([0.3, 0.6, 0.9, 1.1, 1.3, 2.0, 3.0, 1.5 ** 0.5, 6 ** 0.5, 2 ** 0.5]))
    return [round(a, 12), round(b, 12), round(c, 12), al, be, ga]


@st.composite
def lattice_only(draw, btype=None):
    """One atom per primitive cell: the 14 Bravais lattices themselves."""
    b = btype or draw(st.sampled_from(sorted(HOLOHEDRY)))
    sg = HOLOHEDRY[b]
    lat = draw(st.one_of(X.lattices(b[0]), special_lattice(b[0], b[1])))
    spec = {"sg": sg, "robust": 0, "lat": lat, "orbits": [[1, 0.0, 0.0, 0.0]]}
    spec.update(draw(X.disguises()))
    return spec


@st.composite
def any_crystal(draw, special=True):
    k = draw(st.integers(0, 9))
    if k == 0:
        return draw(lattice_only())
    btype = draw(st.sampled_from(sorted(X.SG_BY_BRAVAIS)))
    spec = draw(X.crystal_specs(bravais_type=btype))
    if special and k <= 3:
        spec["lat"] = draw(special_lattice(btype[0], btype[1]))
    return spec


@st.composite
def case_specs(draw, extra=True, crystal=None, with_data=True):
    s = {"crystal": draw(crystal if crystal is not None else any_crystal()), "dress": draw(dressings(extra=extra))}
    if draw(st.integers(0, 7)) == 0:
        s["crystal"]["noise"] = [draw(st.sampled_from([0, 1, 2, 3])), draw(st.sampled_from([7, 7, 8, 9, 10]))]
    s["conv"] = draw(st.sampled_from(CONVENTIONS))
    s["spell"] = draw(st.integers(0, 2))
    s["data"] = draw(st.sampled_from([0, 0, 1, 2])) if with_data else 0
    if s["data"] == 2:
        s["tol"] = draw(st.sampled_from([[1e-6, -1], [1e-4, -1], [1e-3, -1], [1e-5, 1e-3], [1e-5, 0.5], [1e-5, 5.0], [1e-4, 5.0], [1e-3, 1.0]]))
    return s


def data_kwargs(c, s, angle_only=False):
    """spglib_data of the case: none, with the default tolerances or with others that give the same symmetry."""
    import wulfric
    if not s["data"]:
        return {}
    if s["data"] == 2:
        arg = (c.cr.cell, c.cr.positions, [int(t) for t in c.cr.types])
        symprec, angle = s["tol"]
        if angle_only:  # symprec is the tolerance of the borders between variations
            symprec = 1e-5
        one = X.spglib.get_symmetry_dataset(arg, symprec=1e-5)
        two = X.spglib.get_symmetry_dataset(arg, symprec=symprec, angle_tolerance=angle)
        if one is not None and two is not None and one.number == two.number and np.allclose(one.std_lattice, two.std_lattice, rtol=0, atol=1e-6) \
                and X.spglib.find_primitive(arg, symprec=symprec, angle_tolerance=angle) is not None:
            return {"spglib_data": wulfric.get_spglib_data(c.cell, c.atoms, spglib_symprec=symprec, spglib_angle_tolerance=angle)}
    return {"spglib_data": wulfric.get_spglib_data(c.cell, c.atoms)}


class Case:
    pass


def make_case(s):
    cr = X.build(s["crystal"])
    if cr is None:
        return None
    c = Case()
    c.cr = cr
    c.cell, c.atoms = dress(cr, s["dress"])
    c.kinds = identity(cr, s["dress"])
    c.convention = SPELLING[s["conv"]][s["spell"]]
    return c


def tolerance(kw, exact):
    """spglib moves atoms by up to symprec to the places of their symmetry"""
    symprec = kw["spglib_data"].symprec if "spglib_data" in kw else 1e-5
    return exact if symprec <= 1e-5 else 4 * symprec


def kind_of_output(atoms_out, d, n):
    """Integer kind of every returned atom, read from the returned labels."""
    how, mp = d["how"], d["map"]
    inv_sp = {SPECIES[mp[t]]: t for t in range(4)}
    inv_ty = {type_number(mp, t): t for t in range(4)}
    inv_un = {UNKNOWN[mp[t]]: t for t in range(4)}
    res = {}
    if "species" in atoms_out:
        res["species"] = [inv_sp.get(str(x), -1) for x in atoms_out["species"]]
    if how in ("types", "types_names", "all"):
        res["spglib_types"] = [inv_ty.get(int(x), -1) for x in atoms_out["spglib_types"]]
    if "names" in atoms_out:
        out = []
        for x in atoms_out["names"]:
            x = str(x)
            out.append(inv_un[x] if x in inv_un else inv_sp.get(x.rstrip("0123456789"), -1))
        res["names"] = out
    return res


def sg_tag(cr):
    return f"{cr.lattice}{'' if cr.n_cells == 1 else '*'}"


# -- aimed at the variations of the lattices -----------------------------------------------------
AIM = {
    "oI": [46, 46, 46, 46, 74, 72, 71, 44, 23, 24, 45, 73],
    "oF": [42, 43, 69, 70, 22],
    "oC": [20, 21, 35, 36, 37, 63, 64, 65, 66, 67, 68],
    "oA": [38, 39, 40, 41],
    "mC": [5, 8, 9, 12, 15],
    "mP": [3, 4, 6, 7, 10, 11, 13, 14],
    "hR": [146, 148, 155, 160, 161, 166, 167],
    "tI": [79, 80, 82, 87, 88, 97, 98, 107, 108, 109, 110, 119, 120, 121, 122, 139, 140, 141, 142],
    "aP": [1, 2],
    "c": None,
    "h": None,
}


@st.composite
def variant_specs(draw):
    kind = draw(st.sampled_from(["oI", "oF", "oC", "oA", "mC", "mC", "mC", "mP", "hR", "tI", "aP", "aP", "hP", "cP", "cF"]))
    if kind == "aP" and draw(st.booleans()):
        return draw(triclinic_specs())
    sgs = AIM.get(kind) or X.SG_BY_BRAVAIS[kind]
    sg = draw(st.sampled_from(sgs))
    robust = draw(st.integers(0, 1)) == 1
    spec = {"sg": sg, "robust": int(robust)}
    a = draw(st.integers(3000, 7000)) / 1000 * draw(st.sampled_from([1, 1, 1, 1, 1, 8]))
    r1 = draw(st.integers(350, 2600)) / 1000
    r2 = draw(st.integers(350, 2600)) / 1000
    be = draw(st.integers(9100, 11900)) / 100
    b, c = a * r1, a * r2
    al = ga = 90.0
    mode = draw(st.integers(0, 5))
    # relative distance to the border: on it, close to it (further than every margin) or anywhere
    near = draw(st.sampled_from([0, 0, -1, 1, -1, 1])) * 10 ** (-draw(st.integers(20, 46)) / 10)
    if kind == "mC" and mode <= 2:
        sb, cb = math.sin(math.radians(be)), math.cos(math.radians(be))
        if mode == 0:
            b = a * sb * (1 + near)  # k_gamma = 90
        elif mode == 1 and 1 + a * cb / c > 0.05:
            b = a * sb / math.sqrt(1 + a * cb / c) * (1 + near)  # border of the two last variations
    elif kind == "oF" and mode <= 1:
        a = 1 / math.sqrt(1 / b**2 + 1 / c**2) * (1 + near)
        if mode:
            a, b, c = draw(st.permutations([a, b, c]))
    elif kind in ("oI", "oC", "oA") and mode <= 1:
        if kind == "oI" and mode:
            b = a * (1 + near)
        else:
            c = (b if kind == "oA" else a) * (1 + near)
            if kind == "oC":
                b, c = c, b
    elif kind == "tI" and mode <= 1:
        c = a * (1 + near)
    elif kind == "hR" and mode <= 1:
        c = a * math.sqrt(1.5) * (1 + near)
    elif kind == "aP":
        ang = [draw(st.integers(6200, 11800)) / 100 for _ in range(3)]
        if mode <= 2:
            ang[draw(st.integers(0, 2))] = 90.0 + near * 57.3
        k = X.cell_from_params(1.0, 1.0 * r1, 1.0 * r2, *ang)
        if k is not None and abs(np.linalg.det(k)) > 0.2 * np.prod(np.linalg.norm(k, axis=1)):
            from vlib.gens import params_ref
            p = params_ref(np.linalg.inv(k).T * a)
            a, b, c, al, be, ga = p
        else:
            al, be, ga = 70.1, 80.2, 100.3
    spec["lat"] = [round(float(x), 13) for x in (a, b, c, al, be, ga)]
    spec["orbits"] = draw(X.orbits(robust, max_orbits=2))
    spec.update(draw(X.disguises()))
    n = sum(len(X.orbit(sg, o[1:])) for o in spec["orbits"])
    assume(n <= 400)
    s = spec.get("super", [1, 1, 1])
    if n / X.MULTIPLICITY[X.centring(sg)] * np.prod(s) > 160:
        spec["super"] = [1, 1, 1]
    return spec


@st.composite
def axes_specs(draw):
    """Groups of low symmetry with three general orbits and unequal lengths in every order:
    spglib keeps the axes of many of them, so every choice of axes of the conventions is taken."""
    fam = draw(st.sampled_from(["o", "o", "o", "m", "m", "a"]))
    sg = draw(st.integers(*{"o": (16, 74), "m": (3, 15), "a": (1, 2)}[fam]))
    robust = draw(st.sampled_from([1, 1, 1, 0]))
    abc = draw(st.permutations([draw(st.integers(30, 39)) / 10, draw(st.integers(42, 56)) / 10, draw(st.integers(60, 90)) / 10]))
    al = be = ga = 90.0
    if fam == "m":
        be = draw(st.integers(6113, 11919)) / 100
    if fam == "a":
        al, be, ga = (draw(st.integers(6213, 11819)) / 100 for _ in range(3))
    spec = {"sg": sg, "robust": robust, "lat": list(abc) + [al, be, ga]}
    spec["orbits"] = draw(X.orbits(bool(robust)))
    d = draw(X.disguises())
    d.pop("super", None)
    spec.update(d)
    return spec


@st.composite
def triclinic_specs(draw):
    """Triclinic crystals on special lattices: right angles, equal lengths and angles of the direct or
    of the reciprocal cell, exactly, up to noise or nearly."""
    from vlib.gens import params_ref
    # nearly: far enough from the right angle not to be taken for it
    angle = st.one_of(st.sampled_from([90.0, 90.0, 90.0, 60.0, 120.0, 90.0 + 1e-11, 90.0 - 1e-11, 90.3, 89.6]),
                      st.integers(6200, 11800).map(lambda i: i / 100 + 0.003))
    ang = [draw(angle) for _ in range(3)]
    a, b, c = (draw(st.integers(350, 1500)) / 100 for _ in range(3))
    k = draw(st.integers(0, 9))
    if k in (0, 1):
        b = a
    if k in (1, 2):
        c = b
    if k in (1, 3):
        ang[1] = ang[0]
    if k == 1 and draw(st.booleans()):
        ang[2] = ang[0]
    p = [a, b, c, *ang]
    m = X.cell_from_params(*p)
    if m is None or abs(np.linalg.det(m)) < 0.25 * a * b * c:
        p = [a, b, c, 90.0, 90.0, 78.3]
    elif draw(st.booleans()):  # of the reciprocal cell
        p = params_ref(np.linalg.inv(m).T * min(a, b, c) ** 2)
    spec = {"sg": draw(st.integers(1, 2)), "robust": 1, "lat": [round(float(x), 13) for x in p]}
    spec["orbits"] = draw(X.orbits(True))
    d = draw(X.disguises())
    d.pop("super", None)
    spec.update(d)
    return spec


@st.composite
def group_specs(draw):
    """Every space group with the same weight; general orbits of distinct kinds fix the group."""
    sg = draw(st.sampled_from(range(1, 231)))
    spec = {"sg": sg, "robust": 1, "lat": draw(X.lattices(X.family(sg)))}
    m = X.MULTIPLICITY[X.centring(sg)]
    k = len(X.operations(sg)[0]) // m
    n = 3 if k <= 4 else 2 if k <= 8 or 183 <= sg <= 186 else 1
    spec["orbits"] = draw(X.orbits(True))[:n]
    d = draw(X.disguises())
    d.pop("super", None)
    spec.update(d)
    return spec
