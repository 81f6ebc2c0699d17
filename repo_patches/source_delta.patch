From 9b54101919b073975e0a1135367c8807110754e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:44 +0000
Subject: [PATCH 01/32] fix: HPKOT primitive cell of the rhombohedral (hR)
 lattice

The conventional-to-primitive matrix was scaled by 3/2, so the returned
'primitive' cell was not a cell of the crystal (its volume was 1.125 of the
conventional one instead of 1/3).
---
 src/wulfric/constants/_hpkot_convention.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..5c04450 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2 / 3, -1 / 3, -1 / 3],
+            [1 / 3, 1 / 3, -2 / 3],
+            [1 / 3, 1 / 3, 1 / 3],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From 65e71f468c35468276a671d93f28ed7c63c5fb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 02/32] fix: HPKOT point Z of the aP2 lattice

Z was placed at Gamma; table 91 of the HPKOT paper has Z = (0, 0, 1/2).
---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From e019111ad8cb339ab402fc79d97ef1d6edb27480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 03/32] fix: types of conventional and primitive atoms are
 lists of int

They were numpy integers, so the atoms returned by get_conventional() and
get_primitive() did not pass validate_atoms() and could not be given to any
other function of the package.
---
 src/wulfric/_spglib_interface.py  | 8 ++++++--
 src/wulfric/crystal/_primitive.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index 8aaed38..29723bb 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -124,7 +124,9 @@ class SpglibData:
                 "conventional_positions",
                 np.array(dataset.std_positions, dtype=float),
             )
-            object.__setattr__(self, "conventional_types", dataset.std_types)
+            object.__setattr__(
+                self, "conventional_types", [int(i) for i in dataset.std_types]
+            )
 
             primitive_cell, primitive_positions, primitive_types = (
                 spglib.find_primitive(
@@ -141,7 +143,9 @@ class SpglibData:
             object.__setattr__(
                 self, "primitive_positions", np.array(primitive_positions, dtype=float)
             )
-            object.__setattr__(self, "primitive_types", primitive_types)
+            object.__setattr__(
+                self, "primitive_types", [int(i) for i in primitive_types]
+            )
 
         except Exception as e:
             _raise_with_message(
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..aa0cfba 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -302,6 +302,6 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
 
     # Add spglib_types to new atoms if necessary
     if "spglib_types" not in prim_atoms:
-        prim_atoms["spglib_types"] = prim_types
+        prim_atoms["spglib_types"] = [int(i) for i in prim_types]
 
     return prim_cell, prim_atoms
-- 
2.43.0


From 29496ae648983414c2c2a14a299d6cfaa62e911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 04/32] fix: get_primitive() takes values of the last atom of
 each type, as documented

It took the first one, contrary to its documentation and to
get_conventional().
---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index aa0cfba..6dc7eb3 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -288,10 +288,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=prim_positions)
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From 1de914900b74080a03a14738a42feaaf77dc481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 05/32] fix: SC conventional cell of orthorhombic crystals with
 equal cell lengths

A crystal with orthorhombic symmetry and (accidentally) equal lengths of two
lattice vectors fell outside of the listed cases and raised
PotentialBugError.
---
 src/wulfric/crystal/_conventional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..fad5695 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From 28cc8758f92ac67461be218779852171752348d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 06/32] fix: get_transformation_matrix() accepts any array-like
 transformed cell

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..f169301 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.array(transformed_cell).T
-- 
2.43.0


From 3e41162c6d7212205bfeb77ad5911bc83a33d8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 07/32] fix: load_poscar() treats a negative scale factor as
 the volume of the cell

Lengths were multiplied by the ratio of the volumes instead of its cube
root.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..7e2a83c 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From 7859a22560cffabe1c21b816d18fa013ed3117c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 08/32] fix: load_poscar() scales Cartesian components with
 three scale factors

In the POSCAR format three scale factors are for x, y and z Cartesian
components of the lattice vectors and of the positions. Positions were treated
in this way, but lattice vectors were scaled as a whole.
---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 7e2a83c..4a53db5 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,9 +103,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Scales x, y and z components of the lattice vectors
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From 730bad9b126ee0d44026012271c3f5c66dd74585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 09/32] fix: dump_poscar() raises the intended ValueError for
 unknown species

The message was built from the missing key and KeyError was raised.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 4a53db5..4b60f75 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -234,7 +234,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 33fe064b6705e89e2a5022d80f05e359baae6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 10/32] fix: cure_negative() for one atom with the position
 given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..65ff5f7 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,9 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
-    for position in atoms["positions"][1:]:
-        min_values = np.minimum(min_values, position)
+    min_values = np.min(atoms["positions"], axis=0)
 
     shift = np.where(min_values < 0, -min_values, 0)
 
-- 
2.43.0


From 36bc92f5edd64861bdb9f4595dd8e44372bd1afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 11/32] fix: plot name of the high-symmetry point F3

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From eb586a39ce93476ad4f63b4436b302d488e53896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 12/32] fix: get_unique_names() returns unique names

Names could coincide after the indices are added: ['Cr', 'Cr', 'Cr1'] with the
'repeated-only' strategy gave 'Cr1' twice.
---
 src/wulfric/crystal/_atoms.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..384b982 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -253,6 +253,9 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
 
     if names_are_not_unique and strategy == "all":
         unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
+        # Indexed names may coincide as well ("Cr1" + "1" and "Cr" + "11")
+        while len(unique_names) != len(set(unique_names)):
+            unique_names = [f"{name}{i + 1}" for i, name in enumerate(unique_names)]
 
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
@@ -262,11 +265,16 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        taken_names = set(unique_names)
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                # Skip indices that lead to the name that is already in use
+                while f"{name}{counter[name][0]}" in taken_names:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
+                taken_names.add(unique_names[i])
                 counter[name][0] += 1
 
     return unique_names
-- 
2.43.0


From 1f4c75bc00cc02066093046551f09c86465a0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 13/32] fix: get_spherical() measures azimuthal angle from the
 projection of radial_line_zero

---
 src/wulfric/geometry/_geometry.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wulfric/geometry/_geometry.py b/src/wulfric/geometry/_geometry.py
index d2ecc35..f802141 100644
--- a/src/wulfric/geometry/_geometry.py
+++ b/src/wulfric/geometry/_geometry.py
@@ -425,6 +425,13 @@ def get_spherical(
         vector = vector - polar_axis * np.dot(vector, polar_axis)
         vector /= np.linalg.norm(vector)
 
+        # Azimuthal angle is measured in the plane perpendicular to the polar axis
+        radial_projection = radial_line_zero - polar_axis * np.dot(
+            radial_line_zero, polar_axis
+        )
+        if np.linalg.norm(radial_projection) > 1e-8:
+            radial_line_zero = radial_projection / np.linalg.norm(radial_projection)
+
         # This one is more complex, as it is from 0 to 360
         azimuthal = float(np.arccos(np.clip(np.dot(vector, radial_line_zero), -1, 1)))
 
-- 
2.43.0


From a5059a7311f4ff99421926d5f239281aac00feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 14/32] fix: dump_poscar() replaces carriage returns in the
 comment with spaces

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 4b60f75..75baeba 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -219,7 +219,7 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = comment.replace("\n", " ").replace("\r", " ")
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 61daacb477de9a0461b0ed8d0254da84a92373e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 15/32] fix: Kpoints does not modify the list of names it is
 created from

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From f6ea9672d47334b30a5a256403a2ca29ab841210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 16/32] fix: wulfric's Niggli reduction of cells with small
 scalar products

---
 src/wulfric/cell/_niggli.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..a4def58 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -72,8 +72,14 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
     return condition, (A, B, C, xi, eta, zeta), trans_matrix
 
 
+def _product_is_positive(xi, eta, zeta, eps):
+    # eps is a tolerance for each number, not for their product
+    non_zero = all(compare_with_tolerance(_, "!=", 0, eps=eps) for _ in (xi, eta, zeta))
+    return non_zero and xi * eta * zeta > 0
+
+
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +111,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From be70c3421eae92fccedd3af7c0d660c519599b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 17/32] fix: get_primitive() compares atoms within symprec in
 Cartesian coordinates

---
 src/wulfric/crystal/_primitive.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 6dc7eb3..ea6ca17 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,13 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between atoms (in Cartesian coordinates, as the
+    # tolerance is given for them), up to the translations of the primitive cell
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    differences = differences - np.round(differences)
+    distances = np.linalg.norm(differences @ prim_cell, axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From 38d3785e02c1103376cb4bc5d7995bbbff66b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 18/32] fix: load_poscar() looks for POSCAR in the given
 directory

open() raises IsADirectoryError and not FileNotFoundError for an existing
directory, therefore the documented fallback was never tried.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 75baeba..3508c03 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From a52ba799b601b1916270314436089c2777f46c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 19/32] fix: hpkot_get_example() raises the documented
 ValueError for oA with inversion

"oA" stands for "oA1", for which there is no example with inversion, but the
check was made before the short symbol was expanded.
---
 src/wulfric/crystal/_hpkot_examples/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_hpkot_examples/__init__.py b/src/wulfric/crystal/_hpkot_examples/__init__.py
index fdad11f..3982adb 100644
--- a/src/wulfric/crystal/_hpkot_examples/__init__.py
+++ b/src/wulfric/crystal/_hpkot_examples/__init__.py
@@ -69,11 +69,6 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
            Computational Materials Science, 128, pp.140-184.
     """
 
-    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
-        raise ValueError(
-            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
-        )
-
     supported_symbols = list(HPKOT_EXTENDED_BL_SYMBOLS)
 
     supported_symbols += list(set([_[:2] for _ in supported_symbols]))
@@ -90,6 +85,11 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
         else:
             extended_bl_symbol += "1"
 
+    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
+        raise ValueError(
+            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
+        )
+
     POSCAR_filename = os.path.join(
         os.path.split(os.path.abspath(__file__))[0], "POSCAR-files", extended_bl_symbol
     )
-- 
2.43.0


From 2125b4c23808052f00c08aacbb2433918a523146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 20/32] fix: plot_kpath() keeps all parts of the k-path within
 the range of the axes

---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..091e286 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -764,17 +764,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From 47d5eb9588f47898fd09b4bb46eb063679d4c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 21/32] fix: plot_atoms() accepts a single color and any color
 supported by plotly

---
 src/wulfric/_plotly_engine.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 091e286..9aabddc 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -18,6 +18,7 @@
 # along with this program.  If not, see <https://www.gnu.org/licenses/>.
 #
 # ================================ END LICENSE =================================
+import re
 from random import choices
 from string import ascii_lowercase as ASCII_LOWERCASE
 
@@ -50,6 +51,10 @@ _LEGEND_SETTINGS = {
 
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
 def _get_good_contrast(hex_color):
+    # Other formats of color are supported by plotly as well
+    if re.fullmatch("#[0-9a-fA-F]{6}", hex_color) is None:
+        return "#000000"
+
     hex_color = hex_color[1:]
     R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
 
@@ -1029,7 +1034,10 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
-        text_color = [_get_good_contrast(color) for color in colors]
+        if isinstance(colors, str):
+            text_color = _get_good_contrast(colors)
+        else:
+            text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
         if add_hoverinfo:
-- 
2.43.0


From 668f04dd92bf1ad113e476ff47e13d78da91e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 22/32] fix: axes of the plots include everything that is
 plotted

---
 src/wulfric/_plotly_engine.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 9aabddc..0415e9b 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -130,9 +130,21 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            limits = np.array(
+                [
+                    self.x_range[(row, col)],
+                    self.y_range[(row, col)],
+                    self.z_range[(row, col)],
+                ]
+            )
+            centers = limits.mean(axis=1, keepdims=True)
+            extents = (limits[:, 1:] - limits[:, :1]) / 2
+
+            # Axes along which the plot is flat
+            max_extent = extents.max()
+            extents[extents <= 1e-8 * max_extent] = max_extent if max_extent > 0 else 1
+
+            xlim, ylim, zlim = centers + 1.05 * extents * np.array([-1.0, 1.0])
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From 6449e527d07a486b41265d0c88621e721db72c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 23/32] fix: PlotlyEngine plots on a figure that has no
 subplots

---
 src/wulfric/_plotly_engine.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 0415e9b..a686bb6 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -102,6 +102,18 @@ class PlotlyEngine:
                 cols=cols,
                 specs=[[{"type": "scene"} for _ in range(cols)] for _ in range(rows)],
             )
+        else:
+            # Figures without subplots do not support rows and columns
+            try:
+                fig.get_subplot(row=1, col=1)
+            except Exception:
+                fig.set_subplots(
+                    rows=rows,
+                    cols=cols,
+                    specs=[
+                        [{"type": "scene"} for _ in range(cols)] for _ in range(rows)
+                    ],
+                )
         self.fig = fig
 
         self.fig.update_layout(template="none")
-- 
2.43.0


From cce65e96bbcd118141f1eb13350ffd4620140cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 24/32] fix: Kpoints can be created without coordinates

---
 src/wulfric/_kpoints_class.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..4bbbcfb 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -120,7 +120,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # There is no path through less than two points
+            path = "-".join(self.hs_names) if len(self.hs_names) > 1 else []
         self.path = path
 
     @staticmethod
-- 
2.43.0


From 1c7d1e203cf66b856112f1e86f3363b8abce55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:41 +0000
Subject: [PATCH 25/32] fix: get_conventional and get_primitive return arrays
 independent of spglib_data

---
 src/wulfric/crystal/_conventional.py | 7 +++++++
 src/wulfric/crystal/_primitive.py    | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index fad5695..e27ba39 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -19,6 +19,8 @@
 #
 # ================================ END LICENSE =================================
 
+from copy import deepcopy
+
 import numpy as np
 
 from wulfric._exceptions import ConventionNotSupported, PotentialBugError
@@ -795,6 +797,11 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
+    # Returned values are independent of spglib_data
+    conv_cell, conv_positions, conv_types = deepcopy(
+        (conv_cell, conv_positions, conv_types)
+    )
+
     # Create conventional atoms
     conv_atoms = dict(positions=conv_positions)
 
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index ea6ca17..01006d4 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -19,6 +19,8 @@
 #
 # ================================ END LICENSE =================================
 
+from copy import deepcopy
+
 import numpy as np
 from wulfric.crystal._crystal_validation import validate_atoms
 from wulfric._exceptions import ConventionNotSupported, PotentialBugError
@@ -286,6 +288,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
+    # Returned values are independent of spglib_data
+    prim_cell, prim_positions = deepcopy((prim_cell, prim_positions))
+
     # Create primitive atoms
     prim_atoms = dict(positions=prim_positions)
 
-- 
2.43.0


From ac9854a595ad5bc96c6c014e57bae707354c9dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:32 +0000
Subject: [PATCH 26/32] fix: Kpoints without a path has empty points and a
 table

---
 src/wulfric/_kpoints_class.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 4bbbcfb..dc77fd9 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -466,7 +466,7 @@ class Kpoints:
         else:
             cell = self.rcell
 
-        points = None
+        points = np.zeros((0, 3))
         for subpath in self.path:
             for i in range(len(subpath) - 1):
                 name = subpath[i]
@@ -476,10 +476,7 @@ class Kpoints:
                     self.hs_coordinates[next_name] @ cell,
                     self._n + 2,
                 )
-                if points is None:
-                    points = new_points
-                else:
-                    points = np.concatenate((points, new_points))
+                points = np.concatenate((points, new_points))
         return points
 
     # It can not just call for points and flatten them,
@@ -507,7 +504,7 @@ class Kpoints:
         else:
             cell = self.rcell
 
-        flat_points = None
+        flat_points = np.zeros(0)
         for s_i, subpath in enumerate(self.path):
             for i in range(len(subpath) - 1):
                 name = subpath[i]
@@ -572,7 +569,7 @@ class Kpoints:
         """
 
         d = decimals
-        nd = max([len(name) for name in self.hs_names])
+        nd = max([len(name) for name in self.hs_names], default=0)
         table = [
             (
                 f"{'Name':<{nd}}  "
-- 
2.43.0


From a680db7f5bb6bd40aa782f4ef63d9acc9c6317f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:05 +0000
Subject: [PATCH 27/32] fix: SC cells and variations do not depend on the angle
 tolerance of spglib

---
 src/wulfric/crystal/_conventional.py | 6 ------
 src/wulfric/crystal/_sc_variation.py | 8 +-------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index e27ba39..1dc0bc7 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -755,9 +755,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
             # Fix potential convention mismatch
             conv_cell = _sc_get_conventional_hR(
                 spglib_primitive_cell=spglib_data.primitive_cell,
-                angle_tolerance=spglib_data.angle_tolerance
-                if spglib_data.angle_tolerance != -1
-                else 1e-4,
                 distance_tolerance=spglib_data.symprec,
             )
 
@@ -777,9 +774,6 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
                 spglib_std_lattice=spglib_data.conventional_cell,
                 crystal_family=spglib_data.crystal_family,
                 centring_type=spglib_data.centring_type,
-                angle_tolerance=spglib_data.angle_tolerance
-                if spglib_data.angle_tolerance != -1
-                else 1e-4,
             )
 
             # Compute relative positions with respect to the new cell
diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index a56f593..d1528ed 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -388,10 +388,6 @@ def sc_get_variation(cell, atoms, spglib_data=None):
 
     lattice_type = spglib_data.crystal_family + spglib_data.centring_type
 
-    angle_tolerance = (
-        spglib_data.angle_tolerance if spglib_data.angle_tolerance != -1 else 1e-4
-    )
-
     if lattice_type in ["tI", "oF", "hR", "mC", "aP"]:
         conv_cell, _ = get_conventional(
             cell=cell, atoms=atoms, convention="SC", spglib_data=spglib_data
@@ -407,7 +403,7 @@ def sc_get_variation(cell, atoms, spglib_data=None):
         )
 
     if lattice_type == "hR":
-        return _RHL_variation(conv_alpha, angle_tolerance=angle_tolerance)
+        return _RHL_variation(conv_alpha)
 
     if lattice_type == "mC":
         prim_cell, _ = get_primitive(
@@ -421,7 +417,6 @@ def sc_get_variation(cell, atoms, spglib_data=None):
             conv_alpha,
             prim_k_gamma,
             distance_tolerance=spglib_data.symprec,
-            angle_tolerance=angle_tolerance,
         )
 
     if lattice_type == "aP":
@@ -430,7 +425,6 @@ def sc_get_variation(cell, atoms, spglib_data=None):
             k_alpha,
             k_beta,
             k_gamma,
-            angle_tolerance=angle_tolerance,
         )
 
     return SC_BRAVAIS_LATTICE_SHORT_NAMES[lattice_type]
-- 
2.43.0


From bec51dacd8deff9414e5b9b994d04b3fbd0ce7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 28/32] fix: ORCF variations are told apart by lengths

---
 src/wulfric/crystal/_sc_variation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index d1528ed..7b82a71 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -107,12 +107,13 @@ def _ORCF_variation(
             f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.'
         )
 
-    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
-    if cwt(expression, "==", 0, eps=distance_tolerance):
+    # Length of a_1 for which 1/a^2 = 1/b^2 + 1/c^2
+    border = 1 / (1 / conv_b**2 + 1 / conv_c**2) ** 0.5
+    if cwt(conv_a, "==", border, eps=distance_tolerance):
         return "ORCF3"
-    elif cwt(expression, ">", 0, eps=distance_tolerance):
+    elif cwt(conv_a, "<", border, eps=distance_tolerance):
         return "ORCF1"
-    elif cwt(expression, "<", 0, eps=distance_tolerance):
+    elif cwt(conv_a, ">", border, eps=distance_tolerance):
         return "ORCF2"
 
 
-- 
2.43.0


From c62d575914a4fc6ea16ce4bfa016dfa391daa81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:10 +0000
Subject: [PATCH 29/32] fix: get_niggli(implementation="spglib") scales epsilon
 with the size of the cell

spglib compares with an absolute epsilon, while eps_relative is documented as
relative one. Small cells (and reciprocal cells of large ones) were returned
not reduced or as None.
---
 src/wulfric/cell/_niggli.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index a4def58..29fdbaa 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -356,6 +356,12 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
 
     """
 
+    volume = get_volume(cell)
+    if volume == 0:
+        raise ValueError("Cell volume is zero")
+
+    eps = eps_relative * volume ** (1 / 3.0)
+
     implementation = implementation.lower()
 
     if implementation == "spglib":
@@ -363,19 +369,14 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
+        # spglib expects the absolute value of epsilon
+        return spglib.niggli_reduce(lattice=cell, eps=eps)
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
             'Supported are "spglib" and "wulfric".'
         )
 
-    volume = get_volume(cell)
-    if volume == 0:
-        raise ValueError("Cell volume is zero")
-
-    eps = eps_relative * volume ** (1 / 3.0)
-
     # 0
     metric_tensor = np.matmul(cell, np.transpose(cell))
 
-- 
2.43.0


From 86efc82b152d6166f94b53403b87c13039a5b3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:16 +0000
Subject: [PATCH 30/32] fix: get_niggli(implementation="wulfric") does not
 overflow for cells of integers

Scalar products of a cell given in integers were kept as integers, their
product overflowed for lengths of a thousand and the reduction never ended.
---
 src/wulfric/cell/_niggli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index 29fdbaa..edefd75 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -378,6 +378,8 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
         )
 
     # 0
+    # In floats: products of integers can overflow
+    cell = np.array(cell, dtype=float)
     metric_tensor = np.matmul(cell, np.transpose(cell))
 
     params = (
-- 
2.43.0


From ba2b221f2898a6176e8e0196ecd80a7d92e3fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:17 +0000
Subject: [PATCH 31/32] fix: SC cell of monoclinic crystals with right angle
 beta keeps the unique axis along a1

---
 src/wulfric/crystal/_conventional.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 1dc0bc7..0325442 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -277,7 +277,20 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
 
     # Step 1, make sure that alpha is not a 90 angle
     _, _, _, alpha, beta, gamma = get_params(cell=spglib_std_lattice)
-    if cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
+    # Unique axis of the cell from spglib is a2, thus this case is tried first, as it is
+    # the right one for the cells with three 90 angles.
+    # Have to keep a3 in place for MCLC lattices
+    if cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
+        gamma, "==", 90.0, eps=angle_tolerance
+    ):  # -> a2, -a1, a3
+        matrix_to_1 = np.array(
+            [
+                [0, -1, 0],
+                [1, 0, 0],
+                [0, 0, 1],
+            ]
+        )
+    elif cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
         gamma, "==", 90.0, eps=angle_tolerance
     ):  # No change
         matrix_to_1 = np.eye(3, dtype=float)
@@ -295,17 +308,6 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
             raise PotentialBugError(
                 '(convention="SC"), MCLC lattice, step 1, case 2. This case should never be tried for MCLC lattice.'
             )
-    # Have to keep a3 in place for MCLC lattices
-    elif cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
-        gamma, "==", 90.0, eps=angle_tolerance
-    ):  # -> a2, -a1, a3
-        matrix_to_1 = np.array(
-            [
-                [0, -1, 0],
-                [1, 0, 0],
-                [0, 0, 1],
-            ]
-        )
     else:
         raise PotentialBugError(
             '(convention="SC"): MCL or MCLC lattice, step 1. Angles fall outside of the three cases.'
-- 
2.43.0


From e3748380e7f481263e22df248ef34654fa744eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:43 +0000
Subject: [PATCH 32/32] fix: get_scalar_products does not overflow for cells of
 narrow integer types

---
 src/wulfric/cell/_basic_manipulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index f169301..4a48356 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -265,6 +265,8 @@ def get_scalar_products(cell):
         (0.0, 0.0, 0.0)
     """
 
+    cell = np.array(cell, dtype=float)
+
     return (
         float(np.dot(cell[1], cell[2])),
         float(np.dot(cell[0], cell[2])),
-- 
2.43.0

