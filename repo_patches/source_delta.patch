From ac49c72b6a32b843aa05490d3f40325f69ddd023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 01/59] fix: order annihilation labels of cluster_basis Fermion
 strings in the documented (descending) order

cluster_basis built type 2 and 3 Fermion strings with the annihilation operators
in ascending order, while the documented normal form, type 1 strings and convert()
use descending order, so conversion_matrix() between a Fermion cluster basis and a
Majorana or Pauli basis raised a KeyError for clusters of three or more orbitals.
---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..0cdb341 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -857,7 +857,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                             labels_backward = possible_labels_backward[ind_labels_backward]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
-                            labels = np.concatenate((labels_forward, labels_backward))
+                            labels = np.concatenate((labels_forward, labels_backward[::-1]))
                             
                             op_string = OperatorString(ops, labels, op_type, prefactor)
 
-- 
2.43.0


From 9f8171c133af8ba2826f66f75f9e1d4e53b20b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 02/59] fix: convert the Fermion identity string without
 raising

Converting the Fermion identity (alone or as a term of an Operator) with the default
include_identity=False built an empty Operator without an op_type, which raises.
---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..0958aa8 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, 'Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From 3fc179430492c8268e83520a5cafba9caeed14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 03/59] fix: reject OperatorStrings whose numbers of operators
 and labels differ

The ValueError was constructed but never raised, so e.g. OperatorString(['X','Y'],[1],'Pauli')
silently dropped an operator.
---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From 70244e0a9097e7ab1ea55215343d11beae3968f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 04/59] fix: take the prefactor into account when comparing
 OperatorStrings

'CDag 1 C 2' and '1j CDag 1 C 2' are different operators (with different hashes) but
compared equal.
---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..24effdd 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -209,7 +209,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From 9a2057a41ee3e2989b6ae5b25ef412a8ce081488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 05/59] fix: give equal OperatorStrings a unique prefactor,
 name and hash

opstring('1.0 X 1') or prefactor=1 produced a string that equals opstring('X 1') but
hashes differently, so that Basis and dict lookups failed and a Basis could hold the
same OperatorString twice. The prefactor of a Majorana string is documented to be
computed automatically, but a given prefactor 1j was kept when it should be 1, which
made the string anti-Hermitian.
---
 qosy/operatorstring.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 24effdd..c0888d4 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -146,12 +146,19 @@ class OperatorString:
             num_swaps_to_reorder = (num_ab*(num_ab-1))/2
             if num_swaps_to_reorder % 2 == 1:
                 self.prefactor = 1j
+            elif self.prefactor == 1j:
+                self.prefactor = 1.0
 
         if (self.op_type == 'Pauli' and self.prefactor != 1) \
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
-                 
+
+        # Use a unique representation of the prefactor (which can
+        # be provided as an int, float, or complex number), so that 
+        # equal OperatorStrings have equal names and hashes.
+        self.prefactor = 1j if self.prefactor == 1j else 1.0
+
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
-- 
2.43.0


From 532ff6f15200bcf2373c6f1906ef991f587e4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 06/59] fix: copy the list given to Basis, which the Basis
 enlarges in place

Two Bases built from one list shared it, so that enlarging one left the other
with more OperatorStrings than indices (and changed the caller's list).
---
 qosy/basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 0cdb341..7e33d94 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -48,7 +48,8 @@ class Basis:
         if op_strings is None:
             op_strings = []
         
-        self.op_strings = op_strings
+        # Copy the list, since the Basis can be enlarged in-place.
+        self.op_strings = list(op_strings)
 
         # A dictionary that maps each OperatorString
         # to its index in the list op_strings.
-- 
2.43.0


From 6518a04e126c7ed440fd61f8fec0ed6622ae75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:19 +0000
Subject: [PATCH 07/59] fix: do not enlarge a shared Basis when adding to an
 Operator in place

An Operator keeps a reference to the Basis it is given. Adding to such an
Operator in place enlarged that Basis, so that other Operators (and the caller)
using it ended up with more OperatorStrings than coefficients.
---
 qosy/basis.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 7e33d94..bbff6e9 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -332,8 +332,10 @@ class Operator:
 
         if isinstance(op_strings, list):
             self._basis  = Basis(list(op_strings)) # Copies the op_strings list.
+            self._owns_basis = True
         elif isinstance(op_strings, Basis):
             self._basis  = op_strings # Warning: Keeps a reference to the Basis. Does not copy.
+            self._owns_basis = False
         else:
             raise ValueError('Cannot create a Basis of OperatorStrings from an object of type: {}.'.format(type(op_strings)))
         self.op_type = op_type
@@ -541,9 +543,14 @@ class Operator:
         if self.op_type != other.op_type:
             raise ValueError('Cannot add operator of op_type {} to operator of op_type {}'.format(self.op_type, other.op_type))
 
-        # Enlarge the basis.
+        # Enlarge the basis. A Basis that was given by reference can be in use
+        # elsewhere, so it is not modified but replaced by an enlarged copy.
         old_len = len(self._basis)
-        self._basis += other._basis
+        if self._owns_basis:
+            self._basis += other._basis
+        else:
+            self._basis = self._basis + other._basis
+            self._owns_basis = True
         new_len = len(self._basis)
 
         # Pad the coefficients vector with zeros
-- 
2.43.0


From 52734d73cf0e4b72bbb9f4e6b42c30f456142925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:20 +0000
Subject: [PATCH 08/59] fix: honour include_identity in distance_basis

---
 qosy/basis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index bbff6e9..3382263 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -958,6 +958,8 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     sorted_clusters = sorted(clusters, key=cmp_to_key(compare))
     
     total_basis = Basis()
+    if include_identity:
+        total_basis += OperatorString([], [], op_type) # Identity operator
     for cluster_labels in sorted_clusters:
         total_basis += cluster_basis(k, cluster_labels, op_type)
         
-- 
2.43.0


From d81397e1c199389a790b0c34f1c3e6dc752851f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 09/59] fix: accept numpy integers as orbital indices in
 Lattice.distance

They were taken for spatial positions, which silently gave a wrong distance.
---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..0336f74 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -200,12 +200,12 @@ class Lattice:
         boundaries to be computed correctly.
         """
 
-        if type(position1) is int:
+        if isinstance(position1, (int, np.integer)):
             (pos1, _, _) = self._orbitals[position1]
         else:
             pos1 = position1
             
-        if type(position2) is int:
+        if isinstance(position2, (int, np.integer)):
             (pos2, _, _) = self._orbitals[position2]
         else:
             pos2 = position2
-- 
2.43.0


From da0d1c0fe604bea78b5174872aaf489d8a3d37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 10/59] fix: wrap positions more than one period outside a
 periodic lattice

Lattice.index documents that positions outside the periodic boundaries are
wrapped back, but only looked one period away.
---
 qosy/lattice.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 0336f74..549808e 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -138,6 +138,17 @@ class Lattice:
                                          + [boundary_vec + pbv for pbv in previous_bvecs] \
                                          + [-boundary_vec + pbv for pbv in previous_bvecs]
                     
+        # The lattice vectors scaled by the number of unit cells.
+        # Repeating the lattice along the periodic ones tiles space.
+        self._period_vectors     = np.array([self.num_cells[ind_vec] * np.array(self.unit_cell.lattice_vectors[ind_vec]) for ind_vec in range(self.dim)])
+        self._inv_period_vectors = nla.pinv(self._period_vectors)
+
+    def _num_periods(self, displacement):
+        # The number of whole periods contained in the displacement
+        # (zero in the directions with open boundaries).
+        coords = np.dot(displacement, self._inv_period_vectors)
+        return np.where(self.periodic_boundaries, np.floor(coords + self.tol), 0.0)
+
     def index(self, position, orbital_name=''):
         """Return the index of the orbital whose atom is located
         at the given position in the Lattice.
@@ -158,6 +169,10 @@ class Lattice:
             The index of the orbital in the lattice.
         """
         
+        # Wrap positions that are more than one period away
+        # back into (or next to) the lattice.
+        position = position - self._num_periods(position).dot(self._period_vectors)
+
         # Translate by the boundary vectors associated with
         # the periodic edges. The first boundary vector is the
         # zero vector, which corresponds to no translation.
-- 
2.43.0


From 5f2d26b836a51d6e3d72c41f4d0c3f2fe5f45875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 11/59] fix: find the closest mirror image in skewed periodic
 lattices

Lattice.distance only considered images one period away, which are not always
the closest ones when the lattice vectors are not orthogonal (e.g. kagome(1,8)).
---
 qosy/lattice.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 549808e..9b7b75f 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -226,7 +226,22 @@ class Lattice:
             pos2 = position2
             
         mirror_distances = [np.linalg.norm((pos1+bv)-pos2) for bv in self._boundary_vectors]
-        return np.min(mirror_distances)
+        min_distance     = np.min(mirror_distances)
+
+        # In skewed lattices with many more unit cells in one direction than in
+        # another, mirror images further away can be closer. Consider all
+        # the images that are not certain to be further than the minimum distance.
+        if np.any(self.periodic_boundaries):
+            coords     = np.dot(np.subtract(pos1, pos2), self._inv_period_vectors)
+            max_coords = min_distance * nla.norm(self._inv_period_vectors, axis=0)
+            ranges     = [range(int(np.ceil(-c-m)), int(np.floor(-c+m))+1) if periodic else [0] \
+                          for (c, m, periodic) in zip(coords, max_coords, self.periodic_boundaries)]
+            if any(abs(num) > 1 for nums in ranges for num in nums):
+                for nums in it.product(*ranges):
+                    image        = np.subtract(pos1, pos2) + np.dot(nums, self._period_vectors)
+                    min_distance = np.minimum(min_distance, nla.norm(image))
+
+        return min_distance
 
     def position(self, orb_index):
         """Compute the position of the orbital with the
-- 
2.43.0


From fb8f1b7a5453850b810587f483abd42f701da7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 12/59] fix: swap names next to parentheses correctly

swap marked names with parentheses, so that parentheses around the second name
were lost: swap('(Dn)', 'Up', 'Dn') gave 'Dn'.
---
 qosy/tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..bc03a69 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -365,11 +365,7 @@ def swap(string, nameA, nameB):
         >>> qosy.swap('1 2 3', '1', '3') # '3 2 1'
     """
     
-    result = string.replace(nameA, '({})'.format(nameA))
-    result = result.replace(nameB, nameA)
-    result = result.replace('({})'.format(nameA), nameB)
-
-    return result
+    return replace(string, {nameA : nameB, nameB : nameA})
 
 def replace(string, substitutions):
     """ Perform many string replacements
-- 
2.43.0


From 9aec65c57ed642328925ae02a3ae8548f8d32ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 13/59] fix: reject space group operations that do not permute
 the orbitals

A map that sends different orbitals to the same one (e.g. r -> 2r on a periodic
chain) was accepted as a symmetry.
---
 qosy/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 57377bc..ec1ad29 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -353,7 +353,7 @@ def space_group_symmetry(lattice, R, d):
     orbital_label_permutation = [lattice.index(np.dot(R,r) + d, orbital_name) \
                                  for (r, orbital_name,_) in lattice]
 
-    if -1 in orbital_label_permutation:
+    if -1 in orbital_label_permutation or len(set(orbital_label_permutation)) != len(orbital_label_permutation):
         raise ValueError('Invalid permutation of orbital labels:\n{}'.format(orbital_label_permutation))
 
     symmetry = label_permutation(orbital_label_permutation)
-- 
2.43.0


From bdc20d8a9ad795ffc50d74965a9ddd293c041d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:57 +0000
Subject: [PATCH 14/59] fix: allow the zeroth power of a Transformation, which
 is documented as valid

---
 qosy/transformation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index ec1ad29..f4576e7 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -155,15 +155,24 @@ class Transformation:
             :math:`\\hat{\\mathcal{U}}^n`
         """
 
-        if type(number) is not int or number <= 0:
+        if type(number) is not int or number < 0:
             raise ValueError('Invalid number: {}'.format(number))
 
+        if number == 0:
+            return Transformation(_identity_rule, None)
+
         result = self
         for ind in range(number-1):
             result = result * self
 
         return result
 
+def _identity_rule(op_string_A, info):
+    """Transformation rule for the identity transformation.
+    """
+
+    return Operator([1.0], [op_string_A])
+
 def _permutation_rule(op_string_A, info):
     """Transformation rule to perform a permutation of orbital labels.
     Transformation for spins:
-- 
2.43.0


From 1b3fab4e61e13a1bb635c3ab24f5cd1c006ed4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 15/59] fix: match lattice positions with an absolute precision

The positions were compared as printed strings. numpy prints arrays with small
and large entries in scientific notation, with a relative precision, so that
positions that agree within the precision of the lattice were not found.
---
 qosy/lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 9b7b75f..a08f928 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -94,9 +94,9 @@ class Lattice:
         # Ex: [(array([0,0]), 'A', (0,0)), (array([0,0]), 'B', (0,0)), (array([2,0]), 'A', (1,0)), ...]
         self._orbitals = []
         
-        # Dictionary that maps tuples of position (as strings) and orbital names to
+        # Dictionary that maps tuples of position (rounded) and orbital names to
         # the index in the self._orbitals list.
-        # Ex: self._indices_orbitals[('array([2 0])', 'A')] = 2
+        # Ex: self._indices_orbitals[((2.0, 0.0), 'A')] = 2
         self._indices_orbitals = dict()
 
         ranges       = tuple([range(num_cell) for num_cell in num_cells])
@@ -118,7 +118,7 @@ class Lattice:
 
                 # Make sure the zeros are exactly zero (no floating point roundoff).
                 pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
-                pos_name = np.array2string(pos.flatten(), precision=self.precision)
+                pos_name = tuple(np.round(pos.flatten(), self.precision))
 
                 for orbital_name in orbitals_atom:
                     ind_orbital = len(self._orbitals)
@@ -182,7 +182,7 @@ class Lattice:
             # Make sure the zeros are exactly zero (no floating point roundoff).
             pos      = np.array([x if np.abs(x) > self.tol else 0.0 for x in pos])
             
-            pos_name = np.array2string(pos.flatten(), precision=self.precision)
+            pos_name = tuple(np.round(pos.flatten(), self.precision))
             
             if (pos_name, orbital_name) in self._indices_orbitals:
                 return self._indices_orbitals[(pos_name, orbital_name)] 
-- 
2.43.0


From 0005fbb4421f85422343783518cce18020d2d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 16/59] fix: let invariant_operators run with num_vecs

The shift of the shift-invert method was exactly the desired eigenvalue, so that
the matrix to factorise was singular whenever an invariant operator existed.
---
 qosy/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..dcc4a05 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -165,7 +165,9 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     if num_vecs is None:
         (evals, evecs) = nla.eigh(matrix.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        # Use a small offset for the shift-invert method, which
+        # fails when sigma is exactly equal to an eigenvalue.
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign*(1.0+1e-6))
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
-- 
2.43.0


From 8d071200ed0c5d70f824413fe190d0ea040be4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 17/59] fix: find invariant operators in lists of
 non-orthonormal Operators

The symmetric part of the symmetry matrix was taken as if the Operators were
orthonormal, so that invariant operators were missed (or wrong ones returned).
The cumulative SymmetricOperatorGenerator passes such lists after sparsifying.
---
 qosy/core.py | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index dcc4a05..5c4a8f2 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -123,9 +123,10 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         with `transform` ('anticommutator'). Defaults to 
         'commutator'.
     return_superoperator : bool, optional
-        If True, returns :math:`I \\mp (S + S^\\dagger)/2` where
-        :math:`S` is the symmetry matrix. The null space of 
-        this superoperator corresponds to the :math:`(\\pm 1)` 
+        If True, returns :math:`G \\mp (GS + (GS)^\\dagger)/2` where
+        :math:`S` is the symmetry matrix and :math:`G` is the matrix
+        of overlaps between the basis elements (:math:`G=I` for a Basis). 
+        The null space of this superoperator corresponds to the :math:`(\\pm 1)` 
         eigenspace of the symmetry matrix. Default is False.
     num_vecs : int, optional
         Default to None. If None, then the symmetry matrix
@@ -160,28 +161,44 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
-    matrix = 0.5*(sym_matrix + sym_matrix.H)
+    # The overlaps between the elements of the basis. A list of
+    # Operators does not need to be orthonormal.
+    if isinstance(basis, Basis):
+        overlap_matrix = ss.eye(len(basis), dtype=complex, format='csr')
+    else:
+        overlap_matrix = _overlap_matrix(basis)
+
+    matrix        = overlap_matrix.dot(sym_matrix)
+    superoperator = overlap_matrix - sign * 0.5*(matrix + matrix.conj().T)
 
     if num_vecs is None:
-        (evals, evecs) = nla.eigh(matrix.toarray())
+        (evals, evecs) = nla.eigh(superoperator.toarray())
     else:
-        # Use a small offset for the shift-invert method, which
-        # fails when sigma is exactly equal to an eigenvalue.
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign*(1.0+1e-6))
+        # Use a small negative sigma for the shift-invert method.
+        sigma = -1e-6
+        (evals, evecs) = ssla.eigsh(superoperator.tocsc(), k=num_vecs, sigma=sigma)
 
-    inds = np.where(np.abs(evals - sign) < tol)[0]
+    inds = np.where(np.abs(evals) < tol)[0]
     vecs = evecs[:,inds]
 
     if num_vecs is not None and len(inds) == num_vecs:
         warnings.warn('All {} vectors found with eigsh were in the ({})-eigenvalue subspace. Increase num_vecs to ensure that you are not missing null vectors.'.format(num_vecs, sign))
 
     if return_superoperator:
-        superoperator = ss.eye(len(basis), format='csc') - sign * matrix
-        return (vecs, superoperator, 1.0 - sign*evals, evecs)
+        return (vecs, superoperator, evals, evecs)
     else:
         return vecs
 
+def _overlap_matrix(operators):
+    # The matrix of Hilbert-Schmidt inner products between Operators
+    # made of (orthonormal) OperatorStrings.
+    combined_basis = Basis()
+    for operator in operators:
+        combined_basis += operator._basis
+
+    vectors = ss.hstack([operator.to_vector(combined_basis, fmt='csc') for operator in operators], format='csr')
 
+    return (vectors.conj().T).dot(vectors).tocsr()
     
 class SymmetricOperatorGenerator:
     """A SymmetricOperatorGenerator object can be used to generate
-- 
2.43.0


From 4c3c7e4ddd1220a99bc520ee588df1573e2571bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 18/59] fix: compare the objects, not their indices, in argsort

---
 qosy/symmetrization.py | 5 +----
 qosy/tools.py          | 3 ++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..3b46269 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -121,10 +121,7 @@ def _symmetrize_atoms(lattice, G, tol=1e-12):
     # Break ties by considering the distance
     # from the origin along each axis.
     distances = [(nla.norm(pos),)+tuple(np.abs(pos))+tuple(pos) for (pos, _) in sym_atom_info]
-    def _comp(ind1, ind2):
-        tup1 = distances[ind1]
-        tup2 = distances[ind2]
-
+    def _comp(tup1, tup2):
         # Ignore equal entries.
         comparison_vec = np.abs(np.array(tup1) - np.array(tup2)) < tol
         index_tup = 0
diff --git a/qosy/tools.py b/qosy/tools.py
index bc03a69..4de967f 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -300,7 +300,8 @@ def argsort(mylist, comp=None):
     if comp is None:
         return sorted(range(len(mylist)), key=mylist.__getitem__)
     else:
-        return sorted(range(len(mylist)), key=cmp_to_key(comp))
+        key = cmp_to_key(comp)
+        return sorted(range(len(mylist)), key=lambda ind: key(mylist[ind]))
 
 def remove_duplicates(objects, equiv=None, tol=1e-12):
     """Remove duplicate objects from
-- 
2.43.0


From c49a44c7f615de66e1da239e4dea1ca92dbd5a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 19/59] fix: discard a zero first column in gram_schmidt
 instead of returning NaNs

---
 qosy/tools.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 4de967f..e251423 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -464,9 +464,8 @@ def gram_schmidt(matrix, tol=0.0):
             return (vec1.H).dot(vec2)[0,0]
         
     shift = 0
-    new_matrix[:,0] = matrix[:,0] / _norm(matrix[:,0])
     
-    for ind_col_unshifted in range(1,k):
+    for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
         for ind_vec in range(ind_col):
-- 
2.43.0


From 0634d7661a7c4dba0abec9b5ea1d6745d327b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:03 +0000
Subject: [PATCH 20/59] fix: accept the documented sparse matrices in sparsify

---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index e251423..c853a00 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -554,6 +554,9 @@ def sparsify(vectors, orthogonalize=True, tol=1e-12):
         >>> qosy.sparsify(vecs) # [[1,0],[0,1]]
     """
 
+    if ss.issparse(vectors):
+        vectors = vectors.toarray()
+
     num_vectors = int(vectors.shape[1])
     
     if num_vectors <= 1:
-- 
2.43.0


From 9291dd66769df5e23d6979bc9fd18603c625deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:32 +0000
Subject: [PATCH 21/59] fix: symmetrize bases with the whole group, each
 element once

---
 qosy/symmetrization.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 3b46269..0ba77b1 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -60,23 +60,17 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
     G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G_set = set([tuple(I.info)])
+
+    # Generate new group elements from every group element,
+    # including the ones found during the loop, without duplicates.
+    for g in G:
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                G.append(label_permutation(perm))
         
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
-- 
2.43.0


From c76e7393a1ee64c6a236d58fcd73629227373002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 22/59] fix: symmetrize lattices with the whole point group and
 expand them in every direction

---
 qosy/symmetrization.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 0ba77b1..2025788 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -239,15 +239,15 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
     dim = lattice.dim
 
     # Construct the point group G from its generators.
-    G = [np.eye(dim)]
-    newG = G + point_group_generators
+    G = []
+    newG = [np.eye(dim)]
     while len(newG) != len(G):
         G = newG
         
         # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
+        newG = G + [np.dot(g,gen) for g in G for gen in point_group_generators]
         # Remove the duplicates
-        newG = remove_duplicates(newG)
+        newG = remove_duplicates(newG, tol=1e-8)
 
     # Store the original lattice.
     orig_lattice         = copy.deepcopy(lattice)
@@ -265,11 +265,11 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            old_lattice = _expand_lattice(old_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-        new_lattice = _symmetrize_atoms(new_lattice, G, tol=tol)
+        new_lattice = _symmetrize_atoms(old_lattice, G, tol=tol)
 
         # Remove the duplicate atoms equivalent to
         # one another by lattice translations
-- 
2.43.0


From dddaefdfe2f17cb8c75bebbf0e1cc6216c8c503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 23/59] fix: diagonalize fully when num_vecs is not below the
 dimension of the search space

---
 qosy/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 5c4a8f2..70b0969 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -83,7 +83,8 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
 
     com_matrix = (l_matrix.H).dot(l_matrix)
 
-    if num_vecs is None:
+    # Note that eigsh can only find fewer eigenvectors than the dimension.
+    if num_vecs is None or num_vecs >= com_matrix.shape[0]-1:
         (evals, evecs) = nla.eigh(com_matrix.toarray())
     else:
         # Use a small negative sigma for the shift-invert method.
@@ -171,7 +172,8 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     matrix        = overlap_matrix.dot(sym_matrix)
     superoperator = overlap_matrix - sign * 0.5*(matrix + matrix.conj().T)
 
-    if num_vecs is None:
+    # Note that eigsh can only find fewer eigenvectors than the dimension.
+    if num_vecs is None or num_vecs >= superoperator.shape[0]-1:
         (evals, evecs) = nla.eigh(superoperator.toarray())
     else:
         # Use a small negative sigma for the shift-invert method.
@@ -402,7 +404,8 @@ class SymmetricOperatorGenerator:
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
-                if self.num_vecs[ind_output] is not None:
+                # Note that eigsh can only find fewer eigenvectors than the dimension.
+                if self.num_vecs[ind_output] is not None and self.num_vecs[ind_output] < projected_superoperator.shape[0]-1:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
                     (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
-- 
2.43.0


From b34dcfe5f586fa0bfa56c8b0049f5447077fe746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 24/59] fix: keep one entry per symmetry when no operators are
 left, print only if verbose

---
 qosy/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 70b0969..7a4216c 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -431,7 +431,8 @@ class SymmetricOperatorGenerator:
             for ind_output in range(num_inputs):
                 curr_ops = self.projected_output_operators[ind_output]
                 self.projected_output_operators[ind_output] = sparsify(curr_ops)
-                print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
+                if verbose:
+                    print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
         if orthogonalization:
             if verbose:
@@ -477,8 +478,14 @@ class SymmetricOperatorGenerator:
             else:
                 basis = self.projected_output_operators[-1]
 
+            # No operators are left. Keep an (empty) entry for this symmetry.
             if len(basis) == 0:
-                print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                if verbose:
+                    print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                self.projected_superoperators.append(ss.csr_matrix((0,0), dtype=complex))
+                self.projected_eigenvectors.append(np.zeros((0,0), dtype=complex))
+                self.projected_eigenvalues.append(np.zeros(0))
+                self.projected_output_operators.append([])
                 continue
                 
             input_symmetry = self.input_symmetries[ind_input]
-- 
2.43.0


From 41080e75ac7697e0bb85ad765f09e703eff8ead4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 25/59] fix: keep the whole space when orthogonalizing in
 SymmetricOperatorGenerator

---
 qosy/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7a4216c..5763b95 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -447,12 +447,11 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[ind_output]
                 prev_ops   = self.projected_output_operators[ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # The current space is contained in the previous one, so
+                # some of the previous vectors are linearly dependent on the others.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=1e-6)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 8b2e3c531d91af0cb4ffaa74b7173d7c1983b68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 26/59] fix: do not return NaN Operators for linearly dependent
 lists in cumulative generation

---
 qosy/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 5763b95..75fa247 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -543,7 +543,12 @@ class SymmetricOperatorGenerator:
                         if np.abs(coeff) > tol:
                             proj_op += coeff * basis[ind_basis]
 
-                    proj_op.remove_zeros()
+                    proj_op = proj_op.remove_zeros(tol=tol)
+
+                    # Linearly dependent Operators can add up to zero
+                    # (within the precision of the null vectors).
+                    if proj_op.norm() < np.sqrt(tol):
+                        continue
                     proj_op.normalize()
                 else:
                     raise ValueError('Invalid basis of type: {}'.format(type(basis)))        
-- 
2.43.0


From ae90612860434a59ba08d8ba109eb769f0d563ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 27/59] fix: do not mix the results of repeated calls of
 SymmetricOperatorGenerator.generate

---
 qosy/core.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 75fa247..e50c77d 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -335,6 +335,10 @@ class SymmetricOperatorGenerator:
         
         num_inputs = len(self.input_symmetries)
 
+        # The results are appended to those of the previous calls.
+        start      = len(self.output_operators)
+        start_proj = len(self.projected_output_operators)
+
         if verbose:
             print('===== 1. GENERATING OPERATORS =====')
             print(' STARTING WITH BASIS OF DIM {}'.format(len(self.basis)))
@@ -383,15 +387,15 @@ class SymmetricOperatorGenerator:
                 # projection in the first iteration. The "projected_superoperator"
                 # and its eigenvalues/eigenvectors are the same as the unprojected
                 # one. TODO: This should probably be changed in the future.
-                self.projected_output_operators.append(self.output_operators[ind_output])
+                self.projected_output_operators.append(self.output_operators[start+ind_output])
 
-                self.projected_superoperators.append(self.superoperators[ind_output])
-                self.projected_eigenvalues.append(self.eigenvalues[ind_output])
-                self.projected_eigenvectors.append(self.eigenvectors[ind_output])
+                self.projected_superoperators.append(self.superoperators[start+ind_output])
+                self.projected_eigenvalues.append(self.eigenvalues[start+ind_output])
+                self.projected_eigenvectors.append(self.eigenvectors[start+ind_output])
             else:
                 # Project onto the previous iteration's results.
-                curr_ops   = self.output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.output_operators[start+ind_output]
+                prev_ops   = self.projected_output_operators[start_proj+ind_output-1]
                 
                 # The current projected operators are the intersection
                 # of the current unprojected operators and the previous
@@ -400,7 +404,7 @@ class SymmetricOperatorGenerator:
 
                 # Compute the projected superoperator.
                 proj_curr_ops_sparse    = ss.csr_matrix(proj_curr_ops)
-                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[ind_output])).dot(proj_curr_ops_sparse)
+                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[start+ind_output])).dot(proj_curr_ops_sparse)
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
@@ -429,8 +433,8 @@ class SymmetricOperatorGenerator:
                 print('===== 3. POST-PROCESSING: SPARSIFICATION =====')
 
             for ind_output in range(num_inputs):
-                curr_ops = self.projected_output_operators[ind_output]
-                self.projected_output_operators[ind_output] = sparsify(curr_ops)
+                curr_ops = self.projected_output_operators[start_proj+ind_output]
+                self.projected_output_operators[start_proj+ind_output] = sparsify(curr_ops)
                 if verbose:
                     print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
@@ -444,14 +448,14 @@ class SymmetricOperatorGenerator:
             # The goal here is to find a nicer basis for each of the vector spaces.
             for ind_output in range(num_inputs-1,0,-1):
                 # Orthogonalize against the previous iteration's results.
-                curr_ops   = self.projected_output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.projected_output_operators[start_proj+ind_output]
+                prev_ops   = self.projected_output_operators[start_proj+ind_output-1]
 
                 # The current space is contained in the previous one, so
                 # some of the previous vectors are linearly dependent on the others.
                 matrix = np.hstack((curr_ops, prev_ops))
             
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=1e-6)
+                self.projected_output_operators[start_proj+ind_output-1] = gram_schmidt(matrix, tol=1e-6)
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From 95e9dc22a3de3be346117578fc407b0399a4b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 28/59] fix: handle numerically dependent Operators in
 symmetry_matrix

---
 qosy/transformation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index f4576e7..5e0fb96 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -627,8 +627,9 @@ def _symmetry_matrix_operators(operators, transformation, tol=1e-12):
             col_inds.append(ind_op)
     coeffs_operators = ss.csr_matrix((data, (row_inds, col_inds)), shape=(dim_basis, num_operators), dtype=complex)
     
-    # Calculate the Moore-Penrose pseudo-inverse using numpy.
-    pinv_operators = ss.csr_matrix(nla.pinv(coeffs_operators.toarray()))
+    # Calculate the Moore-Penrose pseudo-inverse using numpy. The Operators
+    # can be linearly dependent up to numerical precision.
+    pinv_operators = ss.csr_matrix(nla.pinv(coeffs_operators.toarray(), rcond=1e-10))
     
     # Assemble the symmetry matrix in the combined Basis of OperatorStrings.
     symmetry_matrix_opstrings = _symmetry_matrix_opstrings(operators_basis, transformation, tol)
-- 
2.43.0


From 24db8838858749f994a73c1790c319f6eef7fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 29/59] fix: discard linearly dependent generators in the
 projector of generate_lie_algebra

---
 qosy/algebra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..6d43499 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -581,9 +581,10 @@ def generate_lie_algebra(operators, tol=1e-12):
         # in the combined_basis.
         vectors = ss.csr_matrix((data, (row_inds, col_inds)), dtype=complex, shape=(len(combined_basis), len(operators)))
 
-        # For simplicity, orthogonalize the vectors.
+        # For simplicity, orthogonalize the vectors
+        # (and discard linearly dependent ones).
         # V = columns are the vectors
-        vectors = gram_schmidt(vectors)
+        vectors = gram_schmidt(vectors, tol=np.sqrt(tol))
 
         # The projection P onto the vector space
         # spanned by vectors.
-- 
2.43.0


From bfb63e46a1bc35bd97b40beae0787795bed379ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 30/59] fix: reorthogonalize in generate_lie_algebra so that
 rounding errors do not make it run away

---
 qosy/algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 6d43499..fb05788 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -661,8 +661,11 @@ def generate_lie_algebra(operators, tol=1e-12):
                     # Update the new vector so that is
                     # orthogonal to the previous vectors
                     # and normalized. Then add it to the vectors.
+                    # Orthogonalize twice so that rounding errors do not build up.
                     vecC -= overlaps
                     vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
+                    vecC -= projector.dot(vecC)
+                    vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
                     # Update the projector.
-- 
2.43.0


From 466dc352b4ffa97bac9ab5eba12a3c1c6c23b061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:32 +0000
Subject: [PATCH 31/59] fix: find the orbitals of atoms several periods outside
 of the unit cell

---
 qosy/lattice.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index a08f928..bab94b1 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -143,6 +143,11 @@ class Lattice:
         self._period_vectors     = np.array([self.num_cells[ind_vec] * np.array(self.unit_cell.lattice_vectors[ind_vec]) for ind_vec in range(self.dim)])
         self._inv_period_vectors = nla.pinv(self._period_vectors)
 
+        # The translations to the periods that contain orbitals. The atoms
+        # of a unit cell do not need to be between its lattice vectors.
+        self._orbital_period_vectors = [np.dot(num_periods, self._period_vectors) for num_periods in
+                                        sorted(set(tuple(self._num_periods(pos)) for (pos, _, _) in self._orbitals))]
+
     def _num_periods(self, displacement):
         # The number of whole periods contained in the displacement
         # (zero in the directions with open boundaries).
@@ -169,14 +174,15 @@ class Lattice:
             The index of the orbital in the lattice.
         """
         
-        # Wrap positions that are more than one period away
-        # back into (or next to) the lattice.
-        position = position - self._num_periods(position).dot(self._period_vectors)
+        # Wrap positions that are more than one period away back into
+        # the lattice, to all the periods that contain orbitals.
+        wrapped_position = position - self._num_periods(position).dot(self._period_vectors)
+        positions        = [position] + [wrapped_position + ov for ov in self._orbital_period_vectors]
 
         # Translate by the boundary vectors associated with
         # the periodic edges. The first boundary vector is the
         # zero vector, which corresponds to no translation.
-        for boundary_vector in self._boundary_vectors:
+        for (position, boundary_vector) in it.product(positions, self._boundary_vectors):
             # Shift the position.
             pos      = position + boundary_vector
             # Make sure the zeros are exactly zero (no floating point roundoff).
-- 
2.43.0


From 8f406785532b684e065de827d0e5372d5231248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 32/59] fix: let to_operator run

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..c0cd046 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From e683fc204df7fca97b82ecf71dc5c9f6437ae039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 33/59] fix: reject orbital labels out of range in to_matrix
 instead of ignoring them

---
 qosy/diagonalization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index c0cd046..612a25b 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -56,6 +56,9 @@ def _apply_opstring(op_string, conf, num_orbitals):
 def _to_matrix_opstring(op_string, num_orbitals, return_tuple=False):
     # Converts an OperatorString to a sparse matrix.
     if op_string.op_type == 'Pauli':
+        if any(label < 0 or label >= num_orbitals for label in op_string.orbital_labels):
+            raise ValueError('The orbital labels of the OperatorString {} are not between 0 and {}.'.format(op_string, num_orbitals-1))
+
         row_inds = []
         col_inds = []
         data     = []
-- 
2.43.0


From b02375bfe433f2c147a84b85921aae3a747239dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 34/59] fix: keep the 2x2 blocks aligned in
 diagonalize_quadratic when there are zero modes

---
 qosy/diagonalization.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 612a25b..0f7ca9c 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -318,6 +318,14 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # where Z is unitary and T is quasi-upper-triangular,
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
+
+    # The zero modes are 1x1 blocks, which can be between the 2x2 blocks.
+    # Move them to the end, so that the 2x2 blocks start at even indices.
+    inds_blocks = [ind for ind in range(2*N-1) if np.abs(T[ind+1,ind]) > threshold]
+    inds_blocks = [ind+offset for ind in inds_blocks for offset in range(2)]
+    inds_modes  = inds_blocks + [ind for ind in range(2*N) if ind not in inds_blocks]
+    T = T[inds_modes, :][:, inds_modes]
+    Z = Z[:, inds_modes]
     
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
-- 
2.43.0


From e7e3a3af514fec0dc098c416b554d8db1c0b5df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 35/59] fix: store the fermionic modes of diagonalize_quadratic
 without overwriting each other

---
 qosy/diagonalization.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 0f7ca9c..04e52b8 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -351,23 +351,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
+            # The columns n are the \bar{c}_n vectors
+            # \bar{c}_n = \sum_m a_m c_m + ...
             eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                           -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                              +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
+            # \bar{c}_n = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[N+m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
+                                            +1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
-                                              -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            # The columns N+n are the \bar{c}_n^\dagger vectors
+            # \bar{c}_n^\dagger = \sum_m b_m^* c_m + ...
+            eigvecs_Fermion[m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                            -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
+
+            # \bar{c}_n^\dagger = ... + \sum_m a_m^* c_m^\dagger
+            eigvecs_Fermion[N+m,N+n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                              +1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From a3ccd16fddd1eac41c4d33c698dbb033b02a2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 36/59] fix: reject transformations that are not permutations
 in apply_transformation

---
 qosy/diagonalization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 04e52b8..46d5330 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -125,6 +125,8 @@ def apply_transformation_conf(transformation, conf, num_orbitals):
         raise ValueError('Transformation is not a valid permutation. Only permutations supported.')
     
     permutation = np.array(permutation, dtype=int)
+    if permutation.shape != (num_orbitals,) or set(permutation) != set(range(num_orbitals)):
+        raise ValueError('Transformation is not a valid permutation. Only permutations supported.')
     
     new_conf = 0
     for label in range(num_orbitals):
@@ -145,6 +147,8 @@ def apply_transformation(transformation, vector, num_orbitals):
         raise ValueError('Transformation is not a valid permutation. Only permutations supported.')
     
     permutation = np.array(permutation, dtype=int)
+    if permutation.shape != (num_orbitals,) or set(permutation) != set(range(num_orbitals)):
+        raise ValueError('Transformation is not a valid permutation. Only permutations supported.')
     
     new_vector = np.zeros(2**num_orbitals, dtype=complex)
     
-- 
2.43.0


From 592242c7d0984ca493b41a2e900015ea0709ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 37/59] fix: let replace do nothing when there is nothing to
 replace

---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index c853a00..8a1597f 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -391,6 +391,9 @@ def replace(string, substitutions):
     
     # From https://gist.github.com/carlsmith/b2e6ba538ca6f58689b4c18f46fef11c
     
+    if len(substitutions) == 0:
+        return string
+
     substrings = sorted(substitutions, key=len, reverse=True)
     regex      = re.compile('|'.join(map(re.escape, substrings)))
 
-- 
2.43.0


From 8fdd7941ec616c3071c68faef6a3c1ca896713f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 38/59] fix: use the Liouvillian matrix that _explore returns
 in the selected CI algorithms

---
 qosy/algorithms.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..87bfb2e 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -298,8 +298,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -436,8 +436,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -577,9 +577,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -587,9 +586,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -622,8 +619,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From b4223ffa310422be9f3521843d95473da8c0490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 39/59] fix: import liouvillian_matrix for selected_ci_simple

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 87bfb2e..b1c22fe 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
-- 
2.43.0


From db36417ddfde758a08c87a1e9c369094c4e4b0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:48 +0000
Subject: [PATCH 40/59] fix: stop selected_ci_greedy_simple when there are no
 terms to add

---
 qosy/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index b1c22fe..246ac43 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -583,6 +583,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
         inds_largest_termsA = np.argsort(np.abs(com_H_operator.toarray().flatten()))[::-1]
+        ind_largest_termB   = None
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
@@ -602,6 +603,10 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
                 break
             else:
                 print('Failed to find a B, picking new A.')
+
+        # Stop if there are no new terms to expand the basis with.
+        if ind_largest_termB is None:
+            break
                 
         # Insert B into the basis
         basis += extended_basis2[ind_largest_termB]
-- 
2.43.0


From caa9ed9aee6b33161643e5d623c80aa324d98c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 41/59] fix: keep only the best operators in
 selected_ci_greedy, so that constraints are not violated and targets do not
 loop forever

---
 qosy/algorithms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 246ac43..d155210 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -936,9 +936,13 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             evals = evals[inds_sort]
             evecs = evecs[:, inds_sort]
 
+        # Only keep the best operators, which satisfy the constraints.
+        evals = evals[:num_vecs]
+        evecs = evecs[:, :num_vecs]
+
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
-        if len(com_ops) > 1 or orth_ops is not None:
+        if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
@@ -968,9 +972,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
             
             if target_fidelity is not None and (fidelity < target_fidelity):
-                # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # If it fails on the first step or with the
+                # whole basis, it likely will keep failing.
+                if step == 0 or num_vecs >= len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From 262369935c2e7c4299a29647983d72ed42a5ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 42/59] fix: do not use more Lanczos vectors than the dimension
 in selected_ci_greedy

---
 qosy/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index d155210..eb03502 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -727,8 +727,6 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
     if num_vecs is None:
         num_vecs = 1
     
-    ncv = 40*num_vecs
-    
     H_labels = np.array([label for os in H._basis for (_, label) in os], dtype=int)
     max_label = np.max(H_labels)
 
@@ -930,6 +928,8 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
         else:
             maxiter  = 10*int(com_matrix.shape[0])*maxiter_scale
             
+            ncv      = min(40*num_vecs, len(basis))
+            
             (evals, evecs) = ssla.eigsh(com_matrix, k=num_vecs, ncv=ncv, sigma=sigma, which='LM', maxiter=maxiter, tol=tol)
 
             inds_sort = np.argsort(np.abs(evals))
-- 
2.43.0


From e99b14877a2c7e5116bbcab674d5a74b0b715133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 43/59] fix: keep the coefficients of the truncated operators
 in the greedy selected CI algorithms

---
 qosy/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index eb03502..e611593 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1030,7 +1030,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
+        new_coeffs = [vector[operator._basis.index(os)] for os in basis]
         operator = Operator(new_coeffs, basis.op_strings)
 
         # Stop early if reached the target commutator norm threshold.
@@ -1262,6 +1262,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         for ind_vec in range(num_ops):
             random_sum_vec += (2.0*np.random.rand()-1.0) * evecs[:,ind_vec]
         random_sum_vec /= nla.norm(random_sum_vec)    
+        expanded_basis = basis
         basis = _truncate_basis(basis, random_sum_vec, threshold=threshold, max_basis_size=max_basis_size)
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
@@ -1269,7 +1270,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
+            new_coeffs = [evecs[expanded_basis.index(os),ind_vec] for os in basis]
             new_op     = Operator(new_coeffs, basis.op_strings)
             current_operators.append(new_op)
         
-- 
2.43.0


From 02f4c807c480d4121c81bd10a17ac22758193531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:15 +0000
Subject: [PATCH 44/59] fix: explore every operator string with the whole
 explored basis in the selected CI algorithms

---
 qosy/algorithms.py | 50 +++++++++++++++++++++++-----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index e611593..8d08e8f 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -124,35 +124,35 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
     # the given Basis. Update the explored_basis, explored_extended_basis,
     # and explored_s_constants variables as you go.
 
-    # First, find the part of basis that is unexplored.
+    # The OperatorStrings whose commutators are already explored.
+    explored_op_strings = list(explored_s_constants_data.keys())
+    
+    # First, find the parts of H and of basis that are unexplored.
+    new_op_strings   = [os for (coeff, os) in H if os not in explored_s_constants_data]
     unexplored_basis = Basis([os for os in basis if os not in explored_basis])
 
-    # Then explore that part.
-    (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(unexplored_basis, H._basis, return_extended_basis=True, return_data_tuple=True)
+    # Then explore those parts, so that each explored OperatorString
+    # of H (or of a previous H) is explored for the whole explored basis.
+    explorations = [(explored_basis, Basis(new_op_strings)), (unexplored_basis, Basis(explored_op_strings + new_op_strings))]
+    explorations = [[basis1, basis2] + structure_constants(basis1, basis2, return_extended_basis=True, return_data_tuple=True) for (basis1, basis2) in explorations]
 
     # Update the explored Bases.
-    explored_basis          += unexplored_basis
-    explored_extended_basis += unexplored_extended_basis
-
-    # Update the explored structure constants data.
-    for (coeff, os) in H:
-        # The new information found from exploring.
-        row_inds_unexplored = [explored_extended_basis.index(unexplored_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in unexplored_s_constants_data[os][0]]
-        col_inds_unexplored = [explored_basis.index(unexplored_basis.op_strings[ind_b_os]) for ind_b_os in unexplored_s_constants_data[os][1]]
-        data_unexplored     = unexplored_s_constants_data[os][2]
-
-        # The old information from previous exploration.
-        if os in explored_s_constants_data:
-            old_row_inds = explored_s_constants_data[os][0]
-            old_col_inds = explored_s_constants_data[os][1]
-            old_data     = explored_s_constants_data[os][2]
-        else:
-            old_row_inds = []
-            old_col_inds = []
-            old_data     = []
-            
-        # The update
-        explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored)
+    explored_basis += unexplored_basis
+    for (basis1, basis2, new_s_constants_data, new_extended_basis) in explorations:
+        explored_extended_basis += new_extended_basis
+
+        # Update the explored structure constants data.
+        for os in basis2:
+            # The new information found from exploring.
+            new_row_inds = [explored_extended_basis.index(new_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in new_s_constants_data[os][0]]
+            new_col_inds = [explored_basis.index(basis1.op_strings[ind_b_os]) for ind_b_os in new_s_constants_data[os][1]]
+            new_data     = new_s_constants_data[os][2]
+
+            # The old information from previous exploration.
+            (old_row_inds, old_col_inds, old_data) = explored_s_constants_data.get(os, ([], [], []))
+
+            # The update
+            explored_s_constants_data[os] = (old_row_inds + new_row_inds, old_col_inds + new_col_inds, old_data + new_data)
     
     # From the collected information, find the
     # extended_basis corresponding to basis.
-- 
2.43.0


From fbd13c38cc71f8846b00309d03a87761a8d14e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 45/59] fix: relabel orbitals whose names are not strings

---
 qosy/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 41838fd..e6f9ffd 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -83,7 +83,7 @@ def relabel_orbitals(string, lattice):
         # 3) Any extra orbital information (like "Up" or "Dn"
         # for spin-1/2 orbitals).
         if orb_name !='':
-            orbital_info += '; '+orb_name+'}'
+            orbital_info += '; '+str(orb_name)+'}'
         else:
             orbital_info += '}'
         
-- 
2.43.0


From dd8df93b41811d403c031a1829c914cc3ab0a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 46/59] fix: print zero operators with any norm_order

---
 qosy/visualization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index e6f9ffd..ccf4c21 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -137,7 +137,8 @@ def print_vectors(basis, vectors, lattice=None, keywords=None, convert_to=None,
     ind_vec = 1
     for operator in operators:
         cleaned_operator = operator.remove_zeros(tol=tol)
-        cleaned_operator.normalize(order=norm_order)
+        if len(cleaned_operator) > 0:
+            cleaned_operator.normalize(order=norm_order)
         print('vector {} = '.format(ind_vec))
 
         output_string = str(cleaned_operator)
@@ -195,7 +196,8 @@ def print_operators(operators, lattice=None, keywords=None, convert_to=None, nor
     ind_vec = 1
     for operator in operators_to_print:
         cleaned_operator = operator.remove_zeros(tol=tol)
-        cleaned_operator.normalize(order=norm_order)
+        if len(cleaned_operator) > 0:
+            cleaned_operator.normalize(order=norm_order)
 
         print('operator {} = '.format(ind_vec))
 
-- 
2.43.0


From 08aef66ec9c68e9980038a53aad119ae59b8cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 47/59] fix: plot identity strings and many-orbital strings on
 chains

---
 qosy/visualization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index ccf4c21..3f8e973 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -421,6 +421,10 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
     
     weight = np.real(weight)
 
+    # The identity is not on any orbital.
+    if len(op_string.orbital_operators) == 0:
+        return
+
     # 1D or 2D plots
     if lattice.dim == 1 or lattice.dim == 2:
         if len(op_string.orbital_operators) == 1:
@@ -469,6 +473,8 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
                 plt.plot([pos1[0], pos2[0]], [pos1[1], pos2[1]], 'r-', linewidth=max_width*np.abs(weight), alpha=0.5*np.abs(weight))
         else:
             positions = [lattice._orbitals[orb_label][0] for (orb_op, orb_label) in op_string]
+            if lattice.dim == 1:
+                positions = [np.array([pos[0], 0.0]) for pos in positions]
             num_pos = len(positions)
 
             # Order the points by angles from a reference point.
-- 
2.43.0


From d3bbcbcffa7ee4b65a80f758c8b7b6ecee256bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:47 +0000
Subject: [PATCH 48/59] fix: return all commuting operators and no wrong
 solutions from _inverse_ladder_operators

---
 qosy/core.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index e50c77d..686f74b 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -1072,11 +1072,17 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     
     # The right null vectors of the Liouvillian matrix.
     (left_svecs, svals, right_svecs_dag) = nla.svd(L.toarray())
-    inds_null_space = np.where(np.abs(svals) < tol)[0]
-    right_null_vecs = np.conj(right_svecs_dag.T)[:, inds_null_space]
+    # (There are fewer singular values than right singular vectors if L is wide.)
+    num_nonzero_svals = np.sum(np.abs(svals) >= tol)
+    right_null_vecs   = np.conj(right_svecs_dag.T)[:, num_nonzero_svals:]
 
     if sparsification:
         right_null_vecs = sparsify(right_null_vecs)
+
+    if return_operators:
+        null_vecs = [Operator(right_null_vecs[:, ind_ev], basisA.op_strings) for ind_ev in range(right_null_vecs.shape[1])]
+    else:
+        null_vecs = right_null_vecs
     
     # Check if the ladder operator can be expressed in basisB.
     check_ladder_op_in_B = True
@@ -1088,7 +1094,7 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     # homogenous solutions (symmetries) and
     # no particular solution.
     if not check_ladder_op_in_B:
-        return (None, right_null_vecs)
+        return (None, null_vecs)
     
     vector_ladder_op = ladder_operator.to_vector(basisB)
     
@@ -1098,6 +1104,12 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     # The particular solution.
     vector_inverse_op = np.dot(L_pinv, vector_ladder_op)
 
+    # There is no particular solution if the
+    # commutator cannot be made equal to the ladder operator.
+    residual = np.dot(L.toarray(), vector_inverse_op) - vector_ladder_op
+    if nla.norm(residual) > np.sqrt(tol) * nla.norm(vector_ladder_op):
+        return (None, null_vecs)
+
     # TODO: modify. Keep only the real null vectors.
 
     print('basisA:\n{}\nbasisB:\n{}'.format(basisA,basisB))
@@ -1108,20 +1120,10 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     
     if not return_operators:
         vector_inverse_op /= nla.norm(vector_inverse_op)
-        return (vector_inverse_op, right_null_vecs)
+        return (vector_inverse_op, null_vecs)
     else:
         inverse_op = Operator(vector_inverse_op, basisA.op_strings)
         inverse_op = inverse_op.remove_zeros(tol=tol)
         inverse_op.normalize()
-        
-        null_vec_ops = []
-        if isinstance(basis, Basis):
-            for ind_ev in range(right_null_vecs.shape[1]):
-                null_vec_op = Operator(right_null_vecs[:, ind_ev], basisA.op_strings)
-                null_vec_ops.append(null_vec_op)
-        elif isinstance(basis, list) and isinstance(basis[0], Operator):
-            raise NotImplementedError('A basis made of a list of Operators is not supported yet.')
-        else:
-            raise ValueError('Invalid basis of type: {}'.format(type(basis)))
 
-        return (inverse_op, null_vec_ops)
+        return (inverse_op, null_vecs)
-- 
2.43.0


From 29d528a3934ac03e9b5479787ec7f9a324f0d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:07 +0000
Subject: [PATCH 49/59] fix: only keep ladder operators whose commutators stay
 in the basis, and all of them

---
 qosy/core.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 686f74b..8766391 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -859,11 +859,31 @@ def _ladder_operators(basis, operator, sparsification=False, tol=1e-12, return_o
         # applying the Liouvillian matrix.
         (left_svecs, svals, right_svecsH) = nla.svd(L_notAB)
 
-        inds_zero_svals = np.where(np.abs(svals) < tol)[0]
-        print('inds_zero_svals = {}'.format(inds_zero_svals))
-        valid_vecs      = np.conj(np.transpose(right_svecsH))[:, inds_zero_svals]
+        # (There are fewer singular values than right singular vectors if L_notAB is wide.)
+        num_nonzero_svals = np.sum(np.abs(svals) >= tol)
+        valid_vecs        = np.conj(np.transpose(right_svecsH))[:, num_nonzero_svals:]
         
         print('svals      = {}'.format(svals))
+
+        # Discard the vectors that the Liouvillian matrix takes out of the
+        # space of valid vectors until that space is invariant.
+        num_discarded = num_nonzero_svals
+        while num_discarded > 0 and valid_vecs.shape[1] > 0:
+            L_valid  = np.dot(L_AB, valid_vecs)
+            L_valid -= np.dot(valid_vecs, np.dot(np.conj(np.transpose(valid_vecs)), L_valid))
+            
+            (left_svecs, svals, right_svecsH) = nla.svd(L_valid)
+            num_discarded = np.sum(np.abs(svals) >= tol)
+            valid_vecs    = np.dot(valid_vecs, np.conj(np.transpose(right_svecsH))[:, num_discarded:])
+
+        if valid_vecs.shape[1] == 0:
+            if return_operators:
+                evecs_ladder_ops = []
+            else:
+                evecs_ladder_ops = np.zeros((len(basisA), 0), dtype=complex)
+            
+            return (evecs_ladder_ops, np.zeros(0, dtype=complex))
+        
         #print('valid_vecs = {}'.format(valid_vecs))
 
         # The L_A matrix projected onto the valid vectors that stay in basisA.
-- 
2.43.0


From 70086d1d4485bcaf1c9f611728bec0f5eec00790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 50/59] fix: do not invert rounding errors in
 _inverse_ladder_operators

---
 qosy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 8766391..20ad1c1 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -1119,7 +1119,7 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     vector_ladder_op = ladder_operator.to_vector(basisB)
     
     # The pseudo-inverse of the Liouvillian matrix.
-    L_pinv = nla.pinv(L.toarray())
+    L_pinv = nla.pinv(L.toarray(), rcond=tol)
 
     # The particular solution.
     vector_inverse_op = np.dot(L_pinv, vector_ladder_op)
-- 
2.43.0


From 4873ce1ccd86839bfacd71b8be9c44afe01ecf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 51/59] fix: conversion_matrix of an empty Basis

---
 qosy/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index 0958aa8..f6c437a 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -469,7 +469,7 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
         warnings.warn('Creating a non-invertible transformation matrix between bases of different sizes: {} {}'.format(len(basis_from), len(basis_to)))
 
     if len(basis_from) == 0:
-        return ss.csr_matrix(dtype=complex,shape=(0,0))
+        return ss.csr_matrix((len(basis_to),0), dtype=complex)
     
     to_op_type = basis_to.op_strings[0].op_type
     
-- 
2.43.0


From c07854c5557bb2e01331d073e5886624df49acc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 52/59] fix: mark both orbitals of a two-orbital operator with
 their own colors

---
 qosy/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 3f8e973..5e896a6 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -459,11 +459,11 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
 
             # TODO: flag to plot only bonds involving a particular site
 
-            plt.plot([pos1[0]], [pos1[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos1[0]], [pos1[1]], 'o', color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name1 != '':
                 plt.annotate(orb_name1, xy=(pos1[0],pos1[1]), color='k')
             
-            plt.plot([pos2[0]], [pos2[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos2[0]], [pos2[1]], 'o', color=markercolors[orb_op2], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name2 != '':
                 plt.annotate(orb_name2, xy=(pos2[0],pos2[1]), color='k')
 
@@ -543,7 +543,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
             if orb_name1 != '':
                 ax.text(pos1[0], pos1[1], pos1[2], orb_name1, size=20, zorder=1)
 
-            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op1], alpha=0.5*np.abs(weight), s=marker_size)
+            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op2], alpha=0.5*np.abs(weight), s=marker_size)
             if orb_name2 != '':
                 ax.text(pos2[0], pos2[1], pos2[2], orb_name2, size=20, zorder=1)
 
-- 
2.43.0


From fadcdbc3cd3eddb60243786920e17ec231d6ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 53/59] fix: annotate the orbitals of all unit cells in 3D
 plots

---
 qosy/visualization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 5e896a6..9ae9622 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -393,13 +393,15 @@ def plot(lattice, with_labels=False, with_lattice_vectors=True, with_unit_cell=F
         
         if with_labels:
             label = 0
-            for (pos_atom, orbitals_atom) in zip(lattice.unit_cell.atom_positions, lattice.unit_cell.atom_orbitals):
-                labels_atom = []
-                for orbital in orbitals_atom:
-                    labels_atom.append(label)
-                    label += 1
-                
-                ax.text(pos_atom[0], pos_atom[1], pos_atom[2], str(labels_atom), size=20, zorder=1)
+            while label < len(lattice):
+                # Annotate the atoms of the next unit cell.
+                for orbitals_atom in lattice.unit_cell.atom_orbitals:
+                    if len(orbitals_atom) == 0:
+                        continue
+
+                    labels_atom = list(range(label, label+len(orbitals_atom)))
+                    ax.text(xs[label], ys[label], zs[label], str(labels_atom), size=20, zorder=1)
+                    label += len(orbitals_atom)
     else:
         raise ValueError('Cannot plot a {}-dimensional lattice.'.format(lattice.dim))
 
-- 
2.43.0


From 5f2733e1dbe04711f2a3d3c182f77f5acc4b42db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 54/59] fix: plot the Wigner-Seitz cell of skewed lattice
 vectors

---
 qosy/visualization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 9ae9622..19343ac 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -324,11 +324,21 @@ def plot(lattice, with_labels=False, with_lattice_vectors=True, with_unit_cell=F
                 plt.arrow(0.0, 0.0, v[0], v[1], color='r', head_width=0.1, length_includes_head=True)
 
         if with_wigner_seitz:
+            # The neighbors are only the closest lattice points
+            # for a pair of reduced (shortest) lattice vectors.
+            (v1, v2) = lattice.unit_cell.lattice_vectors
+            while True:
+                if nla.norm(v1) > nla.norm(v2):
+                    (v1, v2) = (v2, v1)
+                num_shifts = np.round(np.dot(v1, v2) / np.dot(v1, v1))
+                if num_shifts == 0 or nla.norm(v2 - num_shifts*v1) >= nla.norm(v2):
+                    break
+                v2 = v2 - num_shifts*v1
+
             points = []
             for n1 in [-1,0,1]:
                 for n2 in [-1,0,1]:
-                    points.append(n1*lattice.unit_cell.lattice_vectors[0] + \
-                                  n2*lattice.unit_cell.lattice_vectors[1])
+                    points.append(n1*v1 + n2*v2)
 
             points = np.array(points)
             vor = ssp.Voronoi(points)
-- 
2.43.0


From accef777938e67fc0bf56caeaf06f5960f28af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 55/59] fix: warn about negative imaginary coefficients in
 plots

---
 qosy/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 19343ac..e4ba6d2 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -428,7 +428,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
         
     max_width = 3.0
     
-    if np.imag(weight) > 1e-10:
+    if np.abs(np.imag(weight)) > 1e-10:
         warnings.warn('Cannot plot an operator string with an imaginary coefficient. Taking real part.')
     
     weight = np.real(weight)
-- 
2.43.0


From 8d8fb3e2490269ebea5e17f44d8c35885d481637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 56/59] fix: refuse products and commutators of strings of
 different types

---
 qosy/algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index fb05788..a30f7b7 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -27,6 +27,8 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     op_type = op_string_A.op_type
     if not (op_type == 'Pauli' or op_type == 'Majorana'):
         raise NotImplementedError('Unsupported commutator between operator strings of type: {}'.format(op_type))
+    if op_string_B.op_type != op_type:
+        raise ValueError('Cannot perform algebraic operation {} between OperatorStrings of types {} and {}.'.format(operation_mode, op_type, op_string_B.op_type))
 
     if operation_mode == 'product' \
        and (op_type == 'Pauli' or op_type == 'Majorana') \
-- 
2.43.0


From 5c13becdcc2f2a19eb588c7fd5b7a9345a81f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 57/59] fix: refuse OperatorStrings of unknown types or
 operators

---
 qosy/operatorstring.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index c0888d4..8001b41 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -125,6 +125,13 @@ class OperatorString:
         if len(self.orbital_operators) != len(self.orbital_labels):
             raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
+        valid_ops = {'Pauli': PAULI_OPS, 'Majorana': MAJORANA_OPS, 'Fermion': FERMION_OPS}.get(op_type, None)
+        if valid_ops is None:
+            raise ValueError('Unknown operator string type: {}'.format(op_type))
+        for orbital_operator in self.orbital_operators:
+            if orbital_operator not in valid_ops:
+                raise ValueError('Invalid orbital operator {} for an OperatorString of op_type {}'.format(orbital_operator, op_type))
+
         self.prefactor = prefactor
 
         # Stored for use in computing commutators.
-- 
2.43.0


From 0ce95e60442624573a3d4327686038799efca24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:35 +0000
Subject: [PATCH 58/59] fix: sparsify returned its argument when there was one
 vector

---
 qosy/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 8a1597f..73c7d10 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -563,7 +563,7 @@ def sparsify(vectors, orthogonalize=True, tol=1e-12):
     num_vectors = int(vectors.shape[1])
     
     if num_vectors <= 1:
-        return vectors
+        return vectors.copy()
     
     # Perform an LU decomposition, which
     # will do a reduced-row echelon form
-- 
2.43.0


From 3b6fa9734f8284c7ead12b354f47c21f6517dd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:53 +0000
Subject: [PATCH 59/59] fix: apply_transformation_conf for configurations of 64
 or more orbitals

---
 qosy/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 46d5330..98e71a9 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -130,7 +130,7 @@ def apply_transformation_conf(transformation, conf, num_orbitals):
     
     new_conf = 0
     for label in range(num_orbitals):
-        new_label = permutation[label]
+        new_label = int(permutation[label])
         mask_old_label = (1 << (num_orbitals-1-label))
         mask_new_label = (1 << (num_orbitals-1-new_label))
         
-- 
2.43.0

