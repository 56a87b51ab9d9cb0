From da1e8f4337d4265e0a71cd15f1c25efcb4c72f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 01/18] fix: hash Index by (space, number), the pair its
 equality compares

Index('a1') == Index('a01') but the two hashed differently, so repeated
indices went unnoticed in Indices.
---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index dcdc216..885575d 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -73,7 +73,7 @@ class Index:
         return (space_priority[self.space], self.number) >= (space_priority[other.space], other.number)
 
     def __hash__(self):
-        return hash(self.name)
+        return hash((self.space, self.number))
 
     def latex(self, dollar=False):
         out = f"{self.space}_{{{self.number}}}"
-- 
2.43.0


From d7cbe72dbc3b85d0105baaa903b50f0d83db23e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 02/18] fix: reject an empty Index name with ValueError instead
 of IndexError

---
 dsrg_generator/Index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/Index.py b/dsrg_generator/Index.py
index 885575d..2c8fbf8 100644
--- a/dsrg_generator/Index.py
+++ b/dsrg_generator/Index.py
@@ -12,7 +12,7 @@ class Index:
         if not check_str:
             raise TypeError("Index name has to be string type.")
 
-        s = name[0]
+        s = name[:1]
         n = name[1:]
         if s not in space_priority:
             msg = "Improper Index name:\n"
-- 
2.43.0


From 4a18f0796f0a2ea832d66d8456a5b571b27931cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 03/18] fix: give every iteration over Indices its own iterator

Nested or interleaved loops over the same Indices object shared one
counter and dropped or skipped elements.
---
 dsrg_generator/Indices.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/dsrg_generator/Indices.py b/dsrg_generator/Indices.py
index 73e754a..2bd76d8 100644
--- a/dsrg_generator/Indices.py
+++ b/dsrg_generator/Indices.py
@@ -168,15 +168,7 @@ class Indices:
         return (self.size, self.indices) >= (other.size, other.indices)
 
     def __iter__(self):
-        self.n = 0
-        return self
-
-    def __next__(self):
-        if self.n < self.size:
-            self.n += 1
-            return self.indices[self.n - 1]
-        else:
-            raise StopIteration
+        return iter(self.indices)
 
     def __getitem__(self, key):
         # index out-of-range handled by python list
-- 
2.43.0


From be9a6175d754219344df6f0b5d756b361cc038d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 04/18] fix: SpaceCounter reads indices_type, the attribute
 tensors have

---
 SpaceCounter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpaceCounter.py b/SpaceCounter.py
index 034c095..8635638 100644
--- a/SpaceCounter.py
+++ b/SpaceCounter.py
@@ -18,11 +18,11 @@ class SpaceCounter:
         if not isinstance(tensor2, (Tensor, SecondQuantizedOperator)):
             raise TypeError(f"Invalid input for tensor2, given '{tensor2.__class__.__name__}',"
                             f" required 'Tensor'.")
-        if tensor1.type_of_indices is not tensor2.type_of_indices:
+        if tensor1.indices_type is not tensor2.indices_type:
             raise ValueError(f"Two tensors are of different indices type:"
-                             f" '{tensor1.type_of_indices}' and '{tensor2.type_of_indices}'.")
+                             f" '{tensor1.indices_type}' and '{tensor2.indices_type}'.")
 
-        _space_priority = space_priority_so if tensor1.type_of_indices is IndicesSpinOrbital else space_priority
+        _space_priority = space_priority_so if tensor1.indices_type is IndicesSpinOrbital else space_priority
         length = len(_space_priority)
         self._upper = [0] * length
         self._lower = [0] * length
-- 
2.43.0


From a2d89daff70b80a3a39155f9a72d39c0478fdfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 05/18] fix: bch_cc_rsc keeps the active blocks of the
 Hamiltonian for multireference

The bare Hamiltonian was always expanded with single_reference=True, so
every term with an active index was missing when single_reference=False.
---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index a3e0bc0..434e03e 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -344,11 +344,11 @@ def bch_cc_rsc(nested_level, cluster_levels, max_cu_levels, n_opens, for_commuta
             for i in range(nested_level)]
 
     out = defaultdict(list)
-    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    out[0] = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+             combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
-    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(True)]) + \
-                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(True)])
+    left_pool = combine_terms([x for x in hamiltonian_operator(1).expand_composite_indices(single_reference)]) + \
+                combine_terms([x for x in hamiltonian_operator(2).expand_composite_indices(single_reference)])
 
     for i in range(1, nested_level + 1):
         factor = 1.0 / i
-- 
2.43.0


From 317ac59651373966ef882d2fc5ba74c4537759b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 06/18] fix: combine_terms leaves the coefficients of its input
 terms alone

---
 dsrg_generator/phys_op_contraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 434e03e..f870168 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -149,6 +149,7 @@ def combine_terms(terms):
 
     out = []
     for name, term in terms_dict.items():
+        term = Term.from_term(term)
         term.coeff = sum(terms_to_coeff[name])
         if not term.is_void():
             out.append(term)
-- 
2.43.0


From 2e84a1872f8f1479bbeb2702549ae3d3bf8c43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 07/18] fix: MOSpaceCounter adds alpha and beta counts of the
 same space

With both 'c' and 'C' given, the later one replaced the earlier one in
raw_counter, on which equality and repr are based.
---
 dsrg_generator/mo_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/mo_space.py b/dsrg_generator/mo_space.py
index 77b1a94..6144e75 100644
--- a/dsrg_generator/mo_space.py
+++ b/dsrg_generator/mo_space.py
@@ -78,7 +78,9 @@ class MOSpaceCounter:
                 else:
                     idict['v'] += n
 
-        self._input_counter = {k.lower(): v for k, v in input_counter.items()}
+        self._input_counter = {}
+        for k, v in input_counter.items():
+            self._input_counter[k.lower()] = self._input_counter.get(k.lower(), 0) + v
 
         self._parsed_counter = [idict['v'], idict['c'], idict['a']]
         self._overall_scaling = sum(self._parsed_counter)
-- 
2.43.0


From 204fc84634a1efb8402ebfbbacc151962557b15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 08/18] fix: canonicalize returns a void term when the term
 vanishes by symmetry

SymPy's canonicalize gives 0 there, which raised TypeError.
---
 dsrg_generator/Term.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 41b1cb8..27fe87f 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -770,6 +770,8 @@ class Term:
 
         # canonicalize indices
         gc = canonicalize(Permutation(g), dummies, [0] * len(dummies), *bsgs_list)
+        if gc == 0:  # SymPy returns 0 for a term that vanishes by symmetry
+            return self.void()
 
         # translate gc to Tensor and SecondQuantizedOperator
         ann_ops = self.sq_op.indices_type([dummy_indices[i // 2] for i in gc[:self.sq_op.n_ann]])
-- 
2.43.0


From 5b310d80f1f1dc9f2239359f1ca1759b5781da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 09/18] fix: leave the backtracking room for one frame per
 elementary contraction

The limit was set to exactly the number of elementary contractions (and
could lower the limit in force), so CPython ran out of frames.
---
 dsrg_generator/sqop_contraction.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/sqop_contraction.py b/dsrg_generator/sqop_contraction.py
index f8403ac..a8ef8d4 100644
--- a/dsrg_generator/sqop_contraction.py
+++ b/dsrg_generator/sqop_contraction.py
@@ -451,8 +451,7 @@ def compute_operator_contractions_connected(ops_list, max_cu=3, max_n_open=6, mi
     # important to put pairwise contractions at the end due to contracted_operator_backtrack_macro
     elementary_sequence = sorted(elementary_contractions.keys(), key=lambda x: (len(x), x), reverse=True)
     ele_con = ElementaryContractionCategorized(elementary_contractions, elementary_sequence)
-    if ele_con.size() > 1000:
-        sys.setrecursionlimit(ele_con.size())
+    sys.setrecursionlimit(max(sys.getrecursionlimit(), ele_con.size() + 1000))
 
     # compatible contractions
     compatible = ele_con.compatible_elementary_contractions()
@@ -713,8 +712,7 @@ def compute_operator_contractions_general(ops_list, max_cu=3, max_n_open=6, min_
     compatible = compute_compatible_elementary_contractions_list(elementary_contractions)
 
     n_ele_con = len(elementary_contractions)
-    if n_ele_con > 1000:
-        sys.setrecursionlimit(n_ele_con)
+    sys.setrecursionlimit(max(sys.getrecursionlimit(), n_ele_con + 1000))
 
     if n_process == 1:
         for con in composite_contractions_backtrack(set(range(n_ele_con)), set(), compatible, 0,
-- 
2.43.0


From 8d132baefb5e02a1d81b05bf422d310444a68a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 10/18] fix: save_terms_ambit_functions accepts terms with
 density cumulants

They raised KeyError because the tensor ordering had no L entries.
---
 dsrg_generator/write_forte_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 9a6c967..6fedb75 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -17,6 +17,7 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     tensor_ordering = {f"H{i}": i for i in range(1, 10)}
     tensor_ordering.update({f"T{i}": i + 100 for i in range(1, 10)})
+    tensor_ordering.update({f"L{i}": i + 150 for i in range(1, 10)})
     tensor_ordering.update({f"C{i}": i + 200 for i in range(10)})
     tensor_types = {i: 'double' if i == 'C0' else 'BlockedTensor' for i in tensor_ordering}
 
-- 
2.43.0


From c2b5031cf2db40d43015a395222021ceaaabbcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 11/18] fix: the saved driver function scales its results by
 factor

The scaling statements were collected but never written, so the factor
argument of the generated C++ function had no effect.
---
 dsrg_generator/write_forte_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index 6fedb75..a1a9236 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -76,7 +76,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
                 suffix.append(f'{i}["{upper},{lower}"] += {name}["{lower},{upper}"];')
 
     func += indent.join(prefix) + '\n' + indent
-    func += indent.join(func_calls) + '\n'
+    func += indent.join(func_calls) + '\n' + indent
+    func += indent.join(scale) + '\n'
     if suffix:
         func += indent
     func += indent.join(suffix)
-- 
2.43.0


From 1349bdc3faf861b31c8d5804ca89287e40054cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:48 +0000
Subject: [PATCH 12/18] fix: declare temp in the saved driver function whenever
 it is used

The declaration was only written when there was a scalar block.
---
 dsrg_generator/write_forte_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsrg_generator/write_forte_functions.py b/dsrg_generator/write_forte_functions.py
index a1a9236..dd1132f 100644
--- a/dsrg_generator/write_forte_functions.py
+++ b/dsrg_generator/write_forte_functions.py
@@ -56,6 +56,8 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
     suffix = []
     if add_t_dagger:
+        if not destroy_h and any(i != 'C0' for i in func_targets):
+            suffix.append('BlockedTensor temp;')
         for i in func_targets:
             n_body = int(i[1:])
             upper = ','.join(f'g{i}' for i in range(n_body))
@@ -63,8 +65,6 @@ def save_terms_ambit_functions(input_terms, func_name, namespace, path_dir, add_
 
             if i == 'C0':
                 suffix.append('C0 *= 2.0;')
-                if not destroy_h:
-                    suffix.append('BlockedTensor temp;')
             else:
                 name = f'H{n_body}'
                 if not destroy_h:
-- 
2.43.0


From d25db83890e5a319bba70038cd906ca17bbcda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:06 +0000
Subject: [PATCH 13/18] fix: print_terms_latex ends every row of a block but
 the last

---
 dsrg_generator/phys_op_contraction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index f870168..292cf7f 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -494,10 +494,10 @@ def print_terms_latex(input_terms):
 
     for block in block_repr.keys():
         print("\\begin{align}")
-        for perm, terms in block_repr[block].items():
-            i_last = len(terms) - 1
-            for i, term in enumerate(terms):
-                print(term.latex(delimiter=True, backslash=(i != i_last)))
+        terms = [term for terms in block_repr[block].values() for term in terms]
+        i_last = len(terms) - 1
+        for i, term in enumerate(terms):
+            print(term.latex(delimiter=True, backslash=(i != i_last)))
         print("\\end{align}\n")
 
 # def print_terms_ambit_symmetric(input_terms):
-- 
2.43.0


From 74a12070b3200c7d5a915438fdb15b5c12ddcb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 14/18] fix: make_excitation keeps beta labels of
 spin-integrated terms

---
 dsrg_generator/Term.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 27fe87f..6d54747 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -1053,16 +1053,18 @@ class Term:
         replacement = {}
         next_index_number = {i: 0 for i in self.next_index_number.keys()}
         for i in self.sq_op.cre_ops:
-            overlap = space_relation[part] & space_relation[i.space]
+            label = part.upper() if i.is_beta() else part
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = part if overlap == space_relation[part] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
         for i in self.sq_op.ann_ops:
-            overlap = space_relation[hole] & space_relation[i.space]
+            label = hole.upper() if i.is_beta() else hole
+            overlap = space_relation[label] & space_relation[i.space]
             if len(overlap) == 0:
                 return self.void()
-            s = hole if overlap == space_relation[hole] else overlap.pop()
+            s = label if overlap == space_relation[label] else overlap.pop()
             replacement[i] = self._generate_next_index(s, next_index_number)
 
         for tensor in self.list_of_tensors:
-- 
2.43.0


From 8d21d8f48a121708adabac02b1eb7819a9c49e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:29 +0000
Subject: [PATCH 15/18] fix: integer_partition(1) yields the partition 1

---
 dsrg_generator/helper/integer_partition.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsrg_generator/helper/integer_partition.py b/dsrg_generator/helper/integer_partition.py
index 8ca282d..d3f16f0 100644
--- a/dsrg_generator/helper/integer_partition.py
+++ b/dsrg_generator/helper/integer_partition.py
@@ -9,10 +9,8 @@ def integer_partition(n):
     x = [1] * n
     x[0] = n
     m, h = 1, 1
+    yield x[:1]
     while x[0] != 1:
-        if x[0] == n:
-            yield x[:1]
-
         if x[h - 1] == 2:
             m += 1
             x[h - 1] = 1
-- 
2.43.0


From 903ee050ed160d114eb6ed44357e2a4f0517cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 16/18] fix: simplify relabels everything joined to a diagonal
 index

A Kronecker delta between a diagonal index and another label left the other
label behind when the diagonal index was renamed, so the simplified term was
not connected or had another value.
---
 dsrg_generator/Term.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dsrg_generator/Term.py b/dsrg_generator/Term.py
index 6d54747..ba85b6a 100644
--- a/dsrg_generator/Term.py
+++ b/dsrg_generator/Term.py
@@ -521,13 +521,18 @@ class Term:
         list_of_tensors, replacement_delta, replacement_diagonal_delta = self._remove_kronecker_delta()
         replacement.update(replacement_delta)
 
-        # consider diagonal indices
+        # consider diagonal indices, those joined by a Kronecker delta share one label
+        diagonal_groups = []
         for index in self.diagonal_indices:
-            replacement_diagonal = replacement_diagonal_cu[index] | replacement_diagonal_delta[index]
-            overlap = set.intersection(*(space_relation[i.space] for i in replacement_diagonal))
-            replacement[index] = self._generate_next_index(find_space_label(overlap), self.next_index_number)
-            for i in replacement_diagonal:
-                replacement[i] = replacement[index]
+            group = replacement_diagonal_cu[index] | replacement_diagonal_delta[index]
+            for other in [i for i in diagonal_groups if not group.isdisjoint(i)]:
+                diagonal_groups.remove(other)
+                group |= other
+            diagonal_groups.append(group)
+        for group in diagonal_groups:
+            overlap = set.intersection(*(space_relation[i.space] for i in group))
+            new_index = self._generate_next_index(find_space_label(overlap), self.next_index_number)
+            replacement.update({i: new_index for i, j in replacement.items() if i in group or j in group})
         self._sq_op = self._replace_sq_op_indices(self.sq_op, replacement)
 
         # remove all-active amplitudes
-- 
2.43.0


From d6e35dd90eb4a3d4fb926a931f9c6d56ec8278d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:46 +0000
Subject: [PATCH 17/18] fix: canonicalize keeps creators and annihilators of a
 non-conserving operator apart

---
 dsrg_generator/IndicesPair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsrg_generator/IndicesPair.py b/dsrg_generator/IndicesPair.py
index ef6cd3a..050d884 100644
--- a/dsrg_generator/IndicesPair.py
+++ b/dsrg_generator/IndicesPair.py
@@ -298,7 +298,8 @@ class IndicesPair:
         if not hermitian:
             u_base, u_gens = get_symmetric_group_sgs(self.n_upper, 1)
             l_base, l_gens = get_symmetric_group_sgs(self.n_lower, 1)
-            return bsgs_direct_product(u_base, u_gens, l_base, l_gens)
+            # lower indices come first, see Term.canonicalize_sympy
+            return bsgs_direct_product(l_base, l_gens, u_base, u_gens)
 
         if self.n_upper != self.n_lower:
             raise ValueError(f"{self} cannot be Hermitian.")
-- 
2.43.0


From 025c94d3f6999640c1f2e61be337ba2d5ea04f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:05 +0000
Subject: [PATCH 18/18] fix: contract_terms ignored the open-index window for
 fewer than two operators

---
 dsrg_generator/phys_op_contraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsrg_generator/phys_op_contraction.py b/dsrg_generator/phys_op_contraction.py
index 292cf7f..b8978be 100644
--- a/dsrg_generator/phys_op_contraction.py
+++ b/dsrg_generator/phys_op_contraction.py
@@ -60,7 +60,7 @@ def contract_terms(terms, max_cu=3, max_n_open=6, min_n_open=0, scale_factor=1.0
 
     if len(sq_ops_to_be_contracted) < 2:
         sq_op = sq_ops_to_be_contracted[0] if len(sq_ops_to_be_contracted) == 1 else terms[0].sq_op
-        return [Term(tensors, sq_op, coeff)]
+        return [Term(tensors, sq_op, coeff)] if min_n_open <= sq_op.n_ops <= max_n_open else []
     else:
         # contractions = [i for con in compute_operator_contractions(sq_ops_to_be_contracted, max_cu,
         #                                                            max_n_open, min_n_open, for_commutator,
-- 
2.43.0

