From 9ef705f2c43c4896f36515da7dd7c8f9b69033d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 1/8] fix: UnitarySequence keeps a list of independent entries

A sequence built from an array could not be modified or inverted, and an
entry occurring twice was inverted twice by inverse().
---
 stoqcompiler/unitary/unitary_sequence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary_sequence.py b/stoqcompiler/unitary/unitary_sequence.py
index 897e003..512723c 100644
--- a/stoqcompiler/unitary/unitary_sequence.py
+++ b/stoqcompiler/unitary/unitary_sequence.py
@@ -35,7 +35,10 @@ class UnitarySequence:
                 or isinstance(sequence_entries, np.ndarray))
         [self._assert_is_entry_valid(entry) for entry in sequence_entries]
 
-        self.sequence_entries = copy.deepcopy(sequence_entries)
+        # copy each entry separately, so that the entries always form a list
+        # and never share state with each other
+        self.sequence_entries = [
+            copy.deepcopy(entry) for entry in sequence_entries]
         self.sequence_product = None
 
         self.previous_entries = None
-- 
2.43.0


From 2f9c9c3b364aefd6037f5ef4129bc7bea3bf5160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 2/8] fix: get_full_unitary keeps the inverse marker

The display output of an inverted sequence showed its gates as if they
were not inverted.
---
 stoqcompiler/unitary/unitary_sequence_entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stoqcompiler/unitary/unitary_sequence_entry.py b/stoqcompiler/unitary/unitary_sequence_entry.py
index 720ea99..0aba347 100644
--- a/stoqcompiler/unitary/unitary_sequence_entry.py
+++ b/stoqcompiler/unitary/unitary_sequence_entry.py
@@ -164,6 +164,7 @@ class UnitarySequenceEntry:
                 full_matrix,
                 operation_name,
                 self.unitary.parameter_dict,
+                is_inverse=self.unitary.is_inverse,
                 apply_to=self.get_apply_to())
 
         return self.full_unitary_by_dimension[system_dimension]
-- 
2.43.0


From 6a08290734aacea89db5821cd3a921ec5a29f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 3/8] fix: filter the probabilities along with the primitives

create_random_sequence_entry dropped primitives without allowed qubits but
not their probabilities, so numpy rejected the choice.
---
 stoqcompiler/compiler/compiler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index d8f1c59..7db9884 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -214,10 +214,19 @@ class Compiler:
         '''
         # choose from unitary_primitives where the allowed_apply_to list
         # is not empty
+        is_allowed = [
+            u.get_allowed_apply_to() is None
+            or len(u.get_allowed_apply_to()) > 0
+            for u in unitary_primitives]
         unitary_primitives = [
-            u for u in unitary_primitives
-            if (u.get_allowed_apply_to() is None
-                or len(u.get_allowed_apply_to()) > 0)]
+            u for u, allowed in zip(unitary_primitives, is_allowed)
+            if allowed]
+        if probabilities is not None and not np.all(is_allowed):
+            # use the relative probabilities of the remaining primitives
+            probabilities = np.array([
+                p for p, allowed in zip(probabilities, is_allowed)
+                if allowed])
+            probabilities = probabilities / np.sum(probabilities)
 
         # randomly choose one of the unitary primitives and assign random
         # parameter values
-- 
2.43.0


From 8831b06eb43eba5737573ed04ce70925781aed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 4/8] fix: a threshold of 1.0 can be reached despite rounding

close_to(u, 1.0) was false for unitaries whose distance is a rounding error
above zero, including a unitary and itself, although 1.0 and None are
documented to mean the same for compilation.
---
 stoqcompiler/unitary/unitary.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index 5dbbe85..b704695 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -296,11 +296,13 @@ class Unitary:
         :rtype: bool
         '''
         distance = self.distance_from(u)
-        if threshold is not None:
-            max_distance = 1.0 - threshold
-            return distance <= max_distance
+        if threshold is None:
+            threshold = 1.0
 
-        return np.isclose(distance, 0.0)
+        # allow for rounding, so that a threshold of 1.0 can be reached
+        max_distance = 1.0 - threshold
+        return (distance <= max_distance
+                or np.isclose(distance, max_distance, rtol=0.0))
 
     def distance_from(
         self,
-- 
2.43.0


From 9fc10c42041012038678f492c93b0f3980efb88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 5/8] fix: start annealing anew at each compilation

The annealing parameter was kept from the previous compilation made with
the same compiler, so later compilations started fully annealed.
---
 stoqcompiler/compiler/compiler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 7db9884..68bd20c 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -166,6 +166,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
@@ -265,6 +266,7 @@ class Compiler:
         '''
         compiled_sequence = UnitarySequence(self.dimension)
         cost_by_step = []
+        self.beta = 0.0
 
         while (not compiled_sequence.product().close_to(
                 target_unitary, threshold)
-- 
2.43.0


From 7834c214ea7e54ba6851a639ba4c2e888cb25d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:21 +0000
Subject: [PATCH 6/8] fix: accept the documented threshold of None for RAV

---
 stoqcompiler/verification/verification.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stoqcompiler/verification/verification.py b/stoqcompiler/verification/verification.py
index 63b1e7e..4191e11 100644
--- a/stoqcompiler/verification/verification.py
+++ b/stoqcompiler/verification/verification.py
@@ -66,7 +66,7 @@ class Verification:
             primitive.get_unitary().get_dimension() <= dimension
             for primitive in unitary_primitives])
         assert sequence_length >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired length
         random_sequence = UnitarySequence(dimension)
@@ -146,7 +146,7 @@ class Verification:
             isinstance(count, int)
             for count in unitary_primitive_counts.values()])
         assert layer_count >= 0
-        assert threshold >= 0.0 and threshold <= 1.0
+        assert threshold is None or (threshold >= 0.0 and threshold <= 1.0)
 
         # Generate a random sequence of the desired number of layers
         # Total sequence length will therefore be
-- 
2.43.0


From a5d6760b3c16a25c77cc966973c396edede7da19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 7/8] fix: show qubit numbers plainly in display names

The qubits of randomly chosen gates are numpy integers, which a list shows
as np.int64(...).
---
 stoqcompiler/unitary/unitary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stoqcompiler/unitary/unitary.py b/stoqcompiler/unitary/unitary.py
index b704695..50f70c4 100644
--- a/stoqcompiler/unitary/unitary.py
+++ b/stoqcompiler/unitary/unitary.py
@@ -192,7 +192,8 @@ class Unitary:
 
         display_name = self.operation_name
         if len(self.apply_to) > 0:
-            display_name += str(self.apply_to)
+            display_name += (
+                "[" + ", ".join(str(q) for q in self.apply_to) + "]")
         if len(self.parameter_dict) > 0:
             display_name += "(" + ", ".join(
                 k + "=" + (as_pi_fraction(v[0]) if v[1] else as_decimal(v[0]))
-- 
2.43.0


From fc8c97301c6f207a69a4078776b3066ea78678f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:36 +0000
Subject: [PATCH 8/8] fix: compile with a gate set given as an array

The constructor accepts an array of primitives, but compile() then asked for
the truth value of the array, which fails for more than one primitive.
---
 stoqcompiler/compiler/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stoqcompiler/compiler/compiler.py b/stoqcompiler/compiler/compiler.py
index 68bd20c..d5acf28 100644
--- a/stoqcompiler/compiler/compiler.py
+++ b/stoqcompiler/compiler/compiler.py
@@ -98,7 +98,7 @@ class Compiler:
         :rtype: CompilerResult
         '''
         assert isinstance(target_unitary, Unitary)
-        assert self.unitary_primitives
+        assert len(self.unitary_primitives) > 0
 
         initial_time = time.perf_counter()
         compiled_sequence, cost_by_step = self._compile(
-- 
2.43.0

