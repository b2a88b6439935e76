From 5c1752f2fc5e5b0c60d1ee557f1ac13eeefa906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 01/41] fix: keep trimmed third-body reactions loadable

When every species with a listed third-body efficiency is removed, the
original efficiencies were still written from the reaction's input data, and
the reduced model could not be loaded. Also remove a reaction all of whose
explicit colliders are removed, not only one with a single collider.
---
 src/pymars/reduce_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 9cd93ba..95de60d 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -47,9 +47,8 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
         tb = reaction.third_body
         # remove reactions with an explicit third body that has been removed
         if tb is not None and not tb.default_efficiency:
-            if (
-                len(tb.efficiencies) == 1
-                and list(tb.efficiencies.keys())[0] in exclusion_list
+            if tb.efficiencies and all(
+                sp in exclusion_list for sp in tb.efficiencies
             ):
                 continue
 
@@ -64,6 +63,10 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                     for sp, val in tb.efficiencies.items()
                     if sp in final_species_names
                 }
+                if not tb.efficiencies:
+                    # otherwise the original efficiencies, which are kept with the
+                    # input data, would be written for species no longer present
+                    reaction.clear_user_data()
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From b9cee1101b11bfdf01eff9244703c1de415f484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:49 +0000
Subject: [PATCH 02/41] fix: remove reactions with an order on an eliminated
 species

trim() raised a CanteraError for a reaction whose rate has a (nonreactant)
order on a removed species.
---
 src/pymars/reduce_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 95de60d..0f42e1e 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -55,6 +55,8 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
         reaction_species = list(reaction.products.keys()) + list(
             reaction.reactants.keys()
         )
+        # a rate can also depend on the order of a species that is not a reactant
+        reaction_species += list(reaction.orders.keys())
         if all([sp in final_species_names for sp in reaction_species]):
             # remove any eliminated species from third-body efficiencies
             if tb is not None:
-- 
2.43.0


From 0ff0adb5cf876c3831bb3a31e2b79648d8a4925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 03/41] fix: end graph-based reduction when nothing is left to
 remove

run_drg, run_drgep and run_pfa never returned if no candidate exceeded the
error limit, and the branch meant for this case passed a ReducedModel to
soln2yaml.write().
---
 src/pymars/drg.py   | 11 +++++++++--
 src/pymars/drgep.py | 11 +++++++++--
 src/pymars/pfa.py   | 11 +++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index e40cf5d..4f3809d 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -371,6 +371,10 @@ def run_drg(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop if there is nothing left to remove
+        if set(reduced_model.model.species_names) <= {*species_targets, *species_safe}:
+            break
+
     if error_current > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drg(
@@ -390,9 +394,12 @@ def run_drg(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 6fe0849..04e8a0a 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -508,6 +508,10 @@ def run_drgep(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop if there is nothing left to remove
+        if set(reduced_model.model.species_names) <= {*species_targets, *species_safe}:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_drgep(
@@ -525,9 +529,12 @@ def run_drgep(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     if threshold_upper:
         for sp in reduced_model.model.species_names:
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index b1862ce..d7928bc 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -397,6 +397,10 @@ def run_pfa(
             limbo_species=reduced_model.limbo_species,
         )
 
+        # stop if there is nothing left to remove
+        if set(reduced_model.model.species_names) <= {*species_targets, *species_safe}:
+            break
+
     if reduced_model.error > error_limit:
         threshold -= 2 * threshold_increment
         reduced_model = reduce_pfa(
@@ -416,9 +420,12 @@ def run_pfa(
             path=path,
         )
     else:
-        soln2yaml.write(
-            reduced_model, f"reduced_{reduced_model.model.n_species}.yaml", path=path
+        reduced_model_filename = soln2yaml.write(
+            reduced_model.model,
+            f"reduced_{reduced_model.model.n_species}.yaml",
+            path=path,
         )
+        reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     logging.info(45 * "-")
     logging.info("PFA reduction complete.")
-- 
2.43.0


From b24e489367b3620088c6040a1be7819126a76be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/41] fix: return the last accepted model of a graph-based
 reduction

The threshold of the last accepted model was recomputed by subtracting two
increments, which can differ by rounding from the one that was accepted and
then lead to another model than the one whose error was checked.
---
 src/pymars/drg.py   | 4 +++-
 src/pymars/drgep.py | 4 +++-
 src/pymars/pfa.py   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 4f3809d..ddb577a 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -357,6 +357,8 @@ def run_drg(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -376,7 +378,7 @@ def run_drg(
             break
 
     if error_current > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_drg(
             model_file,
             species_targets,
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 04e8a0a..737070d 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -494,6 +494,8 @@ def run_drgep(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -513,7 +515,7 @@ def run_drgep(
             break
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_drgep(
             model_file,
             species_safe,
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index d7928bc..34a1161 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -383,6 +383,8 @@ def run_pfa(
 
         logging.info(f"{threshold:^9.2e} | {num_species:^17} | {error_current:^.2f}")
 
+        if error_current <= error_limit:
+            threshold_accepted = threshold
         threshold += threshold_increment
         first = False
 
@@ -402,7 +404,7 @@ def run_pfa(
             break
 
     if reduced_model.error > error_limit:
-        threshold -= 2 * threshold_increment
+        threshold = threshold_accepted
         reduced_model = reduce_pfa(
             model_file,
             species_targets,
-- 
2.43.0


From ee9f7aa1fe76aed1eabe8c8e7f11f1ccebcf795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 05/41] fix: remove files of rejected candidate models

Candidates rejected at the initial threshold were left behind, as were DRG
and PFA candidates evaluated again because retained species were ignored
when comparing with the previous model.
---
 src/pymars/drg.py   | 10 +++++++---
 src/pymars/drgep.py |  1 +
 src/pymars/pfa.py   | 10 +++++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index ddb577a..94e21e3 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -191,15 +191,18 @@ def reduce_drg(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    if (
+        previous_model
+        and len(species_removed) == solution.n_species - previous_model.model.n_species
+    ):
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
@@ -345,6 +348,7 @@ def run_drg(
 
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
+            os.remove(reduced_model.filename)
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 737070d..dbc5c7e 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -482,6 +482,7 @@ def run_drgep(
 
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
+            os.remove(reduced_model.filename)
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 34a1161..3fc58e8 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -215,15 +215,18 @@ def reduce_pfa(
     # want to ensure retained species are the set of those reachable for each state
     species_retained = list(set(species_retained))
 
-    if previous_model and len(species_retained) == previous_model.model.n_species:
-        return previous_model
-
     species_removed = [
         sp
         for sp in solution.species_names
         if sp not in (species_retained + species_safe)
     ]
 
+    if (
+        previous_model
+        and len(species_removed) == solution.n_species - previous_model.model.n_species
+    ):
+        return previous_model
+
     # Cut the exclusion list from the model.
     reduced_model = trim(
         model_file, species_removed, f"reduced_{model_file}", phase_name=phase_name
@@ -371,6 +374,7 @@ def run_pfa(
 
         # reduce threshold if past error limit on first iteration
         if first and error_current > error_limit:
+            os.remove(reduced_model.filename)
             error_current = 0.0
             threshold /= 10
             threshold_increment /= 10
-- 
2.43.0


From f8ef7fbae467ea33338d909a2e8dc2af5f3ab4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 06/41] fix: never remove DRGEP targets

The threshold can exceed 1.0, the importance of a target.
---
 src/pymars/drgep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index dbc5c7e..7af021d 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -425,6 +425,9 @@ def run_drgep(
     solution = ct.Solution(model_file, phase_name)
     assert species_targets, "Need to specify at least one target species."
 
+    # targets have an importance of 1.0, which the threshold can exceed
+    species_safe = [*species_safe, *species_targets]
+
     # first, sample thermochemical data and generate metrics for measuring error
     # (e.g, ignition delays). Also produce adjacency matrices for graphs, which
     # will be used to produce graphs for any threshold value.
-- 
2.43.0


From dbb3ef947facf02898fcd8289379dd65eafea46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 07/41] fix: do not share DRGEP limbo species between runs

They were appended to the mutable default of ReducedModel.limbo_species, so
a later run in the same process also considered those of an earlier one.
---
 src/pymars/drgep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/drgep.py b/src/pymars/drgep.py
index 7af021d..e1c189a 100644
--- a/src/pymars/drgep.py
+++ b/src/pymars/drgep.py
@@ -543,9 +543,11 @@ def run_drgep(
         reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
     if threshold_upper:
+        limbo_species = []
         for sp in reduced_model.model.species_names:
             if importance_coeffs[sp] < threshold_upper and (sp not in species_safe):
-                reduced_model.limbo_species.append(sp)
+                limbo_species.append(sp)
+        reduced_model = reduced_model._replace(limbo_species=limbo_species)
 
     logging.info(45 * "-")
     logging.info("DRGEP reduction complete.")
-- 
2.43.0


From 300d91996c0e94fbbff0a088258dbfc37f7c1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 08/41] fix: give the sensitivity analysis the DRG limbo
 species

run_drg returned the species that are kept at the upper threshold, targets
included, rather than those remaining that it would remove.
---
 src/pymars/drg.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/pymars/drg.py b/src/pymars/drg.py
index 94e21e3..f4e2ed8 100644
--- a/src/pymars/drg.py
+++ b/src/pymars/drg.py
@@ -407,6 +407,21 @@ def run_drg(
         )
         reduced_model = reduced_model._replace(filename=reduced_model_filename)
 
+    if threshold_upper:
+        # limbo species are those remaining that would be removed at the upper threshold
+        species_important = [*species_targets, *species_safe]
+        for matrix in matrices:
+            species_important += trim_drg(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
+        reduced_model = reduced_model._replace(
+            limbo_species=[
+                sp
+                for sp in reduced_model.model.species_names
+                if sp not in species_important
+            ]
+        )
+
     logging.info(45 * "-")
     logging.info("DRG reduction complete.")
     logging.info(
-- 
2.43.0


From 0847e7d81613077b99f443027fd8c78a4cba7d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 09/41] fix: identify PFA limbo species

The retained species at the lower threshold were excluded, so there never
were any; only the last state was considered, and main() did not pass on the
upper threshold.
---
 src/pymars/pfa.py    | 8 +++++---
 src/pymars/pymars.py | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pymars/pfa.py b/src/pymars/pfa.py
index 3fc58e8..e1cc4e8 100644
--- a/src/pymars/pfa.py
+++ b/src/pymars/pfa.py
@@ -250,9 +250,11 @@ def reduce_pfa(
     # If desired, now identify limbo species for future sensitivity analysis
     limbo_species = []
     if threshold_upper:
-        species_retained += trim_pfa(
-            matrix, solution.species_names, species_targets, threshold_upper
-        )
+        species_retained = []
+        for matrix in matrices:
+            species_retained += trim_pfa(
+                matrix, solution.species_names, species_targets, threshold_upper
+            )
         limbo_species = [
             sp
             for sp in solution.species_names
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 12302a3..1276fcd 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -255,6 +255,7 @@ def main(
             target_species,
             safe_species,
             phase_name=phase_name,
+            threshold_upper=upper_threshold,
             num_threads=num_threads,
             path=path,
             min_flame_speed=min_flame_speed,
-- 
2.43.0


From 95512710adf7787ff3518cc9c1ea32b6d0106a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 10/41] fix: sensitivity analysis protects retained species and
 can use all limbo species

Species to retain were removed when listed in species_limbo, the list of the
caller was emptied, and the greedy algorithm failed after removing the last.
---
 src/pymars/sensitivity_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index 3eb2bf9..c6f5306 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -179,6 +179,8 @@ def run_sa(
         species_limbo = [
             sp for sp in current_model.model.species_names if sp not in species_safe
         ]
+    # species to always retain are never considered (and the given list is not modified)
+    species_limbo = [sp for sp in species_limbo if sp not in species_safe]
 
     logging.info(53 * "-")
     logging.info("Number of species |  Species removed  | Max error (%)")
@@ -255,7 +257,7 @@ def run_sa(
                     phase_name=phase_name,
                     num_threads=num_threads,
                 )
-                if min(species_errors) > error_limit:
+                if species_limbo and min(species_errors) > error_limit:
                     break
 
     # Final model; may need to rewrite
-- 
2.43.0


From dd1526fbee1b353344e0ffbb082acda0d2285fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:45 +0000
Subject: [PATCH 11/41] fix: return the location of the model written by
 sensitivity analysis

The file name lacked the path.
---
 src/pymars/sensitivity_analysis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymars/sensitivity_analysis.py b/src/pymars/sensitivity_analysis.py
index c6f5306..30b59de 100644
--- a/src/pymars/sensitivity_analysis.py
+++ b/src/pymars/sensitivity_analysis.py
@@ -266,7 +266,11 @@ def run_sa(
         filename=f"reduced_{current_model.model.n_species}.yaml",
         error=current_model.error,
     )
-    soln2yaml.write(reduced_model.model, reduced_model.filename, path=path)
+    reduced_model = reduced_model._replace(
+        filename=soln2yaml.write(
+            reduced_model.model, reduced_model.filename, path=path
+        )
+    )
 
     logging.info(53 * "-")
     logging.info("Sensitivity analysis stage complete.")
-- 
2.43.0


From d4688759c1c91732ba74ad793156a0acd08c9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 12/41] fix: sample profiles with steep temperature rises

A point crossing more than one fraction of the temperature rise was sampled
for one of them only; later points took the remaining fractions, or were
missing altogether, leaving samples of zeros.
---
 src/pymars/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 2ec2451..fc8f9a3 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -125,9 +125,8 @@ class BaseSimulation(ABC):
 
         idx = 0
         for point in range(len(temperatures)):
-            if idx >= len(deltas):
-                break
-            if temperatures[point] >= temperature_initial + (
+            # a single point may cross more than one of the fractions
+            while idx < len(deltas) and temperatures[point] >= temperature_initial + (
                 deltas[idx] * temperature_diff
             ):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
-- 
2.43.0


From fc181cf905328c08f9edd5dbc510d3c15a052856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 13/41] fix: accept ignition cases that converge in the last
 allowed step

---
 src/pymars/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index fc8f9a3..8a6305e 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -335,7 +335,7 @@ class IgnitionSimulation(BaseSimulation):
                     if residual < residual_threshold:
                         break
 
-                if step == self.max_steps - 1:
+                else:
                     logging.error(
                         "Maximum number of steps reached before "
                         f"convergence for ignition case {self.idx}"
-- 
2.43.0


From cd97037901a058dcd1a4a0ce38f76f1fe9cbb484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 14/41] fix: do not lower the error if a metric is zero

An error above 100% was reported as 100% when another metric is zero.
---
 src/pymars/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 2b22cf8..b50ef6a 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -298,9 +298,9 @@ def calculate_error(metrics_original, metrics_test):
 
     """
     error = 100 * np.max(np.abs(metrics_original - metrics_test) / metrics_original)
-    # if any zero ignition delays or flame speeds, set error to 100
+    # if any zero ignition delays or flame speeds, set error to (at least) 100
     if any(metrics_test == 0.0):
-        error = 100.0
+        error = max(100.0, error)
 
     return error
 
-- 
2.43.0


From c260befa4d149d34c51b99243f8577357f97c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 15/41] fix: do not modify the retained species of the input

---
 src/pymars/pymars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 1276fcd..695f0ff 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -89,7 +89,7 @@ def parse_inputs(input_dict):
         upper_threshold = 0.1
     sensitivity_type = input_dict.get("sensitivity-type", "initial")
 
-    safe_species = input_dict.get("retained-species", [])
+    safe_species = list(input_dict.get("retained-species", []))
 
     phase_name = input_dict.get("phase-name", "")
 
-- 
2.43.0


From 905d6ab486f3cc5963c9b7966412fcd5f534f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 16/41] fix: convert Chemkin models before parsing the inputs

The (Cantera) parsing failed on them, and the result could not be assigned.
Also use the arguments given to pymars() and main().
---
 src/pymars/__main__.py |  2 +-
 src/pymars/pymars.py   | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pymars/__main__.py b/src/pymars/__main__.py
index 6de4472..c518a12 100644
--- a/src/pymars/__main__.py
+++ b/src/pymars/__main__.py
@@ -8,7 +8,7 @@ from .pymars import pymars
 def main(args=None):
     if args is None:
         args = sys.argv[1:]
-        pymars(args)
+    pymars(args)
 
 
 if __name__ == "__main__":
diff --git a/src/pymars/pymars.py b/src/pymars/pymars.py
index 695f0ff..ecd8a0a 100644
--- a/src/pymars/pymars.py
+++ b/src/pymars/pymars.py
@@ -351,7 +351,7 @@ def pymars(argv):
         parser.print_help()
         sys.exit(1)
 
-    args = parser.parse_args()
+    args = parser.parse_args(argv)
 
     if args.version:
         from ._version import __version__
@@ -380,12 +380,15 @@ def pymars(argv):
         with open(args.input, "r") as the_file:
             input_dict = yaml.safe_load(the_file)
 
-        inputs = parse_inputs(input_dict)
-
         # Check for Chemkin format and convert if needed
-        if os.path.splitext(inputs.model)[1] not in (".yaml", ".yml"):
+        model = input_dict.get("model", "")
+        if model and os.path.splitext(model)[1] not in (".yaml", ".yml"):
             logging.info("Chemkin file detected; converting before reduction.")
-            inputs.model = convert(inputs.model, args.thermo, args.transport, args.path)
+            input_dict["model"] = convert(
+                model, args.thermo, args.transport, args.path
+            )
+
+        inputs = parse_inputs(input_dict)
 
         main(
             inputs.model,
-- 
2.43.0


From a9ed0bf3c2882e3ca1f6204fa1b6a5e4fa83d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 17/41] fix: save samples such that an interruption cannot
 corrupt them

Metrics could be combined with the data of another model or read partially
when saving them was interrupted.
---
 src/pymars/sampling.py | 50 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index b50ef6a..ad3568f 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -235,6 +235,32 @@ def _run_workers(simulations, worker, num_threads):
     return {key: val for k in results for key, val in k.items()}
 
 
+def _save_samples(data_file, data, output_file, metrics):
+    """Save sampled data and metrics, such that an interruption leaves no mixed samples.
+
+    The (old) metrics are removed first and the new ones put in place last, so
+    there only are metrics if the data they belong to have been saved completely.
+
+    Parameters
+    ----------
+    data_file : str
+        Filename for sampled data
+    data : numpy.ndarray
+        Sampled data
+    output_file : str
+        Filename for metrics
+    metrics : numpy.ndarray
+        Global metrics
+
+    """
+    if os.path.isfile(output_file):
+        os.remove(output_file)
+
+    for filename, values in ((data_file, data), (output_file, metrics)):
+        np.savetxt(filename + ".tmp", values, delimiter=",")
+        os.replace(filename + ".tmp", filename)
+
+
 def _run_sampling_jobs(simulations, worker, num_threads):
     """Run data-sampling workers and collect their metrics and sampled data.
 
@@ -594,8 +620,12 @@ def sample(
                 simulations, ignition_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_ignition"], ignition_data, delimiter=",")
-            np.savetxt(data_files["output_ignition"], ignition_delays, delimiter=",")
+            _save_samples(
+                data_files["data_ignition"],
+                ignition_data,
+                data_files["output_ignition"],
+                ignition_delays,
+            )
 
     # PSR cases contribute three metrics each (extinction residence time and the
     # two response temperatures) and ``num_sample_points`` sampled-state rows.
@@ -641,8 +671,12 @@ def sample(
                 simulations, psr_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_psr"], psr_data, delimiter=",")
-            np.savetxt(data_files["output_psr"], psr_metrics, delimiter=",")
+            _save_samples(
+                data_files["data_psr"],
+                psr_data,
+                data_files["output_psr"],
+                psr_metrics,
+            )
 
     flame_speeds = np.array([])
     flame_data = []
@@ -696,8 +730,12 @@ def sample(
                 simulations, flame_sample_worker, num_threads
             )
 
-            np.savetxt(data_files["data_flame"], flame_data, delimiter=",")
-            np.savetxt(data_files["output_flame"], flame_speeds, delimiter=",")
+            _save_samples(
+                data_files["data_flame"],
+                flame_data,
+                data_files["output_flame"],
+                flame_speeds,
+            )
 
     # combine metrics and sampled data from all phenomena (ignition, PSR, flame)
     metric_arrays = [
-- 
2.43.0


From 6c2a54d0a103a0e077d308c77748a78f4fa407ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 18/41] fix: write three-parameter Troe falloff in Chemkin
 format

The fourth parameter is optional; without it, writing failed.
---
 src/pymars/soln2ck.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index a40128d..b022aa6 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -128,10 +128,8 @@ def build_falloff(parameters, falloff_function):
 
     """
     if falloff_function == "Troe":
-        falloff_string = (
-            "TROE / " + f"{parameters[0]}  {parameters[1]}  "
-            f"{parameters[2]}  {parameters[3]} /\n"
-        )
+        # the fourth parameter is optional
+        falloff_string = "TROE / " + "  ".join([f"{p}" for p in parameters]) + " /\n"
     elif falloff_function == "SRI":
         falloff_string = (
             "SRI / "
-- 
2.43.0


From 43301e24ea91c2ee3a079986bdc92fb3a963d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 19/41] fix: convert the units of Chebyshev rates written in
 Chemkin format

---
 src/pymars/soln2ck.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index b022aa6..55416b3 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -397,7 +397,10 @@ def write(
                     f"{cheb.pressure_range[1] / ct.one_atm} /\n"
                     + f"CHEB / {cheb.n_temperature}  {cheb.n_pressure} /\n"
                 )
-                for coeffs in cheb.data:
+                cheb_data = cheb.data.copy()
+                # convert units, as for the pre-exponential factor
+                cheb_data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
-- 
2.43.0


From 4294c7c231bd90c0dcd4b4539e8678f8d54d0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 20/41] fix: write a default third-body efficiency in Chemkin
 format

Species without a listed efficiency were given that of 1.0 instead.
---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 55416b3..5546c1a 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -342,6 +342,11 @@ def write(
                     for s, v in tb.efficiencies.items()
                     if s in solution.species_names
                 }
+                if tb.name == "M" and tb.default_efficiency != 1.0:
+                    # the default is always 1.0 in Chemkin
+                    reduced_efficiencies = {
+                        s: tb.efficiency(s) for s in solution.species_names
+                    }
                 efficiencies_str = "  ".join(
                     [f"{s}/{v}/" for s, v in reduced_efficiencies.items()]
                 )
-- 
2.43.0


From fd3f764674b6af9577ae08608650b09e58eeb47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 21/41] fix: write reaction orders in Chemkin format

They were ignored, changing both the rates and the conversion of units.
---
 src/pymars/soln2ck.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 5546c1a..49d0555 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -293,20 +293,21 @@ def write(
         for reaction in solution.reactions():
 
             rxn_type = reaction.reaction_type
+            reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
             reaction_string = f"{reaction.equation:<51}"
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
                 arrhenius = build_arrhenius(
-                    reaction.rate, sum(reaction.reactants.values()), rxn_type
+                    reaction.rate, reaction_order, rxn_type
                 )
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -315,7 +316,7 @@ def write(
                 # low-pressure limit is on the main reaction line
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -326,7 +327,7 @@ def write(
             elif rxn_type == "pressure-dependent-Arrhenius":
                 arrhenius = build_arrhenius(
                     reaction.rate.rates[0][1],
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     "pressure-dependent-Arrhenius",
                 )
             else:
@@ -357,7 +358,7 @@ def write(
             if rxn_type.startswith("falloff-"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.low_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "low",
                 )
@@ -372,7 +373,7 @@ def write(
             elif rxn_type.startswith("chemically-activated"):
                 arrhenius = build_falloff_arrhenius(
                     reaction.rate.high_rate,
-                    sum(reaction.reactants.values()),
+                    reaction_order,
                     rxn_type,
                     "high",
                 )
@@ -389,7 +390,7 @@ def write(
                     pressure_str = f"{pressure / ct.one_atm}"
                     arrhenius = build_arrhenius(
                         rate,
-                        sum(reaction.reactants.values()),
+                        reaction_order,
                         "pressure-dependent-Arrhenius",
                     )
                     reaction_string += f"PLOG / {pressure_str} {arrhenius} /\n"
@@ -404,11 +405,14 @@ def write(
                 )
                 cheb_data = cheb.data.copy()
                 # convert units, as for the pre-exponential factor
-                cheb_data[0, 0] += 3 * (sum(reaction.reactants.values()) - 1)
+                cheb_data[0, 0] += 3 * (reaction_order - 1)
                 for coeffs in cheb_data:
                     coeffs_row = " ".join([f"{c:.6e}" for c in coeffs])
                     reaction_string += f"CHEB / {coeffs_row} /\n"
 
+            for species, order in reaction.orders.items():
+                reaction_string += f"FORD / {species} {order} /\n"
+
             if reaction.duplicate:
                 reaction_string += "DUPLICATE\n"
 
-- 
2.43.0


From 2b167a37ec4b877f4dd26f7c08d7c5a41830be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 22/41] fix: compare reversibility and reaction orders of
 models

---
 src/pymars/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 7f244da..a19fe1b 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -82,6 +82,10 @@ def compare_models(model1, model2):
 
         if rxn1.duplicate != rxn2.duplicate:
             return False
+        if rxn1.reversible != rxn2.reversible:
+            return False
+        if rxn1.orders != rxn2.orders:
+            return False
 
         # Check primary rate object (present on all reactions in Cantera 3)
         if hasattr(rxn1, "rate") and hasattr(rxn2, "rate"):
-- 
2.43.0


From fb011ce3ef90116e46e31fd9d9f35bc4c5901f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 23/41] fix: compare models with different numbers of rate
 coefficients

---
 src/pymars/tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index a19fe1b..ffdbef4 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -110,6 +110,8 @@ def compare_models(model1, model2):
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
                     rate2, "falloff_coeffs"
                 ):
+                    if np.shape(rate1.falloff_coeffs) != np.shape(rate2.falloff_coeffs):
+                        return False
                     if not np.allclose(rate1.falloff_coeffs, rate2.falloff_coeffs):
                         return False
 
@@ -141,6 +143,8 @@ def compare_models(model1, model2):
                     return False
                 if not np.allclose(rate1.temperature_range, rate2.temperature_range):
                     return False
+                if np.shape(rate1.data) != np.shape(rate2.data):
+                    return False
                 if not np.allclose(rate1.data, rate2.data):
                     return False
 
-- 
2.43.0


From 8eae066aff2935c3aab6fa5c13678d22aacd353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 24/41] fix: distinguish models with small pre-exponential
 factors

---
 src/pymars/tools.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index ffdbef4..b30341f 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -11,6 +11,11 @@ from cantera import ck2yaml
 from . import soln2ck
 
 
+def _is_close(value1, value2):
+    """Compare rate parameters, which can be very small (e.g., pre-exponentials)."""
+    return np.isclose(value1, value2, atol=1e-100)
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -102,9 +107,9 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
+                    if not _is_close(getattr(lo1, attr, 0.0), getattr(lo2, attr, 0.0)):
                         return False
-                    if not np.isclose(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
+                    if not _is_close(getattr(hi1, attr, 0.0), getattr(hi2, attr, 0.0)):
                         return False
                 # falloff parameters (Troe, SRI, …)
                 if hasattr(rate1, "falloff_coeffs") and hasattr(
@@ -132,7 +137,7 @@ def compare_models(model1, model2):
                         "temperature_exponent",
                         "activation_energy",
                     ):
-                        if not np.isclose(
+                        if not _is_close(
                             getattr(r1, attr, 0.0), getattr(r2, attr, 0.0)
                         ):
                             return False
@@ -155,7 +160,7 @@ def compare_models(model1, model2):
                     "temperature_exponent",
                     "activation_energy",
                 ):
-                    if not np.isclose(
+                    if not _is_close(
                         getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
                     ):
                         return False
-- 
2.43.0


From e9f04dd1db755859b63f70ceeda22f32cdfca077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 25/41] fix: compare models with duplicate reactions in another
 order

---
 src/pymars/tools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index b30341f..6f5e37f 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -16,6 +16,11 @@ def _is_close(value1, value2):
     return np.isclose(value1, value2, atol=1e-100)
 
 
+def _reaction_key(reaction):
+    """Key for sorting reactions; duplicate reactions have the same equation."""
+    return reaction.equation, str(reaction.rate.input_data)
+
+
 def compare_models(model1, model2):
     """Checks whether two Cantera models are equivalent.
 
@@ -74,8 +79,8 @@ def compare_models(model1, model2):
                 return False
 
     for rxn1, rxn2 in zip(
-        sorted(model1.reactions(), key=attrgetter("equation")),
-        sorted(model2.reactions(), key=attrgetter("equation")),
+        sorted(model1.reactions(), key=_reaction_key),
+        sorted(model2.reactions(), key=_reaction_key),
     ):
         if rxn1.reaction_type != rxn2.reaction_type:
             return False
-- 
2.43.0


From 3e88aae5c1d3adf550090c872b5c82f90a531811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 26/41] fix: evaluate the starting model of sensitivity
 analysis without saved samples

---
 src/pymars/sampling.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index ad3568f..3c0eb94 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -432,8 +432,6 @@ def sample_metrics(
 
     ignition_delays = np.array([])
     if ignition_conditions:
-        ignition_delays = np.zeros(len(ignition_conditions))
-
         exists_output = os.path.isfile(data_files["output_ignition"])
         if reuse_saved and exists_output:
             ignition_delays = np.atleast_1d(
@@ -491,8 +489,6 @@ def sample_metrics(
 
     flame_speeds = np.array([])
     if flame_conditions:
-        flame_speeds = np.zeros(len(flame_conditions))
-
         exists_output = os.path.isfile(data_files["output_flame"])
         if reuse_saved and exists_output:
             flame_speeds = np.atleast_1d(
-- 
2.43.0


From fd5629c99d109b1d73aac12db930bbbd34bd7aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:22 +0000
Subject: [PATCH 27/41] fix: keep the default efficiency of trimmed third-body
 reactions

---
 src/pymars/reduce_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymars/reduce_model.py b/src/pymars/reduce_model.py
index 0f42e1e..909609a 100644
--- a/src/pymars/reduce_model.py
+++ b/src/pymars/reduce_model.py
@@ -68,7 +68,7 @@ def trim(initial_model_file, exclusion_list, new_model_file, phase_name=""):
                 if not tb.efficiencies:
                     # otherwise the original efficiencies, which are kept with the
                     # input data, would be written for species no longer present
-                    reaction.clear_user_data()
+                    reaction.update_user_data({"efficiencies": {}})
             final_reactions.append(reaction)
 
     # Create new solution based on remaining species and reactions. Preserve the
-- 
2.43.0


From e41d66404c3052c8d1c7350755c5c2baf83f65d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 28/41] fix: keep the final state of sampled profiles despite
 roundoff

---
 src/pymars/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pymars/simulation.py b/src/pymars/simulation.py
index 8a6305e..9cce42e 100644
--- a/src/pymars/simulation.py
+++ b/src/pymars/simulation.py
@@ -120,14 +120,18 @@ class BaseSimulation(ABC):
         n_species = mass_fractions.shape[1]
         temperature_initial = temperatures[0]
         temperature_diff = temperatures[-1] - temperature_initial
+        # roundoff must not put the last fraction above the final temperature
+        temperature_levels = np.minimum(
+            temperature_initial + deltas * temperature_diff, temperatures[-1]
+        )
 
         sampled_data = np.zeros((len(deltas), 2 + n_species))
 
         idx = 0
         for point in range(len(temperatures)):
             # a single point may cross more than one of the fractions
-            while idx < len(deltas) and temperatures[point] >= temperature_initial + (
-                deltas[idx] * temperature_diff
+            while (
+                idx < len(deltas) and temperatures[point] >= temperature_levels[idx]
             ):
                 sampled_data[idx, 0:2] = [temperatures[point], pressures[point]]
                 sampled_data[idx, 2:] = mass_fractions[point]
-- 
2.43.0


From 15abfb07449cc7b56123a412d52a955c8666a382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:23 +0000
Subject: [PATCH 29/41] fix: reject PSR seeds on the unstable middle branch

---
 src/pymars/psr_solver.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pymars/psr_solver.py b/src/pymars/psr_solver.py
index 49f2bf8..5c4e934 100644
--- a/src/pymars/psr_solver.py
+++ b/src/pymars/psr_solver.py
@@ -218,6 +218,11 @@ def trace_extinction_curve(
         jac[:, gas.n_species + 1] *= tau
         return jac
 
+    def seed_jac(x, tau):
+        return core_jac_phys(x[: gas.n_species], x[gas.n_species], tau)[
+            :, : gas.n_species + 1
+        ]
+
     def solve_fixed_tau(tau, guess):
         def res(x):
             return core_res_phys(
@@ -225,9 +230,7 @@ def trace_extinction_curve(
             )  # noqa: E731
 
         def jac(x):
-            return core_jac_phys(x[: gas.n_species], x[gas.n_species], tau)[
-                :, : gas.n_species + 1
-            ]  # noqa: E731
+            return seed_jac(x, tau)
 
         sol = root(res, guess, jac=jac, method="hybr", tol=1e-10)
         if sol.success and np.linalg.norm(sol.fun) < 1e-7:
@@ -245,8 +248,11 @@ def trace_extinction_curve(
     guess = np.concatenate([gas.Y, [gas.T]])
     x0, ok0 = solve_fixed_tau(tau_start, guess)
     x1, ok1 = solve_fixed_tau(tau_second, x0)
-    if not (ok0 and ok1):
-        raise RuntimeError("PSR: failed to seed the burning branch")
+    # the burning branch is stable; on the unstable middle branch, where the corrector
+    # may land instead, the determinant of the Jacobian is negative
+    for x, tau, ok in ((x0, tau_start, ok0), (x1, tau_second, ok1)):
+        if not ok or np.linalg.slogdet(seed_jac(x, tau))[0] <= 0.0:
+            raise RuntimeError("PSR: failed to seed the burning branch")
 
     u_pp = np.concatenate(
         [x0[: gas.n_species], [x0[gas.n_species] / TREF, np.log(tau_start)]]
-- 
2.43.0


From 23c47a3dff8ac51da93acc44c23d35d6aa388ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:43 +0000
Subject: [PATCH 30/41] fix: simulate anew if saved sample data have only one
 row

---
 src/pymars/sampling.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pymars/sampling.py b/src/pymars/sampling.py
index 3c0eb94..51b2d3b 100644
--- a/src/pymars/sampling.py
+++ b/src/pymars/sampling.py
@@ -584,7 +584,9 @@ def sample(
             ignition_delays = np.genfromtxt(
                 data_files["output_ignition"], delimiter=","
             )
-            ignition_data = np.genfromtxt(data_files["data_ignition"], delimiter=",")
+            ignition_data = np.genfromtxt(
+                data_files["data_ignition"], delimiter=",", ndmin=2
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = ignition_delays.size == len(
                 ignition_conditions
@@ -640,7 +642,9 @@ def sample(
             psr_metrics = np.atleast_1d(
                 np.genfromtxt(data_files["output_psr"], delimiter=",")
             )
-            psr_data = np.genfromtxt(data_files["data_psr"], delimiter=",")
+            psr_data = np.genfromtxt(
+                data_files["data_psr"], delimiter=",", ndmin=2
+            )
             matches_number = psr_metrics.size == n_psr_metrics and psr_data.shape[
                 0
             ] / n_rows == len(psr_conditions)
@@ -689,7 +693,9 @@ def sample(
             flame_speeds = np.atleast_1d(
                 np.genfromtxt(data_files["output_flame"], delimiter=",")
             )
-            flame_data = np.genfromtxt(data_files["data_flame"], delimiter=",")
+            flame_data = np.genfromtxt(
+                data_files["data_flame"], delimiter=",", ndmin=2
+            )
             # need to check that saved data at least matches the number of cases
             matches_number = flame_speeds.size == len(
                 flame_conditions
-- 
2.43.0


From 9fa64d8260250b7842bd90a67560dbb176b7182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 31/41] fix: separate long equations from their rate
 coefficients in Chemkin files

---
 src/pymars/soln2ck.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 49d0555..89a9ebf 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -294,7 +294,8 @@ def write(
 
             rxn_type = reaction.reaction_type
             reaction_order = sum({**reaction.reactants, **reaction.orders}.values())
-            reaction_string = f"{reaction.equation:<51}"
+            # (equation and coefficients need to be separated, however long the former)
+            reaction_string = f"{reaction.equation:<50} "
 
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
-- 
2.43.0


From ba692202d319df97aab636e463a9e3b50ff9a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 32/41] fix: keep the efficiency of a collider given in the
 equation in Chemkin files

---
 src/pymars/soln2ck.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 89a9ebf..af1f438 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -297,12 +297,24 @@ def write(
             # (equation and coefficients need to be separated, however long the former)
             reaction_string = f"{reaction.equation:<50} "
 
+            # third body that is a species given in the equation, rather than "M"
+            explicit_collider = (
+                rxn_type == "three-body-Arrhenius" and reaction.third_body.name != "M"
+            )
+
             # The Arrhenius parameters that follow the equation string on the main line
             # depend on the type of reaction.
             if rxn_type in ("Arrhenius", "three-body-Arrhenius"):
-                arrhenius = build_arrhenius(
-                    reaction.rate, reaction_order, rxn_type
-                )
+                rate = reaction.rate
+                if explicit_collider:
+                    # Chemkin has no efficiency for a collider given in the equation
+                    tb = reaction.third_body
+                    rate = ct.ArrheniusRate(
+                        rate.pre_exponential_factor * tb.efficiency(tb.name),
+                        rate.temperature_exponent,
+                        rate.activation_energy,
+                    )
+                arrhenius = build_arrhenius(rate, reaction_order, rxn_type)
 
             elif rxn_type.startswith("falloff-"):
                 # high-pressure limit is on the main reaction line
@@ -337,7 +349,7 @@ def write(
             reaction_string += arrhenius + "\n"
 
             # print third-body efficiencies when a third body is present
-            if reaction.third_body is not None:
+            if reaction.third_body is not None and not explicit_collider:
                 tb = reaction.third_body
                 reduced_efficiencies = {
                     s: v
-- 
2.43.0


From e8fd4c4edc595901d7f35965829e4903baed58be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 33/41] fix: refuse to write thermodynamic data that Chemkin
 files cannot hold

---
 src/pymars/soln2ck.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index af1f438..1a2915c 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -159,6 +159,11 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
 
         # write data for each species in the Solution object
         for species in species_list:
+            if not isinstance(species.thermo, ct.NasaPoly2):
+                raise NotImplementedError(
+                    "Thermodynamic data not supported for species "
+                    f"{species.name}: {type(species.thermo).__name__}"
+                )
 
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
-- 
2.43.0


From dea8c467c7c366668cf0c0880ca099b7ae8e9100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 34/41] fix: keep columns of Chemkin thermodynamic data with
 longer species names

---
 src/pymars/soln2ck.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 1a2915c..b51f9de 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -170,8 +170,7 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             )
 
             species_string = (
-                f"{species.name:<18}"
-                + 6 * " "
+                f"{species.name:<24}"
                 + f"{composition_string:<20}"
                 + "G"
                 + f"{species.thermo.min_temp:10.3f}"
-- 
2.43.0


From 6198ed505056e72182ac8ceaae3b8fe8b1e2416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:28 +0000
Subject: [PATCH 35/41] fix: write species of more than four elements in
 Chemkin thermodynamic data

---
 src/pymars/soln2ck.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index b51f9de..2b36803 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -168,6 +168,13 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
             composition_string = "".join(
                 [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
             )
+            continuation = ""
+            if len(species.composition) > 4:
+                # only four elements fit, all go on an additional line instead
+                continuation = "&\n" + " ".join(
+                    [f"{s} {int(v)}" for s, v in species.composition.items()]
+                )
+                composition_string = ""
 
             species_string = (
                 f"{species.name:<24}"
@@ -177,7 +184,7 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                 + f"{species.thermo.max_temp:10.3f}"
                 + f"{species.thermo.coeffs[0]:8.2f}"
                 + 6 * " "
-                + "1\n"
+                + f"1{continuation}\n"
             )
 
             species_string += (
-- 
2.43.0


From fb3b48364294a7c5cf741d9f7ff0a844c805eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:47 +0000
Subject: [PATCH 36/41] fix: make model comparison symmetric when transport
 data are missing

---
 src/pymars/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 6f5e37f..b3cc939 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -70,6 +70,9 @@ def compare_models(model1, model2):
                     if not a.startswith("__")
                     and not callable(getattr(sp1.transport, a))
                 ]
+                if sp1.transport is None or sp2.transport is None:
+                    # nothing to compare
+                    params = []
                 for attr in params:
                     if getattr(sp1.transport, attr) != getattr(
                         sp2.transport, attr, 0.0
-- 
2.43.0


From f44d41c461527f75f732c1cbf120c28cb8527b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:02 +0000
Subject: [PATCH 37/41] fix: ignore notes of transport data in model comparison

---
 src/pymars/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index b3cc939..d179412 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -68,6 +68,7 @@ def compare_models(model1, model2):
                     a
                     for a in dir(sp1.transport)
                     if not a.startswith("__")
+                    and a not in ("input_data", "note")
                     and not callable(getattr(sp1.transport, a))
                 ]
                 if sp1.transport is None or sp2.transport is None:
-- 
2.43.0


From 637361a1f8689a830d0d8a7bcb2f28021648b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:30 +0000
Subject: [PATCH 38/41] fix: compare the bond energy of Blowers-Masel reactions

---
 src/pymars/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index d179412..0d12e98 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -168,6 +168,7 @@ def compare_models(model1, model2):
                     "pre_exponential_factor",
                     "temperature_exponent",
                     "activation_energy",
+                    "bond_energy",
                 ):
                     if not _is_close(
                         getattr(rate1, attr, 0.0), getattr(rate2, attr, 0.0)
-- 
2.43.0


From da909c7f6d63a6df8270672f74c18a41841cb216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:40 +0000
Subject: [PATCH 39/41] fix: compare models with duplicate reactions that
 differ in efficiencies only

---
 src/pymars/tools.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pymars/tools.py b/src/pymars/tools.py
index 0d12e98..afff852 100644
--- a/src/pymars/tools.py
+++ b/src/pymars/tools.py
@@ -18,7 +18,14 @@ def _is_close(value1, value2):
 
 def _reaction_key(reaction):
     """Key for sorting reactions; duplicate reactions have the same equation."""
-    return reaction.equation, str(reaction.rate.input_data)
+    third_body = reaction.third_body
+    efficiencies = third_body.efficiencies if third_body else {}
+    return (
+        reaction.equation,
+        str(reaction.rate.input_data),
+        sorted(efficiencies.items()),
+        sorted(reaction.orders.items()),
+    )
 
 
 def compare_models(model1, model2):
-- 
2.43.0


From 8db08d9e29abec9e268cfc560253f7c511957c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:16 +0000
Subject: [PATCH 40/41] fix: keep custom atomic weights in Chemkin files

---
 src/pymars/soln2ck.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 2b36803..8a1c7ba 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -15,6 +15,29 @@ CALORIES_CONSTANT = 4184.0
 DEBEYE_CONVERSION = 3.33564e-30
 
 
+def build_element(symbol, weight):
+    """Builds element declaration, including the atomic weight if it is custom.
+
+    Parameters
+    ----------
+    symbol : str
+        Symbol of element
+    weight : float
+        Atomic weight of element in model
+
+    Returns
+    -------
+    str
+        Element declaration
+
+    """
+    try:
+        is_standard = ct.Element(symbol).weight == weight
+    except ct.CanteraError:
+        is_standard = False
+    return symbol if is_standard else f"{symbol} /{weight}/"
+
+
 def build_arrhenius(rate, reaction_order, reaction_type):
     """Builds Arrhenius coefficient string based on reaction type.
 
@@ -288,7 +311,14 @@ def write(
         )
 
         # write species and element lists to file
-        element_names = "  ".join(solution.element_names)
+        element_names = "  ".join(
+            [
+                build_element(symbol, weight)
+                for symbol, weight in zip(
+                    solution.element_names, solution.atomic_weights
+                )
+            ]
+        )
         the_file.write("ELEMENTS\n" + f"{element_names}\n" + "END\n\n")
         species_names = fill(
             "  ".join(solution.species_names),
-- 
2.43.0


From 0df129793df4eff9d91645b903ffee569a5991a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:33 +0000
Subject: [PATCH 41/41] fix: element symbols of three characters and
 non-integer compositions in Chemkin files

---
 src/pymars/soln2ck.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/pymars/soln2ck.py b/src/pymars/soln2ck.py
index 8a1c7ba..4376dff 100644
--- a/src/pymars/soln2ck.py
+++ b/src/pymars/soln2ck.py
@@ -188,12 +188,17 @@ def write_thermo_data(species_list, filename="generated_thermo.dat"):
                     f"{species.name}: {type(species.thermo).__name__}"
                 )
 
-            composition_string = "".join(
-                [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
-            )
+            if any(v != int(v) for v in species.composition.values()):
+                raise NotImplementedError(
+                    f"Non-integer composition not supported: species {species.name}"
+                )
+
+            elements = [f"{s:2}{int(v):>3}" for s, v in species.composition.items()]
+            composition_string = "".join(elements)
             continuation = ""
-            if len(species.composition) > 4:
-                # only four elements fit, all go on an additional line instead
+            if len(elements) > 4 or any(len(element) > 5 for element in elements):
+                # only four elements (of five characters) fit, all go on an
+                # additional line instead
                 continuation = "&\n" + " ".join(
                     [f"{s} {int(v)}" for s, v in species.composition.items()]
                 )
-- 
2.43.0

