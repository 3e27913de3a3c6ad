From 0ca71c80de19c8fc269641265b994a42f404c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 01/23] fix: birth-death with recalculated probabilities killed
 the walker it should duplicate and vice versa

---
 bdld/actions/birth_death.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/birth_death.py b/bdld/actions/birth_death.py
index 690140b..67a0428 100644
--- a/bdld/actions/birth_death.py
+++ b/bdld/actions/birth_death.py
@@ -208,10 +208,10 @@ class BirthDeath(Action):
                 if rand[i] <= prob:
                     rand_other = self.random_other(num_part, i)
                     if beta[i] > 0:
-                        curr_event = (i, rand_other)
-                        self.stats.kill_count += 1
-                    elif beta[i] < 0:
                         curr_event = (rand_other, i)
+                        self.stats.kill_count += 1
+                    else:  # beta[i] < 0
+                        curr_event = (i, rand_other)
                         self.stats.dup_count += 1
                     self.perform_moves([curr_event])
                     event_list.append(curr_event)
-- 
2.43.0


From e5acf0dace9d30b6fb153132e09c09e6fe80b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 02/23] fix: get_valid_data returned stale or uninitialized
 rows when no new row was stored since the last write

---
 bdld/actions/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/action.py b/bdld/actions/action.py
index 8ae81e7..6275698 100644
--- a/bdld/actions/action.py
+++ b/bdld/actions/action.py
@@ -63,7 +63,8 @@ def get_valid_data(
     :param update_stride: number of time steps between data points
     :param last_write: when the data was last written (needs to be less than write_stride ago)
     """
-    if step == last_write:  # manual check because already_written is 0 due to modulo
+    # manual check because already_written is 0 due to modulo
+    if step // update_stride == last_write // update_stride:  # no new data since then
         return data[:0]  # empty view
 
     write_stride = data.shape[0] * update_stride  # wrapping time of data
-- 
2.43.0


From 7b0b734bda58b4ee9b22cf5a7633325173523126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 03/23] fix: new histograms contained one spurious count at the
 origin

---
 bdld/histogram.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bdld/histogram.py b/bdld/histogram.py
index b2f86a9..4cc257d 100644
--- a/bdld/histogram.py
+++ b/bdld/histogram.py
@@ -46,6 +46,7 @@ class Histogram(grid.Grid):
             bins=self.n_points,
             range=self.histo_ranges,
         )
+        self.clear()  # remove the count of the arbitrary value
         self.ranges = [
             (a[0], a[-1]) for a in self.axes()
         ]  # ranges of points in underlying grid
-- 
2.43.0


From 3bbdf67590ac48d6167c4292070a1843dfa67380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 04/23] fix: histogram lost or double counted the last
 trajectory block at the end of a run

---
 bdld/actions/histogram_action.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/bdld/actions/histogram_action.py b/bdld/actions/histogram_action.py
index e616625..eb73f40 100644
--- a/bdld/actions/histogram_action.py
+++ b/bdld/actions/histogram_action.py
@@ -95,6 +95,7 @@ class HistogramAction(Action):
                 f"Saving histogram every {self.write_stride} time steps to '{filename}'"
             )
         self.update_stride = traj_action.write_stride
+        self.last_update: int = 0
         print()
 
     def run(self, step: int):
@@ -128,19 +129,16 @@ class HistogramAction(Action):
 
         :param step: current simulation step
         """
-        # take into account that the traj might have been written this step
-        last_write = (
-            self.traj_action.last_write
-            if self.traj_action.last_write != step
-            else self.traj_action.last_write - self.traj_action.write_stride
-        )
-        return get_valid_data(
+        # independent of the trajectory writes: everything since the last histogram update
+        data = get_valid_data(
             self.traj_action.positions,
             step,
             self.stride,
             1,  # assumes that traj data is stored even if not written
-            last_write,
+            self.last_update,
         )
+        self.last_update = step
+        return data
 
     def write(self, step: int = None):
         """Write histogram to file
-- 
2.43.0


From 1f2118c6a42685a517c9e7f3aafe8a388375ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 05/23] fix: points of 3d grids were not in the row-major order
 of the data

---
 bdld/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 637f5b3..137d140 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -145,7 +145,7 @@ class Grid:
 
     def points(self) -> np.ndarray:
         """Return all grid points as a array of shape (n_points, dim) in row-major order"""
-        return np.array(np.meshgrid(*self.axes())).T.reshape(
+        return np.stack(np.meshgrid(*self.axes(), indexing="ij"), axis=-1).reshape(
             np.prod(self.n_points), self.n_dim
         )
 
-- 
2.43.0


From b467f4977a18f7d901e17b26d85961cad2e44b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 06/23] fix: delta-f could not be used in more than one
 dimension

---
 bdld/actions/delta_f_action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 45bb8e0..dbaae15 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -47,7 +47,8 @@ class DeltaFAction(Action):
         """
         print("Setting up delta-f action")
         self.fes_action = fes_action
-        check_mask_shapes(masks, fes_action.fes.data)
+        # masks are per grid point, i.e. refer to the flattened fes
+        check_mask_shapes(masks, fes_action.fes.data.reshape(-1))
         self.masks = masks
         self.stride = stride or 0
         self.write_stride = 0  # only set this if a stride is specified
-- 
2.43.0


From 5f3008efe0e69aae697f1433b8e19c8736698231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 07/23] fix: birth-death ignored a seed of zero

---
 bdld/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 5e4e45f..0c881f4 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -267,7 +267,7 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         options["recalculate-probabilities"],
         approx_variant,
         eq_density,
-        options["seed"] + 1000 if options["seed"] else None,
+        options["seed"] + 1000 if options["seed"] is not None else None,
         options["stats-stride"],
         options["stats-filename"],
     )
-- 
2.43.0


From fa4c1dd957461ddbe52fb361be80087b7a218700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 08/23] fix: upper limit of the number of dimensions was not
 checked

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1b41d9c..fa4e435 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -121,7 +121,7 @@ class Input:
         lambda lst: all(x > 0 for x in lst), "all values must be greater than zero"
     )
     positive_or_zero = Condition(lambda x: x >= 0, "must be greater or equal than zero")
-    at_most_3dim = Condition(lambda x: x > 0 & x < 4, "must be between 1 and 3")
+    at_most_3dim = Condition(lambda x: 0 < x < 4, "must be between 1 and 3")
 
     # @staticmethod
     # def match_dimensions(n_dim: int) -> Condition:
-- 
2.43.0


From db1ab9207dbe370752c977c3f4692db759a3ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 09/23] fix: malformed list options raised a bare ValueError
 instead of an OptionError

---
 bdld/inputparser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index fa4e435..1788fea 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -91,16 +91,20 @@ class InputOption:
                 val = section.getint(self.key)
             if self.keytype == bool:
                 val = section.getboolean(self.key)
+            # parsing of lists is a bit more complicated
+            if isinstance(self.keytype, list):
+                val = section.get(self.key)
+                val = [self.keytype[0](x) for x in val.split(",")]
         except ValueError as e:
+            if isinstance(self.keytype, list):
+                type_name = f"list of {self.keytype[0].__name__}"
+            else:
+                type_name = self.keytype.__name__
             raise OptionError(
-                f"could not be converted to {self.keytype.__name__}",
+                f"could not be converted to {type_name}",
                 self.key,
                 section.name,
             ) from e
-        # parsing of lists is a bit more complicated
-        if isinstance(self.keytype, list):
-            val = section.get(self.key)
-            val = [self.keytype[0](x) for x in val.split(",")]
         if self.condition:
             if not self.condition.function(val):
                 raise OptionError(self.condition.desc, self.key, section.name)
-- 
2.43.0


From 63d68102d1ddd0521c898cde9037c919e4fe5079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 10/23] fix: inconsistent dimensions of min/max values were not
 detected

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 1788fea..49ecc71 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -472,7 +472,7 @@ def min_max_to_ranges(
     try:
         n_dim = len(min_list[0])  # TypeError if not list
         for i, _ in enumerate(min_list):
-            if len(min_list[i]) != len(max_list[i]) != n_dim:
+            if not len(min_list[i]) == len(max_list[i]) == n_dim:
                 raise ValueError(f"Dimensions of min/max {i} are inconsistent")
     except TypeError:  # elements are not lists
         for min_max_i in min_list + max_list:
-- 
2.43.0


From e58d66d7bfaccd07fd924bfea138303766ad5a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 11/23] fix: scaling one Mueller-Brown potential also changed
 all other instances

---
 bdld/potential/mueller_brown.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 774c08f..3da3a58 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -45,9 +45,7 @@ class MuellerBrownPotential(Potential):
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
         self.scaling_factor = scaling_factor or 1.0
-        if scaling_factor:
-            global A
-            A *= self.scaling_factor
+        self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
         """Give out coefficients"""
@@ -72,12 +70,12 @@ class MuellerBrownPotential(Potential):
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
             )
-            pot += A[i] * exp_tmp1
+            pot += self.A[i] * exp_tmp1
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         pot += pot_shift
         return (pot, force)
@@ -92,7 +90,7 @@ class MuellerBrownPotential(Potential):
         x = pos[0]
         y = pos[1]
         for i in range(4):
-            pot += A[i] * np.exp(
+            pot += self.A[i] * np.exp(
                 a[i] * (x - x0[i]) ** 2
                 + b[i] * (x - x0[i]) * (y - y0[i])
                 + c[i] * (y - y0[i]) ** 2
@@ -116,9 +114,9 @@ class MuellerBrownPotential(Potential):
                 + c[i] * (y - y0[i]) ** 2
             )
             force[0] += (
-                -A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (2.0 * a[i] * (x - x0[i]) + b[i] * (y - y0[i])) * exp_tmp1
             )
             force[1] += (
-                -A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
+                -self.A[i] * (b[i] * (x - x0[i]) + 2.0 * c[i] * (y - y0[i])) * exp_tmp1
             )
         return force
-- 
2.43.0


From 8f023dfb5c419ed5c637cd0170a05140cb0550d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 12/23] fix: periodic boundary conditions left particles
 outside if they moved by more than one period

---
 bdld/potential/potential.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bdld/potential/potential.py b/bdld/potential/potential.py
index cd7d69a..2e928eb 100644
--- a/bdld/potential/potential.py
+++ b/bdld/potential/potential.py
@@ -173,7 +173,7 @@ class Potential:
         :param mom: momentum of particle per direction (not actually changed)
         """
         for i, x in enumerate(pos):
-            if x < self.ranges[i][0]:
-                pos[i] += self.ranges[i][1] - self.ranges[i][0]
-            elif x > self.ranges[i][1]:
-                pos[i] -= self.ranges[i][1] - self.ranges[i][0]
+            if x < self.ranges[i][0] or x > self.ranges[i][1]:
+                # modulo: the particle can be outside by more than one period
+                period = self.ranges[i][1] - self.ranges[i][0]
+                pos[i] = self.ranges[i][0] + (x - self.ranges[i][0]) % period
-- 
2.43.0


From d4a0a894b25e1f4baa59c9bbc09d936483f8ea9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 13/23] fix: file headers of delta-f and particle-distribution
 lacked the name of the first column

---
 bdld/actions/delta_f_action.py        | 2 +-
 bdld/actions/particle_distribution.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index dbaae15..50771dd 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -83,7 +83,7 @@ class DeltaFAction(Action):
             if ref:
                 for i, val in enumerate(self.ref_values):
                     constants[f"ref_{fields[i]}"] = val
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["time"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
diff --git a/bdld/actions/particle_distribution.py b/bdld/actions/particle_distribution.py
index da5bc1d..3029dcc 100644
--- a/bdld/actions/particle_distribution.py
+++ b/bdld/actions/particle_distribution.py
@@ -71,7 +71,7 @@ class ParticleDistributionAction(Action):
             constants = OrderedDict()  # add state ranges to file header
             for i, state in enumerate(self.states):
                 constants[f"state_{i}"] = str(state)
-            initialize_file(self.filename, fields, constants)
+            initialize_file(self.filename, ["timestep"] + fields, constants)
             stride_str = (
                 f"of every {make_ordinal(self.stride)} time step "
                 if self.stride
-- 
2.43.0


From 0d5c1c6f88bc8f9a565fde87e09330495ec117a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 14/23] fix: unknown approximation variants crashed instead of
 being reported as option error

---
 bdld/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/main.py b/bdld/main.py
index 0c881f4..4fd85de 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -241,9 +241,9 @@ def setup_birth_death(options: Dict, ld: BussiParinelloLD) -> BirthDeath:
         if options[key]:
             try:
                 approx_variant = ApproxVariant.from_str(options[key])
-            except KeyError as err:
+            except TypeError as err:
                 e = "The specified {} could not be understood".format(key)
-                raise inputparser.OptionError(e, "birth-death", key) from err
+                raise inputparser.OptionError(e, key, "birth-death") from err
             return approx_variant
         return None
 
-- 
2.43.0


From dbdfb307332ba65572f6464264c4259e21ecb7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 15/23] fix: shrinking a grid removed a point even if the
 stepsizes fit exactly

---
 bdld/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/grid.py b/bdld/grid.py
index 137d140..f9864a2 100644
--- a/bdld/grid.py
+++ b/bdld/grid.py
@@ -310,7 +310,8 @@ def from_stepsizes(
             stepsizes = [stepsizes] * grid.n_dim
     grid.stepsizes = copy.deepcopy(stepsizes)
     for i, r in enumerate(ranges):
-        n_points_tmp = int(np.ceil((r[1] - r[0]) / stepsizes[i])) + 1 - int(shrink)
+        n_steps = (r[1] - r[0]) / stepsizes[i]
+        n_points_tmp = int(np.floor(n_steps) if shrink else np.ceil(n_steps)) + 1
         grid.ranges.append((float(r[0]), r[0] + stepsizes[i] * (n_points_tmp - 1)))
         grid.n_points.append(n_points_tmp)
     return grid
-- 
2.43.0


From 649d12b3db8d9ec414c7daeeb17d3beba5e2cef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 16/23] fix: missing sections required by fes and delta-f
 crashed instead of being reported

---
 bdld/inputparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 49ecc71..ee7ffc1 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -338,7 +338,7 @@ class Input:
     def parse_fes(self, section: configparser.SectionProxy) -> None:
         """Define and parse the fes section"""
         if not self.histogram:
-            raise configparser.NoSectionError("histogram")
+            raise SectionError("histogram")
         options = [
             InputOption("kt", float, True, Input.positive),
             InputOption("stride", int, False, Input.positive),
@@ -355,7 +355,7 @@ class Input:
     def parse_delta_f(self, section: configparser.SectionProxy) -> None:
         """Define and parse if delta f should be calculated section"""
         if not self.fes:
-            raise configparser.NoSectionError("fes")
+            raise SectionError("fes")
         options = [
             InputOption("stride", int, False, Input.positive),
             InputOption("filename", str, False),
-- 
2.43.0


From 94672813efea4f3e037d7d048aa642fd2b78019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 17/23] fix: coefficient files with a single row could not be
 read

---
 bdld/potential/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/polynomial.py b/bdld/potential/polynomial.py
index dc5279e..32b75fb 100644
--- a/bdld/potential/polynomial.py
+++ b/bdld/potential/polynomial.py
@@ -96,7 +96,7 @@ def coefficients_from_file(filename: str, n_dim: int) -> np.ndarray:
     :param filename: path to file holding the coefficients
     :param n_dim: dimensions of potential
     """
-    file_data = np.genfromtxt(filename)
+    file_data = np.atleast_2d(np.genfromtxt(filename))
 
     # highest polynomial order per dimension
     shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]
-- 
2.43.0


From c315caf4afc00fc336322c5feda58f1085195449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 18/23] fix: unknown boundary conditions were silently ignored

---
 bdld/inputparser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index ee7ffc1..cc4f3e3 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -241,7 +241,13 @@ class Input:
                 "type",
                 section.name,
             )
-        options.append(InputOption("boundary-condition", str, False))
+        boundary_conditions = ["reflective", "periodic"]
+        allowed_boundary_condition = Condition(
+            lambda x: x in boundary_conditions, f"must be one of {boundary_conditions}"
+        )
+        options.append(
+            InputOption("boundary-condition", str, False, allowed_boundary_condition)
+        )
         self.potential = self.parse_section(section, options)
 
     def parse_particles(self, section: configparser.SectionProxy) -> None:
-- 
2.43.0


From 7b80885b303b554a5b224f7d51b56573d6f15957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 19/23] fix: exactly distributable fractions of particles were
 distributed wrongly due to rounding

---
 bdld/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/main.py b/bdld/main.py
index 4fd85de..6053af0 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -205,7 +205,8 @@ def init_particles(options: Dict, ld: LdType) -> None:
         normalized_fractions = np.array(options["fractions"]) / np.sum(
             options["fractions"]
         )
-        counts = [int(frac * options["number"]) for frac in normalized_fractions]
+        # small offset: do not round down because of limited floating point precision
+        counts = [int(frac * options["number"] + 1e-9) for frac in normalized_fractions]
         counts[0] += options["number"] - np.sum(counts)  # rounding offset
         init_pos_choices = cast(
             List[List[float]], inputparser.get_all_numbered_values(options, "pos")
-- 
2.43.0


From 6e17f4da906115bc085229547a23a1175ada0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:22 +0000
Subject: [PATCH 20/23] fix: kt option of fes section was ignored

---
 bdld/actions/delta_f_action.py | 4 ++--
 bdld/actions/fes_action.py     | 4 +++-
 bdld/main.py                   | 1 +
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/bdld/actions/delta_f_action.py b/bdld/actions/delta_f_action.py
index 50771dd..0d063d4 100644
--- a/bdld/actions/delta_f_action.py
+++ b/bdld/actions/delta_f_action.py
@@ -68,8 +68,8 @@ class DeltaFAction(Action):
         else:  # just store one data set
             self.delta_f = np.empty((len(self.masks)))
 
-        # copy temp and timestep from LD
-        self.kt = self.fes_action.histo_action.traj_action.ld.kt
+        # copy temp from FES and timestep from LD
+        self.kt = self.fes_action.kt
         self.dt = self.fes_action.histo_action.traj_action.ld.dt
 
         if ref:
diff --git a/bdld/actions/fes_action.py b/bdld/actions/fes_action.py
index c3df662..61feb09 100644
--- a/bdld/actions/fes_action.py
+++ b/bdld/actions/fes_action.py
@@ -41,6 +41,7 @@ class FesAction(Action):
         plot_domain: Optional[Tuple[float, float]] = None,
         plot_title: str = None,
         ref: Optional[np.ndarray] = None,
+        kt: Optional[float] = None,
     ) -> None:
         """Set up fes calculation for a Histogram
 
@@ -59,6 +60,7 @@ class FesAction(Action):
         :param plot_filename: filename for plot, optional
         :param plot_domain: specify domain for plots, optional
         :param ref: reference fes for plot, optional
+        :param kt: thermal energy to use, default is the one of the Langevin dynamics
         :raise ValueError: if a write_stride but no stride is passed
         :raise ValueError: if a write_stride but no filename is passed
         :raise ValueError: if a plot_stride but no stride is passed
@@ -66,7 +68,7 @@ class FesAction(Action):
         """
         print("Setting up FES calculation for the histogram\n" + "Parameters:")
         self.histo_action = histo_action
-        self.kt = self.histo_action.traj_action.ld.kt
+        self.kt = kt or self.histo_action.traj_action.ld.kt
         print(f"  kt = {self.kt}")
         # set up grid by running analysis to have dimensions and allow checks on shape
         self.fes = calculate_fes(self.histo_action.histo, self.kt)
diff --git a/bdld/main.py b/bdld/main.py
index 6053af0..db19741 100644
--- a/bdld/main.py
+++ b/bdld/main.py
@@ -347,6 +347,7 @@ def setup_fes(options: Dict, histo_action: HistogramAction) -> FesAction:
         options["plot-domain"],
         options["plot-title"],
         ref,
+        options["kt"],
     )
 
 
-- 
2.43.0


From b54503da83b707a78244d719aa3bf197019cfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:15 +0000
Subject: [PATCH 21/23] fix: scaling factor 0 of the Mueller-Brown potential
 was replaced by 1

---
 bdld/potential/mueller_brown.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/potential/mueller_brown.py b/bdld/potential/mueller_brown.py
index 3da3a58..364b124 100644
--- a/bdld/potential/mueller_brown.py
+++ b/bdld/potential/mueller_brown.py
@@ -44,7 +44,7 @@ class MuellerBrownPotential(Potential):
 
         self.n_dim = 2
         self.ranges = [(-1.5, 1.5), (-0.5, 2.5)]
-        self.scaling_factor = scaling_factor or 1.0
+        self.scaling_factor = 1.0 if scaling_factor is None else scaling_factor
         self.A = A * self.scaling_factor
 
     def __str__(self) -> str:
-- 
2.43.0


From 34b588f35c328ad703a2e8d0e84e02fbe5734381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:04 +0000
Subject: [PATCH 22/23] fix: number formats (fmt options) in the input file
 raised an interpolation error

---
 bdld/inputparser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index cc4f3e3..54609f6 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -157,7 +157,8 @@ class Input:
             pass
 
         print(f"Parsing input from file '{self.filename}'\n")
-        infile = configparser.ConfigParser()
+        # no interpolation: number formats contain percent signs
+        infile = configparser.ConfigParser(interpolation=None)
         infile.read(self.filename)
 
         for required_sec in ["ld", "potential", "particles"]:
-- 
2.43.0


From e422ea98c770c511425edbd4cbc4c4cc847a8858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:32 +0000
Subject: [PATCH 23/23] fix: reject dimensions outside 1 to 3 also for the
 mueller-brown potential

---
 bdld/inputparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bdld/inputparser.py b/bdld/inputparser.py
index 54609f6..06e508e 100644
--- a/bdld/inputparser.py
+++ b/bdld/inputparser.py
@@ -234,7 +234,7 @@ class Input:
             options = [
                 type_option,
                 InputOption("scaling-factor", float, False),
-                InputOption("n_dim", int, False, default=2),
+                InputOption("n_dim", int, False, Input.at_most_3dim, 2),
             ]
         else:
             raise OptionError(
-- 
2.43.0

