From 6c454ee2d569b51087d0b5a1e340f70a41ead070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 01/34] fix: replace model files atomically on save, so a
 failed or interrupted save can't destroy the previous file

---
 src/tight_binding_redweasel/atomic_file.py    | 59 +++++++++++++++++++
 src/tight_binding_redweasel/bandstructure.py  | 14 +++--
 src/tight_binding_redweasel/json_tb_format.py | 18 +++---
 3 files changed, 76 insertions(+), 15 deletions(-)
 create mode 100644 src/tight_binding_redweasel/atomic_file.py

diff --git a/src/tight_binding_redweasel/atomic_file.py b/src/tight_binding_redweasel/atomic_file.py
new file mode 100644
index 0000000..d50dedd
--- /dev/null
+++ b/src/tight_binding_redweasel/atomic_file.py
@@ -0,0 +1,59 @@
+import errno
+import os
+import threading
+
+# This file contains the function that is used to (over)write model files.
+# A fit can take hours, so the last good file must survive everything that can go wrong
+# while a new one is written.
+
+
+def write_text(filename, text):
+    """Write a text file such that at any time the path holds either
+    the complete old content or the complete new content.
+
+    The text is written to a temporary file in the same folder, forced to the disk
+    and then renamed, which replaces the old file in one step.
+    If anything goes wrong (full disk, interrupt, crash,...), the old file is still there.
+
+    Args:
+        filename (str): Name of the destination file.
+        text (str): The complete content of the file.
+    """
+    filename = os.path.realpath(filename)  # replace the file, not a link to it
+    if os.path.exists(filename) and not os.path.isfile(filename):
+        # devices, pipes,... can't be replaced (and folders raise the usual error)
+        with open(filename, "w") as file:
+            file.write(text)
+        return
+    folder, name = os.path.split(filename)
+    # unique for each writer, so that threads and processes don't get in each others way
+    temp = os.path.join(folder, f".{name}.{os.getpid()}-{threading.get_ident()}.tmp")
+    try:
+        with open(temp, "w") as file:
+            file.write(text)
+            file.flush()
+            # the content needs to be on the disk before the name is
+            os.fsync(file.fileno())
+        if os.path.exists(filename):
+            os.chmod(temp, os.stat(filename).st_mode & 0o7777)
+        os.replace(temp, filename)
+    except BaseException:
+        try:
+            os.remove(temp)
+        except OSError:
+            pass
+        raise
+    # now also make sure that the new name is on the disk
+    if os.name == "nt":
+        return  # folders can't be opened there
+    try:
+        fd = os.open(folder, os.O_RDONLY)
+    except PermissionError:
+        return  # a folder, that can be written, but not be read
+    try:
+        os.fsync(fd)
+    except OSError as e:
+        if e.errno not in (errno.EINVAL, errno.ENOTSUP):
+            raise  # EINVAL, ENOTSUP: the file system doesn't need/know this
+    finally:
+        os.close(fd)
diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..168b3c8 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -7,6 +7,7 @@ from .symmetry import *
 from .linalg import *
 from . import logger
 from . import json_tb_format
+from . import atomic_file
 from . import wannier90_tb_format as tb_fmt
 
 
@@ -682,12 +683,13 @@ class BandStructureModel:
         opt = np.get_printoptions()
         np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
         if format == "python":
-            with open(filename, "w") as file:
-                assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
+            assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
+            text = repr(self.params_complex()) + ",\\\n"
+            text += repr(self.neighbors) + ",\\\n"
+            text += repr(self.sym.S) + ",\\\n"
+            text += repr(self.sym.inversion) + "\n"
+            # replace the file in one step, so the previous save isn't lost if this one fails
+            atomic_file.write_text(filename, text)
         elif format == "wannier90":
             tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
         elif format == "json":
diff --git a/src/tight_binding_redweasel/json_tb_format.py b/src/tight_binding_redweasel/json_tb_format.py
index 36e6be5..a28d588 100644
--- a/src/tight_binding_redweasel/json_tb_format.py
+++ b/src/tight_binding_redweasel/json_tb_format.py
@@ -1,5 +1,6 @@
 import numpy as np
 import json
+from . import atomic_file
 
 # This file makes an interface for my calculations with
 # my Rust code which uses serde to serialize its (ndarray based) models.
@@ -26,12 +27,11 @@ def save(filename, neighbors, params):
     neighbors = np.asarray(neighbors, dtype=np.float64)
     # build the correct format from 
     # {"band_count":12,"params":[{"v":1,"dim":[12,12],"data":[[1.0,1.0],...]},...],"neighbors":[[0.0,0.0,0.0],...]}
-    with open(filename, "w") as file:
-        band_count = len(params[0])
-        # round the numbers to 0 if they are VERY close
-        params = np.where(np.abs(np.real(params)) < 1e-14, 1j*np.imag(params), params)
-        params = np.where(np.abs(np.imag(params)) < 1e-14, np.real(params), params)
-        # save them in the json format
-        params_repr = [{"v": 1, "dim": [band_count, band_count], "data": [[np.real(v), np.imag(v)] for v in h.flat]} for h in params]
-        json.dump({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}, file)
-
+    band_count = len(params[0])
+    # round the numbers to 0 if they are VERY close
+    params = np.where(np.abs(np.real(params)) < 1e-14, 1j*np.imag(params), params)
+    params = np.where(np.abs(np.imag(params)) < 1e-14, np.real(params), params)
+    # save them in the json format
+    params_repr = [{"v": 1, "dim": [band_count, band_count], "data": [[np.real(v), np.imag(v)] for v in h.flat]} for h in params]
+    # replace the file in one step, so the previous save isn't lost if this one fails
+    atomic_file.write_text(filename, json.dumps({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}))
-- 
2.43.0


From c02b7d0ae981d7a756325309fbcd0b37dbf84d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 02/34] fix: save models without touching numpy's global print
 options and without abbreviating big arrays

---
 src/tight_binding_redweasel/bandstructure.py      | 13 +++++--------
 src/tight_binding_redweasel/tight_binding_asym.py |  4 ----
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 168b3c8..994bc98 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -680,13 +680,13 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
         if format == "python":
             assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-            text = repr(self.params_complex()) + ",\\\n"
-            text += repr(self.neighbors) + ",\\\n"
-            text += repr(self.sym.S) + ",\\\n"
+            # repr of an array depends on the print options and leaves out the middle of big arrays,
+            # repr of a list is always exact and complete.
+            text = f"array({np.asarray(self.params_complex()).tolist()}),\\\n"
+            text += f"array({np.asarray(self.neighbors).tolist()}),\\\n"
+            text += f"array({np.asarray(self.sym.S).tolist()}),\\\n"
             text += repr(self.sym.inversion) + "\n"
             # replace the file in one step, so the previous save isn't lost if this one fails
             atomic_file.write_text(filename, text)
@@ -696,9 +696,6 @@ class BandStructureModel:
             json_tb_format.save(filename, self.neighbors,
                                 self.params_complex())
 
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
-
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
         """Import a tight binding model into the given `self.params` specification (cos_reduced, exp).
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..3c0cd48 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,14 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
         if format == "json":
             json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
             # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
-        np.set_printoptions(**opt)  # reset printoptions
-
     @staticmethod
     def load(filename: str, format=None) -> Self:
         if format is None:
-- 
2.43.0


From 06a2453976045941afde9fd71e40a944cf78e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 03/34] fix: reject truncated wannier90 files instead of
 hanging or filling the missing matrices with zeros

---
 .../wannier90_tb_format.py                    | 30 ++++++++++++++-----
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/wannier90_tb_format.py b/src/tight_binding_redweasel/wannier90_tb_format.py
index b5e3b9d..0dfb12d 100644
--- a/src/tight_binding_redweasel/wannier90_tb_format.py
+++ b/src/tight_binding_redweasel/wannier90_tb_format.py
@@ -31,10 +31,16 @@ def load_tb(filename):
         params = []
         r_params = []
         index = -1
+        pos = None
+        entries = set() # all entries that are in the file
         for line in file:
             if not line.strip():
                 continue # skip empty lines
             parts = line.strip().split()
+            if len(parts) in (4, 8):
+                i,j = int(parts[0]), int(parts[1])
+                values = [float(v) for v in parts[2:]]
+                entries.add((len(parts), pos, i, j))
             if len(parts) == 3:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts])
@@ -55,22 +61,23 @@ def load_tb(filename):
                 if index < 0:
                     continue # skip this entry
                 # new matrix entry (i,j) x+iy
-                i,j = int(parts[0]), int(parts[1])
-                x,y = float(parts[2]), float(parts[3])
+                x,y = values
                 params[index][i-1,j-1] = x + y*1j
             elif len(parts) == 8:
                 if index < 0:
                     continue # skip this entry
                 # new matrix element <i| vec r|j>
-                i,j = int(parts[0]), int(parts[1])
-                x = float(parts[2]) + 1j*float(parts[3])
-                y = float(parts[4]) + 1j*float(parts[5])
-                z = float(parts[6]) + 1j*float(parts[7])
+                x = values[0] + 1j*values[1]
+                y = values[2] + 1j*values[3]
+                z = values[4] + 1j*values[5]
                 r_params[index][i-1,j-1,0] = x
                 r_params[index][i-1,j-1,1] = y
                 r_params[index][i-1,j-1,2] = z
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # the file needs to contain all matrices, otherwise it got cut off
+    if len(entries) != 2 * point_count * band_count**2:
+        raise ValueError(f"File is incomplete, there should be {point_count} matrices of shape ({band_count}, {band_count}) and as many position matrices")
     # sort the neighbors by length
     neighbors = np.array(neighbors)
     params = np.array(params)
@@ -90,6 +97,8 @@ def load_hr(filename):
         degeneracy = ""
         while True:
             line = file.readline()
+            if not line:
+                raise ValueError(f"File is incomplete, the list of {point_count} degeneracies is cut off")
             degeneracy = degeneracy + line.strip() + " "
             if len(degeneracy.split()) >= point_count:
                 break
@@ -100,6 +109,7 @@ def load_hr(filename):
         neighbors_set = set()
         params = []
         index = -1
+        entries = set() # all entries that are in the file
         for line in file:
             if not line.strip():
                 continue # skip empty lines
@@ -107,6 +117,9 @@ def load_hr(filename):
             if len(parts) == 7:
                 # start new matrix or return to existing one
                 pos = tuple([int(x) for x in parts[:3]])
+                i,j = int(parts[3]), int(parts[4])
+                x,y = float(parts[5]), float(parts[6])
+                entries.add((pos, i, j))
                 neg_pos = tuple([-x for x in pos])
                 if pos not in neighbors_set:
                     if pos != neg_pos and neg_pos in neighbors_set:
@@ -119,11 +132,12 @@ def load_hr(filename):
                 else:
                     index = neighbors.index(pos)
                 # new matrix entry (i,j) x+iy
-                i,j = int(parts[3]), int(parts[4])
-                x,y = float(parts[5]), float(parts[6])
                 params[index][i-1,j-1] = x + y*1j
             else:
                 raise ValueError(f"File has a format error in the tight bindng matrices in line \"{line.strip()}\"")
+    # the file needs to contain all matrices, otherwise it got cut off
+    if len(entries) != point_count * band_count**2:
+        raise ValueError(f"File is incomplete, there should be {point_count} matrices of shape ({band_count}, {band_count})")
     # sort the neighbors by length
     neighbors = np.array(neighbors)
     params = np.array(params)
-- 
2.43.0


From 5fd5cf33d9fe7590216e35e73e358a174cae82a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 04/34] fix: load json models of any dimension in
 BandStructureModel

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 994bc98..d3464ab 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -747,7 +747,7 @@ class BandStructureModel:
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From e0670d4b7f487bee09907adfa05503276c7ab750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 05/34] fix: interrupting a fit before its first step returns
 instead of raising UnboundLocalError

---
 src/tight_binding_redweasel/bandstructure.py      | 2 ++
 src/tight_binding_redweasel/tight_binding_asym.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index d3464ab..de5fdb6 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -330,6 +330,7 @@ class BandStructureModel:
         last_add = np.zeros_like(self.params)
         self.normalize()
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -489,6 +490,7 @@ class BandStructureModel:
 
         self.normalize()
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 3c0cd48..d18cce0 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -419,6 +419,7 @@ class AsymTightBindingModel:
         last_add = np.zeros_like(self.H.H_r)
         last_add_s = np.zeros_like(self.S.H_r)
         last_loss = float("inf")
+        iteration = 0
         try:
             for iteration in range(iterations):
                 batch = k_smpl[iteration % batch_div::batch_div]
@@ -617,6 +618,7 @@ class AsymTightBindingModel:
 
         # loss = self.loss(k_smpl, ref_bands, band_, band_offset)
         loss = float("inf")
+        iteration = 0
         try:
             mat_t_path = combined_path = None
             for iteration in range(iterations):
-- 
2.43.0


From 3fc8f5fe794a5c83a5a450a8bd76869c314e5ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 06/34] fix: an interrupt can't leave the log with a different
 number of iterations and losses

---
 src/tight_binding_redweasel/logger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..6c3c175 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -31,10 +31,11 @@ class OptimisationLogger:
     def add_data(self, iteration, loss, max_err):
         self.stream.append((iteration, loss, max_err))
         if self.count:
-            self.iterations.append(self.iteration_count() + 1)
+            iteration_entry = self.iteration_count() + 1
         else:
-            self.iterations.append(iteration)
-        self.loss.append(loss)
+            iteration_entry = iteration
+        # extend both in one step, such that an interrupt can't leave them with different lengths
+        self.iterations, self.loss = self.iterations + [iteration_entry], self.loss + [loss]
         if self.print_loss:
             if self.update_line:
                 print(end="\r")
-- 
2.43.0


From 3bcc11d6726257467059599bb40e0ce581695d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 07/34] fix: logging a perfect fit doesn't raise

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 6c3c175..f84349c 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -43,7 +43,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err == 0 or err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From bb0e53465e22b44c865d0972cd355bce2e1adca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 08/34] fix: change the model only at the end of a fit step,
 such that an aborted fit is the result of complete steps

---
 src/tight_binding_redweasel/bandstructure.py  | 28 ++++++++++++-------
 .../tight_binding_asym.py                     | 24 ++++++++++------
 2 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index de5fdb6..01a196e 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -342,12 +342,17 @@ class BandStructureModel:
                 batch_weights = batch_weights / np.mean(batch_weights)
                 max_accel = min(len(batch), max_accel_global)
 
+                # The model is only changed once at the end of each step,
+                # such that it's always the result of complete steps if the user aborts the fit.
+                params = self.params
+
                 # regularization
                 if regularization != 1.0:
-                    self.params[1:] *= regularization
+                    params = params.copy()
+                    params[1:] *= regularization
 
                 # faster f using cached values
-                f = np.einsum("nkl,in->ikl", self.params, batch_f_i)
+                f = np.einsum("nkl,in->ikl", params, batch_f_i)
                 f += np.conj(np.swapaxes(f, -1, -2))
                 eigvals, eigvecs = np.linalg.eigh(f)
                 eigvals = eigvals[:, band_offset:][:, :len(batch_ref[0])]
@@ -364,10 +369,11 @@ class BandStructureModel:
                 # check if the iteration can end here
                 if iteration % 100 == 0 or batch_div == 1:
                     if batch_div != 1:
-                        loss, max_err = self.error(
+                        loss, max_err = BandStructureModel(self.f_i, self.df_i, params).error(
                             k_smpl, ref_bands, band_weights[0], band_offset)
                     if abs(last_loss / loss - 1) < convergence_threshold or loss < loss_threshold:
                         log.add_message("converged")
+                        self.params = params
                         break
                     last_loss = loss
                     log.add_data(iteration, loss, max_err)
@@ -388,13 +394,13 @@ class BandStructureModel:
                     # TODO this only works with cos_reduced...
                     params_add[0] *= 0.0
                 if keep_zeros:
-                    params_add *= np.where(np.abs(self.params)
+                    params_add *= np.where(np.abs(params)
                                            < 1e-14, 0.0, 1.0)
                 params_add *= learning_rate
                 # impulse acceleration (beta given by the problem)
                 params_add += last_add * (1 - 1 / max_accel)
                 # change parameters (alpha = 1.0 with the chosen way to normalize the gradient)
-                self.params = self.params + params_add
+                self.params = params + params_add
                 last_add = params_add
             else:
                 iteration = iterations
@@ -535,14 +541,16 @@ class BandStructureModel:
                 step = precond_func(conjugate_gradient_solve(A, b, err=float(np.linalg.norm(b)) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.params -= step
+                # change the model in one go, such that it's always the result of complete steps if the user aborts the fit
+                params = self.params - step
                 if self.symmetrizer is not None:
-                    self.params = self.symmetrizer(self.params)
+                    params = self.symmetrizer(params)
                 if keep_zeros:
-                    self.params *= H_r_mask
+                    params *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.params[0] += np.conj(self.params[0].T)
-                self.params[0] /= 2
+                params[0] += np.conj(params[0].T)
+                params[0] /= 2
+                self.params = params
             else:
                 iteration = iterations
         except KeyboardInterrupt:
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index d18cce0..bff47e0 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -439,12 +439,17 @@ class AsymTightBindingModel:
                     batch_c_i *= norm
                     batch_c_i *= len(batch)
 
+                # The model is only changed once at the end of each step,
+                # such that it's always the result of complete steps if the user aborts the fit.
+                H_r = self.H.H_r
+
                 # regularization
                 if regularization != 1.0:
-                    self.H.H_r[1:] *= regularization
+                    H_r = H_r.copy()
+                    H_r[1:] *= regularization
 
                 # faster H and S using cached values
-                H = np.einsum("nkl,in->ikl", self.H.H_r, batch_f_i)
+                H = np.einsum("nkl,in->ikl", H_r, batch_f_i)
                 H += np.conj(np.swapaxes(H, -1, -2))
                 if train_S:
                     H = np.einsum("nkl,in->ikl", self.S.H_r, batch_s_f_i)
@@ -477,9 +482,10 @@ class AsymTightBindingModel:
                 # check if the iteration is already converged
                 if iteration % 100 == 0 or batch_div == 1:
                     if batch_div != 1:
-                        loss, max_err = self.error(k_smpl, ref_bands, band_weights[0], band_offset)
+                        loss, max_err = AsymTightBindingModel(HermitianFourierSeries(self.H.neighbors, H_r), self.S).error(k_smpl, ref_bands, band_weights[0], band_offset)
                     if abs(last_loss / loss - 1) < convergence_threshold or loss < loss_threshold:
                         log.add_message("converged")
+                        self.H.H_r = H_r
                         break
                     last_loss = loss
                     log.add_data(iteration, loss, max_err)
@@ -525,7 +531,7 @@ class AsymTightBindingModel:
                 if train_S:
                     S_r_add += last_add_s * (1 - 1 / max_accel) # don't accelerate S???
                 # change parameters
-                self.H.H_r = self.H.H_r + H_r_add
+                self.H.H_r = H_r + H_r_add
                 last_add = H_r_add
                 if train_S:
                     self.S.H_r = self.S.H_r + S_r_add
@@ -673,12 +679,14 @@ class AsymTightBindingModel:
                 step = precond(conjugate_gradient_solve(A, b, x0=x0, err=np.linalg.norm(b) * 1e-3, max_i=max_cg_iterations))
                 step *= 1 / len(k_smpl)
 
-                self.H.H_r -= step
+                # change the model in one go, such that it's always the result of complete steps if the user aborts the fit
+                H_r = self.H.H_r - step
                 if keep_zeros:
-                    self.H.H_r *= H_r_mask
+                    H_r *= H_r_mask
                 # keep the 0 entry hermitian!
-                self.H.H_r[0] += np.conj(self.H.H_r[0].T)
-                self.H.H_r[0] /= 2
+                H_r[0] += np.conj(H_r[0].T)
+                H_r[0] /= 2
+                self.H.H_r = H_r
                 log.add_data(iteration, loss, max_err)
             else:
                 iteration = iterations
-- 
2.43.0


From 4d7d410d1da99d8ac21348650311e580a8cf2f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 09/34] fix: normalize, permute and set_params_complex change
 the model in one step, such that an interrupt can't break it

---
 src/tight_binding_redweasel/bandstructure.py  | 54 ++++++++++---------
 .../tight_binding_asym.py                     | 44 +++++++--------
 2 files changed, 51 insertions(+), 47 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 01a196e..79318dc 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -570,37 +570,39 @@ class BandStructureModel:
             self.params = self.symmetrizer(self.params)
             # don't use the normalization if a symmetrizer is specified, as it might mess with that.
             return
+        # work on a copy and change the model at the end, such that it stays intact if this is interrupted
+        params = np.array(self.params)
         if self.exp is None or not self.exp or (self.sym is not None and self.sym.inversion):
             # here the matrices are assumed to be hermitian, so fix them just in case!
             # in case of inversion symmetry, the exponential form is more free than the cos/sin form.
             # -> Reduce that freedom by making the matrices hermitian!
-            self.params[1:] += np.conj(np.swapaxes(self.params[1:], -1, -2))
-            self.params[1:] /= 2
+            params[1:] += np.conj(np.swapaxes(params[1:], -1, -2))
+            params[1:] /= 2
         # the zero matrix is always hermitian
-        self.params[0] += np.conj(self.params[0].T)
-        self.params[0] /= 2
-        la, ev = np.linalg.eigh(self.params[0])
+        params[0] += np.conj(params[0].T)
+        params[0] /= 2
+        la, ev = np.linalg.eigh(params[0])
         # la, ev = np.linalg.eigh(self.f(0))
-        for i in range(len(self.params)):
-            self.params[i] = np.conj(ev.T) @ self.params[i] @ ev
+        for i in range(len(params)):
+            params[i] = np.conj(ev.T) @ params[i] @ ev
         # normalize a little more using complex reflections on the second matrix
-        if len(self.params) > 1:
-            for i in range(1, len(self.params[1])):
-                x = self.params[1][i - 1, i]
+        if len(params) > 1:
+            for i in range(1, len(params[1])):
+                x = params[1][i - 1, i]
                 a = np.abs(x)
                 if a > 1e-14:
                     sign = np.conj(x) / a
-                    self.params[:, :, i] *= sign
-                    self.params[:, i, :] *= np.conj(sign)
+                    params[:, :, i] *= sign
+                    params[:, i, :] *= np.conj(sign)
                 else:
                     # set very small values to 0, because they are likely the result of small symmetry breaks
-                    self.params[1][i - 1, i] = 0.0
+                    params[1][i - 1, i] = 0.0
+        self.params = params
 
     def permute(self, order):
         """Apply a permutation to the basis of the hamiltonian"""
-        for i in range(len(self.params)):
-            self.params[i] = self.params[i][order]
-            self.params[i] = self.params[i][:, order]
+        # change all in one step, such that an interrupt can't leave a half permuted model
+        self.params = self.params[:, order][:, :, order]
 
     def params_complex(self):
         """
@@ -645,23 +647,23 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        # change self.params at the end, such that the model stays intact if this is interrupted
+        params = np.array(H_r)
         if self.exp:
-            self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
-                                         np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
+                params[0] += np.sum(params[1:] + np.conj(np.swapaxes(params[1:], -1, -2)), axis=0)
         else:
-            self.params = np.array(H_r)
             n = len(H_r)
             if self.sym is not None and not self.sym.inversion:
-                A = self.params + np.conj(np.swapaxes(self.params, -1, -2))
-                B = 1j * (self.params - np.conj(np.swapaxes(self.params, -1, -2)))
-                self.params = np.concatenate([A, B[1:]], axis=0)
+                A = params + np.conj(np.swapaxes(params, -1, -2))
+                B = 1j * (params - np.conj(np.swapaxes(params, -1, -2)))
+                params = np.concatenate([A, B[1:]], axis=0)
             else:
-                self.params += np.conj(np.swapaxes(self.params, -1, -2))
-            self.params /= 2
+                params += np.conj(np.swapaxes(params, -1, -2))
+            params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                params[0] += np.sum(params[1:n], axis=0) * 2
+        self.params = params
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index bff47e0..c70f13e 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -703,48 +703,50 @@ class AsymTightBindingModel:
         Sadly this is not enough to guarantee that two models with the same coefficient
         functions (neighbors) and bandstructure will have the same hamiltonian.
         """
-        self.H.H_r[0] = (self.H.H_r[0] + self.H.H_r[0].T.conj()) / 2
-        self.S.H_r[0] = (self.S.H_r[0] + self.S.H_r[0].T.conj()) / 2
+        # work on copies and change the model at the end, such that it stays intact if this is interrupted
+        H = self.H.copy()
+        S = self.S.copy()
+        H.H_r[0] = (H.H_r[0] + H.H_r[0].T.conj()) / 2
+        S.H_r[0] = (S.H_r[0] + S.H_r[0].T.conj()) / 2
         # first normalize S such that S(0)=1
         # NOTE: I think using cholestky instead of matrix sqrt can break symmetries...
         # L = np.conj(np.linalg.inv(np.linalg.cholesky(self.S.f(((0,)*self.dim(),))[0])).T)
-        la, ev = np.linalg.eigh(self.S.f(((0,)*self.dim(),))[0])
+        la, ev = np.linalg.eigh(S.f(((0,)*self.dim(),))[0])
         L = ev @ np.diag(la**-.5) @ np.conj(ev.T)
-        self.H.H_r = np.einsum("ji,njk,kl->nil", np.conj(L), self.H.H_r, L)
-        self.S.H_r = np.einsum("ji,njk,kl->nil", np.conj(L), self.S.H_r, L)
+        H.H_r = np.einsum("ji,njk,kl->nil", np.conj(L), H.H_r, L)
+        S.H_r = np.einsum("ji,njk,kl->nil", np.conj(L), S.H_r, L)
         # normalize H
-        _, ev = np.linalg.eigh(self.H.f(((0,)*self.dim(),))) # this keeps the symmetry intact
+        _, ev = np.linalg.eigh(H.f(((0,)*self.dim(),))) # this keeps the symmetry intact
         ev = ev[0]
         # stable sort ev such that the 0 structure of H_r[0] is kept (important for symmetry)
         sorting = np.argsort(np.argmin(np.abs(ev) < 1e-7, axis=0))
         ev = ev.T[sorting].T
-        self.H.H_r = np.einsum("ji,njk,kl->nil", np.conj(ev), self.H.H_r, ev)
-        self.S.H_r = np.einsum("ji,njk,kl->nil", np.conj(ev), self.S.H_r, ev)
+        H.H_r = np.einsum("ji,njk,kl->nil", np.conj(ev), H.H_r, ev)
+        S.H_r = np.einsum("ji,njk,kl->nil", np.conj(ev), S.H_r, ev)
         # TODO test the following further normalisation
         if False:
             # normalize a little more using complex reflections on the second matrix
-            if len(self.H.H_r) > 1:
-                for i in range(1, len(self.H.H_r[1])):
-                    x = self.H.H_r[1][i-1, i]
+            if len(H.H_r) > 1:
+                for i in range(1, len(H.H_r[1])):
+                    x = H.H_r[1][i-1, i]
                     a = np.abs(x)
                     if a != 0:
                         sign = np.conj(x) / a
-                        self.H.H_r[1:, :, i] *= sign
-                        self.H.H_r[1:, i, :] *= np.conj(sign)
-                        self.S.H_r[1:, :, i] *= sign
-                        self.S.H_r[1:, i, :] *= np.conj(sign)
+                        H.H_r[1:, :, i] *= sign
+                        H.H_r[1:, i, :] *= np.conj(sign)
+                        S.H_r[1:, :, i] *= sign
+                        S.H_r[1:, i, :] *= np.conj(sign)
                     else:
                         pass  # TODO switch to a different cell to normalize
         # normalize continuous DoF (TODO)
+        self.H.H_r, self.S.H_r = H.H_r, S.H_r
 
     def permute(self, order):
         """apply a permutation to the basis of the hamiltonian"""
-        for i in range(len(self.H.H_r)):
-            self.H.H_r[i] = self.H.H_r[i][order]
-            self.H.H_r[i] = self.H.H_r[i][:, order]
-        for i in range(len(self.S.H_r)):
-            self.S.H_r[i] = self.S.H_r[i][order]
-            self.S.H_r[i] = self.S.H_r[i][:, order]
+        H_r = self.H.H_r[:, order][:, :, order]
+        S_r = self.S.H_r[:, order][:, :, order]
+        # change both in one step, such that an interrupt can't leave a half permuted model
+        self.H.H_r, self.S.H_r = H_r, S_r
 
     def transform(self, A):
         """Apply a transformation on the neighbors in the fourier series.
-- 
2.43.0


From f6b5ae0392079cc70e9c6831f8b57c677cc86eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 10/34] fix: change neighbors and coefficients in one step,
 such that they match after an interrupt

---
 .../tight_binding_asym.py                     | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c70f13e..d0827d3 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -126,8 +126,10 @@ class HermitianFourierSeries:
                     return
                 else:
                     raise ValueError("redundant/duplicate neighbors are not allowed")
-        self.neighbors = np.concatenate([self.neighbors, neighbors], axis=0)
-        self.H_r = np.concatenate([self.H_r, np.zeros((len(neighbors),) + self.H_r.shape[1:])], axis=0)
+        new_neighbors = np.concatenate([self.neighbors, neighbors], axis=0)
+        new_H_r = np.concatenate([self.H_r, np.zeros((len(neighbors),) + self.H_r.shape[1:])], axis=0)
+        # change both in one step, such that they always match, even if this is interrupted
+        self.neighbors, self.H_r = new_neighbors, new_H_r
 
     def limit_neighbors(self, max_length: float) -> int:
         """Remove all neighbors that have a vector length more than a given threshold length.
@@ -141,8 +143,8 @@ class HermitianFourierSeries:
         assert max_length >= 0.0, "can only limit with non negative maximal length, as the 0 neighbor needs to be kept"
         keep = np.linalg.norm(self.neighbors, axis=-1) <= max_length + 1e-8
         old_len = len(self.neighbors)
-        self.neighbors = np.array(self.neighbors[keep])
-        self.H_r = np.array(self.H_r[keep])
+        # change both in one step, such that they always match, even if this is interrupted
+        self.neighbors, self.H_r = np.array(self.neighbors[keep]), np.array(self.H_r[keep])
         return old_len - len(self.neighbors)
 
     def limit_neighbor_count(self, max_count: int) -> int:
@@ -157,8 +159,8 @@ class HermitianFourierSeries:
         # sort neighbors by length first and trim the index list
         sort = np.argsort(np.linalg.norm(self.neighbors, axis=-1))[:max_count]
         old_len = len(self.neighbors)
-        self.neighbors = np.array(self.neighbors[sort])
-        self.H_r = np.array(self.H_r[sort])
+        # change both in one step, such that they always match, even if this is interrupted
+        self.neighbors, self.H_r = np.array(self.neighbors[sort]), np.array(self.H_r[sort])
         return old_len - len(self.neighbors)
 
     def cleanup_neighbors(self, min_norm: float) -> int:
@@ -173,8 +175,8 @@ class HermitianFourierSeries:
         keep = np.linalg.norm(self.H_r, axis=(-1, -2)) >= min_norm
         old_len = len(self.neighbors)
         keep[0] = True  # always keep the 0
-        self.neighbors = np.array(self.neighbors[keep])
-        self.H_r = np.array(self.H_r[keep])
+        # change both in one step, such that they always match, even if this is interrupted
+        self.neighbors, self.H_r = np.array(self.neighbors[keep]), np.array(self.H_r[keep])
         return old_len - len(self.neighbors)
 
     def __add__(self, other: 'HermitianFourierSeries') -> 'HermitianFourierSeries':
@@ -756,8 +758,8 @@ class AsymTightBindingModel:
         Args:
             A (arraylike(dim, dim)): Transformation matrix for the neighbors. E.g. matrix with the real lattice vectors in the columns.
         """
-        self.H.neighbors = np.einsum("ji,ni->nj", A, self.H.neighbors)
-        self.S.neighbors = np.einsum("ji,ni->nj", A, self.S.neighbors)
+        # change both in one step, such that they always match, even if this is interrupted
+        self.H.neighbors, self.S.neighbors = np.einsum("ji,ni->nj", A, self.H.neighbors), np.einsum("ji,ni->nj", A, self.S.neighbors)
 
     def params_complex(self):
         """
-- 
2.43.0


From 87b8d5168405534f309141ede8659e842a09722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 11/34] fix: combined and scaled models don't share their
 neighbor list with the original

---
 src/tight_binding_redweasel/tight_binding_asym.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index d0827d3..a67e405 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -111,7 +111,7 @@ class HermitianFourierSeries:
     def direct_sum(self, other: 'HermitianFourierSeries') -> 'HermitianFourierSeries':
         if np.any(self.neighbors != other.neighbors):
             raise NotImplementedError("mixing neighbor sets in the direct sum is currently not implemented.")
-        return HermitianFourierSeries(self.neighbors, direct_sum(self.H_r, other.H_r))
+        return HermitianFourierSeries(self.neighbors.copy(), direct_sum(self.H_r, other.H_r))
 
     def add_neighbors(self, neighbors: Sequence):
         """Add more neighbors with zero coefficients.
@@ -184,7 +184,7 @@ class HermitianFourierSeries:
         # 1. bring them to the same number of neigbors
         # 2. do the direct sum for the coefficient matrices
         assert np.all(self.neighbors == other.neighbors), "currently only supported for equal neighbors"
-        return HermitianFourierSeries(self.neighbors, direct_sum(self.H_r, other.H_r))
+        return HermitianFourierSeries(self.neighbors.copy(), direct_sum(self.H_r, other.H_r))
 
 class AsymTightBindingModel:
     """
@@ -895,7 +895,7 @@ class AsymTightBindingModel:
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-        return AsymTightBindingModel(HermitianFourierSeries(self.H.neighbors, self.H.H_r * fac), S=self.S.copy())
+        return AsymTightBindingModel(HermitianFourierSeries(self.H.neighbors.copy(), self.H.H_r * fac), S=self.S.copy())
 
 
 # free electron model (scaled to have hessian 1I) for testing
-- 
2.43.0


From 80b43ec9b0e2b2bbe5c2de13f498e9a169328015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 12/34] fix: keep the constant matrix hermitian in each step of
 BandStructureModel.optimize, such that an aborted fit isn't left with a non
 hermitian one

---
 src/tight_binding_redweasel/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 79318dc..8d6838b 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -388,6 +388,8 @@ class BandStructureModel:
                 diff = eigvecs @ (diff[..., None] *
                                   np.conj(np.swapaxes(eigvecs, 1, 2)))
                 params_add = np.einsum("bij,bn->nij", diff, batch_c_i)
+                # keep the 0 entry hermitian!
+                params_add[0] = (params_add[0] + np.conj(params_add[0].T)) / 2
                 if self.symmetrizer is not None:
                     params_add = self.symmetrizer(params_add)
                 if not train_k0:
-- 
2.43.0


From a49090a84056f28574d1461a2130775b864f308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 13/34] fix: BandStructureModel.supercell always failed its own
 integer check and only knew three dimensions

---
 src/tight_binding_redweasel/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 8d6838b..9f858e3 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -858,7 +858,7 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
+        matrix = np.round(matrix).astype(np.int64)
         det = round(np.linalg.det(matrix))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
@@ -892,7 +892,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From edd37529d439686a996e333a3f6f62625bac8919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 14/34] fix: KIntegral.precompute stores its results only when
 they are complete, such that a failed one doesn't break later integrals

---
 .../bulk_properties.py                        | 33 ++++++++++---------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..a8fe10f 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -234,24 +234,25 @@ class KIntegral:
         Args:
             hessians (bool, optional): If True, the Hessian matrices (inverse mass tensors) will also be computed. Defaults to False.
         """
-        if hessians:
-            self.v = []
-            self.h = []
-            self.w = []
-            for k_smpl, band_indices, weights in zip(self.k_smpl, self.band_indices, self.weights):
+        all_v = []
+        all_h = []
+        all_w = []
+        for k_smpl, band_indices, weights in zip(self.k_smpl, self.band_indices, self.weights):
+            if hessians:
                 _, v, h = self.model.bands_grad_hess(k_smpl)
-                v = np.take_along_axis(v, band_indices.reshape(-1, 1, 1), axis=-1)[..., 0]
-                self.v.append(v)
-                self.h.append(np.take_along_axis(h, band_indices.reshape(-1, 1, 1, 1), axis=-1)[..., 0])
-                self.w.append(weights / (1e-8 + np.linalg.norm(v, axis=-1)))
-        else:
-            self.v = []
-            self.w = []
-            for k_smpl, band_indices, weights in zip(self.k_smpl, self.band_indices, self.weights):
+                all_h.append(np.take_along_axis(h, band_indices.reshape(-1, 1, 1, 1), axis=-1)[..., 0])
+            else:
                 _, v = self.model.bands_grad(k_smpl)
-                v = np.take_along_axis(v, band_indices.reshape(-1, 1, 1), axis=-1)[..., 0]
-                self.v.append(v)
-                self.w.append(weights / (1e-8 + np.linalg.norm(v, axis=-1)))
+            v = np.take_along_axis(v, band_indices.reshape(-1, 1, 1), axis=-1)[..., 0]
+            all_v.append(v)
+            all_w.append(weights / (1e-8 + np.linalg.norm(v, axis=-1)))
+        # store the results only when they are complete,
+        # such that an interrupted computation is started again by the next integration.
+        # self.h and self.v are used to check if the data is present, so they come last.
+        self.w = all_w
+        if hessians:
+            self.h = all_h
+        self.v = all_v
 
     def integrate_df(self, g: Callable, hessians=False, moments=0):
         """Integrate with the derivative of the fermi function as weight function.
-- 
2.43.0


From db27f9a318796ac75427749d936b7131f5f7b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:03 +0000
Subject: [PATCH 15/34] fix: check_symmetry tests the inversion symmetry of the
 group as well

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..1179d1a 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -514,7 +514,7 @@ class Symmetry:
         r_smpl = np.random.random((50, len(self.S[0])))
         for r in r_smpl:
             values = []
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 values.append(foo(s @ r))
             if np.linalg.norm(np.std(values, axis=0)) > tolerance:
                 if verbose:
-- 
2.43.0


From f88b231636dd68c46d896e422000f9b947912052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 16/34] fix: UnitaryRepresentation.check_symmetry tests its
 random points instead of one fixed point

---
 src/tight_binding_redweasel/unitary_representations.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..c05168b 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -423,7 +423,6 @@ class UnitaryRepresentation:
         """
         # random sample points
         k_smpl = np.random.random((50, len(self.sym.S[0])))
-        k_smpl = ((0.0, 0.5, 0.0),)
         for k in k_smpl:
             values = []
             for s, u in zip(self.sym.S, self.U):
-- 
2.43.0


From 0e596b1e12a26dedf61672240659fb26bb71abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 17/34] fix: autofit_asym with added bands builds the constant
 matrix in the size of the model

---
 src/tight_binding_redweasel/tight_binding_asym.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index a67e405..7ede3fb 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -964,7 +964,8 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        # the added bands start at the energy of the lowest/highest given band
+        tb.H.H_r[0] = np.diag(np.pad(ref_bands[0], (add_bands_below, add_bands_above), mode='edge'))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From b9f06e2cb9e4db6c304dcf00864a30f49e3e0663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 18/34] fix: from_disk converts the atom positions, which are
 in bohr, with the lattice vectors in bohr

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..3b86bc6 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1397,6 +1397,7 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
         A = np.array([a1, a2, a3]).T
+        A_inv = np.linalg.inv(A) # the positions are in bohr as well
         if crystal.unit == "angstrom":
             A *= bohr_to_angstrom
         crystal.A = A
@@ -1404,7 +1405,7 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = A_inv @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
-- 
2.43.0


From 79d06695d81fdea1bb377e73bff5206d47933330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 19/34] fix: from_disk converts cutoff and smearing from
 Hartree to the Rydberg of the input files

---
 src/tight_binding_redweasel/qespresso_interface.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 3b86bc6..f909657 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1410,13 +1410,13 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # energies in the xml are in Hartree, while the input parameters are in Ry
+        crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From 054676a8f66c6fd11275937fab72bbc070ec11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 20/34] fix: from_disk restores the relativistic setting

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f909657..cd113ff 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1417,6 +1417,8 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
                 crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+        spinorbit = section.getElementsByTagName("spinorbit")
+        crystal.relativistic = bool(spinorbit) and spinorbit[0].firstChild.nodeValue.strip() == "true"
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From 367e533aebd5c98ce51c3a9420cf9cab4732fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:58 +0000
Subject: [PATCH 21/34] fix: the bands calculation carries the smearing, so
 from_disk keeps the temperature after it

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index cd113ff..bf557cd 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -980,6 +980,7 @@ class QECrystal:
 &system
     ibrav = {self.ibrav}, nat={len(self.basis)}, ntyp= {len(set(self.types))},{f" celldm(1)={self.cell_scale}," if self.ibrav != 0 else ""}
     ecutwfc = {self.kinetic_energy_cutoff}, nbnd = {band_count},
+    occupations='smearing', smearing='{"marzari-vanderbilt" if self.T == 0 else "fermi-dirac"}', degauss={0.02 if self.T == 0 else self.T*6.3336231269e-6},
     {"lspinorb=.true., noncolin=.true.," if self.relativistic else ""}
 /
 &electrons
-- 
2.43.0


From 295bc4f9f66d14d3dcf2f0d8ebaa2027b240f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:16 +0000
Subject: [PATCH 22/34] fix: input decks list the species in order of
 appearance instead of set order

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index bf557cd..7f2bf8e 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -851,7 +851,7 @@ class QECrystal:
 {self.A[0,2]} {self.A[1,2]} {self.A[2,2]}
 """ if self.ibrav == 0 else ""
         crystal = cell_params + "ATOMIC_SPECIES\n"
-        for t in set(self.types):
+        for t in dict.fromkeys(self.types): # in order of appearance, so the file is always the same
             crystal = crystal + f" {t} {element_masses[element_numbers[t]]} {pp_files[t]}\n"
         crystal = crystal + "ATOMIC_POSITIONS crystal\n"
         for b, t in zip(self.basis, self.types):
-- 
2.43.0


From 6c05449684ec0347e09e4d1ccd030d61db2e9bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 23/34] fix: read_wavefunctions and read_charge_density check
 every record of the binary files

Cut files were returned as data, the charge density was read 8 bytes too early
and without its imaginary part, and spinor coefficients were in the wrong order.
---
 .../qespresso_interface.py                    | 98 ++++++++-----------
 1 file changed, 43 insertions(+), 55 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 7f2bf8e..f8813ec 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -291,6 +291,29 @@ def version() -> str:
     version = 'v' + out.split("\n")[1].split("starts")[0].split("v")[1].strip()
     return version
 
+def _read_record(file, *items):
+    """Read one record of a Fortran unformatted file. Every record is enclosed by its length in bytes.
+
+    Args:
+        file: The file, opened in binary mode.
+        *items (tuple): (dtype, count) for each of the arrays in the record.
+
+    Returns:
+        list: the arrays
+    """
+    size = sum((np.dtype(dtype).itemsize * int(count) for dtype, count in items))
+    data = file.read(4 + size + 4)
+    if len(data) != 4 + size + 4:
+        raise ValueError("file is incomplete, it ends inside of a record")
+    if np.frombuffer(data[:4], dtype='int32')[0] != size or np.frombuffer(data[-4:], dtype='int32')[0] != size:
+        raise ValueError("file is damaged or has an unknown format, the length of a record doesn't match")
+    arrays = []
+    offset = 4
+    for dtype, count in items:
+        arrays.append(np.frombuffer(data, dtype=dtype, count=int(count), offset=offset).copy())
+        offset += arrays[-1].nbytes
+    return arrays
+
 class QECrystal:
     def __init__(self, name: str, A, basis: list, types: list, kinetic_energy_cutoff: float=None, unit="angstrom", relativistic=False):
         """Constructor of QECrystal. Use `from_disk` instead if the data is already there.
@@ -732,39 +755,18 @@ class QECrystal:
             if not (file.startswith("wfc") and file.endswith(".dat")):
                 continue
             with open(f'./qe-data/{self.name}.save/{file}', 'rb') as f:
-                # Moves the cursor 4 bytes to the right
-                f.seek(4)
-
-                ik = np.fromfile(f, dtype='int32', count=1)[0]
-                xk = np.fromfile(f, dtype='float64', count=3)
-                ispin = np.fromfile(f, dtype='int32', count=1)[0]
-                gamma_only = bool(np.fromfile(f, dtype='int32', count=1)[0])
-                scalef = np.fromfile(f, dtype='float64', count=1)[0]
-
-                order.append(ik)
+                ik, xk, ispin, gamma_only, scalef = _read_record(f, ('int32', 1), ('float64', 3), ('int32', 1), ('int32', 1), ('float64', 1))
+                order.append(ik[0])
                 k_smpl.append(xk)
 
-                # Move the cursor 8 byte to the right
-                f.seek(8, 1)
+                (ngw, igwx, npol, nbnd), = _read_record(f, ('int32', 4))
 
-                ngw = np.fromfile(f, dtype='int32', count=1)[0]
-                igwx = np.fromfile(f, dtype='int32', count=1)[0]
-                npol = np.fromfile(f, dtype='int32', count=1)[0]
-                nbnd = np.fromfile(f, dtype='int32', count=1)[0]
-
-                # Move the cursor 8 byte to the right
-                f.seek(8, 1)
-
-                b1 = np.fromfile(f, dtype='float64', count=3)
-                b2 = np.fromfile(f, dtype='float64', count=3)
-                b3 = np.fromfile(f, dtype='float64', count=3)
-                B_ = np.array([b1, b2, b3]).T
+                B_, = _read_record(f, ('float64', 9))
+                B_ = B_.reshape(3, 3).T # columns b1, b2, b3
                 assert B is None or np.linalg.norm(B - B_) < 1e-12, "different lattice for wavefunctions at different k-points"
                 B = B_
 
-                f.seek(8,1)
-                
-                mill = np.fromfile(f, dtype='int32', count=3*igwx)
+                mill, = _read_record(f, ('int32', 3*igwx))
                 mill = mill.reshape((igwx, 3))
                 # k+G = xk + h*b1 + k*b2 + l*b3
                 # mill is in "crystal coordinates", so just return that as G
@@ -773,15 +775,14 @@ class QECrystal:
                 # where B_inv @ xk, mill are returned
 
                 evc = np.zeros( (nbnd, npol*igwx), dtype="complex128")
-
-                f.seek(8,1)
                 for i in range(nbnd):
-                    evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
-                    f.seek(8, 1)
-                
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                    evc[i,:], = _read_record(f, ('complex128', npol*igwx))
+
+                # the file contains all coefficients of the first spin component before the second one
+                evc_list.append(np.swapaxes(evc.reshape(nbnd, npol, igwx), 1, 2))
                 g_smpl_list.append(mill)
+        if sorted(order) != list(range(1, len(order) + 1)):
+            raise ValueError(f"wavefunction files for some k-points are missing, only found those for k-points {sorted(order)}")
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
         assert B is not None
@@ -797,31 +798,18 @@ class QECrystal:
         # The format is documented in
         # https://gitlab.com/QEF/q-e/-/wikis/Developers/Format-of-data-files
         with open(f'./qe-data/{self.name}.save/charge-density.dat', 'rb') as f:
-            # Moves the cursor 4 bytes to the right
-            f.seek(4)
+            (gamma_only, ngm_g, nspin), = _read_record(f, ('int32', 3))
 
-            gamma_only = bool(np.fromfile(f, dtype='int32', count=1)[0])
-            ngm_g = np.fromfile(f, dtype='int32', count=1)[0]
-            nspin = np.fromfile(f, dtype='int32', count=1)[0]
+            b1, b2, b3 = _read_record(f, ('float64', 3), ('float64', 3), ('float64', 3))
 
-            # Move the cursor 8 byte to the right
-            f.seek(8, 1)
-
-            b1 = np.fromfile(f, dtype='float64', count=3)
-            b2 = np.fromfile(f, dtype='float64', count=3)
-            b3 = np.fromfile(f, dtype='float64', count=3)
-
-            f.seek(8,1)
-            
-            mill = np.fromfile(f, dtype='int32', count=3*ngm_g)
-            mill = mill.reshape((ngm_g, 3))
-            # k+G = xk + h*b1 + k*b2 + l*b3
-            g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
+            # G = h*b1 + k*b2 + l*b3
+            # mill is in "crystal coordinates", so just return that as G
+            mill, = _read_record(f, ('int32', 3*ngm_g))
+            g_smpl = mill.reshape((ngm_g, 3))
 
-            rho_g = np.zeros((nspin, ngm_g))
+            rho_g = np.zeros((nspin, ngm_g), dtype="complex128")
             for i in range(nspin):
-                rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
-                f.seek(8, 1)
+                rho_g[i,:], = _read_record(f, ('complex128', ngm_g))
         return g_smpl, rho_g
 
     def read_dos(self):
-- 
2.43.0


From 11c21304d7a6d78bf438a4827818cfbdbcf8205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 24/34] fix: read_bands_crystal only sets the lattice vectors
 after everything was read

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f8813ec..cff215d 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -548,7 +548,6 @@ class QECrystal:
             A = np.array([a1, a2, a3]).T
             if self.unit == "angstrom":
                 A *= bohr_to_angstrom
-            self.A = A # set the internal A instead of returning it
             # TODO consider returning "reciprocal" if it is too difficult to recontruct it
             # inv_reciprocal and A.T are collinear, but with what factor???
             #assert np.linalg.norm(inv_reciprocal - (A.T / np.linalg.norm(A[0]))) < 1e-7, f"reciprocal lattice doesn't match real lattice... This problem comes from Quantum Espresso. The compared matrices were\n{inv_reciprocal}\nand\n{A.T / np.linalg.norm(A[0])}"
@@ -592,7 +591,9 @@ class QECrystal:
             S = np.linalg.inv(np.swapaxes(S, -1, -2))
             fermi_energy_node = output.getElementsByTagName("fermi_energy")[0]
             fermi_energy = float(fermi_energy_node.firstChild.nodeValue.strip()) * to_eV
-        return np.array(k_points), np.array(bands), S, fermi_energy
+        result = np.array(k_points), np.array(bands), S, fermi_energy
+        self.A = A # set the internal A instead of returning it
+        return result
     
     def read_projections_order_spilling(self):
         """Extract the names of the orbitals and their order from `{name}.projwfc.out`.
-- 
2.43.0


From f36ab533d0d213b639643919d18d10d45235a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 25/34] fix: read_bands_crystal skips the symmetries of the
 empty lattice, which the crystal doesn't have

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index cff215d..1cd0cad 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -554,6 +554,9 @@ class QECrystal:
             # now find all the data in the xml file
             symmetry_list = output.getElementsByTagName("symmetry")
             for sym in symmetry_list:
+                info = sym.getElementsByTagName("info")
+                if info and info[0].firstChild is not None and info[0].firstChild.nodeValue.strip() == "lattice_symmetry":
+                    continue # this is only a symmetry of the empty lattice, but not of the crystal
                 rot = sym.getElementsByTagName("rotation")[0]
                 # read content and convert to matrix
                 content = rot.firstChild.nodeValue
-- 
2.43.0


From e6408f4ab00b2e8662f94253a2579a790e460e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 26/34] fix: read_projections_order_spilling works for more
 than one atom and rejects a cut spilling parameter

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 1cd0cad..99db990 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -610,6 +610,8 @@ class QECrystal:
             content = file.read()
             relevant_part = content.split("Lowdin Charges:")[1].strip()
             order_str, spilling = relevant_part.split("Spilling Parameter:")
+            if "\n" not in spilling:
+                raise ValueError("file is incomplete, it ends inside of the spilling parameter")
             spilling = float(spilling.split("\n")[0].strip())
             order = []
             for line in order_str.split("Atom #"):
@@ -623,7 +625,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From 78ba5f48b8baf7479b601114ef19195e6624eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 27/34] fix: readers of text tables reject files which end
 inside of a number or before the announced end

---
 .../qespresso_interface.py                    | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 99db990..995914d 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -314,6 +314,21 @@ def _read_record(file, *items):
         offset += arrays[-1].nbytes
     return arrays
 
+def _load_table(filename, skiprows=0):
+    """Read a table of numbers, where every line including the last one needs to be complete.
+
+    Returns:
+        ndarray(rows, columns): the numbers
+    """
+    with open(filename, 'r') as file:
+        lines = file.readlines()
+    if not lines or not lines[-1].endswith("\n"):
+        raise ValueError(f"{filename} is incomplete, it ends inside of a line")
+    lines = lines[skiprows:]
+    if not any(line.split("#")[0].strip() for line in lines):
+        raise ValueError(f"{filename} is incomplete, it contains no data")
+    return np.loadtxt(lines, ndmin=2)
+
 class QECrystal:
     def __init__(self, name: str, A, basis: list, types: list, kinetic_energy_cutoff: float=None, unit="angstrom", relativistic=False):
         """Constructor of QECrystal. Use `from_disk` instead if the data is already there.
@@ -463,10 +478,15 @@ class QECrystal:
                 line = file.readline()
                 if not line:
                     break
+                if not line.endswith("\n"):
+                    raise ValueError("file is incomplete, it ends inside of a line")
                 numbers.extend([float(x) for x in line.strip().split(" ") if x.strip()])
             numbers = np.array(numbers).reshape(-1, k_size + band_count)
             k_points = numbers[:,:k_size]
             bands = numbers[:,k_size:]
+            k_count = int(header.split("nks=")[1].split("/")[0])
+            if len(k_points) != k_count:
+                raise ValueError(f"file is incomplete, there should be {k_count} k-points, but there are only {len(k_points)}")
         return np.array(k_points), np.array(bands)
     
     def read_bandx(self): 
@@ -483,7 +503,7 @@ class QECrystal:
                     datafile = line.split()[-1].strip()
         if datafile is None:
             raise IOError("plottable band data not found.")
-        z = np.loadtxt(datafile, unpack=True) # This loads the bandx.dat.gnu file
+        z = _load_table(datafile).T # This loads the bandx.dat.gnu file
         return np.array(sym_x), z
 
     def plot_bands(self):
@@ -833,7 +853,7 @@ class QECrystal:
             header = file.readline()
             if "EFermi" in header and header.split(' ')[-1].strip() == "eV":
                 fermi_energy = float(header.split(' ')[-2])
-        density_of_states = np.loadtxt(f"{self.name}.Dos.dat", unpack=True)
+        density_of_states = _load_table(f"{self.name}.Dos.dat").T
         return density_of_states, fermi_energy
 
     # ----- QUANTUM ESPRESSO Parameter construction -----
@@ -1131,8 +1151,10 @@ begin atoms_frac
     
     def read_dielectric_function(self):
         # read the dielectric function after having computed it with `dielectric_function`
-        data_r = np.loadtxt(f'epsr_{self.name}.dat', skiprows=3)
-        data_i = np.loadtxt(f'epsi_{self.name}.dat', skiprows=3)
+        data_r = _load_table(f'epsr_{self.name}.dat', skiprows=3)
+        data_i = _load_table(f'epsi_{self.name}.dat', skiprows=3)
+        if len(data_r) != len(data_i):
+            raise ValueError("the files of the real and imaginary part have different lengths, one of them is incomplete")
         return data_r[:,0], data_r[:,1:] + data_i[:,1:] * 1j
 
     def projections(self, lwrite_overlaps=False):
-- 
2.43.0


From 5b6398b422b200298da48c947521220fa3a07ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 28/34] fix: interrupted downloads don't leave incomplete
 pseudopotentials, file names never reach the shell

---
 .../qespresso_interface.py                    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 995914d..73bee44 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -108,13 +108,23 @@ def qe_prepare(pseudo_potential_files_dict=None):
             file = name + ".rel-pbesol-n-kjpaw_psl.1.0.0.UPF"
             pseudo_potential_files_dict[name] = file
         if not os.path.isfile("./pseudo/" + file):
-            # TODO sanitize "file" -> otherwise command injection is possible
-            if re.match(r"[a-zA-Z0-9\.\-]", file) is None:
+            if re.fullmatch(r"[a-zA-Z0-9_][a-zA-Z0-9_.\-]*", file) is None:
                 print("skipped file", file, "because it contains incompatible characters")
                 continue
-            res = subprocess.run("wget https://pseudopotentials.quantum-espresso.org/upf_files/" + file, cwd="./pseudo", shell=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
-            if "Not Found" in res.stdout.decode("utf-8"):
-                print("could not find", file, "at https://pseudopotentials.quantum-espresso.org/upf_files/" + file)
+            url = "https://pseudopotentials.quantum-espresso.org/upf_files/" + file
+            # download to a temporary name, such that an incomplete file is never used as a pseudopotential
+            temp = file + ".part"
+            try:
+                res = subprocess.run(["wget", "-O", temp, url], cwd="./pseudo", stdout=subprocess.PIPE, stderr=subprocess.PIPE)
+                if res.returncode == 0:
+                    os.replace("./pseudo/" + temp, "./pseudo/" + file)
+                else:
+                    print("could not find", file, "at", url)
+            except FileNotFoundError:
+                print("could not download", file, "because wget is not installed")
+            finally:
+                if os.path.exists("./pseudo/" + temp):
+                    os.remove("./pseudo/" + temp)
 
 
 # general bandstructure plotting
-- 
2.43.0


From 98ea370a767f3aa6805d9d3adf918e0945b8413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 29/34] fix: save the overlap matrix of a model in json files

---
 src/tight_binding_redweasel/json_tb_format.py | 26 ++++++++++++++++---
 .../tight_binding_asym.py                     | 10 ++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/json_tb_format.py b/src/tight_binding_redweasel/json_tb_format.py
index a28d588..35f36b2 100644
--- a/src/tight_binding_redweasel/json_tb_format.py
+++ b/src/tight_binding_redweasel/json_tb_format.py
@@ -8,8 +8,21 @@ from . import atomic_file
 # tight binding models as it is really easy to implement in most languages using a json package.
 
 def load(filename):
+    neighbors, params, overlap = load_with_overlap(filename)
+    if overlap is not None:
+        raise ValueError(f"the model in {filename} has an overlap matrix, load it as AsymTightBindingModel")
+    return neighbors, params
+
+# like load, but returns (neighbors, params, (neighbors, params) of the overlap matrix or None)
+def load_with_overlap(filename):
     with open(filename, "r") as file:
         data = json.load(file)
+    overlap = data.get("overlap")
+    if overlap is not None:
+        overlap = _from_json(overlap)
+    return *_from_json(data), overlap
+
+def _from_json(data):
     band_count = data["band_count"]
     neighbors = np.array(data["neighbors"])
     params = np.array([h["data"] for h in data["params"]]).reshape(len(neighbors), band_count, band_count, -1)
@@ -23,7 +36,15 @@ def load(filename):
     order = np.argsort(np.linalg.norm(neighbors, axis=-1))
     return neighbors[order], params[order]
 
-def save(filename, neighbors, params):
+def save(filename, neighbors, params, overlap=None):
+    data = _to_json(neighbors, params)
+    if overlap is not None:
+        # overlap matrix S in the same format, only there if it's needed
+        data["overlap"] = _to_json(*overlap)
+    # replace the file in one step, so the previous save isn't lost if this one fails
+    atomic_file.write_text(filename, json.dumps(data))
+
+def _to_json(neighbors, params):
     neighbors = np.asarray(neighbors, dtype=np.float64)
     # build the correct format from 
     # {"band_count":12,"params":[{"v":1,"dim":[12,12],"data":[[1.0,1.0],...]},...],"neighbors":[[0.0,0.0,0.0],...]}
@@ -33,5 +54,4 @@ def save(filename, neighbors, params):
     params = np.where(np.abs(np.imag(params)) < 1e-14, np.real(params), params)
     # save them in the json format
     params_repr = [{"v": 1, "dim": [band_count, band_count], "data": [[np.real(v), np.imag(v)] for v in h.flat]} for h in params]
-    # replace the file in one step, so the previous save isn't lost if this one fails
-    atomic_file.write_text(filename, json.dumps({"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}))
+    return {"band_count": band_count, "params": params_repr, "neighbors": [tuple(n) for n in neighbors]}
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7ede3fb..13a42b1 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -259,8 +259,10 @@ class AsymTightBindingModel:
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
         if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
+            # the overlap is only saved if it's not the identity (up to rounding)
+            unit = HermitianFourierSeries.unit_matrix(self.S.neighbors, self.band_count())
+            has_overlap = not np.max(np.abs(self.S.H_r - unit.H_r)) <= 1e-10
+            json_tb_format.save(filename, self.H.neighbors, self.H.H_r, (self.S.neighbors, self.S.H_r) if has_overlap else None)
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
@@ -300,8 +302,10 @@ class AsymTightBindingModel:
             neighbors, H_r, w_r_params, degeneracies, A = tb_fmt.load_tb(filename)
             model = AsymTightBindingModel(HermitianFourierSeries(neighbors, H_r))
         elif format == "json":
-            neighbors, H_r = json_tb_format.load(filename)
+            neighbors, H_r, overlap = json_tb_format.load_with_overlap(filename)
             model = AsymTightBindingModel(HermitianFourierSeries(neighbors, H_r))
+            if overlap is not None:
+                model.S = HermitianFourierSeries(*overlap)
         return model
 
     def randomize(self, sigma, keep_zeros=False, randomize_S=False):
-- 
2.43.0


From b8e9850fe6644b973aa5ef4edb2a315587e9cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 30/34] fix: save models with symmetry copies such that they
 are read back with the same bands

---
 src/tight_binding_redweasel/bandstructure.py | 33 ++++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 9f858e3..0602889 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -637,6 +637,30 @@ class BandStructureModel:
             H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
+    def _fourier_series(self):
+        # neighbors and H_r of the whole fourier series, including all symmetry copies of the neighbors
+        H_r = self.params_complex()
+        if self.sym is None or len(self.sym.S) == 1:
+            return self.neighbors, H_r
+        if self.cos_reduced:
+            H_r[0] -= (len(self.sym.S) - 1) * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+        index = {}
+        neighbors, full = [self.neighbors[0]], [H_r[0]]
+        for r, h in zip(self.neighbors[1:], H_r[1:]):
+            for s in self.sym.S:
+                key = tuple(np.round(s @ r, 9) + 0.0)
+                neg_key = tuple(0.0 - x for x in key)
+                if neg_key in index:
+                    # only one of r and -r is stored
+                    full[index[neg_key]] = full[index[neg_key]] + np.conj(h.T)
+                elif key in index:
+                    full[index[key]] = full[index[key]] + h
+                else:
+                    index[key] = len(full)
+                    neighbors.append(s @ r)
+                    full.append(h)
+        return np.array(neighbors), np.array(full)
+
     def set_params_complex(self, H_r):
         """Set `self.params` from the values of the complex fourier coefficients $H_r$.
         This function specifically works for models created with `init_tight_binding_from_ref`
@@ -698,7 +722,11 @@ class BandStructureModel:
             assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
             # repr of an array depends on the print options and leaves out the middle of big arrays,
             # repr of a list is always exact and complete.
-            text = f"array({np.asarray(self.params_complex()).tolist()}),\\\n"
+            H_r = self.params_complex()
+            if not self.cos_reduced:
+                # the file is read with cos_reduced=True, where the constant term counts only one symmetry copy
+                H_r[0] += (len(self.sym.S) - 1) * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            text = f"array({np.asarray(H_r).tolist()}),\\\n"
             text += f"array({np.asarray(self.neighbors).tolist()}),\\\n"
             text += f"array({np.asarray(self.sym.S).tolist()}),\\\n"
             text += repr(self.sym.inversion) + "\n"
@@ -707,8 +735,7 @@ class BandStructureModel:
         elif format == "wannier90":
             tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
         elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
+            json_tb_format.save(filename, *self._fourier_series())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
-- 
2.43.0


From eee5c00283ef5d8f50de9c8c76248802c61d804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 31/34] fix: file names of the maximal length can be saved
 again

---
 src/tight_binding_redweasel/atomic_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/atomic_file.py b/src/tight_binding_redweasel/atomic_file.py
index d50dedd..c0035ae 100644
--- a/src/tight_binding_redweasel/atomic_file.py
+++ b/src/tight_binding_redweasel/atomic_file.py
@@ -27,7 +27,8 @@ def write_text(filename, text):
         return
     folder, name = os.path.split(filename)
     # unique for each writer, so that threads and processes don't get in each others way
-    temp = os.path.join(folder, f".{name}.{os.getpid()}-{threading.get_ident()}.tmp")
+    # (shortened, as the name can already have the maximal length of the file system)
+    temp = os.path.join(folder, f".{name[:32]}.{os.getpid()}-{threading.get_ident()}.tmp")
     try:
         with open(temp, "w") as file:
             file.write(text)
-- 
2.43.0


From d488a94bc6f35b3f796a24692eec0853a39d2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:16 +0000
Subject: [PATCH 32/34] fix: supercells of models whose lattice basis isn't a
 multiple of the unit vectors

---
 src/tight_binding_redweasel/bandstructure.py      | 3 ++-
 src/tight_binding_redweasel/tight_binding_asym.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 0602889..1c7daf6 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -889,7 +889,8 @@ class BandStructureModel:
         det = round(np.linalg.det(matrix))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
+        # the neighbors are given in the basis in which A is given (not in multiples of the lattice vectors)
+        new_neighbors = self.neighbors @ (A_original @ matrix @ np.linalg.inv(A_original)).T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 13a42b1..c09e7d0 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -859,7 +859,8 @@ class AsymTightBindingModel:
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
         det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        # the neighbors are given in the basis in which A is given (not in multiples of the lattice vectors)
+        new_neighbors = self.H.neighbors @ (A_original @ matrix @ np.linalg.inv(A_original)).T
         n = len(self.H.H_r[0])
         new_band_count = n * det
         H_r = self.params_complex()
-- 
2.43.0


From 4aff8e6a5e785341748f2d16233ef9b2baccab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 33/34] fix: scaling a crystal to a density no longer changes
 the lattice of other crystals

scale_to_density multiplied self.A in place, which is the array given by the caller,
so every other crystal made from the same array got scaled as well (and an array of
integers raised an error).
---
 src/tight_binding_redweasel/qespresso_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 73bee44..5b91bf5 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -457,7 +457,8 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        # not in place, as the array could belong to the caller or to another crystal
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From cbf552e2d01fbef6b54e782a912b5bce1a4444e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:56 +0000
Subject: [PATCH 34/34] fix: read_bands_crystal rejected complete files without
 a list of symmetries

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 5b91bf5..4ec93d1 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -614,6 +614,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0

