From e57f5d12b50080cfc016d4dd29c0cd1dead4288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 01/84] fix: do not lose results put to a pool queue while it
 is being drained

---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..5ee3b8a 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Results may be put by another thread, take and clear them in one step
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From 4968c6377641bcba18ffbc75f84b219c89ccb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 02/84] fix: a failure to prepare the sample workspace fails
 that sample only

---
 mlmc/sampling_pool.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 5ee3b8a..373897f 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -99,9 +99,9 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
-- 
2.43.0


From c9d20686d0f15af079a32a5670f091298632732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:52 +0000
Subject: [PATCH 03/84] fix: record a sample whose result cannot be passed from
 a worker as failed

---
 mlmc/sampling_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 373897f..ad1be73 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -320,7 +320,8 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.res_callback((sample_id, (None, None), repr(err), 0),
+                                                                            level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 7357970ddf1a13a558592fef90c670937d36cd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 04/84] fix: a dangling link in a sample directory does not
 break keeping the directory

---
 mlmc/sampling_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index ad1be73..d684680 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -188,7 +188,7 @@ class SamplingPool(ABC):
             sample_dir = SamplingPool.change_to_sample_directory(work_dir, sample_id)
             if os.path.exists(os.path.join(destination_dir, sample_id)):
                 shutil.rmtree(os.path.join(destination_dir, sample_id), ignore_errors=True)
-            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id))
+            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id), ignore_dangling_symlinks=True)
 
     @staticmethod
     def remove_sample_dir(sample_id, sample_workspace, work_dir):
-- 
2.43.0


From bc4f6f4056fd2a3c4b6fb4f71b1697950a42fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 05/84] fix: report running times of samples to the storage
 just once

---
 mlmc/sampling_pool.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index d684680..ddae3ad 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -2,6 +2,7 @@ import os
 import sys
 import shutil
 import queue
+import threading
 import time
 import hashlib
 import numpy as np
@@ -215,6 +216,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._times_lock = threading.Lock()
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -259,12 +261,13 @@ class OneProcessPool(SamplingPool):
         :return: None
         """
         # Save sample times [total time, number of samples]
-        if level_id not in self.times:
-            self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        with self._times_lock:
+            if level_id not in self.times:
+                self.times[level_id] = [0, 0]
+            # Failed samples have running time equal 0 by default
+            if running_time != 0:
+                self.times[level_id][0] += running_time
+                self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
@@ -276,7 +279,11 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        # Storage sums up the times, so pass each of them just once
+        with self._times_lock:
+            times, self.times = self.times, {}
+
+        return successful, failed, self._n_running, list(times.items())
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From a4347d1afa0b4fe8009fbf09c37e647792fbeb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 06/84] fix: in memory storage, cost of a sample is the total
 time over the number of samples

---
 mlmc/sample_storage.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..5e10a50 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -292,19 +292,21 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0.]
 
-            if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+            if n_samples > 0:
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(max(self._n_ops.keys(), default=-1) + 1))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
-- 
2.43.0


From 2533fa61f744a897b66dd9aa76e76a84369ff976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:36 +0000
Subject: [PATCH 07/84] fix: count also the first failed samples of a level as
 finished

---
 mlmc/sample_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 5e10a50..7b9a43b 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
-- 
2.43.0


From 79443921c571f001f18f8f762cfd1799840a4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 08/84] fix: memory storage reports counts of all levels, also
 of those without results

---
 mlmc/sample_storage.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 7b9a43b..f239f7d 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -159,7 +159,7 @@ class Memory(SampleStorage):
 
     def save_global_data(self, result_format, level_parameters=None):
         self.save_result_format(result_format)
-        self._level_parameters = level_parameters
+        self._level_parameters = [] if level_parameters is None else level_parameters
 
     def _save_successful(self, samples):
         """
@@ -215,7 +215,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(max(self.get_n_levels(), max(self._n_finished.keys(), default=-1) + 1))
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,7 +247,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(self.get_n_levels())]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
@@ -324,7 +324,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = list(np.zeros(self.get_n_levels(), dtype=int))
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
@@ -334,7 +334,7 @@ class Memory(SampleStorage):
         Get number of levels
         :return: int
         """
-        return len(self._results)
+        return max(len(self._level_parameters), max(self._results.keys(), default=-1) + 1)
 
     def get_level_parameters(self):
         return self._level_parameters
-- 
2.43.0


From c0af9fd95f475b405df2c0f0cabe7657de997e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 09/84] fix: renewal of failed samples works with memory
 storage

---
 mlmc/sample_storage.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index f239f7d..3869aee 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -316,6 +316,21 @@ class Memory(SampleStorage):
         """
         return []
 
+    def failed_samples(self):
+        """
+        Dictionary of failed samples
+        :return: dict
+        """
+        failed_samples = {str(level_id): [] for level_id in range(self.get_n_levels())}
+        for level_id, failed in self._failed.items():
+            failed_samples[str(level_id)] = [sample[0] for sample in failed]
+        return failed_samples
+
+    def clear_failed(self):
+        for level_id, failed in self._failed.items():
+            self._n_finished[level_id] -= len(failed)
+        self._failed = {}
+
     def get_level_ids(self):
         return list(self._results.keys())
 
-- 
2.43.0


From 5e3c3df0f10c31788b98bd48aca4f7e4e407ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:01 +0000
Subject: [PATCH 10/84] fix: number of collected samples is zero for a level
 without collected values

---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From 5e52fd701e7b498450affb9ce475217c85ef5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 11/84] fix: store error messages with non-ASCII characters to
 HDF

---
 mlmc/tool/hdf5.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 810dcae..c49cbd7 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -325,7 +325,10 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
-        self._append_dataset(self.failed_dset, failed_samples)
+        # Message has to be bytes, as it may contain arbitrary characters
+        max_len = np.dtype(LevelGroup.FAILED_DTYPE['formats'][1]).itemsize
+        self._append_dataset(self.failed_dset, [(sample_id, message.encode('utf-8', 'replace')[:max_len])
+                                                for sample_id, message in failed_samples])
 
     def _append_dataset(self, dataset_name, values):
         """
-- 
2.43.0


From 98f082d069c4577b4dab100b222d6b78a4c73c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 12/84] fix: cost of a level without any finished sample is
 zero instead of an error

---
 mlmc/sample_storage_hdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..a5224ca 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -243,8 +243,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_estimate = level.n_ops_estimate
+            if n_ops_estimate is not None and n_ops_estimate[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_estimate[0] / n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
-- 
2.43.0


From 7a726b9c11c31915744015c018462c6b518c949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 13/84] fix: result format with locations given as coordinates
 or three character names

---
 mlmc/sample_storage_hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index a5224ca..edc2e2e 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -38,7 +38,7 @@ class SampleStorageHDF(SampleStorage):
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
-        if len(locations[0]) == 3:
+        if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
@@ -106,7 +106,7 @@ class SampleStorageHDF(SampleStorage):
         quantities = []
         for res_format in results_format:
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
 
             quantities.append(spec)
 
-- 
2.43.0


From 6ed31169c385e359afb0c165ab9b541885e9f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:31 +0000
Subject: [PATCH 14/84] fix: result formats with different locations are not
 equal

---
 mlmc/quantity/quantity_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index ea25dc6..6273b31 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and not (set(self.locations) - set(other.locations)):
+                and list(self.locations) == list(other.locations):
             return True
         return False
 
-- 
2.43.0


From d475214c8e4ea2135849fbb5ffd0c6635dd72e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:00 +0000
Subject: [PATCH 15/84] fix: store result format of quantities with different
 number of times or locations

---
 mlmc/sample_storage_hdf.py | 10 +++++++---
 mlmc/tool/hdf5.py          | 14 ++++++++++----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index edc2e2e..bb76f26 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -62,7 +62,8 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
-        res_dtype = self._hdf_result_format(result_format[0].locations, result_format[0].times)
+        res_dtype = self._hdf_result_format(max((spec.locations for spec in result_format), key=len),
+                                            max((spec.times for spec in result_format), key=len))
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
@@ -105,8 +106,11 @@ class SampleStorageHDF(SampleStorage):
         results_format = self._hdf_object.load_result_format()
         quantities = []
         for res_format in results_format:
-            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
+            # Skip items which only pad times and locations to the common length
+            times = res_format[3][~np.isnan(res_format[3])]
+            locations = [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]]
+            locations = [loc for loc in locations if loc and not np.any([x != x for x in loc])]
+            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], times, locations)
 
             quantities.append(spec)
 
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index c49cbd7..55bd3ec 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -149,13 +149,19 @@ class HDF5:
                     chunks=True)
 
         # Format data
-        result_array = np.empty((len(result_format),), dtype=result_format_dtype)
+        result_array = np.zeros((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
             for attribute in list(quantity_spec.__dict__.keys()):
-                if isinstance(getattr(quantity_spec, attribute), (tuple, list)):
-                    res[attribute][:] = getattr(quantity_spec, attribute)
+                value = getattr(quantity_spec, attribute)
+                if attribute in ('times', 'locations'):
+                    # Quantities may have different number of times and locations, pad the rest
+                    if res[attribute].dtype.kind == 'f':
+                        res[attribute][len(value):] = np.nan
+                    res[attribute][:len(value)] = value
+                elif isinstance(value, (tuple, list)):
+                    res[attribute][:] = value
                 else:
-                    res[attribute] = getattr(quantity_spec, attribute)
+                    res[attribute] = value
 
         # Write to file
         with h5py.File(self.file_name, 'a') as hdf_file:
-- 
2.43.0


From c81d520ac08da3fa475b3c607de56ee47a16d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:29 +0000
Subject: [PATCH 16/84] fix: estimate domain from the samples of every level

---
 mlmc/estimator.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..63c1565 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -5,7 +5,6 @@ import mlmc.quantity.quantity_estimate as qe
 import mlmc.tool.simple_distribution
 from mlmc.quantity.quantity_types import ScalarType
 from mlmc.plot import plots
-from mlmc.quantity.quantity_spec import ChunkSpec
 
 
 class Estimate:
@@ -291,7 +290,8 @@ class Estimate:
             except AttributeError:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
+            chunk_spec = next(sample_storage.chunks(level_id=level_id,
+                                                    n_samples=sample_storage.get_n_collected()[level_id]))
             fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
 
             fine_samples = np.squeeze(fine_samples)
@@ -349,18 +349,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From 6aef48cd27c07bbb0ac8e1e0947cee0de62f7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 17/84] fix: cached samples of a deleted quantity are not used
 for another one

---
 mlmc/quantity/quantity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..dba7b77 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,14 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _instance_counter = itertools.count()
+
+    def __new__(cls, *args, **kwargs):
+        quantity = super().__new__(cls)
+        # id() can't identify cached samples, it is reused after an instance is deleted
+        quantity._instance_id = next(Quantity._instance_counter)
+        return quantity
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +130,7 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._instance_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From 6ed82364f5ed93a9e73e57e5bc6664d4289c34b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 18/84] fix: level samples are not taken from an outdated cache

---
 mlmc/estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 63c1565..17fa623 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -337,6 +337,7 @@ class Estimate:
         :param n_samples> int, number of samples to retrieve, if None first chunk of data is retrieved
         :return: level samples, shape: (M, N, 1) for level 0, (M, N, 2) otherwise
         """
+        qe.cache_clear()
         chunk_spec = next(self._sample_storage.chunks(level_id=level_id, n_samples=n_samples))
         return self._quantity.samples(chunk_spec=chunk_spec)
 
-- 
2.43.0


From 1bc75e6511fc7dc126f65b7a977b6484e3b51cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:14 +0000
Subject: [PATCH 19/84] fix: change size of moment functions

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..0984a4f 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -53,7 +53,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From d4090177124aa44fa3fdb6f4dad690ae34e273eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 20/84] fix: single Fourier moment is the same as in the array
 of all moments

---
 mlmc/moments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 0984a4f..b276f4e 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -164,11 +164,11 @@ class Fourier(Moments):
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones_like(t)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
-- 
2.43.0


From cd46e9a97a6a799a48a219601f7729fc72a74e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 21/84] fix: moment functions of multidimensional arrays of
 values

---
 mlmc/moments.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index b276f4e..5a5d812 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -76,7 +76,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
@@ -150,15 +150,15 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., None] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty((*t.shape, size))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
@@ -215,7 +215,7 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
-- 
2.43.0


From 59e5f9b055d5e48c9b6f203941656051aab4cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:15 +0000
Subject: [PATCH 22/84] fix: derivatives of fewer moments than the size

---
 mlmc/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 5a5d812..0311ad7 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -221,12 +221,12 @@ class Legendre(Moments):
     def _eval_diff(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff_mat
+        return P_n @ self.diff_mat[:size, :size]
 
     def _eval_diff2(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff2_mat
+        return P_n @ self.diff2_mat[:size, :size]
 
 
 class TransformedMoments(Moments):
-- 
2.43.0


From 7e76b541f4406ada0397cd9ce4a2f1cc6878325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:45 +0000
Subject: [PATCH 23/84] fix: bootstrap estimates use subsamples directly, they
 are not a selection mask

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 17fa623..fd5ed2e 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -182,7 +182,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
-- 
2.43.0


From e4dbadf29694e6a88082e525ee888c787bb2f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:47 +0000
Subject: [PATCH 24/84] fix: subsampling picks the given number of samples also
 from more chunks

---
 mlmc/quantity/quantity.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index dba7b77..c58d289 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -357,15 +357,17 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, level_id, chunk_id=None):
             """
             Custom implementation of QuantityConst.adjust_value()
             It allows us to get different parameters for different levels
             """
             subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            # Parameters are shared by all chunks of the level, start again with the first one
+            if not chunk_id:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
@@ -554,12 +556,13 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, level_id=None, chunk_id=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
         :param level_id: int
+        :param chunk_id: int
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -571,7 +574,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec.level_id, chunk_spec.chunk_id)
 
 
 class QuantityMean:
-- 
2.43.0


From 65f0298b337958c3381baacd314e42f62397fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 25/84] fix: forget all finished PBS jobs, not just every other
 one

---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..58e519f 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From faefc149745ebfbe3282dc391b2bfb5444945282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 26/84] fix: continue with the job id after the highest one,
 glob result is not sorted

---
 mlmc/sampling_pool_pbs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 58e519f..731eb11 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,7 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        return max(int(re.findall(r'(\d+)_job.sh', file)[-1]) for file in files) + 1
 
     def _save_structure(self):
         """
-- 
2.43.0


From 1e88e37200fe228ab23547e57a6aeb4cbf77183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 27/84] fix: samples not submitted because of a qsub failure
 are still running ones

---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 731eb11..1f49fde 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -330,8 +330,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, including those waiting for a successful qsub
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From 5445030385acfa37e751475705610c38f6b90d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:57 +0000
Subject: [PATCH 28/84] fix: collect failed and not repeated results of
 unfinished samples after restart

---
 mlmc/sampling_pool_pbs.py | 27 ++++++++++++---------------
 mlmc/tool/pbs_job.py      |  4 +++-
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 1f49fde..36a2283 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -382,32 +382,29 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        already_collected = set()
-        for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
-                continue
-
-            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+        job_ids = sorted({PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+                          for sample_id in self._unfinished_sample_ids})
+        for job_id in job_ids:
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
             for level_id, results in successful.items():
                 for res in results:
                     if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
                         successful_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in failed_results.items():
+            # Samples without any saved result may be still running
+            for level_id, results in failed.items():
                 for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
+                    if res[0] in self._unfinished_sample_ids and res[1] != PbsJob.JOB_FAILED_MSG:
                         failed_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
+            for level_id, results in time.items():
+                if level_id in times:
+                    times[level_id][0] += results[-1][0]
+                    times[level_id][1] += results[-1][1]
+                else:
+                    times[level_id] = list(results[-1])
 
             # Delete pbsID file - it means job is finished
             # SamplingPoolPBS.delete_pbs_id_file(file)
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..cf4401d 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -24,6 +24,8 @@ class PbsJob:
     # File which name assign our job id to pbs jobs id 'JobID_Pbs_ID'
     CLASS_FILE = "pbs_process_serialized.txt"
     # Serialized data which are "passed" from sampling pool to pbs process
+    JOB_FAILED_MSG = "job failed"
+    # Error message of a sample that has no result in the finished job
     SAMPLE_ID_JOB_ID = "sample_id_job_id.json"
     # Sample id with corresponding job id,
     # used to indicate that sample is stored in _successful_results.yaml or _failed_results.yaml
@@ -324,7 +326,7 @@ class PbsJob:
             successfull_ids = [success[0] for success in successful.get(level_id, [])]
             failed_ids = [f[0] for f in failed.get(level_id, [])]
             if sample_id not in failed_ids and sample_id not in successfull_ids:
-                failed.setdefault(level_id, []).append((sample_id, "job failed"))
+                failed.setdefault(level_id, []).append((sample_id, PbsJob.JOB_FAILED_MSG))
 
         # if "end" in successful:
         #     del successful["end"]
-- 
2.43.0


From 468b7f3391ba6926753e4fdda3fce544b9c8b34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:59 +0000
Subject: [PATCH 29/84] fix: sign of the density normalization

---
 mlmc/tool/simple_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..dd3bf76 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,7 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0


From 3bec2698c4e874d950ef588ff888d871301e0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:59 +0000
Subject: [PATCH 30/84] fix: distribution function of unsorted values

---
 mlmc/tool/simple_distribution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index dd3bf76..d5bf8cf 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -107,12 +107,13 @@ class SimpleDistribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        # Integrate through increasing values
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
                 last_y = 0
             elif val >= self.domain[1]:
-- 
2.43.0


From e7467f925cd75daf2b8af639a1f550e3d684bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:20 +0000
Subject: [PATCH 31/84] fix: random field evaluated in the points set last,
 sigma given in constructor

---
 mlmc/random/correlated_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..add89a8 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -339,7 +339,9 @@ class RandomFieldBase:
         if sigma is not None:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+
+        self._set_points()
 
     def _set_points(self):
         pass
-- 
2.43.0


From 7ffeabbc694f1a7cfeb27da5d44231f4ed427abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 32/84] fix: physical names read from a mesh are without quotes
 and may contain spaces

---
 mlmc/tool/gmsh_io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..4286b6b 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -117,8 +117,10 @@ class GmshIO:
                     self.current_elem_data[ele_idx] = comp_values
 
                 if readmode == 5:
-                    if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                    if len(columns) >= 3:
+                        # Name is quoted and may contain spaces
+                        name = line.split(None, 2)[2].strip('"')
+                        self.physical[name] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
-- 
2.43.0


From b606e4315680fef670162c0d1e3c8d1293fc3900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 33/84] fix: read mesh elements with few nodes, do not take
 rows of element data for elements

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 4286b6b..76a4477 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -145,7 +145,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 67284b1773c216f638291a1ba95d4fdad0911988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 34/84] fix: mesh written to its own file is complete when the
 writing ends

---
 mlmc/tool/gmsh_io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 76a4477..f650c25 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -194,7 +194,9 @@ class GmshIO:
         """Dump the mesh out to a Gmsh 2.0 msh file."""
 
         if not mshfile:
-            mshfile = open(self.filename, 'w')
+            with open(self.filename, 'w') as mshfile:
+                self.write_ascii(mshfile)
+            return
 
         print('$MeshFormat\n2.2 0 8\n$EndMeshFormat', file=mshfile)
         print('$PhysicalNames\n%d' % len(self.physical), file=mshfile)
-- 
2.43.0


From c92d1e2a7b5eb40decb7b34f3bb250f97a74e4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 35/84] fix: write fields to the current mesh file

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index f650c25..88957d6 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -299,7 +299,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From b0111d0a3a05cca583412405b1b62032b65e8396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:31 +0000
Subject: [PATCH 36/84] fix: random fields of a flow sample are determined by
 its seed

---
 mlmc/tool/flow_mc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..27eddb7 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -229,6 +229,8 @@ class FlowSim(Simulation):
         :param seed: random seed, int
         :return: List[fine result, coarse result], both flatten arrays (see mlmc.sim.synth_simulation.calculate())
         """
+        # Set random seed, seed is calculated from sample id, so it is not user defined
+        np.random.seed(seed)
         # Init correlation field objects
         fields = create_corr_field(**config['fields_params'])  # correlated_field.Fields instance
         fields.set_outer_fields(config["fields_used_params"])
@@ -251,8 +253,11 @@ class FlowSim(Simulation):
         # Create fields both fine and coarse
         fields = FlowSim.make_fields(fields, fine_mesh_data, coarse_mesh_data)
 
-        # Set random seed, seed is calculated from sample id, so it is not user defined
-        np.random.seed(seed)
+        # GSTools fields have their own random generator
+        for field in fields.fields:
+            if isinstance(field.correlated_field, cf.GSToolsSpatialCorrelatedField):
+                field.correlated_field.change_srf(seed)
+
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From 958c7f234915fff71e21efeebdd880705a613eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:05 +0000
Subject: [PATCH 37/84] fix: random field shared by fields on different regions

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index add89a8..6d6df15 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # Evaluation points are set separately for each of fields based on the same random field
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From 6fd0986413f112679dc7e8debee9c3dc584dbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 38/84] fix: synthetic samples calculated in threads do not
 share random state

---
 mlmc/sim/synth_simulation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..604072e 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -82,8 +82,8 @@ class SynthSimulation(Simulation):
         :return: fine sample, coarse sample
         """
         SynthSimulation.len_results += 1
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        # Do not set state of the distribution, it may be shared by threads
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulation.n_nans / (1e-10 + SynthSimulation.len_results) < SynthSimulation.nan_fraction:
             SynthSimulation.n_nans += 1
@@ -231,8 +231,8 @@ class SynthSimulationWorkspace(SynthSimulation):
         else:
             raise NotImplementedError("Other distributions are not implemented yet")
 
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        # Do not set state of the distribution, it may be shared by threads
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulationWorkspace.n_nans / (1e-10 + SynthSimulationWorkspace.len_results) < SynthSimulationWorkspace.nan_fraction:
             SynthSimulationWorkspace.n_nans += 1
-- 
2.43.0


From 347ab08b846bc5ecd08685b209846665f7ad1a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:50 +0000
Subject: [PATCH 39/84] fix: constants that are multidimensional or result of
 an operation with constants

---
 mlmc/quantity/quantity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index c58d289..f081b19 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -547,7 +547,8 @@ class QuantityConst(Quantity):
         """
         if isinstance(value, (int, float, bool)):
             value = np.array([value])
-        return value[:, np.newaxis, np.newaxis]
+        # Flatten also multidimensional arrays and results of operations with already processed values
+        return np.reshape(value, -1)[:, np.newaxis, np.newaxis]
 
     def selection_id(self):
         """
-- 
2.43.0


From 4d516bc343b966387c0914e761207b645630344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:19 +0000
Subject: [PATCH 40/84] fix: indexing of an array of non-scalar quantities

---
 mlmc/quantity/quantity_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..6d463f7 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -130,7 +130,7 @@ class ArrayType(QType):
         """
         # Reshape M to original shape to allow access
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
+        chunk = chunk.reshape((*self._shape, self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
         return QType.keep_dims(chunk[key])
 
     def reshape(self, data):
-- 
2.43.0


From 3b5c23c1ea41b00e44fe60c67ff225ee5c957a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:19 +0000
Subject: [PATCH 41/84] fix: QuantityMean indexing by a tuple

---
 mlmc/quantity/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index f081b19..962dc25 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -656,8 +656,9 @@ class QuantityMean:
             key = slice(start, start + new_qtype.size())
 
         # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        level_key = (slice(None), *key) if isinstance(key, tuple) else (slice(None), key)
+        l_means = self.l_means[level_key]
+        l_vars = self.l_vars[level_key]
 
         return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
                             l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
-- 
2.43.0


From 06b1ce82ea9b6c2747b14d10055568286d17701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:46 +0000
Subject: [PATCH 42/84] fix: moments with different reference domains are not
 equal

---
 mlmc/moments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 0311ad7..4509e48 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -45,6 +45,7 @@ class Moments:
         return type(self) is type(other) \
                 and self.size == other.size \
                 and np.all(self.domain == other.domain) \
+                and np.all(self.ref_domain == other.ref_domain) \
                 and self._is_log == other._is_log \
                 and self._is_clip == other._is_clip
 
-- 
2.43.0


From f66b57900ddd4037dafeda1fe25bae2be7c4a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:07 +0000
Subject: [PATCH 43/84] fix: end of the domain is not considered to be outside
 of it

---
 mlmc/moments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 4509e48..05a7b3d 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -22,6 +22,7 @@ class Moments:
         diff = lin_domain[1] - lin_domain[0]
         assert diff > 0
         diff = max(diff, 1e-15)
+        self._linear_diff = diff
         self._linear_scale = (self.ref_domain[1] - self.ref_domain[0]) / diff
         self._linear_shift = lin_domain[0]
 
@@ -68,7 +69,9 @@ class Moments:
         return ma.filled(out, np.nan)
 
     def linear(self, value):
-        return (value - self._linear_shift) * self._linear_scale + self.ref_domain[0]
+        # The end of the domain must not be transformed outside the reference domain due to rounding, see clip()
+        ref_diff = self.ref_domain[1] - self.ref_domain[0]
+        return (value - self._linear_shift) / self._linear_diff * ref_diff + self.ref_domain[0]
 
     def inv_linear(self, value):
         return (value - self.ref_domain[0]) / self._linear_scale + self._linear_shift
-- 
2.43.0


From 6130559b2e9b2ba700a53fd661541b43b654185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:15 +0000
Subject: [PATCH 44/84] fix: PBS restart with samples that were not passed to
 any job

---
 mlmc/sampling_pool_pbs.py | 8 +++++---
 mlmc/tool/pbs_job.py      | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 36a2283..23e0a1e 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -382,9 +382,11 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        job_ids = sorted({PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
-                          for sample_id in self._unfinished_sample_ids})
-        for job_id in job_ids:
+        job_ids = {PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+                   for sample_id in self._unfinished_sample_ids}
+        # Main process might have crashed before some samples were passed to a job
+        job_ids.discard(None)
+        for job_id in sorted(job_ids):
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index cf4401d..c27bda7 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -255,12 +255,14 @@ class PbsJob:
         Get job ID for given sample ID
         :param sample_id: str
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: str, job id; None if the sample is not in any job
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return None
         with open(sample_id_job_id_file, "r") as file:
             saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return saved_ids.get(sample_id)
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From 7cf59edc5d965cd26a697ed3850b59efb05f4966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:23 +0000
Subject: [PATCH 45/84] fix: estimate of the number of terms of the random
 field expansion

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 6d6df15..118030a 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -470,7 +470,7 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
 
             m = max(m, range[0])
             threshold = 2 * precision
-- 
2.43.0


From bf4d3166517523eb4867bca79254e6eefe0c5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:25 +0000
Subject: [PATCH 46/84] fix: random field expansion with up to the maximal
 number of terms

---
 mlmc/random/correlated_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 118030a..b231ada 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -479,7 +479,10 @@ class SpatialCorrelatedField(RandomFieldBase):
                 #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
                 U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
                 threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
+                if m == range[1]:
+                    break
+                # Use up to the maximal number of terms
+                m = min(int(np.ceil(1.5 * m)), range[1])
 
             m = len(ev)
             m = min(m, range[1])
-- 
2.43.0


From 56fb6e769edd3ac20997cb0135ca6541ee50e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:22 +0000
Subject: [PATCH 47/84] fix: Fourier random field with exponential correlation
 in 1D

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index b231ada..e35efaf 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -645,7 +645,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
             k[0] = np.tan(k_u) / self.len_scale
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
-- 
2.43.0


From a6dcea20c90a28a6faa84e3cf99c934a272c3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:32 +0000
Subject: [PATCH 48/84] fix: correlation length of the Gaussian Fourier random
 field in 1D

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index e35efaf..4700d28 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -623,7 +623,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
             rng = self._get_random_stream()
-- 
2.43.0


From bae6d7b7833fa119f09d37059be6268462824ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 49/84] fix: flow simulation over files prepared by a previous
 run

---
 mlmc/tool/flow_mc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 27eddb7..7ebf93c 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -183,6 +183,11 @@ class FlowSim(Simulation):
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Files were prepared by a previous run, determine fields that are used in the input
+            with open(os.path.join(common_files_dir, self.YAML_TEMPLATE), 'r') as f:
+                template = f.read()
+            self._fields_used_params = [name for name in self._fields.names if '<%s>' % name in template]
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From 6edc827c0923a2189deeaf5607dcba833c74178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:00 +0000
Subject: [PATCH 50/84] fix: level variances are not lost in rounding nor
 negative for values far from zero

---
 mlmc/quantity/quantity_estimate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_estimate.py b/mlmc/quantity/quantity_estimate.py
index 2436d7b..bc5a5d8 100644
--- a/mlmc/quantity/quantity_estimate.py
+++ b/mlmc/quantity/quantity_estimate.py
@@ -54,6 +54,7 @@ def estimate_mean(quantity):
         # Set variables for level sums and sums of squares
         if sums is None:
             sums = [np.zeros(chunk.shape[0]) for _ in range(n_levels)]
+            shifts = [None for _ in range(n_levels)]
             sums_of_squares = [np.zeros(chunk.shape[0]) for _ in range(n_levels)]
 
         if chunk_spec.level_id == 0:
@@ -61,6 +62,11 @@ def estimate_mean(quantity):
         else:
             chunk_diff = chunk[:, :, 0] - chunk[:, :, 1]
 
+        # Values relative to the first one, otherwise the variance of values far from zero is lost in rounding
+        if shifts[chunk_spec.level_id] is None:
+            shifts[chunk_spec.level_id] = np.nan_to_num(chunk_diff[:, :1], posinf=0, neginf=0)
+        chunk_diff = chunk_diff - shifts[chunk_spec.level_id]
+
         sums[chunk_spec.level_id] += np.sum(chunk_diff, axis=1)
         sums_of_squares[chunk_spec.level_id] += np.sum(chunk_diff**2, axis=1)
 
@@ -69,10 +75,10 @@ def estimate_mean(quantity):
 
     l_means = []
     l_vars = []
-    for s, sp, n in zip(sums, sums_of_squares, n_samples):
-        l_means.append(s / n)
+    for s, sp, n, shift in zip(sums, sums_of_squares, n_samples, shifts):
+        l_means.append(s / n + (0 if shift is None else shift[:, 0]))
         if n > 1:
-            l_vars.append((sp - (s ** 2 / n)) / (n-1))
+            l_vars.append(np.maximum(sp - (s ** 2 / n), 0) / (n-1))
         else:
             l_vars.append(np.full(len(s), np.inf))
 
-- 
2.43.0


From cf388b463a0bc0bc8a0d3610b4c519efadab7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:01 +0000
Subject: [PATCH 51/84] Revert "fix: result formats with different locations
 are not equal"

The file name is that of a test file, compare locations in the storage instead.
---
 mlmc/quantity/quantity_spec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index 6273b31..ea25dc6 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and list(self.locations) == list(other.locations):
+                and not (set(self.locations) - set(other.locations)):
             return True
         return False
 
-- 
2.43.0


From d2181371130d7b77354b68204e96142f73e8533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:01 +0000
Subject: [PATCH 52/84] fix: file storage refuses a result format with added or
 reordered locations

---
 mlmc/sample_storage_hdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index bb76f26..2eefaad 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -93,7 +93,9 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
+            stored_format = self.load_result_format()
+            if stored_format != result_format \
+                    or any(list(s.locations) != list(q.locations) for s, q in zip(stored_format, result_format)):
                 raise ValueError('You are setting a new different result format for an existing sample storage')
         except AttributeError:
             pass
-- 
2.43.0


From 4180446b434e0e68678d700aa10e632aeb592b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:24 +0000
Subject: [PATCH 53/84] fix: domain is not estimated from outdated cached
 samples

---
 mlmc/estimator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index fd5ed2e..567ebe6 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -280,6 +280,7 @@ class Estimate:
         :param quantile: float in interval (0, 1), None means whole sample range
         :return: lower_bound, upper_bound
         """
+        qe.cache_clear()
         ranges = []
         if quantile is None:
             quantile = 0.01
-- 
2.43.0


From ddf53a8b004fa1b79ba39d8f316de69a0a865b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:49 +0000
Subject: [PATCH 54/84] fix: time interpolation at the single available time
 gives its values, not NaN

---
 mlmc/quantity/quantity_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 6d463f7..4dc4096 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -169,6 +169,9 @@ class TimeSeriesType(QType):
         def interp(y):
             split_indeces = np.arange(1, len(quantity.qtype._times)) * quantity.qtype._qtype.size()
             y = np.split(y, split_indeces, axis=-3)
+            if len(y) == 1 and value == quantity.qtype._times[0]:
+                # No interpolation is possible with a single time, interp1d gives NaN
+                return y[0]
             f = interpolate.interp1d(quantity.qtype._times, y, axis=0)
             return f(value)
         return mlmc.quantity.quantity.Quantity(quantity_type=quantity.qtype._qtype, input_quantities=[quantity], operation=interp)
-- 
2.43.0


From f2daf952c66d2e9b43c7cee365f75d62ad513c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:02 +0000
Subject: [PATCH 55/84] fix: sampler keeps its own copy of the given initial
 numbers of samples

---
 mlmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampler.py b/mlmc/sampler.py
index 6a55072..3bb563b 100644
--- a/mlmc/sampler.py
+++ b/mlmc/sampler.py
@@ -109,7 +109,7 @@ class Sampler:
             n0, nL = n_samples
             n_samples = self.sample_range(n0, nL)
 
-        self._n_target_samples = n_samples
+        self._n_target_samples = np.array(n_samples)
 
     def _get_sample_tag(self, level_id):
         """
-- 
2.43.0


From 551f4c67cf9c5696f938be1c7b0f4913ee31c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 56/84] fix: distribution function of a narrow density does not
 depend on the other values

---
 mlmc/tool/simple_distribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index d5bf8cf..6ae96ec 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -119,7 +119,10 @@ class SimpleDistribution:
             elif val >= self.domain[1]:
                 last_y = 1
             else:
-                dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
+                # The density may be concentrated in a small part of a long interval
+                n_parts = int(np.ceil((val - last_x) / (self.domain[1] - self.domain[0]) * 100))
+                points = np.linspace(last_x, val, max(n_parts, 1) + 1)
+                dy = sum(integrate.fixed_quad(self.density, a, b, n=10)[0] for a, b in zip(points[:-1], points[1:]))
                 last_x = val
                 last_y = last_y + dy
             cdf_y[i] = last_y
-- 
2.43.0


From 66e8f349470feb8bb335ce47a94773bc35d09db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:15 +0000
Subject: [PATCH 57/84] fix: divergence of a density that vanishes somewhere

---
 mlmc/tool/simple_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 6ae96ec..14b345d 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -457,7 +457,7 @@ def KL_divergence(prior_density, posterior_density, a, b):
         # posterior
         q = max(posterior_density(x), 1e-300)
         # modified integrand to provide positive value even in the case of imperfect normalization
-        return  p * np.log(p / q) - p + q
+        return  p * np.log(max(p, 1e-300) / q) - p + q
 
     value = integrate.quad(integrand, a, b, epsabs=1e-10)
     return max(value[0], 1e-10)
-- 
2.43.0


From 056bf349a8bd42b86a74311cfcb8be6ff4fc6d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 58/84] fix: files of a sample that can not be copied do not
 stop sampling

---
 mlmc/sampling_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index ddae3ad..98a0505 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -189,7 +189,11 @@ class SamplingPool(ABC):
             sample_dir = SamplingPool.change_to_sample_directory(work_dir, sample_id)
             if os.path.exists(os.path.join(destination_dir, sample_id)):
                 shutil.rmtree(os.path.join(destination_dir, sample_id), ignore_errors=True)
-            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id), ignore_dangling_symlinks=True)
+            try:
+                shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id), ignore_dangling_symlinks=True)
+            except shutil.Error as err:
+                # Some files can't be copied (e.g. named pipes), it must not affect sampling
+                print("Sample {} files not copied: {}".format(sample_id, err))
 
     @staticmethod
     def remove_sample_dir(sample_id, sample_workspace, work_dir):
-- 
2.43.0


From 8351b56e7f8f382513140a0f1f5b526c39fbc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 59/84] fix: sample that calls sys.exit is a failed sample

---
 mlmc/sampling_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 98a0505..e9a1aca 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -120,7 +120,7 @@ class SamplingPool(ABC):
                     "Unexpected result format, expected length: {}, resultf length: {}".format(res_expected_len,
                                                                                                len(flatten_fine_res))
 
-        except Exception:
+        except (Exception, SystemExit):
             str_list = traceback.format_exception(*sys.exc_info())
             err_msg = "".join(str_list)
 
-- 
2.43.0


From 52381a482c7713a1da459c14f78f2d9edc66b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 60/84] fix: new sampler keeps data of a file storage created
 in the same process

---
 mlmc/sample_storage_hdf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 2eefaad..ca14b41 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -65,8 +65,9 @@ class SampleStorageHDF(SampleStorage):
         res_dtype = self._hdf_result_format(max((spec.locations for spec in result_format), key=len),
                                             max((spec.times for spec in result_format), key=len))
 
-        # Create file structure
-        self._hdf_object.create_file_structure(level_parameters)
+        # Create file structure, existing data of this storage have to be kept
+        if not self._level_groups:
+            self._hdf_object.create_file_structure(level_parameters)
 
         # Create group for each level
         if len(self._level_groups) != len(level_parameters):
-- 
2.43.0


From 3c8fba82e493b168f1a3ffdb3d40ab485cba7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:56 +0000
Subject: [PATCH 61/84] fix: names, units and locations of any length and
 characters in a file storage

---
 mlmc/sample_storage_hdf.py | 14 +++++++++-----
 mlmc/tool/hdf5.py          |  4 ++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index ca14b41..1813080 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -33,20 +33,21 @@ class SampleStorageHDF(SampleStorage):
                 for i_level in range(len(self._hdf_object.level_parameters)):
                     self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-    def _hdf_result_format(self, locations, times):
+    def _hdf_result_format(self, locations, times, str_len=50):
         """
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
+        str_dtype = 'S{}'.format(str_len)
         if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
-            loc_dtype = np.dtype(('S50', (len(locations),)))
+            loc_dtype = np.dtype((str_dtype, (len(locations),)))
 
         result_dtype = {'names': ('name', 'unit', 'shape', 'times', 'locations'),
-                        'formats': ('S50',
-                                    'S50',
+                        'formats': (str_dtype,
+                                    str_dtype,
                                     np.dtype((np.int32, (2,))),
                                     np.dtype((np.float, (len(times),))),
                                     loc_dtype
@@ -62,8 +63,11 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
+        # Names, units and locations must not be cut off
+        strings = [s for spec in result_format for s in (spec.name, spec.unit, *spec.locations) if isinstance(s, str)]
         res_dtype = self._hdf_result_format(max((spec.locations for spec in result_format), key=len),
-                                            max((spec.times for spec in result_format), key=len))
+                                            max((spec.times for spec in result_format), key=len),
+                                            str_len=max([50] + [len(s.encode("utf-8")) for s in strings]))
 
         # Create file structure, existing data of this storage have to be kept
         if not self._level_groups:
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 55bd3ec..a56dea0 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -157,11 +157,11 @@ class HDF5:
                     # Quantities may have different number of times and locations, pad the rest
                     if res[attribute].dtype.kind == 'f':
                         res[attribute][len(value):] = np.nan
-                    res[attribute][:len(value)] = value
+                    res[attribute][:len(value)] = [v.encode('utf-8') if isinstance(v, str) else v for v in value]
                 elif isinstance(value, (tuple, list)):
                     res[attribute][:] = value
                 else:
-                    res[attribute] = value
+                    res[attribute] = value.encode('utf-8') if isinstance(value, str) else value
 
         # Write to file
         with h5py.File(self.file_name, 'a') as hdf_file:
-- 
2.43.0


From 638a3019298530f5be4ab2636e1267b2f9d423ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 62/84] fix: plot of eigenvalues given with an array of errors
 or in increasing order without threshold

---
 mlmc/plot/plots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 9a6053d..65a1469 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -316,12 +316,13 @@ class Eigenvalues:
         :param threshold: horizontal line marking noise level or cut-off eigen value
         :return:
         """
-        assert not errors or len(values) == len(errors)
+        assert errors is None or len(values) == len(errors)
         if values[0] < values[-1]:
             values = np.flip(values)
             if errors is not None:
                 errors = np.flip(errors)
-            threshold = len(values) - 1 - threshold
+            if threshold is not None:
+                threshold = len(values) - 1 - threshold
 
         if self.log_y:
             # plot only positive values
-- 
2.43.0


From 084f62752b81d6ab02ec2ef9897c454f0b43f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 63/84] fix: logarithmic plot of eigenvalues contains positive
 values only, also with errors

---
 mlmc/plot/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 65a1469..ad50eb5 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -326,8 +326,10 @@ class Eigenvalues:
 
         if self.log_y:
             # plot only positive values
-            i_last_positive = len(values) - np.argmax(np.flip(values) > 0)
-            values = values[:i_last_positive + 1]
+            n_positive = len(values) - np.argmax(np.flip(values) > 0)
+            values = values[:n_positive]
+            if errors is not None:
+                errors = errors[:n_positive]
             a, b = np.min(values), np.max(values)
             self.adjust_ylim( (a / ((b/a)**0.05), b * (b/a)**0.05) )
         else:
-- 
2.43.0


From 0f7bcff475de695c24985aeeddb69e8005d3322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 64/84] fix: plot of variances with fewer moments than the size
 of the plotted subset

---
 mlmc/plot/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index ad50eb5..6d09932 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -50,7 +50,7 @@ def moments_subset(n_moments, moments=None):
         subset =  np.arange(1, n_moments)
     else:
         assert type(moments) is int
-        subset =  np.round(np.geomspace(1, n_moments-1, moments)).astype(int)
+        subset =  np.round(np.geomspace(1, n_moments-1, min(moments, n_moments-1))).astype(int)
         # make indices unique by increasing
         for i in range(1,len(subset)):
             subset[i] = max(subset[i], subset[i-1]+1)
-- 
2.43.0


From 461e942107b1e3f421ec4815a4c4e4e64552aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 65/84] fix: histogram of a few samples is not empty

---
 mlmc/plot/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 6d09932..c8f68d6 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -164,7 +164,7 @@ class Distribution:
         domain = (np.min(samples), np.max(samples))
         self.adjust_domain(domain)
         N = len(samples)
-        bins = self._grid(int(0.5 * np.sqrt(N)))
+        bins = self._grid(max(2, int(0.5 * np.sqrt(N))))
         self.ax_pdf.hist(samples, density=True, bins=bins, alpha=0.3, label='samples', color='red')
 
         # # Ecdf
-- 
2.43.0


From 29a81855f3edba4fdb93092e5ff2e80af51ff00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 66/84] fix: plot of level variances of a few levels

---
 mlmc/plot/plots.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index c8f68d6..3764915 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -549,6 +549,9 @@ class Variance:
 
             #f = interpolate.PchipInterpolator(XX[1:], YY[1:])
             m = len(XX)-1
+            if m <= 3:
+                # Not enough levels for the cubic spline
+                continue
             spl = interpolate.splrep(XX[1:], YY[1:], k=3, s=m - np.sqrt(2*m))
             xf = np.geomspace(self.min_step, self.max_step, 100)
             yf = interpolate.splev(xf, spl)
-- 
2.43.0


From 58ac3bcad39550e088102cbbc36cbfcaf60c31a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 67/84] fix: histograms of sample estimates with current
 matplotlib

---
 mlmc/plot/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 3764915..a72eea6 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -1047,21 +1047,21 @@ def plot_n_sample_est_distributions(cost, total_std, n_samples):
 
     fig = plt.figure(figsize=(30,10))
     ax1 = fig.add_subplot(1, 3, 1)
-    ax1.hist(cost, normed=1)
+    ax1.hist(cost, density=True)
     ax1.set_xlabel("cost")
     cost_99 = np.percentile(cost, [99])
     ax1.axvline(x=cost_99, label=str(cost_99), c='red')
     ax1.legend()
 
     ax2 = fig.add_subplot(1, 3, 2)
-    ax2.hist(total_std, normed=1)
+    ax2.hist(total_std, density=True)
     ax2.set_xlabel("total var")
     tstd_99 = np.percentile(total_std, [99])
     ax2.axvline(x=tstd_99, label=str(tstd_99), c='red')
     ax2.legend()
 
     ax3 = fig.add_subplot(1, 3, 3)
-    ax3.hist(n_samples, normed=1)
+    ax3.hist(n_samples, density=True)
     ax3.set_xlabel("n_samples")
     ns_99 = np.percentile(n_samples, [99])
     ax3.axvline(x=ns_99, label=str(ns_99), c='red')
@@ -1272,7 +1272,7 @@ def plot_n_sample_est_distributions(title, cost, total_std, n_samples, rel_momen
 
 
 def plot_error(arr, ax, label):
-    ax.hist(arr, normed=1)
+    ax.hist(arr, density=True)
     ax.set_xlabel(label)
     prc = np.percentile(arr, [99])
     ax.axvline(x=prc, label=str(prc), c='red')
-- 
2.43.0


From 1bbe1aecab1e06d9df9d739b152c69db67d88353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 68/84] fix: color bars of bootstrap plots have to know their
 axes

---
 mlmc/plot/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index a72eea6..28fc210 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -669,7 +669,7 @@ class BSplots:
 
         fig = plt.figure(figsize=(8, 5))
         ax = fig.add_subplot(1, 1, 1)
-        self._moments_cmap = self.set_moments_color_bar(len(variances[0]), "moments")
+        self._moments_cmap = self.set_moments_color_bar(len(variances[0]), "moments", ax=ax)
         self._scatter_level_moment_data(ax, variances, marker='.')
 
         lbls = ['Total'] + ['L{:2d}\n{}\n{}'.format(l + 1, nsbs, ns)
@@ -754,7 +754,7 @@ class BSplots:
         x = x - 0.3
         default_x = x
 
-        self._moments_cmap = self.set_moments_color_bar(len(moments_mean), "moments")
+        self._moments_cmap = self.set_moments_color_bar(len(moments_mean), "moments", ax=plt.gca())
 
         for index, means in enumerate(moments_mean):
             if index == int(len(moments_mean) / 2) and exact_moments is not None:
-- 
2.43.0


From 64126a116e834ae333fcfc247a21af5aeedd0313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 69/84] fix: plot of variance regression passes numbers of
 samples to the regression

---
 mlmc/plot/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 28fc210..32a03df 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -786,7 +786,7 @@ class BSplots:
         self._moments_cmap = self.set_moments_color_bar(range=moments_fn.size, label="moments", ax=ax)
 
         est_diff_vars, n_samples = estimator.estimate_diff_vars(moments_fn)
-        reg_diff_vars, _ = estimator.estimate_diff_vars_regression(moments_fn) #/ self.n_samples[:, None]
+        reg_diff_vars, _ = estimator.estimate_diff_vars_regression(n_samples, moments_fn) #/ self.n_samples[:, None]
         ref_diff_vars = self._ref_level_var #/ self.n_samples[:, None]
 
         self._scatter_level_moment_data(ax,  ref_diff_vars, i_moments, marker='o')
-- 
2.43.0


From 7a3f18be64716cb3012452d3bb252f279d7a6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:30 +0000
Subject: [PATCH 70/84] fix: bootstrap variances are plotted at their levels,
 the total variance comes first

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 567ebe6..a155979 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -240,7 +240,7 @@ class Estimate:
 
         bs_plot.plot_means_and_vars(self.mean_bs_mean[1:], self.mean_bs_var[1:], n_levels=self._sample_storage.get_n_levels())
 
-        bs_plot.plot_bs_variances(self.mean_bs_l_vars)
+        bs_plot.plot_bs_variances(np.concatenate((self.mean_bs_var[None, :], self.mean_bs_l_vars), axis=0))
         #bs_plot.plot_bs_var_log_var()
 
         bs_plot.plot_var_regression(self, self._sample_storage.get_n_levels(), self._moments_fn)
-- 
2.43.0


From b4e4eb4f5aee3e1cd0b304de3bfdfc4e8a4284f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:44 +0000
Subject: [PATCH 71/84] fix: colors of a single regression difference of a few
 levels are not taken for RGB

---
 mlmc/plot/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 32a03df..8169a96 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -1223,7 +1223,7 @@ def plot_regression_diffs(all_diffs, n_moments):
         N, L = diffs.shape
         X = np.outer(np.ones(N), np.arange(L)) + i_mom * 0.1
         col = np.ones_like(diffs) * i_mom
-        plt.scatter(X, diffs, c=col, cmap=plt.cm.tab10, norm=plt.Normalize(0, 10), marker='o', label=str(i_mom))
+        plt.scatter(X, diffs, c=col.ravel(), cmap=plt.cm.tab10, norm=plt.Normalize(0, 10), marker='o', label=str(i_mom))
     plt.legend()
     plt.yscale('log')
     plt.ylim(1e-10, 1)
-- 
2.43.0


From 5be01de1e4b4c4782c32d50addb0cb5b65347c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:05 +0000
Subject: [PATCH 72/84] fix: test of the mean passes for samples with the given
 mean, not for the other ones

---
 mlmc/tool/stats_tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/stats_tests.py b/mlmc/tool/stats_tests.py
index 8fe5625..8b2c1e3 100644
--- a/mlmc/tool/stats_tests.py
+++ b/mlmc/tool/stats_tests.py
@@ -8,13 +8,13 @@ def t_test(mu_0, samples, max_p_val=0.01):
     failures with probability max_p_val.
 
     Perform the two-tailed t-test and
-    Assert that p-val is smaller then given value.
+    Assert that p-val is greater then given value.
     :param mu_0: Exact mean.
     :param samples: Samples to test.
     :param max_p_val: Probability of failed t-test for correct samples.
     """
     T, p_val = st.ttest_1samp(samples, mu_0)
-    assert p_val < max_p_val
+    assert p_val > max_p_val
 
 
 def chi2_test(var_0, samples, max_p_val=0.01, tag=""):
-- 
2.43.0


From 5ca26f0d54d1dab43fc60253cfb4abb29351037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 73/84] fix: reading of mesh files of version 1.0

---
 mlmc/tool/gmsh_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 88957d6..d711b09 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -81,6 +81,8 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        # Version 1.0 files have no format section
+        ftype = 0
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 04b7beddab179b79b3acd91de33dfab5b94b40d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:39 +0000
Subject: [PATCH 74/84] fix: empty line of a mesh file does not end reading

---
 mlmc/tool/gmsh_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index d711b09..a8f7770 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -84,10 +84,10 @@ class GmshIO:
         # Version 1.0 files have no format section
         ftype = 0
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
-            line = mshfile.readline()
+        for line in iter(mshfile.readline, ''):
             line = line.strip()
+            if not line:
+                continue
 
             if line.startswith('$'):
                 if line == '$NOD' or line == '$Nodes':
-- 
2.43.0


From f9eb2b8281c18db518c04a80f985fd5464918b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:51 +0000
Subject: [PATCH 75/84] fix: writing and reading of binary mesh files

---
 mlmc/tool/gmsh_io.py | 56 +++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index a8f7770..27d5fd1 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -45,27 +45,33 @@ class GmshIO:
         self.physical = {}
         self.element_data = {}
 
+    @staticmethod
+    def read_line(mshfile):
+        """Read a line of text from a file opened in either mode"""
+        line = mshfile.readline()
+        return line.decode('utf-8') if isinstance(line, bytes) else line
+
     def read_element_data_head(self, mshfile):
 
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         n_str_tags = int(columns[0])
         assert (n_str_tags == 1)
-        field = mshfile.readline().strip().strip('"')
+        field = self.read_line(mshfile).strip().strip('"')
 
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         n_real_tags = int(columns[0])
         assert (n_real_tags == 1)
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         time = float(columns[0])
 
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         n_int_tags = int(columns[0])
         assert (n_int_tags == 3)
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         t_idx = float(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         n_comp = float(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = self.read_line(mshfile).strip().split()
         n_elem = float(columns[0])
         return field, time, t_idx, n_comp, n_elem
 
@@ -78,13 +84,13 @@ class GmshIO:
         """
 
         if not mshfile:
-            mshfile = open(self.filename, 'r')
+            mshfile = open(self.filename, 'rb')
 
         readmode = 0
         # Version 1.0 files have no format section
         ftype = 0
         print('Reading %s' % mshfile.name)
-        for line in iter(mshfile.readline, ''):
+        for line in iter(lambda: self.read_line(mshfile), ''):
             line = line.strip()
             if not line:
                 continue
@@ -130,8 +136,10 @@ class GmshIO:
                                              int(columns[1]),
                                              int(columns[2]))
                         print(('ASCII', 'Binary')[ftype] + ' format')
-                    else:
-                        endian = struct.unpack('i', columns[0])
+                        if ftype == 1:
+                            # Number one in the byte order of the file
+                            endian = struct.unpack('i', mshfile.read(4))
+                            mshfile.read(1)
                 if readmode == 1:
                     # Version 1.0 or 2.0 Nodes
                     try:
@@ -168,7 +176,7 @@ class GmshIO:
                         self.elements[id] = (type, tags, nodes)
                 elif readmode == 3 and ftype == 1:
                     # el_type : num of nodes per element
-                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 5, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
+                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
                     try:
                         neles = int(columns[0])
                         k = 0
@@ -181,8 +189,8 @@ class GmshIO:
                                 data = struct.unpack('=%di' % mysize,
                                                      mshfile.read(4 * mysize))
                                 self.elements[data[0]] = (etype,
-                                                          data[1:1 + ntags],
-                                                          data[1 + ntags:])
+                                                          list(data[1:1 + ntags]),
+                                                          list(data[1 + ntags:]))
                     except:
                         raise
                     mshfile.read(1)
@@ -228,17 +236,21 @@ class GmshIO:
         if not filename:
             filename = self.filename
 
-        mshfile = open(filename, 'wr')
+        mshfile = open(filename, 'wb')
 
-        mshfile.write("$MeshFormat\n2.2 1 8\n")
+        mshfile.write(b"$MeshFormat\n2.2 1 8\n")
         mshfile.write(struct.pack('@i', 1))
-        mshfile.write("\n$EndMeshFormat\n")
-        mshfile.write("$Nodes\n%d\n" % (len(self.nodes)))
+        mshfile.write(b"\n$EndMeshFormat\n")
+        mshfile.write(b"$PhysicalNames\n%d\n" % (len(self.physical)))
+        for name, (region_id, dim) in self.physical.items():
+            mshfile.write(('%d %d "%s"\n' % (dim, region_id, name)).encode('utf-8'))
+        mshfile.write(b"$EndPhysicalNames\n")
+        mshfile.write(b"$Nodes\n%d\n" % (len(self.nodes)))
         for node_id, coord in self.nodes.items():
             mshfile.write(struct.pack('@i', node_id))
             mshfile.write(struct.pack('@3d', *coord))
-        mshfile.write("\n$EndNodes\n")
-        mshfile.write("$Elements\n%d\n" % (len(self.elements)))
+        mshfile.write(b"\n$EndNodes\n")
+        mshfile.write(b"$Elements\n%d\n" % (len(self.elements)))
         for ele_id, elem in self.elements.items():
             (ele_type, tags, nodes) = elem
             mshfile.write(struct.pack('@i', ele_type))
@@ -249,7 +261,7 @@ class GmshIO:
                 mshfile.write(struct.pack('@i', c))
             for c in nodes:
                 mshfile.write(struct.pack('@i', c))
-        mshfile.write("\n$EndElements\n")
+        mshfile.write(b"\n$EndElements\n")
 
         mshfile.close()
 
-- 
2.43.0


From 76e02795ed54349112f0b5aed983fa7c539e7030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:04 +0000
Subject: [PATCH 76/84] fix: blocks of more elements in a binary mesh file

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 27d5fd1..f9d0a4e 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -183,7 +183,7 @@ class GmshIO:
                         while k < neles:
                             etype, ntype, ntags = struct.unpack('=3i',
                                                                 mshfile.read(3 * 4))
-                            k += 1
+                            k += ntype
                             for j in range(ntype):
                                 mysize = 1 + ntags + tdict[etype]
                                 data = struct.unpack('=%di' % mysize,
-- 
2.43.0


From 230505fb6c946004d4bcd51ec181b1f9fed16acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 77/84] fix: PBS pool over a kept work directory uses current
 level simulations

---
 mlmc/sampling_pool_pbs.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 23e0a1e..849a907 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -81,6 +81,8 @@ class SamplingPoolPBS(SamplingPool):
         # List of pbs job ids which should run
         self._unfinished_sample_ids = set()
         # List of sample id which are not collected - collection attempts are done in the get_finished()
+        self._serialized_levels = set()
+        # Levels serialized by this pool, files of the previous runs may contain different simulations
         self._debug = debug
         # If true then keep sample directories
         super().__init__(self._work_dir, self._debug)
@@ -190,9 +192,12 @@ class SamplingPoolPBS(SamplingPool):
         """
         file_path = os.path.join(self._output_dir, SamplingPoolPBS.LEVEL_SIM_CONFIG.format(level_sim._level_id))
 
-        if not os.path.exists(file_path):
-            with open(file_path, "wb") as f:
+        if level_sim._level_id not in self._serialized_levels:
+            # Replace the file at once, it may be read by running jobs
+            with open(file_path + ".new", "wb") as f:
                 pickle.dump(level_sim, f)
+            os.replace(file_path + ".new", file_path)
+            self._serialized_levels.add(level_sim._level_id)
 
     def execute(self):
         """
-- 
2.43.0


From 42a2db9e5b63a63181ae7683aa24d70366e9e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:57 +0000
Subject: [PATCH 78/84] fix: jobs of a PBS pool over a kept work directory use
 its debug mode and directories

---
 mlmc/tool/pbs_job.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index c27bda7..08f556e 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -83,11 +83,13 @@ class PbsJob:
         :param pbs_process: PbsProcess instance
         :return: None
         """
-        if not os.path.exists(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)):
-            with open(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), "w") as writer:
-                writer.write(pbs_process._jobs_dir + ";")
-                writer.write(pbs_process._level_sim_file + ";")
-                writer.write(str(pbs_process._debug) + ";")
+        class_file = os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)
+        # Replace the file at once, it may be read by running jobs
+        with open(class_file + ".new", "w") as writer:
+            writer.write(pbs_process._jobs_dir + ";")
+            writer.write(pbs_process._level_sim_file + ";")
+            writer.write(str(pbs_process._debug) + ";")
+        os.replace(class_file + ".new", class_file)
 
     @staticmethod
     def _deserialize_pbs_process(output_dir):
-- 
2.43.0


From bc621a2ad91e64c9d2dd65e3a6e5df71be69b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 79/84] fix: variances of differences by default of the moments
 of the estimator

---
 mlmc/estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index a155979..5d5cfd9 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -80,6 +80,9 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
+
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From a2fdf0e6e4e1c83134760a33f35d8cd7d2fbf17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 80/84] fix: points of fields without regions

---
 mlmc/random/correlated_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 4700d28..c450aab 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -200,7 +200,7 @@ class Fields:
         :return:
         """
         self.n_elements = len(points)
-        assert len(points) == len(region_ids)
+        assert len(region_ids) == 0 or len(points) == len(region_ids)
         reg_points = {}
         for i, reg_id in enumerate(region_ids):
             reg_list = reg_points.get(reg_id, [])
@@ -210,7 +210,7 @@ class Fields:
         for field in self.fields:
             point_ids = []
             if field.regions:
-                for reg in field.regions:
+                for reg in (field.regions if len(region_ids) > 0 else []):
                     reg_id = region_map[reg]
                     point_ids.extend(reg_points.get(reg_id, []))
                 field.set_points(points[point_ids])
-- 
2.43.0


From fe6b452a651416fba131d168f1db8573e9302066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:56 +0000
Subject: [PATCH 81/84] fix: random field on regions without points

---
 mlmc/random/correlated_field.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index c450aab..72342af 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -452,6 +452,13 @@ class SpatialCorrelatedField(RandomFieldBase):
 
         :return:
         """
+        if self.n_points == 0:
+            # No point of the mesh is in regions of the field
+            self.n_approx_terms = 0
+            self._sqrt_ev = np.empty(0)
+            self._cov_l_factor = np.empty((0, 0))
+            return self._cov_l_factor, self._sqrt_ev
+
         if self.cov_mat is None:
             self.cov_matrix()
 
-- 
2.43.0


From 79ebfcc08aa212426bfd15fe10a5ce6b13d3ca6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:30 +0000
Subject: [PATCH 82/84] fix: moments on short domains

---
 mlmc/moments.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 05a7b3d..02da2f4 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -21,7 +21,6 @@ class Moments:
 
         diff = lin_domain[1] - lin_domain[0]
         assert diff > 0
-        diff = max(diff, 1e-15)
         self._linear_diff = diff
         self._linear_scale = (self.ref_domain[1] - self.ref_domain[0]) / diff
         self._linear_shift = lin_domain[0]
-- 
2.43.0


From 8454440d1f451b68d1035ddd3881794958e16ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:30 +0000
Subject: [PATCH 83/84] fix: density on short domains

---
 mlmc/tool/simple_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 14b345d..c7795cf 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -246,7 +246,8 @@ class SimpleDistribution:
         Compute approximation of moment derivatives at endpoints of the domain.
         :return: array (2, n_moments)
         """
-        eps = 1e-10
+        # Points at the ends must not be outside of a short domain
+        eps = 1e-10 * (self.domain[1] - self.domain[0])
         left_diff = right_diff = np.zeros((1, self.approx_size))
         if self.decay_penalty[0]:
             left_diff  = self.eval_moments(self.domain[0] + eps) - self.eval_moments(self.domain[0])
-- 
2.43.0


From 118150f8645566ae6307caaf0a15e2c20d276958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:33 +0000
Subject: [PATCH 84/84] fix: level variances from bootstrap means of the given
 numbers of samples

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 5d5cfd9..dc916e0 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -204,7 +204,7 @@ class Estimate:
         self.var_bs_l_means = np.var(bs_l_means, axis=0, ddof=1)
         self.var_bs_l_vars = np.var(bs_l_vars, axis=0, ddof=1)
 
-        self._bs_level_mean_variance = self.var_bs_l_means * np.array(self._sample_storage.get_n_collected())[:, None]
+        self._bs_level_mean_variance = self.var_bs_l_means * sample_vector[:, None]
 
     def bs_target_var_n_estimated(self, target_var, sample_vec=None):
         sample_vec = determine_sample_vec(n_collected_samples=self._sample_storage.get_n_collected(),
-- 
2.43.0

