From 0785a91ac6bd02fb64488bd2aa901ed1d8bbc5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 01/38] fix: take results from the pool queues atomically

A result put to the queue between reading and clearing it was dropped and the
sample was counted as running for ever.
---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..2a44766 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Thread safe read and clear, a result added in between must not get lost
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From 9edd2410912cafd0f31b87ac9dfa7e81fa20765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 02/38] fix: report sample times of local pools once and by a
 monotonic clock

The cumulative times were handed over again by every get_finished() call while
the storage sums what it gets, so the cost of a sample depended on the number of
polls. Steps of the system clock could make it negative.
---
 mlmc/sampling_pool.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 2a44766..9e2f074 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -2,6 +2,7 @@ import os
 import sys
 import shutil
 import queue
+import threading
 import time
 import hashlib
 import numpy as np
@@ -102,9 +103,9 @@ class SamplingPool(ABC):
         if level_sim.need_sample_workspace:
             SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
-            start = time.time()
+            start = time.perf_counter()
             res = level_sim._calculate(level_sim.config_dict, seed)
-            running_time = time.time() - start
+            running_time = time.perf_counter() - start
 
             # Check result format
             if type(res[0]) is np.ndarray and type(res[1]) is np.ndarray:
@@ -215,6 +216,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._times_lock = threading.Lock()
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -258,13 +260,14 @@ class OneProcessPool(SamplingPool):
         :param running_time: float
         :return: None
         """
-        # Save sample times [total time, number of samples]
-        if level_id not in self.times:
-            self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        with self._times_lock:
+            # Save sample times [total time, number of samples]
+            if level_id not in self.times:
+                self.times[level_id] = [0, 0]
+            # Failed samples have running time equal 0 by default
+            if running_time != 0:
+                self.times[level_id][0] += running_time
+                self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
@@ -275,8 +278,11 @@ class OneProcessPool(SamplingPool):
         """
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
+        # Times measured since the last call, the storage sums them up
+        with self._times_lock:
+            times, self.times = self.times, {}
 
-        return successful, failed, self._n_running, list(self.times.items())
+        return successful, failed, self._n_running, list(times.items())
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From 274d2299ee1a524f8d37282a4369b001e4ddb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 03/38] fix: an error behind a sample calculation fails only
 that sample

error_callback() got an exception but handled it as a result, and any exception
in callbacks (e.g. in the clean-up of sample directories) ended the thread that
handles results, so all later samples were lost and waiting never ended.
---
 mlmc/sampling_pool.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 9e2f074..8ce4efb 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -242,15 +242,22 @@ class OneProcessPool(SamplingPool):
         # Save running time for n_ops
         self._save_running_time(level_sim._level_id, running_time)
 
+        # An error in the handling of sample files must not stop processing of other results
+        try:
+            if not err_msg:
+                if not self._debug:
+                    SamplingPool.move_successful_rm(sample_id, level_sim, output_dir=self._output_dir, dest_dir=self._successful_dir)
+            else:
+                if not level_sim.need_sample_workspace:
+                    print("Sample {} error: {}".format(sample_id, err_msg))
+                else:
+                    SamplingPool.move_failed_rm(sample_id, level_sim, output_dir=self._output_dir, dest_dir=SamplingPool.FAILED_DIR)
+        except Exception as err:
+            print("Sample {} files not processed: {}".format(sample_id, ascii(err)))
+
         if not err_msg:
             self._queues.setdefault(level_sim._level_id, queue.Queue()).put((sample_id, (result[0], result[1])))
-            if not self._debug:
-                SamplingPool.move_successful_rm(sample_id, level_sim, output_dir=self._output_dir, dest_dir=self._successful_dir)
         else:
-            if not level_sim.need_sample_workspace:
-                print("Sample {} error: {}".format(sample_id, err_msg))
-            else:
-                SamplingPool.move_failed_rm(sample_id, level_sim, output_dir=self._output_dir, dest_dir=SamplingPool.FAILED_DIR)
             self._failed_queues.setdefault(level_sim._level_id, queue.Queue()).put((sample_id, err_msg))
 
     def _save_running_time(self, level_id, running_time):
@@ -318,6 +325,16 @@ class ProcessPool(OneProcessPool):
         """
         self._process_result(*result, level_sim)
 
+    def err_callback(self, error, sample_id, level_sim):
+        """
+        Process sample whose calculation could not be run or whose result could not be sent back
+        :param error: Exception instance
+        :param sample_id: str
+        :param level_sim: LevelSimulation instance
+        :return: None
+        """
+        self._process_result(sample_id, (None, None), "{}: {}".format(type(error).__name__, error), 0, level_sim)
+
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
 
@@ -326,7 +343,7 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.err_callback(err, sample_id, level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 0dbebe066b0ffee918a5b15fcd1a7652c827b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 04/38] fix: failing workspace, exit and non-numeric result
 fail only their sample

They were raised out of calculate_sample(), ended the PBS job or the worker, or
made the storage refuse the whole batch.
---
 mlmc/sampling_pool.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 8ce4efb..436900c 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -100,27 +100,27 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
+
             start = time.perf_counter()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.perf_counter() - start
 
             # Check result format
-            if type(res[0]) is np.ndarray and type(res[1]) is np.ndarray:
-                flatten_fine_res = res[0].flatten()
-                flatten_coarse_res = res[1].flatten()
+            flatten_fine_res = np.asarray(res[0], dtype=float).flatten()
+            flatten_coarse_res = np.asarray(res[1], dtype=float).flatten()
 
-                res_expected_len = np.sum(
-                    [np.prod(quantity_spec.shape) * len(quantity_spec.times) * len(quantity_spec.locations)
-                     for quantity_spec in level_sim._result_format()])
+            res_expected_len = np.sum(
+                [np.prod(quantity_spec.shape) * len(quantity_spec.times) * len(quantity_spec.locations)
+                 for quantity_spec in level_sim._result_format()])
 
-                assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len, \
-                    "Unexpected result format, expected length: {}, resultf length: {}".format(res_expected_len,
-                                                                                               len(flatten_fine_res))
+            assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len, \
+                "Unexpected result format, expected length: {}, resultf length: {}".format(res_expected_len,
+                                                                                           len(flatten_fine_res))
 
-        except Exception:
+        except (Exception, SystemExit):
             str_list = traceback.format_exception(*sys.exc_info())
             err_msg = "".join(str_list)
 
-- 
2.43.0


From de1fae047f1655e9a3be26e14228c7a99e9f3507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 05/38] fix: start each sample in a clean workspace

A rerun PBS job or a repeated attempt found files of the killed attempt.
---
 mlmc/sampling_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 436900c..eaae538 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -157,6 +157,8 @@ class SamplingPool(ABC):
         :return: None
         """
         if level_sim.need_sample_workspace:
+            # Remove what an interrupted previous attempt left behind
+            shutil.rmtree(os.path.join(work_dir, sample_id), ignore_errors=True)
             sample_dir = SamplingPool.change_to_sample_directory(work_dir, sample_id)
 
             if level_sim.common_files is not None:
-- 
2.43.0


From 157df4ab035d8daafb86f0a64f9137e5755b5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 06/38] fix: Memory storage counts samples and levels like the
 HDF storage

The first batch of failed samples on a level was not counted as finished,
n_finished() raised on an empty storage and returned uninitialized values for
levels without finished samples, and levels without collected samples were left
out of (or shifted) the per level answers.
---
 mlmc/sample_storage.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..0b723f2 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -196,11 +196,7 @@ class Memory(SampleStorage):
         """
         for level_id, res in samples.items():
             self._failed.setdefault(level_id, []).extend(res)
-
-            if level_id not in self._n_finished:
-                self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+            self._n_finished[level_id] = self._n_finished.get(level_id, 0) + len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
@@ -215,7 +211,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(self.get_n_levels())
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,15 +243,17 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(self.get_n_levels())]
 
-        for level_id in self.get_level_ids():
+        for level_id in self._results:
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
             levels_results[level_id] = results
 
         return levels_results
 
     def _level_chunks(self, level_id, n_samples=None):
+        if level_id not in self._results:
+            raise AttributeError("No collected values in level {}".format(level_id))
         yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, len(self._results[level_id][:n_samples]), 1), level_id=level_id)
 
     def sample_pairs_level(self, chunk_spec):
@@ -315,15 +313,15 @@ class Memory(SampleStorage):
         return []
 
     def get_level_ids(self):
-        return list(self._results.keys())
+        return list(range(self.get_n_levels()))
 
     def get_n_collected(self):
         """
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
-        for level_id in self.get_level_ids():
+        n_collected = [0] * self.get_n_levels()
+        for level_id in self._results:
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
 
@@ -332,7 +330,8 @@ class Memory(SampleStorage):
         Get number of levels
         :return: int
         """
-        return len(self._results)
+        n_parameters = 0 if self._level_parameters is None else len(self._level_parameters)
+        return max([n_parameters] + [int(level_id) + 1 for level_id in self._n_finished])
 
     def get_level_parameters(self):
         return self._level_parameters
-- 
2.43.0


From 3f63c24e0ad07ff6403f3ade4e65fe5f56cae319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:06 +0000
Subject: [PATCH 07/38] fix: cost per sample is the average over all saved
 samples

Memory summed averages of individual batches, so the cost grew with the number
of batches; both storages failed if a level had no times yet.
---
 mlmc/sample_storage.py     | 15 ++++++++-------
 mlmc/sample_storage_hdf.py |  5 +++--
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 0b723f2..2ad8e7f 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -289,20 +289,21 @@ class Memory(SampleStorage):
         :return: None
         """
         for level, (time, n_samples) in n_ops:
-            if level not in self._n_ops:
-                self._n_ops[level] = 0
+            n_ops_saved = self._n_ops.setdefault(level, [0., 0.])
 
-            if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+            if n_samples > 0:
+                n_ops_saved[0] += time
+                n_ops_saved[1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(max([self.get_n_levels()] + [level + 1 for level in self._n_ops])))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..a5224ca 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -243,8 +243,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_estimate = level.n_ops_estimate
+            if n_ops_estimate is not None and n_ops_estimate[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_estimate[0] / n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
-- 
2.43.0


From e77db71b8f41f5bb46164780eca753d5e176a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 08/38] fix: renew failed samples also with the Memory storage

failed_samples() and clear_failed(), used by Sampler.renew_failed_samples(), were
missing, and no scheduled sample was ever reported as unfinished.
---
 mlmc/sample_storage.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 2ad8e7f..77789ac 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -308,10 +308,28 @@ class Memory(SampleStorage):
 
     def unfinished_ids(self):
         """
-        We finished all samples in memory
-        :return:
+        Scheduled samples which are neither collected nor failed
+        :return: list
+        """
+        unfinished = []
+        for level_id, scheduled in self._scheduled.items():
+            finished = set(self._successful_sample_ids.get(level_id, []))
+            finished.update(sample_id for sample_id, _ in self._failed.get(level_id, []))
+            unfinished.extend(sample_id for sample_id in scheduled if sample_id not in finished)
+        return unfinished
+
+    def failed_samples(self):
         """
-        return []
+        Dictionary of failed samples
+        :return: Dict[level_id: str, List[sample_id: str]]
+        """
+        return {str(level_id): [sample_id for sample_id, _ in self._failed.get(level_id, [])]
+                for level_id in self.get_level_ids()}
+
+    def clear_failed(self):
+        for level_id, failed in self._failed.items():
+            self._n_finished[level_id] -= len(failed)
+        self._failed = {}
 
     def get_level_ids(self):
         return list(range(self.get_n_levels()))
-- 
2.43.0


From 63cc2d4f575c722b18b289997f1fcb6d47d079a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:24 +0000
Subject: [PATCH 09/38] fix: HDF storage answers about levels without collected
 samples

get_n_collected() returned an exception instance as the count and sample_pairs()
raised for such levels.
---
 mlmc/sample_storage_hdf.py | 7 +++++--
 mlmc/tool/hdf5.py          | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index a5224ca..6175080 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -157,8 +157,11 @@ class SampleStorageHDF(SampleStorage):
         levels_results = list(np.empty(len(self._level_groups)))
 
         for level in self._level_groups:
-            chunk_spec = next(self.chunks(level_id=int(level.level_id),
-                                          n_samples=self.get_n_collected()[int(level.level_id)]))
+            n_collected = level.collected_n_items()
+            if n_collected == 0:
+                levels_results[int(level.level_id)] = []
+                continue
+            chunk_spec = next(self.chunks(level_id=int(level.level_id), n_samples=n_collected))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
             if results is None or len(results) == 0:
                 levels_results[int(level.level_id)] = []
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From d5684ff7e6c8084243797d8714c56442a24f335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:42 +0000
Subject: [PATCH 10/38] fix: estimate the domain from the samples of all levels

Samples of level zero were read for every level.
---
 mlmc/estimator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..85ef8f9 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -286,13 +286,12 @@ class Estimate:
             quantile = 0.01
 
         for level_id in range(sample_storage.get_n_levels()):
-            try:
-                sample_storage.get_n_collected()[level_id]
-            except AttributeError:
+            n_collected = sample_storage.get_n_collected()[level_id]
+            if n_collected == 0:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id, n_samples=n_collected))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at given level
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
-- 
2.43.0


From 00c5ae6d7cd90475c271389d198d4b7c6904efe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:07 +0000
Subject: [PATCH 11/38] fix: cached samples of a deleted quantity are not used
 for a new one

The cache key contained id() of the quantity, which Python uses again for a new
object, so e.g. estimate_domain() could work with samples of another quantity.
---
 mlmc/quantity/quantity.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..c15f56f 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,8 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _serial_numbers = itertools.count()
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +124,10 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        # Unlike id() the serial number is never used again after the quantity is deleted
+        if '_serial_number' not in self.__dict__:
+            self._serial_number = next(Quantity._serial_numbers)
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._serial_number)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From 06c3f46223ea55438dee83f1e90b24adaf79458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:53 +0000
Subject: [PATCH 12/38] fix: a failed or interrupted append leaves no blank or
 unmatched rows

Ids of collected samples were written in another file session than their values,
and if a write failed after the dataset had been enlarged, blank rows remained.
---
 mlmc/tool/hdf5.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 810dcae..02602c7 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -306,8 +306,6 @@ class LevelGroup:
         :param samples: np.ndarray
         :return: None
         """
-        self._append_dataset(self.collected_ids_dset, samples[:, 0])
-
         values = samples[:, 1]
         result_type = np.dtype((np.float, np.array(values[0]).shape))
 
@@ -317,7 +315,8 @@ class LevelGroup:
                            chunks=True)
 
         d_name = 'collected_values'
-        self._append_dataset(d_name, [val for val in values])
+        # Ids and values have to be stored together
+        self._append_datasets([(self.collected_ids_dset, samples[:, 0]), (d_name, [val for val in values])])
 
     def append_failed(self, failed_samples):
         """
@@ -334,12 +333,27 @@ class LevelGroup:
         :param values: list of values (tuple, NumPy array or single value)
         :return: None
         """
+        self._append_datasets([(dataset_name, values)])
+
+    def _append_datasets(self, dataset_values):
+        """
+        Append values to existing datasets, all of them or none if writing fails
+        :param dataset_values: list of tuples (dataset name, list of values)
+        :return: None
+        """
         with h5py.File(self.file_name, 'a') as hdf_file:
-            dataset = hdf_file[self.level_group_path][dataset_name]
-            # Resize dataset
-            dataset.resize(dataset.shape[0] + len(values), axis=0)
-            # Append new values to the end of dataset
-            dataset[-len(values):] = values
+            datasets = [hdf_file[self.level_group_path][dataset_name] for dataset_name, _ in dataset_values]
+            sizes = [dataset.shape[0] for dataset in datasets]
+            try:
+                for dataset, (_, values) in zip(datasets, dataset_values):
+                    # Resize dataset
+                    dataset.resize(dataset.shape[0] + len(values), axis=0)
+                    # Append new values to the end of dataset
+                    dataset[-len(values):] = values
+            except Exception:
+                for dataset, size in zip(datasets, sizes):
+                    dataset.resize(size, axis=0)
+                raise
 
     def scheduled(self):
         """
-- 
2.43.0


From 535c56321474d062afa1f9bfa9ab99787cc99b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 13/38] fix: a failed save_samples() call of the HDF storage
 can be repeated

Levels saved before the failing one were stored twice by the repeated call.
---
 mlmc/sample_storage_hdf.py | 11 +++++++++--
 mlmc/tool/hdf5.py          | 24 ++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 6175080..4141458 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -119,8 +119,15 @@ class SampleStorageHDF(SampleStorage):
         :param failed: List[Tuple[sample_id: str, error_message: str]]
         :return: None
         """
-        self._save_succesful(successful)
-        self._save_failed(failed)
+        sizes = {level: self._level_groups[level].dataset_sizes() for level in {*successful, *failed}}
+        try:
+            self._save_succesful(successful)
+            self._save_failed(failed)
+        except Exception:
+            # Store all samples or none, so the call can be repeated
+            for level, level_sizes in sizes.items():
+                self._level_groups[level].restore_dataset_sizes(level_sizes)
+            raise
 
     def _save_succesful(self, successful_samples):
         for level, samples in successful_samples.items():
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 02602c7..95d562f 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -355,6 +355,30 @@ class LevelGroup:
                     dataset.resize(size, axis=0)
                 raise
 
+    def dataset_sizes(self):
+        """
+        Numbers of rows of datasets with finished samples
+        :return: Dict[dataset name, int]
+        """
+        with h5py.File(self.file_name, 'r') as hdf_file:
+            group = hdf_file[self.level_group_path]
+            return {name: len(group[name]) if name in group else 0
+                    for name in (self.collected_ids_dset, 'collected_values', self.failed_dset)}
+
+    def restore_dataset_sizes(self, sizes):
+        """
+        Remove rows appended since the dataset_sizes() call
+        :param sizes: Dict[dataset name, int]
+        :return: None
+        """
+        if sizes == self.dataset_sizes():
+            return
+        with h5py.File(self.file_name, 'a') as hdf_file:
+            group = hdf_file[self.level_group_path]
+            for name, size in sizes.items():
+                if name in group:
+                    group[name].resize(size, axis=0)
+
     def scheduled(self):
         """
         Read level dataset with scheduled samples
-- 
2.43.0


From 659c5b85e76a661076fe3fe23d858bdc3e355d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 14/38] fix: store failed samples with non-ASCII error messages

UnicodeEncodeError ended the sampling and the sample was not stored.
---
 mlmc/tool/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 95d562f..5747823 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -324,7 +324,9 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
-        self._append_dataset(self.failed_dset, failed_samples)
+        # Message has limited length and h5py is not able to store non-ascii str
+        self._append_dataset(self.failed_dset, [(sample_id, message.encode('utf-8', 'replace')[:1000])
+                                                for sample_id, message in failed_samples])
 
     def _append_dataset(self, dataset_name, values):
         """
-- 
2.43.0


From bd2eaadb3322d40a82e189454e7baebab495d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 15/38] fix: refuse an existing HDF file with other locations

A format whose locations are a subset or a permutation of the stored ones was
accepted, formats with point coordinates were not compared at all, and location
names of three characters were taken for coordinates.
---
 mlmc/quantity/quantity_spec.py | 2 +-
 mlmc/sample_storage_hdf.py     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index ea25dc6..e174137 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and not (set(self.locations) - set(other.locations)):
+                and np.array_equal(self.locations, other.locations):
             return True
         return False
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 4141458..a7bf8e4 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -38,7 +38,7 @@ class SampleStorageHDF(SampleStorage):
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
-        if len(locations[0]) == 3:
+        if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
@@ -106,7 +106,7 @@ class SampleStorageHDF(SampleStorage):
         quantities = []
         for res_format in results_format:
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
 
             quantities.append(spec)
 
-- 
2.43.0


From 2bb355d0f6b608486d1f10fbcbae00c8069eaa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:23 +0000
Subject: [PATCH 16/38] fix: open a HDF file whose creation was interrupted

The storage raised on a file without header or level datasets and compared the
result format with a blank one, so the run could not be started again.
---
 mlmc/sample_storage_hdf.py |  2 +-
 mlmc/tool/hdf5.py          | 37 ++++++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index a7bf8e4..36e7af0 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -20,7 +20,7 @@ class SampleStorageHDF(SampleStorage):
         """
         super().__init__()
         # If file exists load not create new file
-        load_from_file = True if os.path.exists(file_path) else False
+        load_from_file = os.path.exists(file_path) and not hdf.HDF5.is_empty(file_path)
 
         # HDF5 interface
         self._hdf_object = hdf.HDF5(file_path=file_path, load_from_file=load_from_file)
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 5747823..4a4a116 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -56,6 +56,16 @@ class HDF5:
         if self._load_from_file:
             self.load_from_file()
 
+    @staticmethod
+    def is_empty(file_path):
+        """
+        Creating of the file structure was interrupted before anything was written
+        :param file_path: hdf5 file path
+        :return: bool
+        """
+        with h5py.File(file_path, "r") as hdf_file:
+            return len(hdf_file.attrs) == 0 and len(hdf_file.keys()) == 0
+
     def create_file_structure(self, level_parameters):
         """
         Create hdf structure
@@ -137,17 +147,6 @@ class HDF5:
         """
         result_format_dtype = res_dtype
 
-        # Create data set
-        with h5py.File(self.file_name, 'a') as hdf_file:
-            # Check if dataset exists
-            if self.result_format_dset_name not in hdf_file:
-                hdf_file.create_dataset(
-                    self.result_format_dset_name,
-                    shape=(len(result_format),),
-                    dtype=result_format_dtype,
-                    maxshape=(None,),
-                    chunks=True)
-
         # Format data
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
@@ -157,8 +156,16 @@ class HDF5:
                 else:
                     res[attribute] = getattr(quantity_spec, attribute)
 
-        # Write to file
+        # Create data set and write to file
         with h5py.File(self.file_name, 'a') as hdf_file:
+            # Check if dataset exists
+            if self.result_format_dset_name not in hdf_file:
+                hdf_file.create_dataset(
+                    self.result_format_dset_name,
+                    shape=(len(result_format),),
+                    dtype=result_format_dtype,
+                    maxshape=(None,),
+                    chunks=True)
             dataset = hdf_file[self.result_format_dset_name]
             dataset[:] = result_array
 
@@ -218,9 +225,9 @@ class LevelGroup:
             if 'level_id' not in hdf_file[self.level_group_path].attrs:
                 hdf_file[self.level_group_path].attrs['level_id'] = self.level_id
 
-        # Create necessary datasets (h5py.Dataset) a groups (h5py.Group)
-        if not loaded_from_file:
-            self._make_groups_datasets()
+        # Create necessary datasets (h5py.Dataset) a groups (h5py.Group), some of them may be missing also
+        # in an existing file if the process that was creating it had been interrupted
+        self._make_groups_datasets()
 
     def _make_groups_datasets(self):
         """
-- 
2.43.0


From 4186787666860889d59b525ab7ffa057640d86a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:21 +0000
Subject: [PATCH 17/38] fix: record scheduled samples before they are started

Samples given to the pool before a crash were unknown to the storage, so their
results were lost and their ids issued again. Numbers of scheduled samples were
taken in the order of the storage's dictionary instead of by level.
---
 mlmc/sampler.py | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/mlmc/sampler.py b/mlmc/sampler.py
index 6a55072..15e3197 100644
--- a/mlmc/sampler.py
+++ b/mlmc/sampler.py
@@ -34,13 +34,11 @@ class Sampler:
         sample_storage.save_global_data(level_parameters=level_parameters,
                                         result_format=sim_factory.result_format())
 
-        self._n_scheduled_samples = [len(level_scheduled) for level_id, level_scheduled in
-                                     sample_storage.load_scheduled_samples().items()]
+        scheduled_samples = sample_storage.load_scheduled_samples()
+        self._n_scheduled_samples = np.array([len(scheduled_samples.get(level_id, []))
+                                              for level_id in range(self.n_levels)], dtype=float)
         # Number of created samples
 
-        if not self._n_scheduled_samples:
-            self._n_scheduled_samples = np.zeros(len(level_parameters))
-
         # Are there any unfinished samples which have already finished?
         self._check_failed_samples()
 
@@ -111,21 +109,22 @@ class Sampler:
 
         self._n_target_samples = n_samples
 
-    def _get_sample_tag(self, level_id):
+    def _get_sample_tag(self, level_id, i_sample=0):
         """
         Create sample tag
         :param level_id: identifier of current level
+        :param i_sample: index among the samples that are just being created
         :return: str
         """
-        return "L{:02d}_S{:07d}".format(level_id, int(self._n_scheduled_samples[level_id]))
+        return "L{:02d}_S{:07d}".format(level_id, int(self._n_scheduled_samples[level_id]) + i_sample)
 
     def schedule_samples(self, timeout=None):
         """
         Create simulation samples, loop through "levels" and its samples (given the number of target samples):
             1) generate sample tag (same for fine and coarse simulation)
             2) get LevelSimulation instance by simulation factory
-            3) schedule sample via sampling pool
-            4) store scheduled samples in sample storage, separately for each level
+            3) store scheduled samples in sample storage, separately for each level
+            4) schedule sample via sampling pool
         :param timeout: int, get_finished - while break timeout in seconds
         :return: None
         """
@@ -133,21 +132,18 @@ class Sampler:
         plan_samples = self._n_target_samples - self._n_scheduled_samples
 
         for level_id, n_samples in enumerate(plan_samples):
-            samples = []
-            for _ in range(int(n_samples)):
-                # Unique sample id
-                sample_id = self._get_sample_tag(level_id)
-                level_sim = self._level_sim_objects[level_id]
+            # Unique sample ids
+            samples = [self._get_sample_tag(level_id, i_sample) for i_sample in range(int(n_samples))]
+            level_sim = self._level_sim_objects[level_id]
+
+            # Store scheduled samples, before any of them is started - its id must not be used again after a crash
+            self.sample_storage.save_scheduled_samples(level_id, samples)
+            # Increment number of created samples at current level
+            self._n_scheduled_samples[level_id] += len(samples)
 
+            for sample_id in samples:
                 # Schedule current sample
                 self._sampling_pool.schedule_sample(sample_id, level_sim)
-                # Increment number of created samples at current level
-                self._n_scheduled_samples[level_id] += 1
-
-                samples.append(sample_id)
-
-            # Store scheduled samples
-            self.sample_storage.save_scheduled_samples(level_id, samples)
 
     def _check_failed_samples(self):
         """
-- 
2.43.0


From 5826a18a9518ec0ae26c195b39bfaaa182c6900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 18/38] fix: check all PBS jobs when some of them finished

Removing ids from the list being iterated skipped the following job, it was
reported neither as finished nor as running, so waiting could end too early.
---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..58e519f 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From 4bae686ab89d27e2e5d58c3a8772d0fdb3d24a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 19/38] fix: samples of a PBS job that could not be submitted
 are still running

After a failed qsub get_finished() reported no running samples and waiting ended.
---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 58e519f..78439e2 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -331,8 +331,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, include those which could not be submitted yet
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From dbe9ec45c7c2307f1f94e0a7eaedeb732aa752a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:30 +0000
Subject: [PATCH 20/38] fix: never use files of another PBS job

The number of the next job was derived from the last listed file instead of the
highest number, and after a failed qsub the same number was used again although
the job may have been submitted.
---
 mlmc/sampling_pool_pbs.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 78439e2..888da92 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -96,13 +96,8 @@ class SamplingPoolPBS(SamplingPool):
         Get number of created jobs
         :return:
         """
-        files_pattern = os.path.join(self._jobs_dir, "*_job.sh")
-        files = glob.glob(files_pattern)
-        if not files:
-            return 0
-
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        job_ids = [re.match(r'(\d+)_(job.sh|scheduled.yaml)$', file) for file in os.listdir(self._jobs_dir)]
+        return max((int(job_id.group(1)) for job_id in job_ids if job_id), default=-1) + 1
 
     def _save_structure(self):
         """
@@ -222,13 +217,13 @@ class SamplingPoolPBS(SamplingPool):
             self.write_script(script_content, job_file)
 
             process = subprocess.run(['qsub', job_file], stderr=subprocess.PIPE, stdout=subprocess.PIPE)
+            # Write current job count, the job may have been accepted even if qsub failed
+            self._job_count += 1
             try:
                 if process.returncode != 0:
                     raise Exception(process.stderr.decode('ascii'))
                 # Find all finished jobs
                 self._qsub_failed_n = 0
-                # Write current job count
-                self._job_count += 1
 
                 # Get pbs_id from qsub output
                 pbs_id = process.stdout.decode("ascii").split(".")[0]
-- 
2.43.0


From 986e5eb6e65a8bf1ab7a6eaf7fbaed5026df5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:00 +0000
Subject: [PATCH 21/38] fix: measure times of PBS samples by a monotonic clock

Steps of the system clock distorted the cost per sample.
---
 mlmc/tool/pbs_job.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..487dca0 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -148,7 +148,7 @@ class PbsJob:
         current_level = 0
         current_samples = []
         # Currently saved samples
-        start_time = time.time()
+        start_time = time.perf_counter()
         times = []
         # Sample calculation time - Tuple(level_id, [n samples, cumul time for n sample])
         n_times = 0
@@ -161,9 +161,9 @@ class PbsJob:
             # Start measuring time
             if current_level != level_id:
                 # Save previous level times
-                times.append((current_level, time.time() - start_time, n_times))
+                times.append((current_level, time.perf_counter() - start_time, n_times))
                 n_times = 0
-                start_time = time.time()
+                start_time = time.perf_counter()
                 current_level = level_id
 
             level_sim = self._level_simulations[current_level]
@@ -186,7 +186,7 @@ class PbsJob:
 
             current_samples.append(sample_id)
             n_times += 1
-            times.append((current_level, time.time() - start_time, n_times))
+            times.append((current_level, time.perf_counter() - start_time, n_times))
             self._save_to_file(success, failed, times, current_samples)
 
             success = []
-- 
2.43.0


From 6b50915a3cce0ae04f3e5f9228dec72770b76e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:52 +0000
Subject: [PATCH 22/38] fix: read results of a PBS job that was killed while
 writing them

A half-written record made the whole file unreadable (or was taken as a result),
so results of all other samples of the job were lost and sampling ended.
---
 mlmc/tool/pbs_job.py | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 487dca0..8c421cd 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -27,6 +27,8 @@ class PbsJob:
     SAMPLE_ID_JOB_ID = "sample_id_job_id.json"
     # Sample id with corresponding job id,
     # used to indicate that sample is stored in _successful_results.yaml or _failed_results.yaml
+    END_MARK = "# end of record\n"
+    # Mark (YAML comment) behind each complete record in result files
 
     def __init__(self, output_dir, jobs_dir, job_id, level_sim_file, debug):
         """
@@ -268,7 +270,20 @@ class PbsJob:
         :return: None
         """
         with open(path, "a") as f:
-            yaml.dump(data, f)
+            f.write(yaml.dump(data) + PbsJob.END_MARK)
+
+    @staticmethod
+    def _load_records(path):
+        """
+        Read result file, an incomplete record of a job that was killed during writing is left out
+        :param path: file path
+        :return: list
+        """
+        if not os.path.exists(path):
+            return []
+        with open(path, "r") as reader:
+            records, mark, _ = reader.read().rpartition("\n" + PbsJob.END_MARK)
+        return yaml.load(records + mark, yaml.Loader) or []
 
     def _handle_sim_files(self, sample_id, level_sim):
         """
@@ -297,25 +312,18 @@ class PbsJob:
         time = {}
 
         # Save successful results
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id)), "r") as reader:
-                successful_samples = yaml.load(reader)
-                for level_id, sample_id, result in successful_samples:
-                    successful.setdefault(level_id, []).append((sample_id, result))
+        for level_id, sample_id, result in PbsJob._load_records(
+                os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
+            successful.setdefault(level_id, []).append((sample_id, result))
 
         # Save failed results
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id)), "r") as reader:
-                failed_samples = yaml.load(reader)
-                for level_id, sample_id, err_msg in failed_samples:
-                    failed.setdefault(level_id, []).append((sample_id, err_msg))
+        for level_id, sample_id, err_msg in PbsJob._load_records(
+                os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
+            failed.setdefault(level_id, []).append((sample_id, err_msg))
 
         # Save time
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.TIME.format(job_id)), "r") as reader:
-                times = yaml.load(reader)
-                for level_id, n_samples, t in times:
-                    time.setdefault(level_id, []).append((n_samples, t))
+        for level_id, n_samples, t in PbsJob._load_records(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
+            time.setdefault(level_id, []).append((n_samples, t))
 
         # Deal with not finished (failed) samples in finished job
         level_id_sample_id_seed = PbsJob.get_scheduled_sample_ids(job_id, jobs_dir)
-- 
2.43.0


From db52947a4e4368506d8a1c247ccc58f6bac0ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:52 +0000
Subject: [PATCH 23/38] fix: a PBS job run again starts with empty result files

Results of the interrupted run remained in the files, so samples were collected
twice.
---
 mlmc/tool/pbs_job.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 8c421cd..2f57af6 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -140,6 +140,11 @@ class PbsJob:
         self._failed_file = os.path.join(self._jobs_dir, PbsJob.FAILED_RESULTS.format(self._job_id))
         self._times_file = os.path.join(self._jobs_dir, PbsJob.TIME.format(self._job_id))
 
+        # PBS may run the job again, all samples are calculated again then
+        for path in (self._success_file, self._failed_file, self._times_file):
+            if os.path.exists(path):
+                os.remove(path)
+
         # List of Tuple[level id, sample id, random seed]
         level_id_sample_id_seed = self._get_level_id_sample_id_seed()
 
-- 
2.43.0


From 6ecbdaede17ac901f6573586071ee88fdd4a158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:52 +0000
Subject: [PATCH 24/38] fix: a crash does not leave half-written files shared
 by PBS jobs

They are written only once or hold data of all jobs, so the run could not be
continued afterwards.
---
 mlmc/sampling_pool_pbs.py |  5 +++--
 mlmc/tool/pbs_job.py      | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 888da92..ebe946d 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -187,8 +187,9 @@ class SamplingPoolPBS(SamplingPool):
         file_path = os.path.join(self._output_dir, SamplingPoolPBS.LEVEL_SIM_CONFIG.format(level_sim._level_id))
 
         if not os.path.exists(file_path):
-            with open(file_path, "wb") as f:
+            with open(file_path + ".tmp", "wb") as f:
                 pickle.dump(level_sim, f)
+            os.replace(file_path + ".tmp", file_path)
 
     def execute(self):
         """
@@ -201,9 +202,9 @@ class SamplingPoolPBS(SamplingPool):
             pbs_process = PbsJob.create_job(self._output_dir, self._jobs_dir, job_id,
                                             SamplingPoolPBS.LEVEL_SIM_CONFIG, self._debug)
 
-            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
             # Write scheduled samples to file
             pbs_process.save_scheduled(self._scheduled)
+            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
 
             # Format pbs script
             self._create_script()
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 2f57af6..5ce430c 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -83,11 +83,13 @@ class PbsJob:
         :param pbs_process: PbsProcess instance
         :return: None
         """
-        if not os.path.exists(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)):
-            with open(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), "w") as writer:
+        class_file = os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)
+        if not os.path.exists(class_file):
+            with open(class_file + ".tmp", "w") as writer:
                 writer.write(pbs_process._jobs_dir + ";")
                 writer.write(pbs_process._level_sim_file + ";")
                 writer.write(str(pbs_process._debug) + ";")
+            os.replace(class_file + ".tmp", class_file)
 
     @staticmethod
     def _deserialize_pbs_process(output_dir):
@@ -250,9 +252,11 @@ class PbsJob:
             with open(sample_id_job_id_file, "r") as file:
                 saved_ids = json.load(file)
 
-        with open(sample_id_job_id_file, "w") as file:
+        # Crash during writing must not destroy the saved ids
+        with open(sample_id_job_id_file + ".tmp", "w") as file:
             saved_ids.update(new_ids)
             json.dump(saved_ids, file)
+        os.replace(sample_id_job_id_file + ".tmp", sample_id_job_id_file)
 
     @staticmethod
     def job_id_from_sample_id(sample_id, jobs_dir):
-- 
2.43.0


From 26fa9993c220730f8a5aad6b3fa76652773ff7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 25/38] fix: resume PBS jobs after a crash of the sampling
 process

Running jobs of the previous process were not waited for: their samples were
reported as failed, or never, depending on the moment of the first poll. Failed
samples were not collected at all, samples that were never submitted raised
KeyError, and results were added repeatedly.
---
 mlmc/sampling_pool_pbs.py | 79 ++++++++++++++++++++++++---------------
 mlmc/tool/pbs_job.py      | 24 +++++++-----
 2 files changed, 63 insertions(+), 40 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index ebe946d..35a1c23 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -79,8 +79,11 @@ class SamplingPoolPBS(SamplingPool):
         # List of scheduled samples
         self._pbs_ids = []
         # List of pbs job ids which should run
-        self._unfinished_sample_ids = set()
-        # List of sample id which are not collected - collection attempts are done in the get_finished()
+        self._unfinished_sample_ids = {}
+        # Samples of previous process which are not collected, Dict[sample_id, job_id or None if there is no job]
+        # - they are collected in the get_finished()
+        self._resumed_jobs = set()
+        # Jobs of previous process that may be still running
         self._debug = debug
         # If true then keep sample directories
         super().__init__(self._work_dir, self._debug)
@@ -334,7 +337,10 @@ class SamplingPoolPBS(SamplingPool):
             file = glob.glob(reg)
             if len(file) > 0:
                 job_id = re.findall(r'(\d+)_\d+', file[0])[0]
-                n_running += PbsJob.get_job_n_running(job_id, self._jobs_dir)
+                if job_id in self._resumed_jobs:
+                    n_running += list(self._unfinished_sample_ids.values()).count(job_id)
+                else:
+                    n_running += PbsJob.get_job_n_running(job_id, self._jobs_dir)
 
         successful_results = {}
         failed_results = {}
@@ -347,6 +353,12 @@ class SamplingPoolPBS(SamplingPool):
                 # Find jobID
                 file = file[0]
                 job_id = re.findall(r'(\d+)_\d+', file)[0]
+                if job_id in self._resumed_jobs:
+                    # Collected with other unfinished samples below
+                    self._resumed_jobs.remove(job_id)
+                    SamplingPoolPBS.delete_pbs_id_file(file)
+                    continue
+
                 # Get sample results
                 successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
@@ -379,45 +391,50 @@ class SamplingPoolPBS(SamplingPool):
         :param times: dict
         :return: all input dictionaries
         """
-        already_collected = set()
-        for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
-                continue
+        finished = {sample_id: job_id for sample_id, job_id in self._unfinished_sample_ids.items()
+                    if job_id not in self._resumed_jobs}
 
-            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+        for job_id in sorted(set(finished.values()) - {None}):
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
-            # Split results to levels
-            for level_id, results in successful.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        successful_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in failed_results.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        failed_results.setdefault(level_id, []).append(res)
+            # Split results to levels, leave out samples that have been already stored or run again in another job
+            for all_results, job_results in [(successful_results, successful), (failed_results, failed)]:
+                for level_id, results in job_results.items():
+                    new_results = [res for res in results if finished.get(res[0]) == job_id]
+                    if new_results:
+                        all_results.setdefault(level_id, []).extend(new_results)
 
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
-
-            # Delete pbsID file - it means job is finished
-            # SamplingPoolPBS.delete_pbs_id_file(file)
+            # Times of the job are stored together with its samples
+            if all(finished.get(sample_id) == job_id
+                   for _, sample_id, _ in PbsJob.get_scheduled_sample_ids(job_id, self._jobs_dir)):
+                for level_id, results in time.items():
+                    level_times = times.setdefault(level_id, [0, 0])
+                    level_times[0] += results[-1][0]
+                    level_times[1] += results[-1][1]
 
-        self._unfinished_sample_ids = set()
+        for sample_id, job_id in finished.items():
+            if job_id is None:
+                level_id = int(re.match(r'L(\d+)_', sample_id).group(1))
+                failed_results.setdefault(level_id, []).append((sample_id, "sample has not been submitted"))
+            del self._unfinished_sample_ids[sample_id]
 
         return successful_results, failed_results, times
 
     def have_permanent_samples(self, sample_ids):
         """
-        List of unfinished sample ids, the corresponding samples are collecting in next get_finished() call .
+        List of unfinished sample ids, the corresponding samples are collecting in get_finished() calls
+        after their jobs finish.
         """
-        self._unfinished_sample_ids = set(sample_ids)
+        job_ids = PbsJob.load_sample_id_job_id(self._jobs_dir)
+        self._unfinished_sample_ids = {sample_id: job_ids.get(sample_id) for sample_id in sorted(sample_ids)}
+
+        # Jobs of previous process which have not been known as finished
+        for file in sorted(os.listdir(self._jobs_dir)):
+            job_pbs_id = re.match(r'(\d+)_(\d+)$', file)
+            if job_pbs_id and job_pbs_id.group(1) in self._unfinished_sample_ids.values():
+                self._resumed_jobs.add(job_pbs_id.group(1))
+                if job_pbs_id.group(2) not in self._pbs_ids:
+                    self._pbs_ids.append(job_pbs_id.group(2))
 
     @staticmethod
     def delete_pbs_id_file(file_path):
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 5ce430c..1704a7e 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -247,17 +247,26 @@ class PbsJob:
         job_id = [job_id] * len(sample_ids)
         new_ids = dict(zip([sid[1] for sid in sample_ids], job_id))
 
-        saved_ids = {}
-        if os.path.exists(sample_id_job_id_file):
-            with open(sample_id_job_id_file, "r") as file:
-                saved_ids = json.load(file)
-
+        saved_ids = PbsJob.load_sample_id_job_id(self._jobs_dir)
         # Crash during writing must not destroy the saved ids
         with open(sample_id_job_id_file + ".tmp", "w") as file:
             saved_ids.update(new_ids)
             json.dump(saved_ids, file)
         os.replace(sample_id_job_id_file + ".tmp", sample_id_job_id_file)
 
+    @staticmethod
+    def load_sample_id_job_id(jobs_dir):
+        """
+        Get job IDs of all samples
+        :param jobs_dir: jobs directory with results
+        :return: Dict[sample_id: str, job_id: str]
+        """
+        sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return {}
+        with open(sample_id_job_id_file, "r") as file:
+            return json.load(file)
+
     @staticmethod
     def job_id_from_sample_id(sample_id, jobs_dir):
         """
@@ -266,10 +275,7 @@ class PbsJob:
         :param jobs_dir: jobs directory with results
         :return: str, job id
         """
-        sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
-        with open(sample_id_job_id_file, "r") as file:
-            saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return PbsJob.load_sample_id_job_id(jobs_dir)[sample_id]
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From a57d72a6d6f4c1c1204b447e6e37b49ceb2a0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 26/38] fix: a failed clear_failed() call does not leave the
 level without failed dataset

The dataset was deleted and created again; if the creation failed, each
later query of failed or finished samples raised KeyError.
---
 mlmc/tool/hdf5.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 4a4a116..e5f46bb 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -469,10 +469,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'a') as hdf_file:
             if self.failed_dset in hdf_file[self.level_group_path]:
-                del hdf_file[self.level_group_path][self.failed_dset]
-                # Create dataset for failed samples
-                self._make_dataset(name=self.failed_dset, shape=(0,), dtype=LevelGroup.FAILED_DTYPE, maxshape=(None,),
-                                   chunks=True)
+                hdf_file[self.level_group_path][self.failed_dset].resize(0, axis=0)
 
     @property
     def n_ops_estimate(self):
-- 
2.43.0


From 2149d6cd4c73e9ad24d8f21605a8848fde78f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:21 +0000
Subject: [PATCH 27/38] fix: Memory storage accepts levels without new samples
 like the HDF storage

---
 mlmc/sample_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 77789ac..9beec3b 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -168,6 +168,8 @@ class Memory(SampleStorage):
         :return: None
         """
         for level_id, res in samples.items():
+            if len(res) == 0:
+                continue
             res = np.array(res)
             fine_coarse_res = res[:, 1]
 
-- 
2.43.0


From d0c1679b2c2ca3cc309dfa2e1875e095457b42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:09 +0000
Subject: [PATCH 28/38] fix: compare locations of result formats in the HDF
 storage

The equality of QuantitySpec is left as it was.
---
 mlmc/quantity/quantity_spec.py | 2 +-
 mlmc/sample_storage_hdf.py     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_spec.py b/mlmc/quantity/quantity_spec.py
index e174137..ea25dc6 100644
--- a/mlmc/quantity/quantity_spec.py
+++ b/mlmc/quantity/quantity_spec.py
@@ -16,7 +16,7 @@ class QuantitySpec:
         if (self.name, self.unit) == (other.name, other.unit) \
                 and np.array_equal(self.shape, other.shape)\
                 and np.array_equal(self.times, other.times)\
-                and np.array_equal(self.locations, other.locations):
+                and not (set(self.locations) - set(other.locations)):
             return True
         return False
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 36e7af0..3a26625 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -92,7 +92,10 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
+            stored_format = self.load_result_format()
+            # Equality of QuantitySpec accepts any superset of locations
+            if stored_format != result_format \
+                    or any(not np.array_equal(stored.locations, new.locations) for stored, new in zip(stored_format, result_format)):
                 raise ValueError('You are setting a new different result format for an existing sample storage')
         except AttributeError:
             pass
-- 
2.43.0


From 74aae6a94122c2b2f7587de87105e5f38c7a4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:00 +0000
Subject: [PATCH 29/38] fix: store results of samples in the flat form which
 has been checked

A result of another shape with the right number of elements passed the check of
the result format, but broke saving of all results collected with it.
---
 mlmc/sampling_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index eaae538..b6597c5 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -119,6 +119,8 @@ class SamplingPool(ABC):
             assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len, \
                 "Unexpected result format, expected length: {}, resultf length: {}".format(res_expected_len,
                                                                                            len(flatten_fine_res))
+            # Store what has been checked
+            res = (flatten_fine_res, flatten_coarse_res)
 
         except (Exception, SystemExit):
             str_list = traceback.format_exception(*sys.exc_info())
-- 
2.43.0


From e094e95047b30ad1ec454e5e242727801472570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:19 +0000
Subject: [PATCH 30/38] fix: bootstrap estimates use the subsample itself

The subsample holds values, it can not be used as a mask for select().
---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 85ef8f9..2d3686d 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -183,7 +183,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
-- 
2.43.0


From c6d00f20abb44cf18b245c1768152023f05b5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:32 +0000
Subject: [PATCH 31/38] fix: a subsample has the requested number of samples
 for any number of chunks

Parameters of the selection were reset for each chunk, so that the size of the
subsample was random when a level had more chunks. Samples collected after the
quantity was created are taken into account.
---
 mlmc/quantity/quantity.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index c15f56f..fc483fa 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -342,8 +342,6 @@ class Quantity:
                 :param num_collected: total number of samples
                 """
                 self._orig_k = num_subsample
-                self._orig_n = num_collected
-                self._orig_total_n = num_collected
                 self.k = num_subsample
                 self.n = num_collected
                 self.total_n = num_collected
@@ -354,15 +352,17 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, chunk_spec):
             """
             Custom implementation of QuantityConst.adjust_value()
             It allows us to get different parameters for different levels
             """
-            subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            subsample_l_params_obj = subsample_level_params[chunk_spec.level_id]
+            # Start again with the first chunk only, the following chunks supply the rest of 'k' samples
+            if not chunk_spec.chunk_id:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = self.get_quantity_storage().n_collected()[chunk_spec.level_id]
+                subsample_l_params_obj.total_n = subsample_l_params_obj.n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
@@ -551,12 +551,12 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, chunk_spec=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
-        :param level_id: int
+        :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -568,7 +568,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec)
 
 
 class QuantityMean:
-- 
2.43.0


From 2e10205cfc3eae0bf7c6722cd070feeabf15e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:02 +0000
Subject: [PATCH 32/38] fix: results of SynthSimulation do not depend on what
 other threads calculate

---
 mlmc/sim/synth_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..6a78ec0 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -82,8 +82,8 @@ class SynthSimulation(Simulation):
         :return: fine sample, coarse sample
         """
         SynthSimulation.len_results += 1
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        # the distribution is shared by all samples, their calculations may run in several threads at once
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulation.n_nans / (1e-10 + SynthSimulation.len_results) < SynthSimulation.nan_fraction:
             SynthSimulation.n_nans += 1
-- 
2.43.0


From bb69392d5c14843762cee1143cc6b5a1ca12910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 33/38] fix: FlowSim sample fails if the solver did not end
 successfully

---
 mlmc/tool/flow_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..a65dc61 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -312,7 +312,7 @@ class FlowSim(Simulation):
         """
         gmsh_io.GmshIO().write_fields(fields_file, ele_ids, fine_input_sample)
 
-        subprocess.call(
+        subprocess.check_call(
             [flow123d, "--yaml_balance", '-i', os.getcwd(), '-s', "{}/flow_input.yaml".format(common_files_dir),
              "-o", os.getcwd(), ">{}/flow.out".format(os.getcwd())])
 
-- 
2.43.0


From 232bdc18d78ae3f837187b1e72bce7fa9a30fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 34/38] fix: FlowSim does not continue with a mesh of a failed
 mesh generator

---
 mlmc/tool/flow_mc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index a65dc61..8944210 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -342,10 +342,10 @@ class FlowSim(Simulation):
         :return:
         """
         if self.env['gmsh_version'] == 2:
-            subprocess.call(
+            subprocess.check_call(
                 [self.env['gmsh'], "-2", '-format', 'msh2', '-clscale', str(fine_step), '-o', mesh_file, geo_file])
         else:
-            subprocess.call([self.env['gmsh'], "-2", '-clscale', str(fine_step), '-o', mesh_file, geo_file])
+            subprocess.check_call([self.env['gmsh'], "-2", '-clscale', str(fine_step), '-o', mesh_file, geo_file])
 
     @staticmethod
     def extract_mesh(mesh_file):
-- 
2.43.0


From 297e3996272300914a32cfad2bd2749c5a2cc726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 35/38] fix: FlowSim without cleaning determines the used
 fields from the kept template

---
 mlmc/tool/flow_mc.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 8944210..bdd0ae3 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -74,6 +74,18 @@ def substitute_placeholders(file_in, file_out, params):
     return used_params
 
 
+def used_placeholders(file_in, params):
+    """
+    Names from 'params' whose placeholders '<name>' are present in the template.
+    :param file_in: Template file.
+    :param params: { 'name': value, ...}
+    :return: List of names
+    """
+    with open(file_in, 'r') as src:
+        text = src.read()
+    return [name for name in params if '<%s>' % name in text]
+
+
 def force_mkdir(path, force=False):
     """
     Make directory 'path' with all parents,
@@ -183,6 +195,10 @@ class FlowSim(Simulation):
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Files of the previous run are kept, only the names of used parameters are determined
+            self._fields_used_params = used_placeholders(os.path.join(common_files_dir, self.YAML_TEMPLATE),
+                                                         self._yaml_params())
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
@@ -398,6 +414,15 @@ class FlowSim(Simulation):
         Create substituted YAML file from the tamplate.
         :return:
         """
+        used_params = substitute_placeholders(yaml_tmpl, yaml_out, self._yaml_params())
+
+        self._fields_used_params = used_params
+
+    def _yaml_params(self):
+        """
+        Values of placeholders in the YAML template
+        :return: Dict
+        """
         param_dict = {}
         field_tmpl = self.field_template
         for field_name in self._fields.names:
@@ -405,9 +430,7 @@ class FlowSim(Simulation):
         param_dict[self.MESH_FILE_VAR] = self.mesh_file
         param_dict[self.TIMESTEP_H1_VAR] = self.time_step_h1
         param_dict[self.TIMESTEP_H2_VAR] = self.time_step_h2
-        used_params = substitute_placeholders(yaml_tmpl, yaml_out, param_dict)
-
-        self._fields_used_params = used_params
+        return param_dict
 
     @staticmethod
     def _extract_result(sample_dir):
-- 
2.43.0


From 80bfff6e07d8b552e9330a2ce732b3154057ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:14 +0000
Subject: [PATCH 36/38] fix: Random fields of FlowSim are determined by the
 seed of the sample

---
 mlmc/random/correlated_field.py | 6 +++++-
 mlmc/tool/flow_mc.py            | 6 ++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..cb67ad1 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -507,7 +507,8 @@ class GSToolsSpatialCorrelatedField(RandomFieldBase):
         """
         self.model = model
         self.mode_no = mode_no
-        self.srf = gstools.SRF(model, mode_no=mode_no)
+        # Seed is drawn from the global generator, so the field is reproducible by np.random.seed()
+        self.srf = gstools.SRF(model, seed=np.random.randint(2 ** 31 - 1), mode_no=mode_no)
         self.mu = self.srf.mean
         self.sigma = sigma
         self.dim = model.dim
@@ -671,6 +672,9 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         return k
 
     def _get_random_stream(self, seed=None):
+        if seed is None:
+            # Stream is given by the global generator, so the field is reproducible by np.random.seed()
+            seed = rand.randint(2 ** 31 - 1)
         return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
 
     def random_field(self):
diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index bdd0ae3..3e93dfe 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -245,6 +245,10 @@ class FlowSim(Simulation):
         :param seed: random seed, int
         :return: List[fine result, coarse result], both flatten arrays (see mlmc.sim.synth_simulation.calculate())
         """
+        # Set random seed, seed is calculated from sample id, so it is not user defined
+        # It has to be set before the fields are created, they use the generator as well
+        np.random.seed(seed)
+
         # Init correlation field objects
         fields = create_corr_field(**config['fields_params'])  # correlated_field.Fields instance
         fields.set_outer_fields(config["fields_used_params"])
@@ -267,8 +271,6 @@ class FlowSim(Simulation):
         # Create fields both fine and coarse
         fields = FlowSim.make_fields(fields, fine_mesh_data, coarse_mesh_data)
 
-        # Set random seed, seed is calculated from sample id, so it is not user defined
-        np.random.seed(seed)
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From 47b2745524384d7d6af0f45b5db01dcd0d6f41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 37/38] fix: a dangling link in the directory of a sample kept
 the directory in the output directory

---
 mlmc/sampling_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index b6597c5..26a5621 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -193,7 +193,8 @@ class SamplingPool(ABC):
             sample_dir = SamplingPool.change_to_sample_directory(work_dir, sample_id)
             if os.path.exists(os.path.join(destination_dir, sample_id)):
                 shutil.rmtree(os.path.join(destination_dir, sample_id), ignore_errors=True)
-            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id))
+            # A link to a file which is gone must not keep the directory in place
+            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id), ignore_dangling_symlinks=True)
 
     @staticmethod
     def remove_sample_dir(sample_id, sample_workspace, work_dir):
-- 
2.43.0


From c3b87f92051a0f98ce83e28a27b3bc1fb66bc3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:04 +0000
Subject: [PATCH 38/38] fix: files of a sample which can not be moved ended the
 whole PBS job

---
 mlmc/tool/pbs_job.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 1704a7e..57fb922 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -182,16 +182,21 @@ class PbsJob:
 
             if not err_msg:
                 success.append((current_level, sample_id, (res[0], res[1])))
-                # Increment number of successful samples for measured time
-                if not self._debug:
+            else:
+                failed.append((current_level, sample_id, err_msg))
+
+            # An error in the handling of sample files must not stop calculation of other samples
+            try:
+                if err_msg:
+                    SamplingPool.move_failed_rm(sample_id, level_sim,
+                                                output_dir=self._output_dir,
+                                                dest_dir=SamplingPool.FAILED_DIR)
+                elif not self._debug:
                     SamplingPool.move_successful_rm(sample_id, level_sim,
                                                     output_dir=self._output_dir,
                                                     dest_dir=SamplingPool.SEVERAL_SUCCESSFUL_DIR)
-            else:
-                failed.append((current_level, sample_id, err_msg))
-                SamplingPool.move_failed_rm(sample_id, level_sim,
-                                            output_dir=self._output_dir,
-                                            dest_dir=SamplingPool.FAILED_DIR)
+            except Exception as err:
+                print("Sample {} files not processed: {}".format(sample_id, ascii(err)))
 
             current_samples.append(sample_id)
             n_times += 1
-- 
2.43.0

