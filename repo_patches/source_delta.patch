From 9ae09f2132409d2c6b0c60118bd365f7f3499c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:02 +0000
Subject: [PATCH 01/24] fix: to_pc_dataset no longer rewrites the list-style
 votes of its input dataset

---
 sureal/dataset_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 84ffac6..c8a8a78 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -400,7 +400,8 @@ class RawDatasetReader(DatasetReader):
         if isinstance(dis_videos[0]['os'], dict):
             pass
         elif isinstance(dis_videos[0]['os'], (list, tuple)):
-            # converting to dict_style
+            # converting to dict_style (on copies: the input dataset must stay as is)
+            dis_videos = [dict(dis_video) for dis_video in dis_videos]
             for dis_video in dis_videos:
                 scores = dis_video['os']
                 dis_video['os'] = dict(zip(map(lambda x: str(x), range(len(scores))), scores))
-- 
2.43.0


From 709f89e9a96bdaa1717074cccb86ee06d337b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:02 +0000
Subject: [PATCH 02/24] fix: to_combined_overlap_dataset no longer appends to
 the first dataset's votes, and merges tuple repetitions

---
 sureal/dataset_reader.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index c8a8a78..9cffa30 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -567,16 +567,16 @@ class RawDatasetReader(DatasetReader):
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
-                            if not isinstance(vid1['os'][key], list):
-                                new_os = [vid1['os'][key]]
+                            if isinstance(vid1['os'][key], (list, tuple)):
+                                new_os = list(vid1['os'][key])
                             else:
-                                new_os = vid1['os'][key]
+                                new_os = [vid1['os'][key]]
 
-                            if isinstance(vid2['os'][key], list):
-                                new_dis_video['os'][key] = new_os + vid2['os'][key]
+                            if isinstance(vid2['os'][key], (list, tuple)):
+                                new_os += list(vid2['os'][key])
                             else:
                                 new_os.append(vid2['os'][key])
-                                new_dis_video['os'][key] = new_os
+                            new_dis_video['os'][key] = new_os
 
                     newone.dis_videos.append(new_dis_video)
         return newone
-- 
2.43.0


From 4e36a9adad190340a0514f17b7a18ec6525e43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:02 +0000
Subject: [PATCH 03/24] fix: PairedCompDatasetReader indexes both compared
 videos by position, whatever the order of dis_videos

---
 sureal/dataset_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 9cffa30..aa5abb3 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1030,12 +1030,18 @@ class PairedCompDatasetReader(RawDatasetReader):
 
         score_3darray = float("NaN") * np.ones([self.num_dis_videos, self.num_dis_videos, self.num_observers])
 
+        # build dict: asset_id -> position in dis_videos
+        dict_assetid_to_idisvideo = dict()
+        for i_dis_video, dis_video in enumerate(self.dis_videos):
+            dict_assetid_to_idisvideo[dis_video['asset_id']] = i_dis_video
+
         for i_dis_video, dis_video in enumerate(self.dis_videos):
             for key, value in dis_video['os'].items():
                 assert value in [0, 0.5, 1], \
                     f"expect value in [0, 0.5, 1], but got: {value}"
-                subject, pvs_j = key
+                subject, asset_id_j = key
                 pvs_i = i_dis_video
+                pvs_j = dict_assetid_to_idisvideo[asset_id_j]
                 score_3darray[pvs_i][pvs_j][dict_observer_to_iobserver[subject]] = value  # CAUTION: note the dimension change!
                 score_3darray[pvs_j][pvs_i][dict_observer_to_iobserver[subject]] = 1.0 - value
 
-- 
2.43.0


From dc6af5841cda0eb8fe4813c8d18adec381599b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 04/24] fix: per-asset options of to_pc_dataset apply to the
 asset they are listed for, whoever rated which videos

---
 sureal/dataset_reader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index aa5abb3..4e85e4a 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -435,6 +435,9 @@ class RawDatasetReader(DatasetReader):
                 for idx2 in range(idx):
                     assetid = assetids[idx]
                     assetid2 = assetids[idx2]
+                    # per-asset options are listed in the order of dis_videos
+                    i_asset = d_assetid_disvideoidx[assetid]
+                    i_asset2 = d_assetid_disvideoidx[assetid2]
                     content_id = d_subj_assetid[subj][assetid]['content_id']
                     content_id2 = d_subj_assetid[subj][assetid2]['content_id']
 
@@ -451,7 +454,7 @@ class RawDatasetReader(DatasetReader):
                             true_sampling_rate = sampling_rate
                         elif per_asset_sampling_rates is not None:
                             # the true sampling rate of a pair is the mean of the sampling rate of the two assets:
-                            true_sampling_rate = (per_asset_sampling_rates[idx] + per_asset_sampling_rates[idx2]) / 2.0
+                            true_sampling_rate = (per_asset_sampling_rates[i_asset] + per_asset_sampling_rates[i_asset2]) / 2.0
                         else:
                             assert False
                     else:
@@ -473,7 +476,7 @@ class RawDatasetReader(DatasetReader):
                         if cointoss_rate is not None:
                             true_cointoss_rate = cointoss_rate
                         elif per_asset_cointoss_rates is not None:
-                            true_cointoss_rate = (per_asset_cointoss_rates[idx] + per_asset_cointoss_rates[idx2]) / 2.0
+                            true_cointoss_rate = (per_asset_cointoss_rates[i_asset] + per_asset_cointoss_rates[i_asset2]) / 2.0
                         else:
                             true_cointoss_rate = None
 
@@ -485,8 +488,8 @@ class RawDatasetReader(DatasetReader):
                         else:
 
                             if per_asset_mean_scores is not None:
-                                mscore = per_asset_mean_scores[assetid]
-                                mscore2 = per_asset_mean_scores[assetid2]
+                                mscore = per_asset_mean_scores[i_asset]
+                                mscore2 = per_asset_mean_scores[i_asset2]
                             else:
                                 mscore = d_subj_assetid[subj][assetid]['score']
                                 mscore2 = d_subj_assetid[subj][assetid2]['score']
@@ -495,8 +498,8 @@ class RawDatasetReader(DatasetReader):
                                 score = mscore + random.gauss(0, noise_level)
                                 score2 = mscore2 + random.gauss(0, noise_level)
                             elif per_asset_noise_levels is not None:
-                                score = mscore + random.gauss(0, per_asset_noise_levels[idx])
-                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[idx2])
+                                score = mscore + random.gauss(0, per_asset_noise_levels[i_asset])
+                                score2 = mscore2 + random.gauss(0, per_asset_noise_levels[i_asset2])
                             else:
                                 score = mscore
                                 score2 = mscore2
-- 
2.43.0


From 5f1dc2cd0d34042e3f51f08238ca36df3d9b47ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 05/24] fix: to_pc_dataset no longer turns missing (NaN) votes
 into ties

---
 sureal/dataset_reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 4e85e4a..9effe94 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -412,6 +412,8 @@ class RawDatasetReader(DatasetReader):
         d_subj_assetid = dict()
         for dis_video in dis_videos:
             for subj in dis_video['os']:
+                if np.isscalar(dis_video['os'][subj]) and np.isnan(dis_video['os'][subj]):
+                    continue  # missing vote: nothing to compare
                 if subj not in d_subj_assetid:
                     d_subj_assetid[subj] = dict()
                 assert dis_video['asset_id'] not in d_subj_assetid[subj] # assuming no repetition for single subject and a dis_video
-- 
2.43.0


From 9843b034703e6bfaa0ba38f3ee9840539cee6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 06/24] fix: SelectDisVideoRawDatasetReader selects by
 position, as it validates, not by asset_id

---
 sureal/dataset_reader.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 9effe94..0001558 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -834,10 +834,7 @@ class SelectDisVideoRawDatasetReader(MockedRawDatasetReader):
     @property
     @override(DatasetReader)
     def dis_videos(self):
-        d_assetid_disvideo = dict()  # build dict: asset_id -> dis_video
-        for dv in self.dataset.dis_videos:
-            d_assetid_disvideo[dv['asset_id']] = dv
-        return [d_assetid_disvideo[asset_id] for asset_id in self.input_dict['selected_dis_videos']]
+        return [self.dataset.dis_videos[i_dis_video] for i_dis_video in self.input_dict['selected_dis_videos']]
 
     def to_dataset(self):
         raise NotImplementedError
-- 
2.43.0


From adb3858fdf6ffaabf0a3cfc3bae4e290cdd31c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 07/24] fix: reading list-style votes does not depend on a
 num_observers overridden by a subclass

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0001558..3c4156c 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -179,7 +179,7 @@ class RawDatasetReader(DatasetReader):
                     isinstance(self.dis_videos[0]['os'], tuple)
         ):
             for dis_video in self.dis_videos:
-                for idx_obs in range(self.num_observers):
+                for idx_obs in range(len(dis_video['os'])):
                     scores = dis_video['os'][idx_obs]
                     if isinstance(scores, list) or isinstance(scores, tuple):
                         if len(scores) > max_reps:
@@ -214,7 +214,7 @@ class RawDatasetReader(DatasetReader):
         if isinstance(self.dis_videos[0]['os'], list) \
                 or isinstance(self.dis_videos[0]['os'], tuple):
             for i_dis_video, dis_video in enumerate(self.dis_videos):
-                for i_observer in range(self.num_observers):
+                for i_observer in range(len(dis_video['os'])):
                     if isinstance(dis_video['os'][i_observer], list) or isinstance(dis_video['os'][i_observer], tuple):
                         reps = len(dis_video['os'][i_observer])
                     else:
-- 
2.43.0


From 592fc3d1e941c60371fb4d9cdab318ec2c7f2500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 08/24] fix: vectorized_convolution_of_two_logistics passes
 parallel_map a list

---
 sureal/tools/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 15a45e4..123da45 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -68,7 +68,7 @@ def vectorized_convolution_of_two_logistics(xs, locs1, scales1, locs2, scales2):
     xshape = xs.shape
     assert xshape == locs1.shape == scales1.shape == locs2.shape == scales2.shape
     with np.errstate(over='ignore'):
-        res = parallel_map(ff2, zip(xs, locs1, scales1, locs2, scales2), pause_sec=None)
+        res = parallel_map(ff2, list(zip(xs, locs1, scales1, locs2, scales2)), pause_sec=None)
     return np.array(res)
 
     # === test: test one gaussian ===
-- 
2.43.0


From 99e7c20c24fc5f56579dfd266b01e8016f303ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:09 +0000
Subject: [PATCH 09/24] fix: convolution_of_two_uniforms evaluates its slopes
 relative to the locations

---
 sureal/tools/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 123da45..919811e 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -108,13 +108,13 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     if - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     elif -d/2. <= z < d/2.:
         return h
     elif d/2. <= z < s/2.:
         x0, y0 = s / 2., 0
         x1, y1 = d / 2., h
-        return (y1 - y0) / (x1 - x0) * (x - x0) + y0
+        return (y1 - y0) / (x1 - x0) * (z - x0) + y0
     else:
         return 0.
 
-- 
2.43.0


From eed259d9a54ae558d04e0984533c347a1d4389e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 10/24] fix: persist_to_file hashes bytes, so that it works
 under Python 3

---
 sureal/tools/decorator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d4f8c28..d0fbb50 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -25,7 +25,7 @@ def persist_to_file(file_name):
                 sys.exit(1)
 
         def new_func(*args):
-            h = hashlib.sha1(str(original_func.__name__) + str(args)).hexdigest()
+            h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
                 cache[h] = original_func(*args)
                 json.dump(cache, open(file_name, 'wt'))
-- 
2.43.0


From 9ce24f17aafae083e9ca1d19a35865b2368f1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 11/24] fix: persistent caches write atomically, an interrupted
 call no longer leaves a partial entry

---
 sureal/tools/decorator.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index d0fbb50..dfd9548 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -9,6 +9,21 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+def _dump_json(obj, file_name):
+    """
+    Write obj to a json file in one step, so that an interrupted or failed write
+    never leaves a partial file behind.
+    """
+    tmp_file_name = '{}.{}.tmp'.format(file_name, os.getpid())
+    try:
+        with open(tmp_file_name, 'wt') as f:
+            json.dump(obj, f)
+        os.replace(tmp_file_name, file_name)
+    finally:
+        if os.path.exists(tmp_file_name):
+            os.remove(tmp_file_name)
+
+
 def persist_to_file(file_name):
     """
     Cache (or persist) returned value of function in a json file .
@@ -27,8 +42,9 @@ def persist_to_file(file_name):
         def new_func(*args):
             h = hashlib.sha1((str(original_func.__name__) + str(args)).encode('utf-8')).hexdigest()
             if h not in cache:
-                cache[h] = original_func(*args)
-                json.dump(cache, open(file_name, 'wt'))
+                res = original_func(*args)
+                _dump_json(dict(cache, **{h: res}), file_name)
+                cache[h] = res
             return cache[h]
 
         return new_func
@@ -50,7 +66,7 @@ def persist_to_dir(dir_name):
                 if not os.path.exists(dir_name):
                     os.makedirs(dir_name)
                 res = original_func(*args)
-                json.dump(res, open(file_name, 'wt'))
+                _dump_json(res, file_name)
             else:
                 res = json.load(open(file_name, 'rt'))
             return res
-- 
2.43.0


From e9fd0249fef2610cdecc51642071e5115e297ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 12/24] fix: correlation screening with a constant observer
 rejects him only, and flags exactly who is dropped

---
 sureal/subjective_model.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index 1d82c74..f9f2bad 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -294,14 +294,17 @@ class SubjectiveModel(TypeVersionEnabled):
                         assert False
 
                 # find the rejection threshold
-                if (np.mean(r) - np.std(r)) > 0.7:
+                # (the correlation is NaN for an observer with constant scores: leave it out)
+                if (np.nanmean(r) - np.nanstd(r)) > 0.7:
                     rejection_thr = 0.7
                 else:
-                    rejection_thr = np.mean(r) - np.std(r)
+                    rejection_thr = np.nanmean(r) - np.nanstd(r)
 
-                s_esr = s_esr[:, r>rejection_thr, :]
+                accepted = r > rejection_thr
 
-                ret['observer_rejected'] = r <= rejection_thr
+                s_esr = s_esr[:, accepted, :]
+
+                ret['observer_rejected'] = ~accepted
                 ret['observer_rejected_1st_stats'] = r
                 ret['observer_rejected_2nd_stats'] = np.zeros(np.size(r))
 
-- 
2.43.0


From 8d2b5e8aef0af5e9934816fd9bf1f3c5977824bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 13/24] fix: differential scoring uses the reader's own
 dis_videos

---
 sureal/subjective_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/subjective_model.py b/sureal/subjective_model.py
index f9f2bad..ac62250 100644
--- a/sureal/subjective_model.py
+++ b/sureal/subjective_model.py
@@ -99,7 +99,7 @@ class SubjectiveModel(TypeVersionEnabled):
     @staticmethod
     def _get_ref_mos(dataset_reader, mos):
         ref_mos = []
-        for dis_video in dataset_reader.dataset.dis_videos:
+        for dis_video in dataset_reader.dis_videos:
             # get the dis video's ref video's mos
             curr_content_id = dis_video['content_id']
             ref_indices = indices(
-- 
2.43.0


From 24cf55abaa045804e83507fe568233a0b911ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 14/24] fix: MockedRawDatasetReader.to_dataset exports plain
 lists that can be read and written back

---
 sureal/dataset_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 3c4156c..cc93c4a 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -648,7 +648,7 @@ class MockedRawDatasetReader(RawDatasetReader):
         num_videos, num_subjects, max_repetitions = score_mtx.shape
         assert num_videos == len(newone.dis_videos)
         for scores, dis_video in zip(score_mtx, newone.dis_videos):
-            dis_video['os'] = list(scores)
+            dis_video['os'] = scores.tolist()
 
         return newone
 
-- 
2.43.0


From 4e092bfe9ed4f28a82f94892496be7db2518f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 15/24] fix: write_out_dataset writes missing (NaN) votes so
 that the file can be imported

---
 sureal/dataset_reader.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index cc93c4a..0871883 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -12,6 +12,15 @@ __copyright__ = "Copyright 2016-2018, Netflix, Inc."
 __license__ = "Apache, Version 2.0"
 
 
+class _DatasetPrinter(pprint.PrettyPrinter):
+    """ Pretty printer whose output can be imported: NaN and inf are not Python literals. """
+
+    def format(self, object, context, maxlevels, level):
+        if isinstance(object, float) and not np.isfinite(object):
+            return "float('{}')".format(object), True, False
+        return super().format(object, context, maxlevels, level)
+
+
 class DatasetReader(object):
 
     def __init__(self, dataset, **kwargs):
@@ -97,18 +106,18 @@ class DatasetReader(object):
                     output_file.write('{} = '.format(key) + repr(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
-            output_file.write('ref_videos = ' + pprint.pformat(
+            output_file.write('ref_videos = ' + _DatasetPrinter().pformat(
                 dataset.ref_videos) + '\n')
             output_file.write('\n')
-            output_file.write('dis_videos = ' + pprint.pformat(
+            output_file.write('dis_videos = ' + _DatasetPrinter().pformat(
                 dataset.dis_videos) + '\n')
             if 'subjects' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('subjects = ' + pprint.pformat(
+                output_file.write('subjects = ' + _DatasetPrinter().pformat(
                     dataset.subjects) + '\n')
             if 'license' in dataset.__dict__.keys():
                 output_file.write('\n')
-                output_file.write('license = ' + pprint.pformat(
+                output_file.write('license = ' + _DatasetPrinter().pformat(
                     dataset.license) + '\n')
 
 
-- 
2.43.0


From 89dcb3decc2a52e5887a1073ae78bf6e50b0e470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:54 +0000
Subject: [PATCH 16/24] fix: reporting models without standard deviations
 (BT_NR)

---
 sureal/routine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 745df44..f6f15ca 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -613,7 +613,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
         assert 'quality_scores' in result
         assert 'dis_video_names' in result
         assert len(result['dis_video_names']) == len(result['quality_scores'])
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             assert len(result['quality_scores']) == len(result['quality_scores_std'])
         if 'quality_scores_ci95' in result:
             assert len(result['quality_scores_ci95']) == 2
@@ -663,7 +663,7 @@ def format_output_of_run_subjective_models(dataset, subjective_models, results):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict())['dis_video_name'] = dis_video_name
         for idx, quality_score in enumerate(result['quality_scores']):
             output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score'] = quality_score
-        if 'quality_scores_std' in result:
+        if result.get('quality_scores_std') is not None:
             for idx, quality_score_std in enumerate(result['quality_scores_std']):
                 output.setdefault('dis_videos', dict()).setdefault(idx, dict()).setdefault('models', dict()).setdefault(subjective_model.TYPE, dict())['quality_score_std'] = quality_score_std
         if 'quality_scores_ci95' in result:
-- 
2.43.0


From e2a9aa6ce56b194f51bccb7668d238cc43ccb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:23 +0000
Subject: [PATCH 17/24] fix: import_python_file gives every file a module of
 its own (same-named files overwrote each other)

---
 sureal/tools/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/misc.py b/sureal/tools/misc.py
index 42fa19a..4cd6318 100644
--- a/sureal/tools/misc.py
+++ b/sureal/tools/misc.py
@@ -115,7 +115,12 @@ def import_python_file(filepath):
     filename = get_file_name_without_extension(filepath)
     try:
         from importlib.machinery import SourceFileLoader
-        ret = SourceFileLoader(filename, filepath).load_module()
+        from importlib.util import module_from_spec, spec_from_loader
+        # a module of its own per import: not shared with other files (or earlier
+        # versions of this file) of the same name, hence not in sys.modules
+        loader = SourceFileLoader(filename, filepath)
+        ret = module_from_spec(spec_from_loader(filename, loader))
+        loader.exec_module(ret)
     except ImportError:
         import imp
         ret = imp.load_source(filename, filepath)
-- 
2.43.0


From 789f15ebfb22f65158df1d141e3d786100b808bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:45 +0000
Subject: [PATCH 18/24] fix: converted and combined datasets do not share
 repetition lists with their inputs

---
 sureal/dataset_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index 0871883..d568a61 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -577,7 +577,7 @@ class RawDatasetReader(DatasetReader):
                     new_dis_video = copy.deepcopy(vid1)
                     new_dis_video['content_id'] = new_content_id
 
-                    new_dis_video['os'].update(vid2['os'])  # combined the 'os's but overrode when subject is in both
+                    new_dis_video['os'].update(copy.deepcopy(vid2['os']))  # combined the 'os's but overrode when subject is in both
 
                     for key in vid2['os'].keys():
                         if key in vid1['os'].keys():  # the same subject is in both datasets
@@ -619,7 +619,7 @@ class RawDatasetReader(DatasetReader):
 
                 for idx, score in enumerate(dis_video['os']):
                     subj_name = self.dataset.dataset_name + '_subject' + str(idx)
-                    new_dis_video['os'][subj_name] = score
+                    new_dis_video['os'][subj_name] = copy.deepcopy(score)
 
                 newone.dis_videos.append(new_dis_video)
 
-- 
2.43.0


From 648de501c944710cd67a347b9d69cf0347cc7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:21 +0000
Subject: [PATCH 19/24] fix: memoized calls the function when its arguments are
 unhashable, as intended

---
 sureal/tools/decorator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/decorator.py b/sureal/tools/decorator.py
index dfd9548..ad7ff52 100644
--- a/sureal/tools/decorator.py
+++ b/sureal/tools/decorator.py
@@ -112,7 +112,9 @@ class memoized(object):
         self.cache = {}
 
     def __call__(self, *args):
-        if not hasattr(args, "__hash__"):
+        try:
+            hash(args)
+        except TypeError:  # unhashable arguments cannot be cached
             return self.func(*args)
         if args in self.cache:
             return self.cache[args]
-- 
2.43.0


From 017888e1a2b12aa03497b5a9a2e47e26d81d0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:34 +0000
Subject: [PATCH 20/24] fix: results on selected subjects name the selected
 observers

---
 sureal/dataset_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index d568a61..f20b946 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -809,7 +809,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         selected_subjects = self.input_dict['selected_subjects']
 
         # assert in 0, 1, 2...., num_observer -1
-        observer_idxs = range(super(SelectSubjectRawDatasetReader, self).num_observers)
+        observer_idxs = range(RawDatasetReader(self.dataset).num_observers)
         for subject in selected_subjects:
             assert subject in observer_idxs
 
@@ -817,6 +817,10 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
     def num_observers(self):
         return len(self.input_dict['selected_subjects'])
 
+    def _get_list_observers(self):
+        list_observers = super()._get_list_observers()
+        return [list_observers[subject] for subject in self.input_dict['selected_subjects']]
+
     @property
     def opinion_score_3darray(self):
         """
@@ -824,7 +828,7 @@ class SelectSubjectRawDatasetReader(MockedRawDatasetReader):
         distorted videos, second dimension the number of observers, and third the maximum number of repetitions
         """
         selected_subjects = self.input_dict['selected_subjects']
-        score_mtx = super().opinion_score_3darray
+        score_mtx = RawDatasetReader(self.dataset).opinion_score_3darray
         score_mtx = score_mtx[:, selected_subjects, :]
         return score_mtx
 
-- 
2.43.0


From ce7e5c58fc0ffe7d4e55e58a2657d5c9157dda6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:39 +0000
Subject: [PATCH 21/24] fix: written dataset files can be imported when the
 dataset imports a module or has a NaN attribute

---
 sureal/dataset_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sureal/dataset_reader.py b/sureal/dataset_reader.py
index f20b946..6b82ce4 100644
--- a/sureal/dataset_reader.py
+++ b/sureal/dataset_reader.py
@@ -1,6 +1,7 @@
 import pprint
 import copy
 import random
+import types
 
 import numpy as np
 
@@ -102,8 +103,9 @@ class DatasetReader(object):
         with open(output_dataset_filepath, 'wt') as output_file:
             for key in dataset.__dict__.keys():
                 if key != 'ref_videos' and key != 'dis_videos' \
-                        and key != 'subjects' and not key.startswith('__'):
-                    output_file.write('{} = '.format(key) + repr(
+                        and key != 'subjects' and not key.startswith('__') \
+                        and not isinstance(dataset.__dict__[key], types.ModuleType):
+                    output_file.write('{} = '.format(key) + _DatasetPrinter().pformat(
                         dataset.__dict__[key]) + '\n')
             output_file.write('\n')
             output_file.write('ref_videos = ' + _DatasetPrinter().pformat(
-- 
2.43.0


From 004e089bd545879dfd2fffc30f94e596835ff2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:57 +0000
Subject: [PATCH 22/24] fix: sorted quality score plots carry each video's own
 confidence interval

---
 sureal/routine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sureal/routine.py b/sureal/routine.py
index f6f15ca..2ca058d 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -315,6 +315,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
                     if 'quality_scores_ci95' in result:
                         try:
                             quality_error = result['quality_scores_ci95']
+                            quality_error = [np.array(quality_error[0])[order], np.array(quality_error[1])[order]]
                             label += ' [avg CI {:.2f}]'.format(np.mean(np.array(quality_error[0]) +
                                                                        np.array(quality_error[1])))
                         except TypeError:
-- 
2.43.0


From 2dd6b354bf2dded2575a94e08eda69164aff6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:57 +0000
Subject: [PATCH 23/24] fix: plots of more than eight models do not run out of
 colours

---
 sureal/routine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sureal/routine.py b/sureal/routine.py
index 2ca058d..487ccbd 100644
--- a/sureal/routine.py
+++ b/sureal/routine.py
@@ -78,7 +78,7 @@ def run_subjective_models(dataset_filepath, subjective_model_classes, do_plot=No
 
     assert len(raw_score_residue_range) == 2
 
-    colors = ['black', 'gray', 'blue', 'red'] * 2
+    colors = ['black', 'gray', 'blue', 'red'] * max(2, len(subjective_model_classes))
 
     if dataset_filepath.endswith('.py'):
         dataset = import_python_file(dataset_filepath)
-- 
2.43.0


From b823dd0098cf44c18000438f716a6e95ea1033b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:42 +0000
Subject: [PATCH 24/24] fix: missing votes do not make the uniform
 log-likelihood minus infinity

---
 sureal/tools/stats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sureal/tools/stats.py b/sureal/tools/stats.py
index 919811e..4b1b418 100644
--- a/sureal/tools/stats.py
+++ b/sureal/tools/stats.py
@@ -105,7 +105,9 @@ def convolution_of_two_uniforms(x, loc1, s1, loc2, s2):
     s = s1 + s2
     h = 2. / (d + s)
 
-    if - s/2. <= z < - d/2.:
+    if np.isnan(z):  # a missing value has no density, as in the other laws
+        return float('nan')
+    elif - s/2. <= z < - d/2.:
         x0, y0 = - s / 2., 0
         x1, y1 = -d / 2., h
         return (y1 - y0) / (x1 - x0) * (z - x0) + y0
-- 
2.43.0

