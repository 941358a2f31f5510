From cf572144cdbe8755dd8aa37ad86248fa87dce793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/43] fix: deliver results still queued when the parallel
 stage of the multi-GPU executor ends

---
 mergekit/multigpu_executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..218aec7 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,9 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From 5b7136e7cdc66068a33925b849f7c8933a0758c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:43 +0000
Subject: [PATCH 02/43] fix: lazy unpickler reads strided views, 0-dim and bool
 tensors correctly

---
 mergekit/io/lazy_unpickle.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..e07d191 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,8 +69,12 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
-        total_bytes = total_params * dtype_bytes(self.dtype)
+        # number of storage elements spanned by this (possibly strided) view
+        if any(dim == 0 for dim in self.shape):
+            span = 0
+        else:
+            span = 1 + sum((dim - 1) * st for dim, st in zip(self.shape, self.stride))
+        total_bytes = span * dtype_bytes(self.dtype)
 
         f = reader.open_file(file_name=self.name, offset=self.file_offset)
         storage = torch.UntypedStorage.from_buffer(
@@ -180,11 +182,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return dtype.itemsize
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From d0591e5e75843fde19f73ed7f0d64b19d0f36384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:56 +0000
Subject: [PATCH 03/43] fix: read each tensor from the shard its index names,
 whatever was read before

---
 mergekit/io/lazy_tensor_loader.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mergekit/io/lazy_tensor_loader.py b/mergekit/io/lazy_tensor_loader.py
index 9979341..28fb414 100644
--- a/mergekit/io/lazy_tensor_loader.py
+++ b/mergekit/io/lazy_tensor_loader.py
@@ -106,12 +106,14 @@ class ShardedTensorIndex:
 class LazyTensorLoader:
     index: ShardedTensorIndex
     current_shard: Optional[TensorLoader]
+    current_shard_file: Optional[str]
     lazy_unpickle: bool
     lock: threading.Lock
 
     def __init__(self, index: ShardedTensorIndex, lazy_unpickle: bool = True):
         self.index = index
         self.current_shard = None
+        self.current_shard_file = None
         self.lazy_unpickle = lazy_unpickle
         self.lock = threading.Lock()
 
@@ -129,16 +131,16 @@ class LazyTensorLoader:
                     break
 
         with self.lock:
-            if self.current_shard is None or key not in self.current_shard.keys():
-                if key not in self.index.tensor_paths:
-                    if raise_on_missing:
-                        raise KeyError(key)
-                    return None
+            if key not in self.index.tensor_paths:
+                if raise_on_missing:
+                    raise KeyError(key)
+                return None
 
+            shard_file = self.index.tensor_paths[key]
+            if self.current_shard is None or self.current_shard_file != shard_file:
                 self.current_shard = None
-                self.current_keys = None
+                self.current_shard_file = shard_file
 
-                shard_file = self.index.tensor_paths[key]
                 shard_full_path = os.path.join(self.index.base_path, shard_file)
                 logging.debug(f"Opening shard {shard_full_path}")
                 self.current_shard = TensorLoader.get(
@@ -150,7 +152,7 @@ class LazyTensorLoader:
     def flush(self):
         with self.lock:
             self.current_shard = None
-            self.current_keys = None
+            self.current_shard_file = None
 
     @classmethod
     def from_disk(
-- 
2.43.0


From f0b3a1a9d177076a5a1e57c12d54c532baf99758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:56 +0000
Subject: [PATCH 04/43] fix: loaders unwrap a nested state_dict the same way
 the shard index does

---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From bb1a3316e4a291117cf6875bc3b2d85f76c9c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:17 +0000
Subject: [PATCH 05/43] fix: accept a single conditional value where a
 parameter setting allows one

---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..8750b3e 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -28,6 +28,8 @@ def evaluate_setting(
 ) -> Optional[float]:
     if isinstance(setting, (float, int, bool, str)):
         return setting
+    elif isinstance(setting, ConditionalParameter):
+        return evaluate_setting(tensor_name, [setting], t)
     elif isinstance(setting, list):
         if all(isinstance(e, (int, float)) for e in setting):
             scaled = t * (len(setting) - 1)
-- 
2.43.0


From 33934b165c6474cdf2098cac877a5baa041bd5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:38 +0000
Subject: [PATCH 06/43] fix: lazily read torch archives that were renamed after
 being saved

---
 mergekit/io/lazy_unpickle.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index e07d191..e7722df 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -129,6 +129,11 @@ class TorchArchiveReader:
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
         self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # the root folder keeps the name the file was first saved under
+        for entry in self.archive.namelist():
+            if entry.endswith("/data.pkl"):
+                self.archive_name = entry[: -len("/data.pkl")]
+                break
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
-- 
2.43.0


From bf84397862eaead7b5170f92208c1bac5646332e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 07/43] fix: merge post-layer weights from every source of the
 last slice

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..addc15f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 68400388b7ab687db86af7e6327a8faed04c959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 08/43] fix: plan optional weights that have aliases

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index addc15f..8629ec8 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in [w_in.name] + list(w_in.aliases or [])
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From 364cb09b9329dec64384147dc9b7cf8668259c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 09/43] fix: pass the requested number of write threads to the
 writer

---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 8629ec8..ec05a1f 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -339,7 +339,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
-- 
2.43.0


From 1b3cd7bc5bcb15178be1666b3a2b226b05f3a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:04 +0000
Subject: [PATCH 10/43] fix: list referenced models in a deterministic order

---
 mergekit/config.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 8750b3e..2979370 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -101,25 +101,26 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        # a dict keeps the order of first mention, so results do not depend on hashing
+        models = {}
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From 12b4f4a73372a588c85613dbf7b89bbf2c5b8f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 11/43] fix: give zero-initialised tokens an all-zero embedding
 row

---
 mergekit/tokenizer/embed.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..c0c8f24 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -130,7 +130,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero")
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -152,7 +154,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            embed = torch.zeros_like(next(iter(tensors.values()))[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From e89db40e38815caf47beaf61526dd9b8aa08f169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:33 +0000
Subject: [PATCH 12/43] fix: treat tokens beyond the embedding matrix as absent
 from the model

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..988b12e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -262,6 +262,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From ff91813c941bff159b333a1a86bb3e6708b2d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 13/43] fix: keep the selected weights when no outliers are
 removed

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From 44e30db72cf1d9c0e73b748755b9a34f01d329fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 14/43] fix: defined drop probabilities for rows of a single
 element in della pruning

---
 mergekit/sparsify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 8e3140c..ec06a10 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -167,7 +167,8 @@ def della_magprune(
 
     min_ranks = ranks.min(dim=1, keepdim=True).values
     max_ranks = ranks.max(dim=1, keepdim=True).values
-    rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    rank_span = (max_ranks - min_ranks).clamp(min=1)
+    rank_norm = ((ranks - min_ranks) / rank_span).clamp(0, 1)
     probs = (density - epsilon) + rank_norm * 2 * epsilon
     mask = torch.bernoulli(probs).to(work_dtype)
 
-- 
2.43.0


From 4248387eedd22ce39380e407c01dbedf12419538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 15/43] fix: SCE selection mask always has the shape of one
 tensor

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From d85f032dfc8391ecf8871215aa71f309cc11fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 16/43] fix: apply the embedding size rectification in karcher
 merges

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From 722627aa44a35f903a052b1dc72c5af74160cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 17/43] fix: keep the tensor dtype in arcee_fusion merges

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..67c6928 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -53,7 +53,7 @@ class DynamicThresholdFusion:
 
     def compute_fusion_mask(self, importance_scores):
         threshold = self.calculate_dynamic_threshold(importance_scores)
-        fusion_mask = (importance_scores >= threshold).float()
+        fusion_mask = (importance_scores >= threshold).to(importance_scores.dtype)
         return fusion_mask, threshold
 
 
-- 
2.43.0


From 92383b8a1ebd799f50c67d2eee217b1c36b259ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:48 +0000
Subject: [PATCH 18/43] fix: keep the tensor dtype in ramplus_tl merges

---
 mergekit/merge_methods/ram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 98f05eb..3da8b77 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -64,7 +64,7 @@ def ramplus_tl_merge(
     shared_counts = (nonzero_mask & overlap_mask).sum(dim=1)
     unique_counts = (nonzero_mask & unique_mask).sum(dim=1)
     rho = shared_counts / unique_counts.clamp(min=epsilon)
-    lambda_ = 1 + r * rho.clamp(min=0, max=alpha)
+    lambda_ = (1 + r * rho.clamp(min=0, max=alpha)).to(tv_flat.dtype)
 
     tv_flat_z = tv_flat * nonzero_mask
     merged_tv_flat = (
-- 
2.43.0


From 85ee51a4ec779d31a90e59671aa869482ce7285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:39 +0000
Subject: [PATCH 19/43] fix: pass tensors to decorated merge methods in the
 order of the input models

---
 mergekit/merge_methods/easy_define.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..32f6f18 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -140,14 +140,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
+        model_refs = list(tensors.keys())
         base_model = getattr(self, "base_model", None)
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
-- 
2.43.0


From 4780a4ff59288ba33c6bbcd3efb0922d8be8d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:05 +0000
Subject: [PATCH 20/43] fix: merge tensors that are not contiguous or have unit
 dimensions in nuslerp and model_stock

---
 mergekit/merge_methods/model_stock.py | 4 ++--
 mergekit/merge_methods/nuslerp.py     | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mergekit/merge_methods/model_stock.py b/mergekit/merge_methods/model_stock.py
index 3498579..98e235c 100644
--- a/mergekit/merge_methods/model_stock.py
+++ b/mergekit/merge_methods/model_stock.py
@@ -53,8 +53,8 @@ class ModelStockMergeTask(Task[torch.Tensor]):
                 w_0 = w_0.unsqueeze(0)
                 ws = [w.unsqueeze(0) for w in ws]
         else:
-            w_0 = w_0.view(-1)
-            ws = [w.view(-1) for w in ws]
+            w_0 = w_0.reshape(-1)
+            ws = [w.reshape(-1) for w in ws]
 
         offsets = [w - w_0 for w in ws]
 
diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index efa0f7d..b58333d 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -141,8 +141,8 @@ def nuslerp(
         return x / torch.norm(x, dim=-1, keepdim=True).clamp(min=eps)
 
     if flatten:
-        v0 = v0.view(-1)
-        v1 = v1.view(-1)
+        v0 = v0.reshape(-1)
+        v1 = v1.reshape(-1)
     elif dim != -1:
         v0 = v0.transpose(dim, -1)
         v1 = v1.transpose(dim, -1)
@@ -154,7 +154,7 @@ def nuslerp(
     theta = torch.acos(cos_theta.clamp(-1, 1))
     sin_theta = torch.sin(theta)
 
-    colinear = (sin_theta.abs() < eps).squeeze()
+    colinear = (sin_theta.abs() < eps).squeeze(-1)
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
-- 
2.43.0


From bf2694a6fbdded55b2c37b9685251aa08e50cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 21/43] fix: merge the query and key norms of OLMo 2 models

---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..71b9ef2 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -12,6 +12,12 @@
     "num_layers_config_key": "num_hidden_layers",
     "layer_templates": {
         "weights": [
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
-- 
2.43.0


From dff514e574b4312cca3032888bb16376ab1e5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 22/43] fix: weight prefix of the Whisper decoder

---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From 54512882e0a7286848454367de43313c79df4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:43 +0000
Subject: [PATCH 23/43] fix: query and key norms are optional in Cohere models

---
 mergekit/_data/architectures/cohere.json | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..d69dfd2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,13 +35,15 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
-- 
2.43.0


From 5966b8d389060c2b3bf4c1fab2b82c9796d3a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:07 +0000
Subject: [PATCH 24/43] fix: merge the prediction head of masked-LM BERT models

---
 .../_data/architectures/bert-masked-lm.json   | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..cc0216a 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,10 +34,34 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
+        },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
+        },
+        {
+            "name": "cls.predictions.decoder.bias",
+            "optional": true
         },
         {
             "name": "cls.predictions.bias"
-- 
2.43.0


From e66eb3504e76fe95ad1de40a4eb6cc6fb57bedb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:50 +0000
Subject: [PATCH 25/43] fix: infer architectures of models transformers cannot
 instantiate

---
 mergekit/architecture/auto.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..0ce7bd9 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -249,8 +249,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = (full_name in (embed_names or ())) or any(
+            re.search(pat, full_name) for pat in (tied_keys or ())
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
-- 
2.43.0


From 5aec3c9a2f82f3637e89a3aefac503b2ac993799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:04 +0000
Subject: [PATCH 26/43] fix: refuse to merge layers of different structure
 instead of mixing up their weights

---
 mergekit/plan.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index ec05a1f..b40981b 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -253,6 +253,11 @@ class MergePlanner:
             .layer_weights(index=s.layer_range[0] + layer_offset)
             for s in sources
         ]
+        if any(len(w_in) != len(weights_out) for w_in in weights_in):
+            raise RuntimeError(
+                f"Layer {self._current_module_layers} of the output does not have "
+                "the same weights as all of the layers to merge into it"
+            )
 
         for idx, w_o in enumerate(weights_out):
             self.plan_tensor(
-- 
2.43.0


From d6f2cf685ac3fcece58cab3653baef827653c94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:58 +0000
Subject: [PATCH 27/43] fix: serialize model references whose path contains
 spaces or quotes

---
 mergekit/common.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..4f887ea 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -203,15 +203,13 @@ class ModelReference(BaseModel, frozen=True):
 
     @model_serializer()
     def serialize(self):
-        if self.override_architecture is not None:
+        res = str(self)
+        if self.override_architecture is not None or '"' in res or " " in res:
             return {
                 "model": self.model,
                 "lora": self.lora,
                 "override_architecture": self.override_architecture,
             }
-        res = str(self)
-        if '"' in res or " " in res:
-            return self
         return res
 
     @classmethod
-- 
2.43.0


From 24437ec62df912f7f310773376c9aacad82c4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:30 +0000
Subject: [PATCH 28/43] fix: accept multimerge configurations with strings that
 do not parse as model references

---
 mergekit/scripts/multimerge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..271bafe 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -160,7 +160,8 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
                         lora=mr.lora,
                         override_architecture=mr.override_architecture,
                     ).model_dump()
-            except ValueError:
+            except (ValueError, RuntimeError):
+                # not a model reference, e.g. a chat template
                 pass
         return value
 
-- 
2.43.0


From 5aa058521a43b05f0ea9a3e8fb6d073362a80edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:30 +0000
Subject: [PATCH 29/43] fix: open the source models of shared experts in MoE
 merges

---
 mergekit/moe/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..8593cf9 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,10 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts]
+        + [e.source_model for e in (config.shared_experts or [])],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From d98d3cd0454264f486a56461c33c87100b350d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:30 +0000
Subject: [PATCH 30/43] fix: create the output directory of DeepSeek MoE merges

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From 8d394c48fe2676a9d824ff38f91cdf445f7dda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:46 +0000
Subject: [PATCH 31/43] fix: do not reuse a cached LoRA merge made with a
 different dtype

---
 mergekit/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 4f887ea..fbdd932 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -112,7 +112,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            self.model._unique_id()
+            + "_"
+            + self.lora._unique_id()
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From 2a4cfd7cab9ad270a9b973dff3790699331c478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:46 +0000
Subject: [PATCH 32/43] fix: an interrupted LoRA merge is never taken for a
 complete one

---
 mergekit/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index fbdd932..4e4681e 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -119,8 +120,6 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
-
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
 
@@ -137,7 +136,12 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+            # only a completely written model may appear under its final name
+            os.makedirs(cache_dir, exist_ok=True)
+            with tempfile.TemporaryDirectory(dir=cache_dir) as tmp_path:
+                tmp_out_path = os.path.join(tmp_path, "model")
+                model.save_pretrained(tmp_out_path, safe_serialization=True)
+                os.rename(tmp_out_path, out_path)
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 56bb1d9486dc65d09c82fd721da1e8bae2ecceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 33/43] fix: permute embeddings in the order of the models, not
 of their hashes

---
 mergekit/tokenizer/embed.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index c0c8f24..4f155a1 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
+        if self.base_model and self.base_model not in models:
+            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
-- 
2.43.0


From 8bfc2c0cec9571643ad25fa6d3f75aea861ac33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:09 +0000
Subject: [PATCH 34/43] fix: tokens added to the base tokenizer are not taken
 from its padding rows

---
 mergekit/tokenizer/build.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 988b12e..c4b346f 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -213,6 +213,9 @@ def build_tokenizer(
             continue
         tokenizers[model] = model_tok
 
+    # tokenizer_out may share state with the input tokenizers
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     LOG.info("Building output tokenizer")
     # build final vocabulary
     if isinstance(tokenizer_source, ModelReference):
@@ -241,10 +244,10 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
+        if model in original_vocabs:
+            model_vocab = original_vocabs[model]
         else:
-            model_vocab = tokenizers[base_model].get_vocab()
+            model_vocab = original_vocabs[base_model]
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -274,7 +277,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From 0d6c554aa5a01da14ee0eddc45aa783bded35aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:48 +0000
Subject: [PATCH 35/43] fix: drop merges that produce tokens stripped from a
 tokenizer

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index c4b346f..77a184a 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -91,7 +91,7 @@ def get_stripped_tokenizer(
             toks = m
         else:
             raise RuntimeError(f"Unexpected merge format: {repr(m)} ({type(m)})")
-        for tok in toks:
+        for tok in [*toks, "".join(toks)]:
             if tok in unused_toks:
                 return False
         return True
-- 
2.43.0


From 27bdbabfaf28e67800701e75e101de533f8443d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:03 +0000
Subject: [PATCH 36/43] fix: refuse to merge tensors of different sizes instead
 of broadcasting them

---
 mergekit/merge_methods/multislerp.py    |  2 ++
 mergekit/merge_methods/nearswap.py      |  2 ++
 mergekit/merge_methods/ram.py           |  2 ++
 mergekit/merge_methods/rectify_embed.py | 11 ++++++++++-
 mergekit/merge_methods/sce.py           |  2 ++
 5 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/multislerp.py b/mergekit/merge_methods/multislerp.py
index 0a10bc4..346e18c 100644
--- a/mergekit/merge_methods/multislerp.py
+++ b/mergekit/merge_methods/multislerp.py
@@ -6,6 +6,7 @@ from typing import List, Optional
 import torch
 
 from mergekit.merge_methods.easy_define import merge_method
+from mergekit.merge_methods.rectify_embed import check_same_shape
 
 
 @merge_method(
@@ -45,6 +46,7 @@ def multislerp(
 
     tensors = torch.stack(tensors, dim=0)
     if base_tensor is not None:
+        check_same_shape([base_tensor, tensors[0]])
         tensors -= base_tensor
 
     tensors_flat = tensors.view(tensors.shape[0], -1)
diff --git a/mergekit/merge_methods/nearswap.py b/mergekit/merge_methods/nearswap.py
index 269fab8..aa229b7 100644
--- a/mergekit/merge_methods/nearswap.py
+++ b/mergekit/merge_methods/nearswap.py
@@ -6,6 +6,7 @@ from typing import List
 import torch
 
 from mergekit.merge_methods.easy_define import merge_method
+from mergekit.merge_methods.rectify_embed import check_same_shape
 
 
 @merge_method(
@@ -22,6 +23,7 @@ def nearswap_merge(
         raise RuntimeError(
             "NearSwap merge expects exactly two models, one base and one other"
         )
+    check_same_shape([base_tensor, *tensors])
     a = base_tensor
     b = tensors[0]
 
diff --git a/mergekit/merge_methods/ram.py b/mergekit/merge_methods/ram.py
index 3da8b77..8224f95 100644
--- a/mergekit/merge_methods/ram.py
+++ b/mergekit/merge_methods/ram.py
@@ -6,6 +6,7 @@ from typing import List, Tuple
 import torch
 
 from mergekit.merge_methods.easy_define import merge_method
+from mergekit.merge_methods.rectify_embed import check_same_shape
 
 
 @merge_method(
@@ -87,6 +88,7 @@ def _prepare_ram_vectors(
         overlap_mask: Mask where counts > 1
         unique_mask: Mask where counts == 1
     """
+    check_same_shape([base_tensor, *tensors])
     task_vectors = torch.stack([t - base_tensor for t in tensors], dim=0)
     tv_flat = task_vectors.view(len(tensors), -1)
 
diff --git a/mergekit/merge_methods/rectify_embed.py b/mergekit/merge_methods/rectify_embed.py
index 63f2bb2..143249d 100644
--- a/mergekit/merge_methods/rectify_embed.py
+++ b/mergekit/merge_methods/rectify_embed.py
@@ -3,7 +3,7 @@
 
 
 import logging
-from typing import List
+from typing import List, Optional
 
 import torch
 
@@ -19,6 +19,15 @@ def rectify_embed_sizes(weight_info: WeightInfo, tensors: List[torch.Tensor]):
             logging.warning(
                 f"Using common submatrix of size {tensors[0].shape} for {weight_info.name}"
             )
+    check_same_shape(tensors, weight_info.name)
+
+
+def check_same_shape(tensors: List[torch.Tensor], name: Optional[str] = None):
+    """Raise an error rather than let tensors of different sizes broadcast."""
+    sizes = list(dict.fromkeys(tuple(t.shape) for t in tensors))
+    if len(sizes) > 1:
+        label = f" for {name}" if name else ""
+        raise RuntimeError(f"Tensor size mismatch{label}, sizes: {sizes}")
 
 
 def take_common_submatrix(tensors: List[torch.Tensor]) -> bool:
diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 9a8d5d1..d912c26 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -9,6 +9,7 @@ from mergekit.merge_methods.easy_define import merge_method
 from mergekit.merge_methods.generalized_task_arithmetic import (
     get_mask as sign_consensus_mask,
 )
+from mergekit.merge_methods.rectify_embed import check_same_shape
 
 
 @merge_method(
@@ -24,6 +25,7 @@ def sce_merge(
 ) -> torch.Tensor:
     if not tensors:
         return base_tensor
+    check_same_shape([base_tensor, *tensors])
     mask_dtype = torch.int8 if int8_mask else base_tensor.dtype
     task_vectors = torch.stack([t - base_tensor for t in tensors], dim=0)
 
-- 
2.43.0


From 467da14af288dfc03944330540cd8b6bf048b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:01 +0000
Subject: [PATCH 37/43] fix: task-vector methods leave out embeddings that
 still differ from the base

An embedding smaller than the base model's was subtracted as is: it raised,
or, with a dimension of size 1, was broadcast over the base.
---
 mergekit/merge_methods/generalized_task_arithmetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index b421269..83c3eee 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -205,14 +205,14 @@ def get_task_vectors(
 
         x = tensors[model].to(base.dtype)
         if x.shape != base.shape:
-            if weight_info.is_embed:
+            if weight_info.is_embed and x.dim() == base.dim() == 2:
                 x = x[: base.shape[0], : base.shape[1]]
-                logging.warning(f"Using submatrix of {model}:{parameter_name}")
-            else:
+            if x.shape != base.shape:
                 logging.warning(
                     f"skipping {model}:{parameter_name} due to size mismatch"
                 )
                 continue
+            logging.warning(f"Using submatrix of {model}:{parameter_name}")
 
         delta = x - base
         del x
-- 
2.43.0


From b108e1dbf7a456d4edd333d6550a13ccde0e846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:24 +0000
Subject: [PATCH 38/43] fix: list each weight of the Qwen2-VL projectors once

The projector's two linear layers have no layer index in their names, but
were listed as templates of two layers: every one of their weights was
planned (and written) twice, with the parameters of different layers.
---
 mergekit/_data/architectures/qwen2_5_vl.json | 29 ++++++++++----------
 mergekit/_data/architectures/qwen2_vl.json   | 29 ++++++++++----------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..7d71c5f 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -84,28 +84,27 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 0,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.bias"
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
-                    "weights": [
-                        {
-                            "name": "visual.merger.mlp.0.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.0.bias"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.bias"
-                        }
-                    ]
+                    "weights": []
                 }
             }
         },
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..de1acbc 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -84,31 +84,30 @@
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-                "override_num_layers": 2,
+                "override_num_layers": 0,
                 "pre_weights": [
                     {
                         "name": "visual.merger.ln_q.weight"
                     },
                     {
                         "name": "visual.merger.ln_q.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.0.bias"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.weight"
+                    },
+                    {
+                        "name": "visual.merger.mlp.2.bias"
                     }
                 ],
                 "post_weights": [],
                 "layer_templates": {
-                    "weights": [
-                        {
-                            "name": "visual.merger.mlp.0.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.0.bias"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.weight"
-                        },
-                        {
-                            "name": "visual.merger.mlp.2.bias"
-                        }
-                    ]
+                    "weights": []
                 }
             }
         },
-- 
2.43.0


From 287486166de67a49643aad1ceb078d88e2149f49 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 39/43] fix: tokenizer merge when the base model is outside the
 slice's sources

---
 mergekit/tokenizer/embed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 4f155a1..6b60ed2 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,9 +33,8 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
+        # a base model outside of this slice has no embeddings to contribute
         models = list(tensors.keys())
-        if self.base_model and self.base_model not in models:
-            models.append(self.base_model)
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -135,7 +134,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                     continue
-- 
2.43.0


From 6c9689ba5db77b98663d9da4a4636d8e00319e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 40/43] fix: multimerge leaves values that merely look like a
 merge's name alone

---
 mergekit/scripts/multimerge.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 271bafe..de64e62 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -24,6 +24,16 @@ MODEL_CHECK_FILENAMES = [
     "pytorch_model.bin.index.json",
 ]
 
+TEXT_FIELDS = {
+    "merge_method",
+    "dtype",
+    "out_dtype",
+    "chat_template",
+    "filter",
+    "kind",
+    "token",
+}
+
 
 class MergeModelTask(Task[str]):
     config_yaml: str
@@ -133,6 +143,13 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
+    def _is_text(key: str, value) -> bool:
+        # plain text that happens to equal a merge name is not a model reference
+        return isinstance(value, str) and (
+            key in TEXT_FIELDS
+            or (key in ("source", "tokenizer_source") and value in ("union", "base"))
+        )
+
     def _patch_mr(value: Union[dict, list, str, int, None]):
         nonlocal used
         if isinstance(value, list):
@@ -146,7 +163,7 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
                     value["model"]["path"] = os.path.join(working_dir, base)
                     used.add(base)
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
+            return {k: v if _is_text(k, v) else _patch_mr(v) for k, v in value.items()}
         elif isinstance(value, str):
             try:
                 mr = ModelReference.model_validate(value)
-- 
2.43.0


From a1299be5ee08dab01565eca4ddd2ed81a255c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 41/43] fix: refuse decorated methods whose parameters have
 missing or unsupported annotations

---
 mergekit/merge_methods/easy_define.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index 32f6f18..ec66c1e 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -68,10 +68,15 @@ def __merge_method(
     for arg, arg_info in sig.parameters.items():
         if arg in ("base_tensor", "tensors"):
             continue
+        if arg_info.kind in (
+            inspect.Parameter.VAR_POSITIONAL,
+            inspect.Parameter.VAR_KEYWORD,
+        ):
+            continue
         if arg in STANDARD_KWARGS:
             used_kwargs.add(arg)
         else:
-            if arg_info.annotation is None:
+            if arg_info.annotation in (None, inspect.Parameter.empty):
                 raise ValueError(
                     "All merge method arguments must have type annotations"
                 )
@@ -107,6 +112,10 @@ def __merge_method(
                         name=arg, required=required, default_value=default_value
                     )
                 )
+            else:
+                raise TypeError(
+                    f"Unsupported annotation for parameter '{arg}': {repr(arg_info.annotation)}"
+                )
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-- 
2.43.0


From 07dd7ab877b56c7de5a3505c3ce886f370a78277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:18 +0000
Subject: [PATCH 42/43] fix: decorated methods without a base_tensor argument
 get the base model's tensor first

---
 mergekit/merge_methods/easy_define.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index ec66c1e..2f744d9 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -119,10 +119,10 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    # always known to the task: it decides where the base model's tensor goes
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
-- 
2.43.0


From 286b3d1549eb76c7ac5294a450d82014b2c912fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 43/43] fix: copy_tensor_out accepts weights with aliases but
 no tied names

---
 mergekit/moe/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 8593cf9..f6036db 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -82,7 +82,7 @@ def copy_tensor_out(
     clone: bool = False,
 ):
     out_tensor_name = output_name or weight_info.name
-    aliases = weight_info.aliases or []
+    aliases = list(weight_info.aliases or [])
     if not weight_info.optional:
         aliases += weight_info.tied_names or []
     try:
-- 
2.43.0

