From fdf0632bbf397af9f6812f08674edd04063c2f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:06 +0000
Subject: [PATCH 01/29] fix: tune_doubling_dimension compares results by their
 value only

sorted(results) fell back to comparing the parameter dictionaries when two
dimensions reached the same best value, raising TypeError after all studies had run.
---
 src/irspack/recommenders/ials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index c26f3dc..ba422e8 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -751,7 +751,7 @@ class IALSRecommender(
             prev_params = study.best_params.copy()
             dimension *= 2
         final_result_df = pd.concat([x[2] for x in results])
-        final_bp = sorted(results)[0][1]
+        final_bp = min(results, key=lambda result: result[0])[1]
 
         return final_bp, final_result_df
 
-- 
2.43.0


From 1079374f3a6d19f25feeaef75e57177deb04f65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 02/29] fix: time-based user split keeps the rating column

---
 src/irspack/split/userwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 06608a7..97998ac 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -191,7 +191,7 @@ def split_train_test_userwise_time(
 ) -> UserTrainTestInteractionPair:
     unique_user_ids = np.asarray(list(set(df_[user_column])))
     df_train, df_test = split_last_n_interaction_df(
-        df_[[user_column, item_column, time_column]],
+        df_,
         user_column,
         time_column,
         n_heldout=n_heldout,
-- 
2.43.0


From 96c214962fc7875c3aa79d86d346ece62eeb3bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 03/29] fix: user split uses the rating column for train users
 too

---
 src/irspack/split/userwise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 97998ac..a10e29e 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -332,7 +332,12 @@ def split_dataframe_partial_user_holdout(
     item_all: List[Any] = list(set(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
-        df_train, user_column, item_column, user_ids=train_uids, item_ids=item_all
+        df_train,
+        user_column,
+        item_column,
+        user_ids=train_uids,
+        item_ids=item_all,
+        rating_column=rating_column,
     )
 
     valid_data: Dict[str, UserTrainTestInteractionPair] = dict(
-- 
2.43.0


From e72227f7fc06bf28808adf02a8a2b8d42a894209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 04/29] fix: user split honours the requested number of test
 users

---
 src/irspack/split/userwise.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index a10e29e..74d738a 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -298,26 +298,22 @@ def split_dataframe_partial_user_holdout(
     n_users_all = len(uids)
     if n_val_user is None:
         n_val_user = int(n_users_all * val_user_ratio)
-        val_user_ratio = n_val_user / n_users_all
     else:
         if n_val_user > n_users_all:
             raise ValueError("n_val_user exceeds the number of total users.")
 
     if n_test_user is None:
         n_test_user = int(n_users_all * test_user_ratio)
-        test_user_ratio = n_test_user / n_users_all
-    else:
-        if (n_test_user + n_val_user) > n_users_all:
-            raise ValueError(
-                "n_val_user + n_test_users exceeds the number of total users."
-            )
+
+    if (n_test_user + n_val_user) > n_users_all:
+        raise ValueError("n_val_user + n_test_users exceeds the number of total users.")
 
     df_all = df_all.drop_duplicates([user_column, item_column])
     rns = convert_randomstate(random_state)
 
     train_uids, val_test_uids = _split_list(uids, (n_val_user + n_test_user), rns)
 
-    if (test_user_ratio * len(uids)) >= 1:
+    if n_test_user >= 1:
         val_uids, test_uids = _split_list(
             val_test_uids,
             n_test_user,
-- 
2.43.0


From 2e198a1a4728dd3eba47a269fcf1ad40ba98556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 05/29] fix: user and item order of user splits does not depend
 on hashing

---
 src/irspack/split/userwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 74d738a..435dcaa 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -189,7 +189,7 @@ def split_train_test_userwise_time(
     rating_column: Optional[str] = None,
     ceil_n_heldout: bool = False,
 ) -> UserTrainTestInteractionPair:
-    unique_user_ids = np.asarray(list(set(df_[user_column])))
+    unique_user_ids = np.asarray(df_[user_column].unique())
     df_train, df_test = split_last_n_interaction_df(
         df_,
         user_column,
@@ -325,7 +325,7 @@ def split_dataframe_partial_user_holdout(
     df_train = df_all[df_all[user_column].isin(train_uids)].copy()
     df_val = df_all[df_all[user_column].isin(val_uids)].copy()
     df_test = df_all[df_all[user_column].isin(test_uids)].copy()
-    item_all: List[Any] = list(set(df_all[item_column]))
+    item_all: List[Any] = list(dict.fromkeys(df_all[item_column]))
 
     train_user_interactions, _, __ = df_to_sparse(
         df_train,
-- 
2.43.0


From 4255a2e24f7b849ce0e91de5e2f967642ff6c160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:07 +0000
Subject: [PATCH 06/29] fix: exported ratings stay aligned with explicit zeros
 and leave the matrix alone

---
 src/irspack/split/userwise.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/irspack/split/userwise.py b/src/irspack/split/userwise.py
index 435dcaa..185cb00 100644
--- a/src/irspack/split/userwise.py
+++ b/src/irspack/split/userwise.py
@@ -82,9 +82,8 @@ class UserTrainTestInteractionPair:
     def _X_to_df(self, X: sps.csr_matrix, user_ids: List[Any]) -> pd.DataFrame:
         if self.item_ids is None:
             raise RuntimeError("Setting item_ids is required to use this method.")
-        X.sort_indices()
-        row, col = X.nonzero()
-        data = X.data
+        X_coo = X.sorted_indices().tocoo()
+        row, col, data = X_coo.row, X_coo.col, X_coo.data
         return pd.DataFrame(
             dict(
                 user_id=[user_ids[r] for r in row],
-- 
2.43.0


From e404f8e3d9f03c49cb5838fc081e7296f88fb296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:22 +0000
Subject: [PATCH 07/29] fix: MultVAE shuffles users with its own seeded state

---
 src/irspack/recommenders/multvae.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/recommenders/multvae.py b/src/irspack/recommenders/multvae.py
index 9f75ffa..cf10327 100644
--- a/src/irspack/recommenders/multvae.py
+++ b/src/irspack/recommenders/multvae.py
@@ -150,6 +150,7 @@ class MultVAETrainer(TrainerBase):
         self.learning_rate = learning_rate
 
         self.rng_seq = hk.PRNGSequence(42)
+        self.shuffle_rns = np.random.RandomState(42)
 
         if dec_hidden_dim is None:
             dec_hidden_dim = enc_hidden_dim
@@ -239,7 +240,7 @@ class MultVAETrainer(TrainerBase):
 
     def run_epoch(self) -> None:
         user_indices = np.arange(self.n_users)
-        np.random.shuffle(user_indices)
+        self.shuffle_rns.shuffle(user_indices)
         for mb_start in range(0, self.n_users, self.minibatch_size):
             current_kl_coeff = jnp.asarray(
                 self.kl_anneal_goal
-- 
2.43.0


From 9ad760039c8e6eb2e5bbe48ce568d525e2ac70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 08/29] fix: dataset archives appear at their path only once
 downloaded completely

A download that failed half way left a truncated (or empty) archive at the
final path, and every later run took it for the data set.
---
 src/irspack/dataset/downloader.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/downloader.py b/src/irspack/dataset/downloader.py
index 653cf89..8fdd70c 100644
--- a/src/irspack/dataset/downloader.py
+++ b/src/irspack/dataset/downloader.py
@@ -2,6 +2,7 @@ import urllib.request
 from abc import ABCMeta, abstractmethod
 from io import BytesIO
 from pathlib import Path
+from tempfile import NamedTemporaryFile
 from typing import Optional, Union
 from zipfile import ZipFile
 
@@ -43,13 +44,25 @@ class BaseDownloader(metaclass=ABCMeta):
                 download = True
             if download:
                 print("start download...")
-                self._save_to_zippath(zippath)
+                self._download_atomically(zippath)
                 print("complete")
             else:
                 raise RuntimeError("could not read zipFile")
 
         self.zf = ZipFile(zippath)
 
+    def _download_atomically(self, zippath: Path) -> None:
+        # An interrupted download must not leave a file at ``zippath``.
+        with NamedTemporaryFile(
+            "wb", delete=False, dir=zippath.parent, prefix=f".{zippath.name}."
+        ) as output:
+            temporary_path = Path(output.name)
+        try:
+            self._save_to_zippath(temporary_path)
+            temporary_path.replace(zippath)
+        finally:
+            temporary_path.unlink(missing_ok=True)
+
     def _read_as_istream(self, path: str) -> BytesIO:
         bytes_array = self.zf.read(path)
         return BytesIO(bytes_array)
-- 
2.43.0


From a38b519fdbc104d043f2dd731781b3bda34a7e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 09/29] fix: Amazon music metadata is parsed as literals and
 not evaluated

The metadata lines are Python literals downloaded over plain HTTP; eval()
executed whatever they contained.
---
 src/irspack/dataset/amazon_music.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/irspack/dataset/amazon_music.py b/src/irspack/dataset/amazon_music.py
index e88c6c0..0be72fb 100644
--- a/src/irspack/dataset/amazon_music.py
+++ b/src/irspack/dataset/amazon_music.py
@@ -1,3 +1,4 @@
+import ast
 import urllib.request
 from gzip import GzipFile
 from pathlib import Path
@@ -39,7 +40,7 @@ class AmazonMusicDataManager(BaseDownloader):
     def read_metadata(self) -> pd.DataFrame:
         results = []
         for l in self._read_as_istream("amazon-music/music-meta.json"):
-            meta = eval(l.decode("utf-8"))
+            meta = ast.literal_eval(l.decode("utf-8"))
             results.append(
                 (
                     meta["asin"],
-- 
2.43.0


From ac391bbb6df783effd1bd792678c722c8e49a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:04 +0000
Subject: [PATCH 10/29] fix: the Hugging Face token is sent to Hugging Face
 only

_download() took HF_TOKEN from the environment for Azure URLs too, and urllib
forwarded the Authorization header to whatever host the mirror redirected to.
---
 src/irspack/dataset/mind.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 2056cfb..879552c 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -115,13 +115,16 @@ class MINDDataManager:
 
     @staticmethod
     def _download(url: str, path: Path, hf_token: Optional[str] = None) -> None:
-        token = (
-            hf_token
-            or os.environ.get("HF_TOKEN")
-            or os.environ.get("HUGGING_FACE_HUB_TOKEN")
-        )
-        headers = {"Authorization": f"Bearer {token}"} if token else {}
-        request = urllib.request.Request(url, headers=headers)
+        request = urllib.request.Request(url)
+        if url.startswith(f"{MINDDataManager.HUGGINGFACE_BASE_URL}/"):
+            token = (
+                hf_token
+                or os.environ.get("HF_TOKEN")
+                or os.environ.get("HUGGING_FACE_HUB_TOKEN")
+            )
+            if token:
+                # Not forwarded to the storage host the mirror redirects to.
+                request.add_unredirected_header("Authorization", f"Bearer {token}")
         temporary_path: Optional[Path] = None
         try:
             with urllib.request.urlopen(request) as response:
-- 
2.43.0


From 11d59263f35df14052de81df0e48e956f4568143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:53 +0000
Subject: [PATCH 11/29] fix: a MIND download cut short by the connection is
 rejected

http.client reports no error when a response read in blocks ends before its
Content-Length, so the truncated archive was moved to its final path.
---
 src/irspack/dataset/mind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/irspack/dataset/mind.py b/src/irspack/dataset/mind.py
index 879552c..3ebe853 100644
--- a/src/irspack/dataset/mind.py
+++ b/src/irspack/dataset/mind.py
@@ -133,6 +133,9 @@ class MINDDataManager:
                 ) as output:
                     temporary_path = Path(output.name)
                     shutil.copyfileobj(response, output)
+                    expected = response.headers.get("Content-Length")
+                    if expected is not None and output.tell() != int(expected):
+                        raise RuntimeError(f"the download of {url} was interrupted")
             temporary_path.replace(path)
         except HTTPError as err:
             if err.code in (401, 403):
-- 
2.43.0


From b24c5939a1e81cf70609b3cba6621c1d087399e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 12/29] fix: single-user recommendation keeps items with an
 infinitely high score

np.isinf() also skipped +inf, so the best item was left out in favour of lower
scored ones, unlike in the batch version.
---
 src/irspack/utils/id_mapping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 8d8e47f..565bbd8 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -245,7 +245,7 @@ class ItemIDMapper(Generic[ItemIdType]):
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
-            if np.isinf(score_this):
+            if score_this == -np.inf:
                 continue
             if forbidden_item_ids is not None:
                 if item_id in forbidden_item_ids:
-- 
2.43.0


From c0e31bd50b91af080131fd114ed5ec88a884bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 13/29] fix: single-user recommendation with cutoff 0 returns
 nothing

The cutoff was only tested after an item had been appended.
---
 src/irspack/utils/id_mapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 565bbd8..02104d1 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -242,6 +242,8 @@ class ItemIDMapper(Generic[ItemIdType]):
             high_score_inds = score.argsort()[::-1]
         recommendations: List[Tuple[ItemIdType, float]] = []
         for i in high_score_inds:
+            if len(recommendations) >= cutoff:
+                break
             i_int = int(i)
             score_this = score[i_int]
             item_id = self.item_ids[i_int]
@@ -251,8 +253,6 @@ class ItemIDMapper(Generic[ItemIdType]):
                 if item_id in forbidden_item_ids:
                     continue
             recommendations.append((item_id, float(score_this)))
-            if len(recommendations) >= cutoff:
-                break
         return recommendations
 
     def score_to_recommended_items_batch(
-- 
2.43.0


From 393edbf080aad2fbeb2c2ebd639874564905623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 14/29] fix: batch recommendation leaves the given score array
 alone

Forbidden items were masked in the caller's array.
---
 src/irspack/utils/id_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/irspack/utils/id_mapping.py b/src/irspack/utils/id_mapping.py
index 02104d1..0d60e8e 100644
--- a/src/irspack/utils/id_mapping.py
+++ b/src/irspack/utils/id_mapping.py
@@ -304,6 +304,7 @@ class ItemIDMapper(Generic[ItemIdType]):
         elif allowed_item_ids is not None:
             allowed_item_indices = [self._item_id_list_to_index_list(allowed_item_ids)]
         if forbidden_item_ids is not None:
+            score = score.copy()
             for u, forbidden_ids_per_user in enumerate(forbidden_item_ids):
                 score[
                     u, self._item_id_list_to_index_list(forbidden_ids_per_user)
-- 
2.43.0


From 006d28759cddd9b7b528dcae4457c9e36f8ec08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:55 +0000
Subject: [PATCH 15/29] fix: computing the regularisation scale leaves the
 given matrix unsorted

---
 src/irspack/recommenders/ials.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/irspack/recommenders/ials.py b/src/irspack/recommenders/ials.py
index ba422e8..d69249c 100644
--- a/src/irspack/recommenders/ials.py
+++ b/src/irspack/recommenders/ials.py
@@ -231,7 +231,6 @@ class IALSConfig(BaseEarlyStoppingRecommenderConfig):
 
 def compute_reg_scale(X: sps.csr_matrix, alpha0: float, nu: float) -> float:
     X_csr: sps.csr_matrix = X.tocsr()
-    X_csr.sort_indices()
     X_csc = X_csr.tocsc()
     X_csc.sort_indices()
     U, I = X.shape
-- 
2.43.0


From 2d148fe0c556062af65496573d3e6027afbef7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:32 +0000
Subject: [PATCH 16/29] fix: the cold-user evaluator rejects an input with
 another number of items

---
 src/irspack/evaluation/evaluator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/irspack/evaluation/evaluator.py b/src/irspack/evaluation/evaluator.py
index 066b052..dc59a0f 100644
--- a/src/irspack/evaluation/evaluator.py
+++ b/src/irspack/evaluation/evaluator.py
@@ -525,6 +525,10 @@ class EvaluatorWithColdUser(Evaluator):
 
         n_cold_items = 0 if cold_item_features is None else cold_item_features.shape[0]
         n_warm_items = input_interaction.shape[1]
+        if cold_item_features is None and ground_truth.shape[1] != n_warm_items:
+            raise ValueError(
+                "input_interaction and ground_truth must have the same number of columns."
+            )
         if cold_item_features is not None:
             expected_n_items = n_warm_items + n_cold_items
             if ground_truth.shape[1] != expected_n_items:
-- 
2.43.0


From 4d92aab6a669ef2e6bd33ecd15b7e9be9906cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 17/29] fix: run and wait for every evaluator and retrieval
 worker

The default launch policy may defer a task, and the futures were destroyed
without get(): a deferred task never ran, and an exception thrown in a
worker was dropped.
---
 cpp_source/evaluator.cpp | 6 +++++-
 cpp_source/util.hpp      | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 795d8e8..9d52cd6 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -216,7 +216,8 @@ struct EvaluatorCore {
     std::atomic<std::size_t> cursor(0);
     vector<std::future<void>> workers;
     for (size_t th = 0; th < n_threads; th++) {
-      workers.emplace_back(std::async([this, &cursor, n_rows]() {
+      workers.emplace_back(std::async(std::launch::async, [this, &cursor,
+                                                         n_rows]() {
         std::vector<size_t> indices(this->X_.cols());
         while (true) {
           size_t current = cursor.fetch_add(1);
@@ -251,6 +252,9 @@ struct EvaluatorCore {
         }
       }));
     }
+    for (auto &worker : workers) {
+      worker.get();
+    }
   }
 
   template <typename ScoreFloatType>
diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index a19e162..1399a66 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -441,7 +441,8 @@ retrieve_recommend_from_score(
   const size_t n_users = static_cast<size_t>(score.rows());
   for (size_t thread = 0; thread < std::min(n_threads, n_users); thread++) {
     workers.emplace_back(
-        std::async([&score, cutoff, &allowed_indices, &cursor, &result]() {
+        std::async(std::launch::async, [&score, cutoff, &allowed_indices,
+                                        &cursor, &result]() {
           const int64_t n_rows = score.rows();
           const int64_t n_items = score.cols();
           std::vector<score_and_index> index_holder;
@@ -499,7 +500,9 @@ retrieve_recommend_from_score(
           }
         }));
   }
-  workers.clear();
+  for (auto &worker : workers) {
+    worker.get();
+  }
   return result;
 }
 
-- 
2.43.0


From ea4ae5a14967f485ab895d096fc9abf2651723d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 18/29] fix: assign Metrics of the same item count with its own
 total_user

---
 cpp_source/evaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 9d52cd6..2abcd20 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -61,9 +61,9 @@ struct Metrics {
         precision(other.precision), map(other.map), n_item(other.n_item),
         item_cnt(other.item_cnt), dcg_discount(other.dcg_discount) {}
   inline Metrics &operator=(const Metrics &other) {
-    check_arg(this->n_item != other.n_item, "inconsistent n_item.");
+    check_arg(this->n_item == other.n_item, "inconsistent n_item.");
     this->valid_user = other.valid_user;
-    this->total_user = other.valid_user;
+    this->total_user = other.total_user;
     this->hit = other.hit;
     this->recall = other.recall;
     this->ndcg = other.ndcg;
-- 
2.43.0


From f42c1e15a62b3fde7b49cb4a5cb7e3ef6706c5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 19/29] fix: leave users without ground truth out of list-based
 averages

They were counted as valid and made recall, ndcg and map NaN (0 / 0).
---
 cpp_source/evaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 2abcd20..3be5152 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -423,6 +423,9 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
               gt_as_set.insert(gt_index);
             }
             metrics_local.increment_total_user();
+            if (gt_as_set.empty()) {
+              continue;
+            }
             metrics_local.update(row_recommendations, gt_as_set, false);
           }
           return metrics_local;
-- 
2.43.0


From 3085a8b2152d75dd27c55b0fe20dfac0ae548a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 20/29] fix: reject n_threads == 0 in evaluate_list_vs_list

No worker was started and all-zero metrics were returned.
---
 cpp_source/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 3be5152..2fbeebd 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -380,6 +380,7 @@ private:
 Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                               const vector<vector<size_t>> &ground_truth,
                               size_t n_items, size_t n_threads) {
+  check_arg(n_threads > 0, "n_threads must be strictly positive.");
   check_arg(recommendation.size() == ground_truth.size(),
             "recommendation array and ground_truth array has different size.");
   size_t n_recommendation_max = 0;
-- 
2.43.0


From f0aff3d2621f3da18a859745811f9df6711f971d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 21/29] fix: reject recommendation lists longer than n_items

The discount table has n_items entries and was read past its end.
---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 2fbeebd..7c2db74 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -391,6 +391,8 @@ Metrics evaluate_list_vs_list(const vector<vector<size_t>> &recommendation,
                 "found recommendation index larger than n_items.");
     }
   }
+  check_arg(n_recommendation_max <= n_items,
+            "found a recommendation list longer than n_items.");
   size_t n_gt_max = 0;
   for (auto &gt : ground_truth) {
     n_gt_max = std::max(gt.size(), n_gt_max);
-- 
2.43.0


From 53ddbf8f599878ebc67991242c26768fd751dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 22/29] fix: check the number of score columns in get_metrics

A narrower score matrix was read past its end.
---
 cpp_source/evaluator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/evaluator.cpp b/cpp_source/evaluator.cpp
index 7c2db74..a053cd8 100644
--- a/cpp_source/evaluator.cpp
+++ b/cpp_source/evaluator.cpp
@@ -265,6 +265,8 @@ struct EvaluatorCore {
     this->cache_X_map(n_threads);
     Metrics overall(n_items);
     check_arg(n_threads > 0, "n_threads == 0");
+    check_arg(static_cast<size_t>(scores.cols()) == n_items,
+              "scores.shape[1] must be equal to n_items");
     check_arg(n_users > offset, "got offset >= n_users");
     check_arg(static_cast<size_t>(offset + scores.rows()) <= n_users,
               "offset + scores.shape[0] exceeds n_users");
-- 
2.43.0


From e85388416c0eecbe722e23894533bb0295588aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 23/29] fix: keep fractional interaction values in row-wise
 splits

Triplets were stored as integers, truncating the held-out and kept values.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1399a66..1f987b4 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -76,7 +76,7 @@ struct SplitFunction {
   split_imple(const CSRMatrix<Real> &X, std::int64_t random_seed,
               Args... args) {
     Derived::check_args(args...);
-    using Triplet = Eigen::Triplet<Integer>;
+    using Triplet = Eigen::Triplet<Real>;
     std::mt19937 random_state(random_seed);
     std::vector<Integer> col_buffer;
     std::vector<Real> data_buffer;
@@ -105,7 +105,7 @@ struct SplitFunction {
       }
     }
     CSRMatrix<Real> X_train(X.rows(), X.cols()), X_test(X.rows(), X.cols());
-    auto dupfunction = [](const Integer &a, const Integer &b) { return a + b; };
+    auto dupfunction = [](const Real &a, const Real &b) { return a + b; };
     X_train.setFromTriplets(train_data.begin(), train_data.end(), dupfunction);
     X_test.setFromTriplets(test_data.begin(), test_data.end(), dupfunction);
     X_train.makeCompressed();
-- 
2.43.0


From 87e59a8d2e85d135b11cd099da29b6321d135511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 24/29] fix: sort only this column's coefficients in SLIM's
 top_k

The rest of the buffer holds entries of other columns, which could be taken
in place of this column's own.
---
 cpp_source/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index 1f987b4..d825262 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -392,7 +392,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
             }
             int64_t n_taken_coeffs = nnz;
             if (nnz > top_k) {
-              std::sort(argsort_buffer.begin(), argsort_buffer.end(),
+              std::sort(argsort_buffer.begin(), iter,
                         [](RealAndIndex val1, RealAndIndex val2) {
                           return val1.first > val2.first;
                         });
-- 
2.43.0


From 90fc8b4ebdff9746067eaddb1b99366c7bcbd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 25/29] fix: rank double scores in double precision

Narrowing to float made distinct scores tie and finite ones overflow.
---
 cpp_source/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index d825262..d9ba322 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -424,12 +424,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
 }
 
 template <typename Real>
-inline std::vector<std::vector<std::pair<int64_t, float>>>
+inline std::vector<std::vector<std::pair<int64_t, Real>>>
 retrieve_recommend_from_score(
     const RowMajorMatrix<Real> &score,
     const std::vector<std::vector<int64_t>> &allowed_indices,
     const size_t cutoff, size_t n_threads) {
-  using score_and_index = std::pair<int64_t, float>;
+  using score_and_index = std::pair<int64_t, Real>;
   check_arg(n_threads > 0, "n_threads must not be 0.");
   check_arg(
       (score.rows() == static_cast<int64_t>(allowed_indices.size())) ||
-- 
2.43.0


From 2129562f9649faba55a84c0242cb4a2687583784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 26/29] fix: zero the iALS factors when init_stdev is not
 positive

They were left uninitialised.
---
 cpp_source/als/IALSTrainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index c18aa0f..4f99cc3 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -72,6 +72,8 @@ struct Solver {
           factor(i, k) = dist(gen);
         }
       }
+    } else {
+      factor.setZero();
     }
   }
 
-- 
2.43.0


From c7e8a0090467baf642ce601b22e96a5ef4f72f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 27/29] fix: restore an iALS trainer where the core count is
 unknown

hardware_concurrency() may return 0, which prepare_p rejects.
---
 cpp_source/als/IALSTrainer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index 4f99cc3..a61ddce 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -750,7 +750,8 @@ struct IALSTrainer {
       : config_(config), K(user_.cols()), n_users(user_.rows()),
         n_items(item_.rows()), user(user_), item(item_), user_solver(config),
         item_solver(config) {
-    const size_t processor_count = std::thread::hardware_concurrency();
+    const size_t processor_count =
+        std::max<size_t>(std::thread::hardware_concurrency(), 1);
     auto solver_config =
         SolverConfig::Builder{}.set_n_threads(processor_count).build();
     this->user_solver.prepare_p(item, config, solver_config);
-- 
2.43.0


From a8ead22a13da503f3bd1340bd7dda3ce1d243d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:47 +0000
Subject: [PATCH 28/29] fix: SLIM coordinate order no longer depends on thread
 scheduling

---
 cpp_source/util.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp_source/util.hpp b/cpp_source/util.hpp
index d9ba322..ea2062f 100644
--- a/cpp_source/util.hpp
+++ b/cpp_source/util.hpp
@@ -250,11 +250,7 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
                                                          l2_coeff, l1_coeff,
                                                          n_iter, tol, top_k] {
       const int64_t F = X_csc.cols();
-      std::mt19937 gen(0);
       std::vector<int64_t> indices(F);
-      for (int64_t i = 0; i < F; i++) {
-        indices[i] = i;
-      }
       MatrixType remnants(block_size, X_csc.rows());
       MatrixType coeffs(block_size, F);
       VectorType coeff_temp(block_size);
@@ -278,6 +274,12 @@ inline CSCMatrix<Real> SLIM(const CSRMatrix<Real> &X, size_t n_threads,
         int64_t block_begin = current_cursor;
         int64_t block_end = std::min(block_begin + block_size, F);
         int64_t valid_block_size = block_end - block_begin;
+        // The order of the coordinates must not depend on which blocks this
+        // thread happened to process before.
+        std::mt19937 gen(0);
+        for (int64_t i = 0; i < F; i++) {
+          indices[i] = i;
+        }
         remnants.setZero();
         coeffs.setZero();
 
-- 
2.43.0


From cf8f006e1cc5819d47523b7f5cc49dab6027e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:37 +0000
Subject: [PATCH 29/29] fix: refuse to train a deserialized IALSTrainer that
 carries no interactions

---
 cpp_source/als/IALSTrainer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp_source/als/IALSTrainer.hpp b/cpp_source/als/IALSTrainer.hpp
index a61ddce..388b207 100644
--- a/cpp_source/als/IALSTrainer.hpp
+++ b/cpp_source/als/IALSTrainer.hpp
@@ -759,6 +759,7 @@ struct IALSTrainer {
   }
 
   inline void step(const SolverConfig &solver_config) {
+    check_has_interactions();
     if (feature_aware_ && solver_config.solver_type == SolverType::IALSPP)
       throw std::invalid_argument(
           "Feature-aware iALS does not support IALSPP.");
@@ -837,6 +838,7 @@ struct IALSTrainer {
   }
 
   inline Real compute_loss(const SolverConfig &solver_config) {
+    check_has_interactions();
     this->user_solver.prepare_p(item, config_, solver_config);
     this->item_solver.prepare_p(user, config_, solver_config);
     Real loss = 0;
@@ -1001,6 +1003,14 @@ private:
   bool feature_aware_ = false;
   size_t epoch_ = 0;
 
+  // The serialized state does not carry the interactions.
+  inline void check_has_interactions() const {
+    if (static_cast<size_t>(X.rows()) != n_users ||
+        static_cast<size_t>(X.cols()) != n_items)
+      throw std::runtime_error(
+          "A deserialized IALSTrainer has no interactions to train on.");
+  }
+
   inline void initialize_feature_aware(size_t user_feature_rows,
                                        size_t user_feature_cols,
                                        size_t item_feature_rows,
-- 
2.43.0

