R = "src/irspack/recommenders/"
ES = R + "base_earlystop.py"; IA = R + "ials.py"; OP = "src/irspack/optimization/optimizer.py"; BPR = R + "bpr.py"
UW = "src/irspack/split/userwise.py"; SP = "src/irspack/split/specified.py"; TI = "src/irspack/split/time.py"
TH = "src/irspack/_threading.py"; ID = "src/irspack/utils/id_mapping.py"; DL = "src/irspack/dataset/downloader.py"
UT = "src/irspack/utils/__init__.py"; E = "src/irspack/evaluation/evaluator.py"; B = R + "base.py"
IALS_FAKE = '''
class Builder:
    def __init__(self): self.d = {}
    def __getattr__(self, n):
        if not n.startswith("set_"): raise AttributeError(n)
        def f(v): self.d[n[4:]] = v; return self
        return f
    def build(self): return dict(self.d)
class Core:
    calls = []
    def __init__(self, config, X, uf=None, itf=None):
        self.config, self.X, self.uf, self.itf = config, X, uf, itf
        k = config["K"]
        self.user = np.zeros((X.shape[0], k)); self.item = np.zeros((X.shape[1], k))
        self.user_feature_weight = np.zeros((0 if uf is None else uf.shape[1], k)); self.item_feature_weight = np.zeros((0 if itf is None else itf.shape[1], k))
        Core.last = self
    def step(self, cfg): pass
    def transform_user(self, X, cfg): Core.calls.append(("u", X, cfg)); return np.zeros((X.shape[0], self.config["K"]))
    def transform_user_with_feature(self, X, f, cfg): Core.calls.append(("uf", X, cfg)); return np.zeros((X.shape[0], self.config["K"]))
class St:
    CG = "CG"; CHOLESKY = "CHOLESKY"; IALSPP = "IALSPP"
class Lt:
    ORIGINAL = "ORIGINAL"; IALSPP = "IALSPP"
stubs.install(_ials_core=dict(IALSModelConfigBuilder=Builder, IALSSolverConfigBuilder=Builder, IALSTrainer=Core, SolverType=St, LossType=Lt))
from irspack.recommenders.ials import IALSRecommender
'''
SEEDS = [
 dict(id="b04_tie_snapshot", prop="C04", edits=[(ES, "            if relevant_score > best_score:\n", "            if relevant_score >= best_score:\n")],
      needs="two validations with exactly the same best score", what="a later tie replaces the snapshot and the learnt number of epochs, and resets the patience",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.recommenders.base_earlystop import BaseRecommenderWithEarlyStopping, TrainerBase
class T(TrainerBase):
    n = 0
    def run_epoch(self): self.n += 1
    def save_state(self, o): o.write(bytes([self.n]))
    def load_state(self, i): self.n = i.read()[0]
class R(BaseRecommenderWithEarlyStopping):
    def _create_trainer(self): return T()
    def get_score(self, u): return None
class Ev:
    target_metric_name = "x"
    s = iter([0.1, 0.5, 0.5, 0.2, 0.5, 0.3])
    def get_target_score(self, m): return next(self.s)
r = R(sps.csr_matrix(np.eye(3)))
r.learn_with_optimizer(Ev(), None, max_epoch=6, validate_epoch=1, score_degradation_max=9)
assert r.trainer.n == 2 and r.learnt_config["train_epochs"] == 2, (r.trainer.n, r.learnt_config)
'''),
 dict(id="b05_item_weight_lost", prop="C05", edits=[(IA, '        if "user_feature_weight" in params:\n', '        if params.get("user_feature_weight") is not None and len(\n            params["user_feature_weight"]\n        ):\n')],
      needs="a model trained with item features only, stopped early", what="the learnt item feature weight is not restored with the snapshot",
      demo="import stubs\nimport numpy as np, scipy.sparse as sps\n" + IALS_FAKE + '''
from io import BytesIO
X = sps.csr_matrix(np.eye(4, 5))
r = IALSRecommender(X, n_components=2, item_features=np.ones((5, 3)), n_threads=1)
r.start_learning()
c = r.trainer.core_trainer
c.item_feature_weight = np.full((3, 2), 7.0)
r.save_state()
c.item_feature_weight = np.full((3, 2), 9.0)
r.load_state()
assert (c.item_feature_weight == 7.0).all()
'''),
 dict(id="b06_fixed_overridden", prop="C06", edits=[(OP, "            params.update(self.recommender_params)\n", "            params = {**self.recommender_params, **params}\n")],
      needs="a parameter that is both fixed by the caller and suggested", what="the suggested value wins over the value the caller fixed",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps, logging
from irspack.optimization.optimizer import *
import irspack.optimization.optimizer as m
got = []
class Rec:
    learnt_config = {}
    def __init__(self, data, **p): got.append(p)
    def learn_with_optimizer(self, *a, **k): pass
class Ev:
    cutoff = 5
    class target_metric: name = "ndcg"
    def get_score(self, r): return {"ndcg": 0.5}
class Study:
    user_attrs = {}
    def set_user_attr(self, *a): pass
class Trial:
    number = 0
    study = Study()
    def set_user_attr(self, *a): pass
    def suggest_int(self, n, *a): return 3
o = m.Optimizer(lambda t: None, lambda t: {"k": t.suggest_int("k", 1, 9), "b": 1}, {"k": 42}, Ev(), logger=logging.getLogger("x"))
o.objective_function(Rec)(Trial())
assert got == [{"k": 42, "b": 1}], got
'''),
 dict(id="b07_alpha_sides", prop="C07", edits=[(BPR, "            item_alpha=item_alpha,\n            user_alpha=user_alpha,\n            loss=loss,\n        )\n\n    def run", "            item_alpha=user_alpha,\n            user_alpha=user_alpha,\n            loss=loss,\n        )\n\n    def run")],
      needs="different item_alpha and user_alpha", what="item_alpha never reaches the learner",
      demo='''
import stubs, sys, types; stubs.install()
made = []
lf = types.ModuleType("lightfm")
class LightFM:
    def __init__(self, **k): made.append(k)
lf.LightFM = LightFM
sys.modules["lightfm"] = lf
import numpy as np, scipy.sparse as sps
from irspack.recommenders.bpr import BPRFMTrainer
BPRFMTrainer(sps.csr_matrix(np.eye(3)), 2, 0.25, 0.5, "bpr", 1)
assert made[0]["item_alpha"] == 0.25 and made[0]["user_alpha"] == 0.5, made
'''),
 dict(id="b08_train_users_twice", prop="C08", edits=[(SP, "            df[~df[user_column].isin(validatable_users)],\n", "            df[~df[user_column].isin(v_val_test_users)],\n")],
      needs="validatable users that end up in the training part (ratios that do not sum to one)", what="every interaction of a validatable training user enters the training matrix twice",
      demo='''
import stubs; stubs.install()
import numpy as np, pandas as pd
from irspack.split import holdout_specific_interactions
df = pd.DataFrame({"u": np.repeat(np.arange(10), 4), "i": np.tile(np.arange(4), 10)})
ids, d = holdout_specific_interactions(df, "u", "i", np.where(df.i.values == 3)[0], 0.2, 0.2, random_state=0)
assert sum(x.X_all.nnz for x in d.values()) == 40
assert all((x.X_all.data == 1).all() for x in d.values())
'''),
 dict(id="b09_unsorted_counts", prop="C09", edits=[(TI, "reindex(df_sorted[user_column].values)", "reindex(df[user_column].values)")],
      needs="ratio mode and a frame whose rows are not grouped by user", what="the number of held-out rows of a user is taken from another user's history length",
      demo='''
import stubs; stubs.install()
import numpy as np, pandas as pd
from irspack.split import split_last_n_interaction_df
u = [1, 0, 0, 0, 1, 0, 0, 0, 0, 0]
df = pd.DataFrame({"u": u, "t": np.arange(10)})
a, b = split_last_n_interaction_df(df, "u", "t", heldout_ratio=0.5)
assert b.u.value_counts().to_dict() == {0: 4, 1: 1}, b
'''),
 dict(id="b10_second_shuffle", prop="C10", edits=[(UW, "        val_uids, test_uids = _split_list(\n            val_test_uids,\n            n_test_user,\n            rns,\n        )", "        val_uids, test_uids = _split_list(\n            val_test_uids,\n            n_test_user,\n            np.random.RandomState(None if n_val_user else 0),\n        )")],
      needs="both validation and test users requested", what="which users are validation and which are test is not controlled by random_state",
      demo='''
import stubs
import numpy as np, pandas as pd, scipy.sparse as sps
def half(X, *a): return X, X * 0
stubs.install(_util_cpp=dict(rowwise_train_test_split_by_ratio=half, rowwise_train_test_split_by_fixed_n=half))
from irspack.split import split_dataframe_partial_user_holdout
df = pd.DataFrame({"u": np.repeat(np.arange(60), 3), "i": np.tile(np.arange(3), 60)})
def run():
    d, _ = split_dataframe_partial_user_holdout(df, "u", "i", n_val_user=15, n_test_user=15, random_state=7)
    return [list(d[k].user_ids) for k in ("train", "val", "test")]
first = run()
for _ in range(4):
    assert run() == first
'''),
 dict(id="b12_zero_threads", prop="C12", edits=[(TH, "    if n_threads is not None:\n", "    if n_threads:\n")],
      needs="n_threads=0", what="an explicit zero is silently replaced by the default instead of being refused",
      demo='''
import stubs; stubs.install()
from irspack._threading import get_n_threads
assert get_n_threads(3) == 3
try:
    v = get_n_threads(0)
except ValueError:
    v = 0
assert v == 0, v
'''),
 dict(id="b13_unknown_first", prop="C13", edits=[(ID, "            data = []\n            cols = []\n            for id, score in profile.items():\n                if id in self.item_id_to_index:\n                    data.append(score)\n                    cols.append(self.item_id_to_index[id])\n",
       "            cols = self._item_id_list_to_index_list(profile)\n            data = list(profile.values())[: len(cols)]\n")],
      needs="a profile dictionary that holds an unknown item before a known one", what="ratings are attached to the wrong items",
      demo='''
import stubs; stubs.install()
from irspack.utils.id_mapping import ItemIDMapper
m = ItemIDMapper(["a", "b", "c"])
X = m.list_of_user_profile_to_matrix([{"a": 1.0, "c": 3.0}, {"zz": 9.0, "b": 2.0}])
assert X.toarray().tolist() == [[1, 0, 3], [0, 2, 0]], X.toarray()
'''),
 dict(id="b14_preselect", prop="C14", edits=[(ID, "            high_score_inds = score.argsort()[::-1]\n", "            high_score_inds = score.argsort()[::-1][:cutoff]\n")],
      needs="forbidden items among the top cutoff scores and no list of allowed items", what="the list is cut before forbidden items are removed, so it comes out short",
      demo='''
import stubs; stubs.install()
import numpy as np
from irspack.utils.id_mapping import ItemIDMapper
m = ItemIDMapper(list("abcde"))
r = m.score_to_recommended_items(np.array([5.0, 4.0, 3.0, 2.0, 1.0]), 2, forbidden_item_ids=["a"])
assert [x[0] for x in r] == ["b", "c"], r
'''),
 dict(id="b15_empty_answer", prop="C15", edits=[(DL, '                    ).lower()\n                    == "y"\n', '                    ).lower()\n                    in ("y", "yes", "")\n')],
      needs="the user just presses return", what="an empty answer counts as consent to download although the prompt says [y/N]",
      demo='''
import stubs; stubs.install()
import builtins, tempfile, os, pathlib, zipfile
from irspack.dataset.downloader import BaseDownloader
hits = []
class D(BaseDownloader):
    def _save_to_zippath(self, path):
        hits.append(path)
        with zipfile.ZipFile(path, "w") as z: z.writestr("x", "1")
builtins.input = lambda *a: ""
with tempfile.TemporaryDirectory() as t:
    try:
        D(pathlib.Path(t) / "a.zip")
    except RuntimeError:
        pass
assert not hits
'''),
 dict(id="b16_unfit_user_similarity", prop="C16", edits=[(B, "        self._X_csc: sps.csc_matrix = self.X_train_all.tocsc()\n        self.U_ = None\n", "        self._X_csc: sps.csc_matrix = self.X_train_all.tocsc()\n        self.U_ = sps.eye(self.n_users, format=\"csr\")\n")],
      needs="scoring a user-based neighbourhood model before learning", what="an unfitted user-similarity model returns the training data as scores instead of raising",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.recommenders.base import BaseUserSimilarityRecommender
class R(BaseUserSimilarityRecommender):
    def _learn(self): pass
r = R(sps.csr_matrix(np.eye(3)))
try:
    r.get_score(np.arange(2))
except RuntimeError:
    raise SystemExit(0)
raise SystemExit("no error before learning")
'''),
 dict(id="b18_feature_unscaled", prop="C18", edits=[(IA, "        return self.trainer_as_ials.transform_user(\n            self._scale_X(\n                sps.csr_matrix(X).astype(np.float32),\n                self.confidence_scaling,\n                self.epsilon,\n            ),\n",
       "        X_f32 = sps.csr_matrix(X).astype(np.float32)\n        if user_features is None or self.user_features is None:\n            X_f32 = self._scale_X(X_f32, self.confidence_scaling, self.epsilon)\n        return self.trainer_as_ials.transform_user(\n            X_f32,\n")],
      needs="log confidence scaling and fold-in with user features", what="new users with features are folded in with unscaled confidences",
      demo="import stubs\nimport numpy as np, scipy.sparse as sps\n" + IALS_FAKE + '''
X = sps.csr_matrix(np.eye(4, 5) * 3.0)
r = IALSRecommender(X, n_components=2, user_features=np.ones((4, 3)), confidence_scaling="log", epsilon=0.5, n_threads=1)
r.start_learning()
r.compute_user_embedding(X, user_features=np.ones((4, 3)))
r.compute_user_embedding(X)
for c in Core.calls:
    assert np.allclose(c[1].data, Core.last.X.data), (c[0], c[1].data)
assert np.allclose(Core.last.X.data, np.log(1 + 3 / 0.5))
'''),
 dict(id="b20_extra_ids", prop="C20", edits=[(UW, "        if len(user_ids) != X_train.shape[0]:\n", "        if len(user_ids) < X_train.shape[0]:\n")],
      needs="more user IDs than matrix rows", what="surplus user IDs are accepted",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.split import UserTrainTestInteractionPair as P
X = sps.csr_matrix(np.eye(3))
P([1, 2, 3], X, None)
for ids in ([1, 2], [1, 2, 3, 4]):
    try:
        P(ids, X, None)
    except ValueError:
        continue
    raise SystemExit(f"accepted {ids}")
'''),
 dict(id="b22_block_tail", prop="C22", edits=[(R + "truncsvd.py", "        res: DenseScoreArray = self.z[begin:end].dot(self.decomposer.components_)\n", "        res: DenseScoreArray = self.decomposer.transform(\n            self.X_train_all[begin:end]\n        ).dot(self.decomposer.components_[: self.n_components // 2 + 1])\n" if False else "        rows = np.arange(self.n_users)[begin:end]\n        res: DenseScoreArray = self.z[rows - (end > self.n_users)].dot(\n            self.decomposer.components_\n        )\n"), (R + "truncsvd.py", "from sklearn", "import numpy as np\nfrom sklearn")],
      needs="a block request that reaches past the last user", what="the final block is shifted by one user relative to index scoring",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.recommenders.truncsvd import TruncatedSVDRecommender
r = TruncatedSVDRecommender(sps.csr_matrix(np.random.RandomState(0).rand(7, 9)), n_components=3).learn()
for b, e in ((0, 3), (3, 7), (4, 9)):
    assert np.allclose(r.get_score_block(b, e), r.get_score(np.arange(7)[b:e]))
'''),
 dict(id="b23_restriction_empty", prop="C23", edits=[(E, "        if recommendable_items is None:\n            if per_user", "        if not recommendable_items:\n            if per_user")],
      needs="an empty common list of recommendable items", what="an empty restriction is treated as no restriction, so metrics over all items are reported",
      demo='''
import stubs
seen = []
class Core:
    def __init__(self, gt, rec): seen.append(rec)
stubs.install(_core_evaluator=dict(EvaluatorCore=Core))
import numpy as np, scipy.sparse as sps
from irspack.evaluation.evaluator import Evaluator
gt = sps.csr_matrix(np.eye(3))
Evaluator(gt, n_threads=1); Evaluator(gt, recommendable_items=[1], n_threads=1)
try:
    Evaluator(gt, recommendable_items=[], n_threads=1)
except ValueError:
    raise SystemExit(0)
assert seen == [[], [[1]], [[]]], seen
'''),
 dict(id="b24_forbidden_in_place", prop="C03", edits=[(ID, "            score = score.copy()\n", "            score = np.ascontiguousarray(score)\n")],
      needs="forbidden items and a C-contiguous score array that the caller keeps", what="the caller's score array is overwritten with minus infinity",
      demo='''
import stubs
stubs.install(_util_cpp=dict(retrieve_recommend_from_score_f64=lambda s, a, c, n_threads=1: [[] for _ in range(s.shape[0])]))
import numpy as np
from irspack.utils.id_mapping import ItemIDMapper
s = np.ones((2, 3))
ItemIDMapper(list("abc")).score_to_recommended_items_batch(s, 2, forbidden_item_ids=[["a"], ["b"]], n_threads=1)
assert (s == 1).all(), s
'''),
 dict(id="b25_f64_argument_order", prop="C17", edits=[(ID, "        return retrieve_recommend_from_score_f64(\n            score, allowed_item_indices, cutoff, n_threads\n", "        return retrieve_recommend_from_score_f64(\n            score, allowed_item_indices, cutoff, num_threads=n_threads\n")],
      needs="float64 scores", what="the call names a parameter that the native function does not have",
      demo='''
import stubs, ast, glob
src = [f for f in glob.glob("src/irspack/utils/_util_cpp.pyi")][0]
sig = {n.name: [a.arg for a in n.args.args] for n in ast.walk(ast.parse(open(src).read())) if isinstance(n, ast.FunctionDef)}
def native(name):
    def f(*a, **k):
        d = dict(zip(sig[name], a)); assert not set(d) & set(k) and set(k) <= set(sig[name]), (name, k)
        d.update(k); assert d["cutoff"] == 2 and d["n_threads"] == 1
        return [[] for _ in range(d["score"].shape[0])]
    return f
stubs.install(_util_cpp={n: native(n) for n in ("retrieve_recommend_from_score_f32", "retrieve_recommend_from_score_f64")})
import numpy as np
from irspack.utils.id_mapping import ItemIDMapper
for t in (np.float32, np.float64):
    ItemIDMapper(list("abc")).score_to_recommended_items_batch(np.ones((2, 3), dtype=t), 2, n_threads=1)
'''),
 dict(id="b19_diagonal_before_weight", prop="C19", edits=[(R + "knn.py", "        self._W = remove_diagonal(\n            computer.compute_similarity(self.X_train_all.T, self.top_k)\n        ).tocsc()\n", "        W = computer.compute_similarity(self.X_train_all.T, self.top_k)\n        self._W = (remove_diagonal(W) if self.shrinkage else W).tocsc()\n")],
      needs="shrinkage zero", what="with no shrinkage every item is its own nearest neighbour",
      demo='''
import stubs
import numpy as np, scipy.sparse as sps
class C:
    def __init__(self, *a): pass
    def compute_similarity(self, X, k): return sps.csr_matrix(np.ones((X.shape[0], X.shape[0])))
def rd(W):
    W = sps.lil_matrix(W); W.setdiag(0); return sps.csr_matrix(W)
stubs.install(_knn=dict(CosineSimilarityComputer=C), _util_cpp=dict(remove_diagonal=rd))
from irspack.recommenders.knn import CosineKNNRecommender
for s in (0.0, 1.0):
    r = CosineKNNRecommender(sps.csr_matrix(np.eye(3, 4)), shrinkage=s, n_threads=1).learn()
    assert not r.W.diagonal().any(), s
'''),
]
CX = dict(suffix=".cpp")
UH = "cpp_source/util.hpp"; EV = "cpp_source/evaluator.cpp"
SEEDS += [
 dict(CX, id="b30_native_seen_when_allowed", prop="C14", edits=[(UH, "std::numeric_limits<Real>::infinity()) {\n                break;", "std::numeric_limits<Real>::infinity() &&\n                  allowed_indices.size() != 1u) {\n                break;")],
      needs="one common list of allowed items that contains masked items", what="items masked to minus infinity are recommended when the list has room",
      demo='''
#include "util.hpp"
#include <cstdio>
int main() {
  using namespace irspack::sparse_util;
  RowMajorMatrix<double> s(2, 3);
  double inf = std::numeric_limits<double>::infinity();
  s << 3, -inf, 1, -inf, 2, 5;
  for (auto allowed : {std::vector<std::vector<int64_t>>{}, {{0, 1}}, {{0, 1}, {0, 2}}}) {
    auto r = retrieve_recommend_from_score<double>(s, allowed, 3, 2);
    for (auto &l : r) for (auto &p : l) if (p.second == -inf) { std::puts("masked item recommended"); return 1; }
  }
  return 0;
}
'''),
 dict(CX, id="b31_merge_drops_counts", prop="C21", edits=[(EV, "    item_cnt += other.item_cnt;\n", "    if (other.valid_user > 1) {\n      item_cnt += other.item_cnt;\n    }\n")],
      needs="a batch or thread that holds exactly one user with ground truth", what="that user's recommendations are missing from coverage, entropy and gini",
      demo='''
#include <bits/stdc++.h>
#include <Eigen/Sparse>
#define private public
#include "evaluator.cpp"
int main() {
  using namespace irspack::evaluation;
  Metrics a(4), b(4);
  b.valid_user = 1; b.total_user = 1; b.item_cnt(2) = 3;
  a.merge(b);
  if (a.item_cnt(2) != 3) { std::puts("lost"); return 1; }
  return 0;
}
'''),
 dict(CX, id="b32_mm_last_chunk", prop="C11", edits=[(UH, "            std::min(current_position + chunk_size, n_row) - current_position;", "            std::min(current_position + chunk_size, n_row - (n_row % chunk_size == 1)) - current_position;")],
      needs="a number of rows that is one more than a multiple of the chunk size", what="the last row of a threaded sparse product is left zero",
      demo='''
#include "util.hpp"
#include <cstdio>
int main() {
  using namespace irspack; using namespace irspack::sparse_util;
  for (int n = 1; n < 80; n++) {
    CSRMatrix<double> a(n, 2); CSCMatrix<double> b(2, 2);
    for (int i = 0; i < n; i++) a.insert(i, i % 2) = 1;
    b.insert(0, 0) = 1; b.insert(1, 1) = 1;
    a.makeCompressed(); b.makeCompressed();
    auto r = sparse_util::parallel_sparse_product<double>(a, b, 2);
    double s = 0;
    for (int i = 0; i < r.rows(); i++) for (int j = 0; j < r.cols(); j++) s += r.coeff(i, j);
    if (s != n) { std::printf("n=%d sum=%f\\n", n, s); return 1; }
  }
  return 0;
}
'''),
 dict(CX, id="b33_slim_zero_threads", prop="C12", edits=[(UH, '  check_arg(n_threads > 0, "n_threads must be > 0.");\n  check_arg(n_iter > 0', '  check_arg(n_iter > 0')],
      needs="n_threads=0", what="SLIM returns an empty weight matrix instead of refusing zero threads",
      demo='''
#include "util.hpp"
#include <cstdio>
int main() {
  using namespace irspack; using namespace irspack::sparse_util;
  CSRMatrix<double> a(3, 3);
  for (int i = 0; i < 3; i++) a.insert(i, i) = 1;
  a.makeCompressed();
  try { sparse_util::SLIM<double, true>(a, 0, 3, 1.0, 0.0, 1e-4, -1); } catch (std::exception &) { return 0; }
  std::puts("accepted zero threads");
  return 1;
}
'''),
 dict(CX, id="b34_split_ceil", prop="C09", edits=[(UH, "    return std::min(nnz_row, n_held_out);\n", "    return nnz_row > n_held_out ? n_held_out : nnz_row - (nnz_row > 1);\n")],
      needs="a row with fewer interactions than the number to hold out", what="short rows keep one interaction in train although all of them should be held out",
      demo='''
#include "util.hpp"
#include <cstdio>
int main() {
  using namespace irspack; using namespace irspack::sparse_util;
  CSRMatrix<double> a(4, 9);
  for (int i = 0; i < 4; i++) for (int j = 0; j <= 2 * i; j++) a.insert(i, j) = 1;
  a.makeCompressed();
  auto r = sparse_util::SplitFixedN<double>::split(a, 1, 4);
  for (int i = 0; i < 4; i++) {
    int n = r.second.row(i).sum(), w = std::min(2 * i + 1, 4);
    if (n != w) { std::printf("row %d: %d, %d\\n", i, n, w); return 1; }
  }
  return 0;
}
'''),
]

METRIC = '''
#include <bits/stdc++.h>
#include <Eigen/Sparse>
#define private public
#include "evaluator.cpp"
int main() {
  using namespace irspack::evaluation;
  std::mt19937 g(1);
  for (int trial = 0; trial < 300; trial++) {
    size_t n = 2 + g() % 6, K = 1 + g() % n, G = 1 + g() % n;
    std::vector<size_t> items(n), rec; std::unordered_set<size_t> gt;
    for (size_t i = 0; i < n; i++) items[i] = i;
    std::shuffle(items.begin(), items.end(), g);
    rec.assign(items.begin(), items.begin() + K);
    std::shuffle(items.begin(), items.end(), g);
    gt.insert(items.begin(), items.begin() + G);
    for (int cut = 0; cut < 2; cut++) {
      Metrics m(n);
      m.update(rec, gt, cut);
      double hits = 0, dcg = 0, idcg = 0, ap = 0;
      for (size_t i = 0; i < K; i++) if (gt.count(rec[i])) { hits++; dcg += 1 / std::log2(i + 2.); ap += hits / (i + 1.); }
      for (size_t i = 0; i < std::min(G, K); i++) idcg += 1 / std::log2(i + 2.);
      double H = 0, c = K;
      H = std::log(c);
      auto d = m.as_dict();
      auto off = [&](const char *k, double v) { if (std::abs(d[k] - v) > 1e-6) { std::printf("%s %f %f\\n", k, d[k], v); return true; } return false; };
      if (off("hit", hits > 0) || off("precision", hits / K) || off("recall", hits / (cut ? std::min(G, K) : G)) || off("ndcg", dcg / idcg) || off("map", ap / G) || off("entropy", H) || off("appeared_item", c) || off("gini_index", double(n - K) / n)) return 1;
    }
  }
  return 0;
}
'''
SEEDS += [
 dict(CX, id="b35_idcg_bound", prop="C24", edits=[(EV, "dcg_discount.begin() + std::min(n_gt, n_recommendable_items), 0.);", "dcg_discount.begin() + std::min(n_gt, dcg_discount.size()), 0.);")],
      needs="a user with more relevant items than the cutoff", what="the ideal gain counts ranks beyond the cutoff, so a perfect list scores below one", demo=METRIC),
 dict(CX, id="b36_map_rank", prop="C24", edits=[(EV, "        dcg += dcg_discount[i];\n        cum_hit++;\n        average_precision += (static_cast<Real>(cum_hit) / (i + 1));", "        dcg += dcg_discount[i];\n        average_precision += (static_cast<Real>(cum_hit) / (i + 1));\n        cum_hit++;")],
      needs="a relevant recommendation", what="average precision leaves out the relevant item itself", demo=METRIC),
]

KS = "cpp_source/knn/similarities.hpp"
SIMS = '''
#include "knn/similarities.hpp"
#include <cstdio>
#include <functional>
#include <set>
using M = Eigen::SparseMatrix<double, Eigen::RowMajor>;
int main() {
  std::mt19937 g(3);
  for (int trial = 0; trial < 60; trial++) {
    int n = 2 + g() % 9, m = 2 + g() % 9, f = 2 + g() % 6;
    std::vector<std::vector<double>> a(n, std::vector<double>(f)), b(m, std::vector<double>(f));
    M A(n, f), B(m, f);
    for (auto *x : {&a, &b}) for (auto &r : *x) for (auto &v : r) v = g() % 2 ? 1 + g() % 4 : 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < f; j++) if (a[i][j]) A.insert(i, j) = a[i][j];
    for (int i = 0; i < m; i++) for (int j = 0; j < f; j++) if (b[i][j]) B.insert(i, j) = b[i][j];
    double s = g() % 3, al = (g() % 5) / 4., be = g() % 3;
    size_t th = 1 + g() % 3, ch = 1 + g() % 4;
    auto sum = [&](std::function<double(int)> h) { double r = 0; for (int k = 0; k < f; k++) r += h(k); return r; };
    auto near = [&](const M &r, const char *w, std::function<double(std::vector<double> &, std::vector<double> &)> h) {
      for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (std::abs(r.coeff(i, j) - h(b[i], a[j])) > 1e-4) { std::printf("%s %d %d: %f %f\\n", w, i, j, r.coeff(i, j), h(b[i], a[j])); return false; }
      return true; };
    using V = std::vector<double>;
    auto dot = [&](V &x, V &y) { return sum([&](int k) { return x[k] * y[k]; }); };
    auto cnt = [&](V &x, V &y) { return sum([&](int k) { return x[k] && y[k]; }); };
    auto q = [](double x, double y) { return x ? x / y : 0; };
    bool ok = near(KNN::CosineSimilarityComputer<double>(A, s, true, th, ch).compute_similarity(B, n), "cosine", [&](V &x, V &y) { return q(dot(x, y), std::sqrt(dot(x, x) * dot(y, y)) + s); })
      && near(KNN::CosineSimilarityComputer<double>(A, s, false, th, ch).compute_similarity(B, n), "dot", [&](V &x, V &y) { return dot(x, y); })
      && near(KNN::AsymmetricCosineSimilarityComputer<double>(A, s, al, th, ch).compute_similarity(B, n), "asymmetric", [&](V &x, V &y) { return q(dot(x, y), std::pow(dot(x, x), al) * std::pow(dot(y, y), 1 - al) + s); })
      && near(KNN::JaccardSimilarityComputer<double>(A, s, th, ch).compute_similarity(B, n), "jaccard", [&](V &x, V &y) { return q(cnt(x, y), cnt(x, x) + cnt(y, y) - cnt(x, y) + s); })
      && near(KNN::TverskyIndexComputer<double>(A, s, al, be, th, ch).compute_similarity(B, n), "tversky", [&](V &x, V &y) { double c = cnt(x, y); return q(c, c + al * (cnt(x, x) - c) + be * (cnt(y, y) - c) + s); });
    if (!ok) return 1;
  }
  return 0;
}
'''
BM = '''
#include "util.hpp"
#include <cstdio>
int main() {
  using namespace irspack::sparse_util;
  std::mt19937 g(3);
  for (int trial = 0; trial < 60; trial++) {
    int n = 1 + g() % 7, f = 1 + g() % 7;
    std::vector<std::vector<double>> a(n, std::vector<double>(f));
    Eigen::SparseMatrix<double, Eigen::RowMajor> A(n, f);
    std::vector<double> len(n), df(f); double tot = 0;
    for (int i = 0; i < n; i++) for (int j = 0; j < f; j++) if (g() % 2) { A.insert(i, j) = a[i][j] = 1 + g() % 4; len[i] += a[i][j]; tot += a[i][j]; df[j]++; }
    double k1 = 1.2, b = .5;
    auto R = okapi_BM_25_weight<double>(A, k1, b);
    auto S = tf_idf_weight<double>(A, true);
    for (int i = 0; i < n; i++) for (int j = 0; j < f; j++) if (a[i][j]) {
      double v = a[i][j], w = std::log(n / (df[j] + 1) + 1) * v * (k1 + 1) / (v + k1 * (1 - b + b * len[i] / (tot / n))), t = v * std::log(n / (df[j] + 1));
      if (std::abs(R.coeff(i, j) - w) > 1e-6 || std::abs(S.coeff(i, j) - t) > 1e-6) { std::printf("%f %f %f %f\\n", R.coeff(i, j), w, S.coeff(i, j), t); return 1; }
    }
  }
  return 0;
}
'''
SEEDS += [
 dict(CX, id="b37_norm_of_block_row", prop="C25", edits=[(KS, "std::pow(target.row(start + i).squaredNorm(), this->alpha);", "std::pow(target.row(i).squaredNorm(), this->alpha);")],
      needs="more than one block of rows", what="from the second block on, similarities are divided by the norms of the first rows", demo=SIMS),
 dict(CX, id="b38_bm25_mean_length", prop="C25", edits=[(UH, "Real avgdl = doc_length.sum() / N;", "Real avgdl = doc_length.sum() / idf.size();")],
      needs="a matrix with different numbers of rows and columns", what="the mean document length is taken over the columns", demo=BM),
]

SEEDS += [
 dict(id="b39_edlae_large_dropout", prop="C26", edits=[(R + "edlae.py", "lamb = self.dropout_p / q * np.diag(P_dense) + self.reg", "lamb = self.dropout_p / max(q, self.dropout_p) * np.diag(P_dense) + self.reg")],
      needs="a dropout probability above one half", what="the dropout penalty is too small, so the weights are not the documented solution",
      demo='''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.recommenders.edlae import EDLAERecommender
X = sps.csr_matrix(np.random.RandomState(0).randint(0, 3, size=(20, 5)).astype(float))
for p in (0.1, 0.4, 0.7):
    W = np.asarray(EDLAERecommender(X, reg=2.0, dropout_p=p).learn().W)
    G = X.T.dot(X).toarray()
    P = np.linalg.inv(G + np.diag(2.0 + p / (1 - p) * np.diag(G)))
    B = -P / np.diag(P)[None, :]
    np.fill_diagonal(B, 0)
    if np.abs(W - B).max() > 1e-3:
        print(p, W, B); sys.exit(1)
'''),
 dict(id="b40_slim_signed_penalties", prop="C26", edits=[(R + "slim.py", "        else:\n            self._W = slim_weight_allow_negative(", "        else:\n            l1_coeff, l2_coeff = l2_coeff, l1_coeff\n            self._W = slim_weight_allow_negative(")],
      needs="learning without the sign constraint", what="the l1 and l2 penalties change places",
      demo='''
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import stubs
got = []
def rec(X, n_threads, n_iter, l2_coeff, l1_coeff, tol, top_k):
    got.append((l1_coeff, l2_coeff)); return X
stubs.install(_util_cpp=dict(slim_weight_positive_only=rec, slim_weight_allow_negative=rec))
import numpy as np, scipy.sparse as sps
from irspack.recommenders.slim import SLIMRecommender
X = sps.csr_matrix(np.ones((4, 3)))
for pos in (True, False):
    SLIMRecommender(X, alpha=0.5, l1_ratio=0.25, positive_only=pos, n_threads=1).learn()
if any(abs(a - 0.5) > 1e-9 or abs(b - 1.5) > 1e-9 for a, b in got):
    print(got); sys.exit(1)
'''),
]

KH = "cpp_source/knn/knn.hpp"
TOPK = '''
#include "knn/similarities.hpp"
#include <cstdio>
using M = Eigen::SparseMatrix<double, Eigen::RowMajor>;
int main() {
  std::mt19937 g(5);
  std::uniform_real_distribution<double> u(0.1, 1);
  for (int trial = 0; trial < 200; trial++) {
    int n = 2 + g() % 8, m = 2 + g() % 12, f = 2 + g() % 5;
    M A(n, f), B(m, f);
    for (int i = 0; i < n; i++) for (int j = 0; j < f; j++) if (g() % 2) A.insert(i, j) = u(g);
    for (int i = 0; i < m; i++) for (int j = 0; j < f; j++) if (g() % 2) B.insert(i, j) = u(g);
    size_t th = 1 + g() % 3, ch = 1 + g() % 4, k = 1 + g() % n;
    KNN::CosineSimilarityComputer<double> c(A, 0, false, th, ch);
    M r = c.compute_similarity(B, k), full = B * A.transpose();
    for (int i = 0; i < m; i++) {
      std::vector<double> a, b;
      for (M::InnerIterator it(full, i); it; ++it) b.push_back(it.value());
      for (M::InnerIterator it(r, i); it; ++it) { a.push_back(it.value()); if (std::abs(it.value() - full.coeff(i, it.col())) > 1e-9) { std::puts("value"); return 1; } }
      std::sort(a.rbegin(), a.rend()); std::sort(b.rbegin(), b.rend());
      b.resize(std::min(b.size(), k));
      if (a.size() != b.size()) { std::puts("size"); return 1; }
      for (size_t j = 0; j < a.size(); j++) if (std::abs(a[j] - b[j]) > 1e-9) { std::puts("not the largest"); return 1; }
    }
  }
  return 0;
}
'''
SEEDS += [
 dict(CX, id="b41_one_too_many", prop="C27", edits=[(KH, "        if (col_size < nz_size) {", "        if (nz_size - col_size > 1) {")],
      needs="a row with exactly one entry more than the cutoff", what="the entry with the largest column is dropped instead of the smallest one", demo=TOPK),
 dict(CX, id="b42_row_of_first_block", prop="C27", edits=[(KH, "triples.emplace_back(row + cursor,", "triples.emplace_back(row + start,")],
      needs="more rows per thread than one block holds", what="neighbours of later blocks are added to the rows of the first one", demo=TOPK),
]

AL = "cpp_source/als/IALSTrainer.hpp"
NORMAL = '''
#include "als/IALSTrainer.hpp"
#include <cstdio>
using namespace irspack::ials;
int main() {
  std::mt19937 g(3);
  std::uniform_real_distribution<float> u(0.2, 1.5);
  std::normal_distribution<float> z(0, 1);
  for (int trial = 0; trial < 60; trial++) {
    int n = 1 + g() % 4, m = 3 + g() % 80, K = 2 + g() % 3;
    SparseMatrix X(n, m);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (g() % 20 == 0 || j == i % m || m > 66) X.insert(i, j) = u(g);
    X.makeCompressed();
    DenseMatrix V(m, K), Q(n, K);
    for (int i = 0; i < m; i++) for (int k = 0; k < K; k++) V(i, k) = z(g);
    for (int i = 0; i < n; i++) for (int k = 0; k < K; k++) Q(i, k) = z(g);
    float a0 = u(g), reg = u(g), nu = u(g) / 2;
    LossType lt = g() % 2 ? LossType::IALSPP : LossType::ORIGINAL;
    IALSModelConfig c(K, a0, reg, nu, 0.1, 1, lt);
    float b = lt == LossType::IALSPP ? 0.f : a0;
    for (int which = 0; which < 6; which++) {
      SolverConfig::Builder sb;
      sb.n_threads = 1 + g() % 3;
      sb.solver_type = which % 4 == 0 ? SolverType::CG : which % 4 == 1 ? SolverType::Cholesky : SolverType::IALSPP;
      if (which > 3) sb.solver_type = which == 4 ? SolverType::CG : SolverType::Cholesky;
      sb.max_cg_steps = 30;
      sb.ialspp_iteration = 300;
      sb.ialspp_subspace_dimension = which == 2 ? 1 : 2;
      SolverConfig s = sb.build();
      Solver so(c);
      so.prepare_p(V, c, s);
      DenseMatrix R = which > 3 ? so.X_to_vector_with_prior(X, V, Q, c, s) : so.X_to_vector(X, V, c, s);
      for (int i = 0; i < n; i++) {
        Eigen::MatrixXd A = a0 * (V.transpose() * V).cast<double>();
        Eigen::VectorXd y = Eigen::VectorXd::Zero(K);
        int cnt = 0;
        for (SparseMatrix::InnerIterator it(X, i); it; ++it, cnt++) {
          Eigen::VectorXd v = V.row(it.col()).transpose().cast<double>();
          A += it.value() * v * v.transpose();
          y += (b + it.value()) * v;
        }
        double lam = reg * std::pow((double)a0 * m + cnt, (double)nu);
        A += lam * Eigen::MatrixXd::Identity(K, K);
        if (which > 3) y += lam * Q.row(i).transpose().cast<double>();
        Eigen::VectorXd x = A.ldlt().solve(y);
        double d = (R.row(i).transpose().cast<double>() - x).cwiseAbs().maxCoeff();
        if (!(d < 5e-3 * (1 + x.cwiseAbs().maxCoeff()))) { std::printf("solver %d: off by %g\\n", which, d); return 1; }
      }
    }
  }
  return 0;
}
'''
SEEDS += [
 dict(CX, id="b43_cd_bias_of_loss", prop="C28", edits=[(AL, "                             observation_bias);\n            P_local += it.value() * vcache * vcache;", "                             observation_bias * it.value());\n            P_local += it.value() * vcache * vcache;")],
      needs="the original loss, the coordinate solver and weights other than one", what="the constant part of the observation weight is multiplied by the weight", demo=NORMAL),
 dict(CX, id="b44_prior_unscaled_exponent", prop="C28", edits=[(AL, "          B.noalias() = diagonal * prior.row(row).transpose();", "          B.noalias() = compute_reg(0, other_factor.rows(), config) *\n                        prior.row(row).transpose();")],
      needs="a feature prior, the Cholesky solver, a non-empty row and a non-zero exponent", what="the pull towards the prior is weaker than the regularisation", demo=NORMAL),
 dict(CX, id="b45_last_batch_weight", prop="C28", edits=[(AL, "    buffer.row(n_batch++).noalias() = std::sqrt(c) * row.transpose();", "    buffer.row(n_batch++).noalias() =\n        (c > 1 ? c : std::sqrt(c)) * row.transpose();")],
      needs="interaction weights above one with the Cholesky or subspace solver", what="heavy interactions enter the matrix with the square of their weight", demo=NORMAL),
]
