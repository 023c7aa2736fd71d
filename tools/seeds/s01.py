E = "src/irspack/evaluation/evaluator.py"
B = "src/irspack/recommenders/base.py"
SEEDS = [
 dict(id="b01_block_last_user", prop="C01", edits=[(B, "        m = self.X_train_all[begin:end]\n", "        m = self.X_train_all[begin : min(end, self.n_users) - (end > self.n_users)]\n")],
      needs="a block request whose end exceeds the number of users (the usual last batch)", what="the last user of the final block is returned with seen items unmasked",
      demo='''
import stubs; stubs.install()
import numpy as np, scipy.sparse as sps
from irspack.recommenders.base import BaseRecommender
class R(BaseRecommender):
    def _learn(self): pass
    def get_score(self, u): return np.ones((len(u), self.n_items))
    def get_score_block(self, b, e): return np.ones((len(range(b, min(e, self.n_users))), self.n_items))
X = sps.csr_matrix(np.eye(5, 7))
r = R(X)
s = r.get_score_remove_seen_block(2, 8)
assert (np.isneginf(s) == (X[2:8].toarray() != 0)).all()
'''),
 dict(id="b02_mask_offset_last", prop="C02", edits=[(E, "                mask = self.masked_interactions[\n                    chunk_start - self.offset : chunk_end - self.offset\n                ]", "                mask = self.masked_interactions[\n                    max(chunk_start - self.offset, 0) : min(\n                        chunk_end, self.n_users\n                    )\n                ]")],
      needs="non-zero offset, explicit mask, more than one batch", what="mask rows of a batch no longer end where the batch ends, so masks of later users are applied or indexing fails",
      demo='''
import stubs
calls = []
class Core:
    def __init__(self, gt, rec): pass
    def get_metrics_f64(self, s, c, o, n, r):
        calls.append((s.copy(), c, o)); return Metrics(1)
class Metrics:
    def __init__(self, n): pass
    def merge(self, o): pass
    def as_dict(self): return {"appeared_item": 1.0, "ndcg": 1.0}
stubs.install(_core_evaluator=dict(EvaluatorCore=Core, Metrics=Metrics))
import numpy as np, scipy.sparse as sps
from irspack.evaluation.evaluator import Evaluator
class M:
    n_users, n_items = 9, 6
    X_train_all = sps.csr_matrix((9, 6))
    def get_score_block(self, b, e): return np.ones((e - b, 6))
mask = sps.csr_matrix(np.random.RandomState(0).rand(6, 6) > 0.5)
ev = Evaluator(sps.csr_matrix(np.ones((6, 6))), offset=3, masked_interactions=mask, mb_size=2, n_threads=1)
try:
    ev.get_score(M())
except Exception as e:
    raise SystemExit(f"failed: {e!r}")
got = np.concatenate([c[0] for c in calls])
assert got.shape == (6, 6) and (np.isneginf(got) == mask.toarray()).all()
assert [c[2] for c in calls] == [0, 2, 4]
'''),
 dict(id="b03_stream_empty_chunk", prop="C02", edits=[(E, "            if score_chunk.shape[0] == 0:\n                continue\n", "            if score_chunk.shape[0] == 0:\n                break\n"), (E, "        if chunk_start != self.n_users:\n            raise ValueError(\n                \"score chunks did not", "        if score_chunk.shape[0] and chunk_start != self.n_users:\n            raise ValueError(\n                \"score chunks did not")],
      needs="a stream with an empty block in the middle", what="users after the empty block are silently not evaluated",
      demo='''
import stubs
rows = []
class Core:
    def __init__(self, gt, rec): pass
    def get_metrics_f64(self, s, c, o, n, r):
        rows.extend(range(o, o + s.shape[0])); return Metrics(1)
class Metrics:
    def __init__(self, n): pass
    def merge(self, o): pass
    def as_dict(self): return {"appeared_item": 1.0, "ndcg": 1.0}
stubs.install(_core_evaluator=dict(EvaluatorCore=Core, Metrics=Metrics))
import numpy as np, scipy.sparse as sps
from irspack.evaluation.evaluator import Evaluator
ev = Evaluator(sps.csr_matrix(np.ones((6, 4))), n_threads=1)
ev.get_score_from_score_chunks([np.ones((2, 4)), np.ones((0, 4)), np.ones((4, 4))])
assert rows == list(range(6)), rows
'''),
]
