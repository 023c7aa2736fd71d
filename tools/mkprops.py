"""One-off generator: writes /verif/properties.jsonl (kept so that edits stay readable)."""
import json, os
R = "src/irspack/recommenders/"
E_ = "src/irspack/evaluation/evaluator.py"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"observe_at": observe} if observe else {}))))

p("C01", "Seen items are masked to minus infinity in every remove-seen score",
  "For every recommender, asking for scores with seen items removed (by user indices, by user block, or for cold users given as a profile matrix) returns the plain scores of exactly the requested users, in request order, with minus infinity at every cell where that same user's training row (or given profile row) is nonzero. No other cell is changed, and no path skips the masking.",
  ["inputs", "programs"], "all recommender classes, user index arrays, block bounds, profile matrices",
  "Tests sample one tiny matrix per recommender; the masked cells depend on the sparsity pattern and the requested rows, and the baseline tests do not import recommenders at all.",
  [R+"base.py"], [("remove-seen wrappers", R+"base.py:get_score_remove_seen*, get_score_cold_user_remove_seen")],
  ["BaseRecommender.get_score_remove_seen", "get_score_remove_seen_block", "get_score_cold_user_remove_seen"])

p("C02", "Evaluation scores every user once against their own truth and mask",
  "When a model, a score matrix or a stream of score blocks is evaluated, each evaluated user contributes exactly once for every cutoff, whatever the batch size, the user offset or the chunking. Each contribution compares that user's scores with that same user's ground-truth row after that same user's mask row has been set to minus infinity, and the mask is the explicitly supplied one when given and otherwise the training (or input) interactions. Streams that supply too few or too many rows are rejected.",
  ["inputs", "configurations"], "all matrix sizes, batch sizes, offsets, chunkings, cutoffs lists",
  "Alignment depends on the relation between offset, batch size and number of users; tests fix a handful and the stable ones do not run the evaluator.",
  [E_], [("chunk loop over the model", E_+":_get_scores_as_list (both classes)"), ("chunk stream", E_+":_get_scores_from_score_chunks_as_list"), ("score matrix chunking", E_+":_get_scores_from_score_matrix_as_list"), ("mask selection", E_+":_get_score_matrix_mask")],
  ["Evaluator.get_score*", "EvaluatorWithColdUser.get_score*"])

p("C03", "Caller-owned matrices, arrays, lists and frames are never modified",
  "Calling any public constructor, splitting function, evaluation function, scoring function, ID-mapping function or weighting utility leaves every matrix, array, list, dict or data frame passed in by the caller bit-for-bit unchanged. This also holds when a defensive conversion would return a view or share buffers with the caller's object.",
  ["inputs", "programs"], "all public entry points, all argument representations (already-float64 CSR, lists, shared buffers)",
  "Aliasing depends on the dtype/format of the input (a conversion that copies for one dtype returns the same object for another); tests compare results, not inputs.",
  [R+"base.py", E_, "src/irspack/utils/__init__.py", "src/irspack/utils/id_mapping.py", "src/irspack/split/userwise.py", "src/irspack/split/time.py", "src/irspack/split/specified.py", R+"ials.py"],
  [("copying conversions before in-place operations", "astype/copy before sort_indices, masking stores, .data writes")])

p("C04", "Early stopping ends with the best validated model state",
  "After training with a validation evaluator, the model serves the parameters snapshotted at the validation whose score was the strict maximum so far, and the learnt number of epochs is the 1-based epoch of that same snapshot. Training stops once the configured number of consecutive non-improving validations is reached, an improvement resets that count, validation happens every configured number of epochs, and without an evaluator all epochs run. Scores reported for pruning carry the sign the minimising study expects.",
  ["histories", "configurations"], "all sequences of validation scores, epoch limits, validation frequencies, patience values, prune decisions",
  "The outcome depends on the whole history of validation scores; tests use one or two synthetic histories and the stable ones do not import the recommenders.",
  [R+"base_earlystop.py"], [("validation loop", R+"base_earlystop.py:learn_with_optimizer"), ("snapshot/restore", R+"base_earlystop.py:save_state/load_state")])

p("C05", "Saved model state restores every learnt parameter to its own place",
  "Whatever a trainer writes when its state is saved is exactly what loading restores, each component going back to the place it came from, and no component that a training epoch updates and scoring uses is left out. The same symmetry holds for native objects that support pickling: state written and state read agree in number, order and type, and rebuild an equal object.",
  ["histories", "programs"], "all training histories, all trainers and picklable native types",
  "A missing or swapped component only shows when the restored epoch differs from the last one, or after unpickling; tests rarely restore across differing states.",
  [R+"bpr.py", R+"ials.py", R+"multvae.py", "cpp_source/als/wrapper.cpp", "cpp_source/als/IALSTrainer.hpp", "cpp_source/evaluator.cpp"],
  [("trainer save_state/load_state", R+"{ials,bpr,multvae}.py"), ("native __getstate__/__setstate__", "cpp_source/als/wrapper.cpp, cpp_source/evaluator.cpp")])

p("C06", "Hyperparameter tuning optimises the right target with the right parameters",
  "Every trial trains on the suggested data with the suggested parameters overridden by the fixed ones, and its objective is the negated target metric of that same trained model, so that the study's minimum is the best model; the trial's full metrics and learnt parameters are recorded under that trial. Fixed parameters are not suggested by the default search space. The returned best parameters are the best trial's suggested values together with what that trial learnt, and options of the tuning call reach the study, the sampler and the training unchanged.",
  ["histories", "configurations"], "all search spaces, fixed-parameter sets, trial outcomes",
  "A sign or precedence error shows up only over several trials with conflicting parameters; stable tests do not tune anything.",
  ["src/irspack/optimization/optimizer.py", "src/irspack/optimization/parameter_range.py", R+"base.py", R+"ials.py"],
  [("objective function", "src/irspack/optimization/optimizer.py:objective_function"), ("result assembly", "src/irspack/optimization/optimizer.py:optimize_with_study"), ("tune", R+"base.py:tune, "+R+"ials.py:tune")])

p("C07", "Every hyperparameter reaches the learner in its own role",
  "Each constructor argument of a recommender is used under its own meaning by the learning algorithm: it is neither dropped nor swapped with another argument nor replaced by a constant on its way to the native or third-party learner. The recommender's configuration class accepts only names its constructor accepts, and every name in its default search space is both a constructor argument and a configuration field.",
  ["configurations", "inputs"], "all hyperparameter settings of all recommenders",
  "Tests mostly run default values, where a swapped or dropped argument is invisible.",
  [R+x for x in ["knn.py","user_knn.py","ials.py","slim.py","dense_slim.py","edlae.py","p3.py","rp3.py","nmf.py","truncsvd.py","bpr.py","multvae.py","base_earlystop.py"]],
  [("constructor -> attribute -> learner argument", R+"*.py:__init__,_learn,_create_computer,_create_trainer"), ("native config builders", "cpp_source/als/IALSLearningConfig.hpp")])

p("C08", "User splits partition users and interactions without leakage",
  "Splitting a data frame by users assigns every user to exactly one of train, validation and test, with the number of validation and test users that was requested by count or ratio, and each user's rows appear only in that user's part. For held-out users, train and held-out interactions come from the same rows of the input, ratings included when a rating column is given, and every matrix is laid out on one common item list and on its own user list. Flag-driven splits hold out exactly the flagged interactions of validation and test users.",
  ["inputs", "configurations"], "all data frames, ratios, counts, random states, time/rating columns",
  "Leakage depends on rounding of user counts and on row selection; tests use one random frame and are not among the stable ones.",
  ["src/irspack/split/userwise.py", "src/irspack/split/specified.py", "src/irspack/utils/__init__.py"],
  [("user partition", "src/irspack/split/userwise.py:_split_list, split_dataframe_partial_user_holdout"), ("flagged split", "src/irspack/split/specified.py"), ("frame to matrix", "src/irspack/utils/__init__.py:df_to_sparse")])

p("C09", "Per-user hold-out keeps every interaction once and takes the right part",
  "Splitting each user's interactions into train and test puts every interaction in exactly one side, with its value unchanged, so both sides sum back to the input. The number held out per user is the fixed count capped at what the user has, or the floor (or ceiling on request) of the ratio of what the user has. Time-based splitting holds out the latest interactions of each user.",
  ["inputs", "configurations"], "all matrices and frames, ratios, counts, seeds, duplicate timestamps",
  "Index arithmetic and value types only fail for particular row lengths, values or ratios; the native code is never built by the stable tests.",
  ["cpp_source/util.hpp", "src/irspack/utils/__init__.py", "src/irspack/split/time.py"],
  [("row-wise split", "cpp_source/util.hpp:SplitFunction, SplitByRatioFunction, SplitFixedN"), ("python front", "src/irspack/utils/__init__.py:rowwise_train_test_split"), ("time split", "src/irspack/split/time.py")])

p("C10", "A fixed seed makes every result reproducible",
  "With the same inputs and the same seed or random state, every random choice made by splitting, initialisation, training order, shuffling and tuning is the same in every run and every process: randomness is drawn only from the supplied state (or a fixed constant seed), never from process-global generators, the clock, or hash-dependent set ordering. When no seed is supplied a fresh state is created only at the documented entry point.",
  ["inputs", "histories", "configurations"], "all runs and processes with equal seeds, all prior uses of global random state",
  "Tests run in one process with one hash seed and compare to themselves.",
  ["src/irspack/utils/random.py", "src/irspack/split/userwise.py", "src/irspack/split/specified.py", R+"multvae.py", R+"nmf.py", R+"truncsvd.py", R+"ials.py", "cpp_source/util.hpp", "cpp_source/als/IALSTrainer.hpp"],
  [("random state conversion", "src/irspack/utils/random.py"), ("seeded native generators", "cpp_source/util.hpp, cpp_source/als/IALSTrainer.hpp")])

p("C11", "Parallel native work covers everything once and loses no failure",
  "Every native routine that fans out to worker threads processes each row, column or user exactly once for any number of threads, waits for all workers before it reads or returns their results, combines every worker's partial result, and surfaces an exception thrown in a worker instead of dropping it. Workers write only to disjoint parts of shared outputs or to their own locals.",
  ["schedules", "inputs", "fault_sequences"], "all thread counts, all interleavings, all row counts, all worker exceptions",
  "Interleavings and thread exhaustion cannot be sampled by unit tests, and the native code is not built by the stable ones.",
  ["cpp_source/util.hpp", "cpp_source/evaluator.cpp", "cpp_source/knn/knn.hpp", "cpp_source/als/IALSTrainer.hpp"],
  [("atomic cursor worker loops", "cpp_source/**"), ("future.get/thread.join", "cpp_source/**")])

p("C12", "Thread counts are resolved consistently and zero is refused",
  "An explicitly given number of threads is used as given; when none is given the environment variable decides, then the CPU count, and an uninterpretable value raises an error. Every component with a thread option resolves it by this one rule and hands the resolved value to the native call it makes. Native parallel entry points refuse a thread count of zero instead of returning an untouched result.",
  ["configurations", "inputs"], "all thread options, environment values, entry points",
  "Tests rarely pass zero threads or vary the environment, and do not enumerate the call sites.",
  ["src/irspack/_threading.py", E_, "src/irspack/evaluation/evaluate_df_to_df.py", "src/irspack/utils/id_mapping.py", R+"knn.py", R+"ials.py", "cpp_source/util.hpp", "cpp_source/evaluator.cpp", "cpp_source/als/IALSTrainer.hpp"],
  [("resolution", "src/irspack/_threading.py:get_n_threads"), ("native argument checks", "cpp_source/**: check_arg(n_threads > 0)")])

p("C13", "IDs and matrix positions stay aligned in both directions",
  "Wherever user or item IDs are attached to matrix rows or columns, position i always belongs to the i-th ID: profiles are converted to the column of their own item with their own value, recommendations carry the ID and the score of the same column, requested user IDs select their own rows in order, and concatenated or exported data pairs each row with its own user. Duplicate IDs are rejected, unknown user IDs raise, and unknown item IDs in profiles and filters are ignored.",
  ["inputs"], "all ID lists, profiles, request orders",
  "Misalignment only shows for particular ID orders, unknown IDs or explicit zeros; stable tests do not import the mappers.",
  ["src/irspack/utils/id_mapping.py", "src/irspack/utils/__init__.py", "src/irspack/split/userwise.py", "src/irspack/evaluation/evaluate_df_to_df.py"],
  [("index dictionaries", "src/irspack/utils/id_mapping.py"), ("frame conversion", "src/irspack/utils/__init__.py:df_to_sparse"), ("user/matrix pair", "src/irspack/split/userwise.py:UserTrainTestInteractionPair")])

p("C14", "Recommendation lists respect masks, filters, order and cutoff",
  "A list of recommendations, for one user or a batch, contains at most the requested number of items, in descending score order, taken only from the allowed items when such a list is given (per user when given per user), never a forbidden item and never an item whose score is minus infinity. No item that passes these filters is omitted in favour of a lower-scored one, and the per-user filters are applied to their own user.",
  ["inputs", "configurations"], "all score matrices (infinities included), filters, cutoffs, thread counts",
  "Filter interaction depends on where infinities, forbidden and allowed items fall around the cutoff; tests sample a few.",
  ["src/irspack/utils/id_mapping.py", "cpp_source/util.hpp"],
  [("single-user retrieval", "src/irspack/utils/id_mapping.py:score_to_recommended_items"), ("batch retrieval", "src/irspack/utils/id_mapping.py:score_to_recommended_items_batch"), ("native top-k", "cpp_source/util.hpp:retrieve_recommend_from_score")])

p("C15", "Dataset download is consented, atomic, confined and inert",
  "A dataset is fetched only when its archive is missing and the user has agreed (or forced the download); refusing raises and performs no network access. The archive appears at its final path only after it has been downloaded completely, so an interrupted or failed download never leaves a file there that a later run would accept. Access tokens are sent only to the host they are meant for, and downloaded content is parsed as data and never executed.",
  ["fault_sequences", "crash_points", "inputs"], "all failure points of a download, all user answers, all sources, all file contents",
  "Tests mock the network with successful responses; interruption, refusal and hostile content are not exercised.",
  ["src/irspack/dataset/downloader.py", "src/irspack/dataset/mind.py", "src/irspack/dataset/neu_mf.py", "src/irspack/dataset/amazon_music.py", "src/irspack/dataset/citeulike.py", "src/irspack/dataset/movielens/base.py"],
  [("consent gate", "src/irspack/dataset/downloader.py:BaseDownloader.__init__, mind.py:__init__"), ("temporary file then replace", "src/irspack/dataset/mind.py:_download")])

p("C16", "Using a model before fitting raises instead of returning scores",
  "For every recommender, asking for scores, weights, embeddings, or a training step before learning has started raises an error on every path; it never returns a result computed from missing or default parameters. Learning is the only operation that makes those available.",
  ["histories", "programs"], "all call orders on all recommenders",
  "Tests try a few methods on a few recommenders.",
  [R+x for x in ["base.py","base_earlystop.py","ials.py","bpr.py","multvae.py","toppop.py","truncsvd.py","nmf.py"]],
  [("guarded accessors", R+"*.py: W, U, fm, trainer_as_ials, score, z, decomposer")])

p("C17", "Python calls, type stubs and native bindings agree",
  "Every call from Python into a native module names a function, class or method that the native module registers, passes arguments that its registered parameter list accepts, by the registered names and in the registered order, and picks the binding for the element type it holds. The published type stubs list the same names, parameters and order as the native registration, and each registered parameter name sits in the position of the native parameter it names.",
  ["programs", "inputs"], "all call sites, all bound functions, both element types",
  "The native modules are not built by the stable tests, so no call site is ever linked to its binding.",
  ["cpp_source/util.cpp", "cpp_source/evaluator.cpp", "cpp_source/knn/wrapper.cpp", "cpp_source/als/wrapper.cpp", "src/irspack/utils/_util_cpp.pyi", R+"_ials_core.pyi", R+"_knn.pyi", "src/irspack/evaluation/_core_evaluator.pyi"],
  [("NB_MODULE registrations", "cpp_source/**/*.cpp"), ("stubs", "src/irspack/**/*.pyi")])

p("C18", "Matrix-factorisation fold-in uses the same model as training",
  "Computing an embedding for a new user or item with the implicit ALS model applies the same confidence scaling and the same regularisation as training, solves against the current factors of the opposite side with a freshly computed Gram matrix, uses the prediction-time solver settings, and uses the feature prior of the same side. In a training epoch the user side is solved against the item factors and the item side against the updated user factors, each on its own orientation of the interactions.",
  ["inputs", "histories", "configurations"], "all interaction matrices, solver settings, scaling schemes, feature matrices, training histories",
  "A stale Gram matrix or a wrong side shows only after particular call sequences or with asymmetric data; native code is not built by the stable tests.",
  [R+"ials.py", "cpp_source/als/IALSTrainer.hpp"],
  [("fold-in", R+"ials.py:compute_user_embedding/compute_item_embedding"), ("transform_*/step", "cpp_source/als/IALSTrainer.hpp")])

p("C19", "Neighbourhood and regression models give an item no self-similarity",
  "After learning, the similarity matrix of every nearest-neighbour, SLIM, dense SLIM and EDLAE recommender has zero on its diagonal for every item (or user), so no item recommends itself and no user is their own neighbour.",
  ["inputs", "configurations"], "all interaction matrices and hyperparameters of these models",
  "Tests compare a few small matrices; the diagonal removal can be bypassed on a configuration path they do not take.",
  [R+"knn.py", R+"user_knn.py", R+"slim.py", R+"dense_slim.py", R+"edlae.py", "cpp_source/util.hpp"],
  [("diagonal removal", R+"knn.py:_learn, user_knn.py:_learn, dense_slim.py, edlae.py; cpp_source/util.hpp:remove_diagonal, SLIM")])

p("C20", "Inconsistent shapes and invalid options are rejected before any result",
  "Constructing an evaluator, an interaction pair, an ID mapper, a tuning range or a native learner, or evaluating a model, with inputs whose sizes do not match (users, items, masks, ground truth, filters, feature columns) or with an option value outside its documented set raises an error before anything is computed or returned. Inputs with consistent sizes and valid options are accepted.",
  ["inputs"], "all shape combinations and option values",
  "Tests try one or two mismatches per class.",
  [E_, "src/irspack/split/userwise.py", "src/irspack/split/specified.py", "src/irspack/utils/id_mapping.py", R+"base.py", R+"bpr.py", R+"ials.py", "cpp_source/evaluator.cpp", "cpp_source/knn/knn.hpp", "cpp_source/util.hpp", "cpp_source/als/IALSTrainer.hpp"],
  [("argument validation", "raise ValueError / check_arg / throw sites")])

p("C21", "Metric accumulation is complete and order-independent",
  "Partial metrics of disjoint user groups merge into exactly what evaluating the groups together would give: every accumulated quantity is added in a merge and carried by a copy, each goes to its own reported name, averages are over users with ground truth, and an empty group contributes nothing. Each evaluated user increases each count once.",
  ["inputs", "schedules"], "all groupings of users, all merge orders",
  "A missing accumulator shows only when work is actually split across several workers or chunks; the native code is not built by the stable tests.",
  ["cpp_source/evaluator.cpp", E_],
  [("accumulator", "cpp_source/evaluator.cpp:Metrics"), ("reporting", E_+":_metrics_as_dict, get_scores*")])

p("C22", "Block, index and cold scoring of the same users agree",
  "For every recommender that offers them, scoring a contiguous block of users gives the same computation as scoring those users by index, and scoring by explicit user embedding or against explicit item embeddings uses the same factors as regular scoring. For models that score from a user's interaction row, scoring a training user's row as a cold user is the same computation as scoring that user.",
  ["inputs", "programs"], "all recommenders, user ranges, interaction matrices",
  "Agreement must hold for every block and every matrix; tests compare one example per class and the stable ones none.",
  [R+x for x in ["base.py","ials.py","bpr.py","truncsvd.py","multvae.py","nmf.py","toppop.py"]],
  [("parallel scoring methods", R+"*.py:get_score, get_score_block, get_score_cold_user, get_score_from_user_embedding")])

p("C23", "Evaluators apply their settings and item restrictions as given",
  "An evaluator ranks only the recommendable items it was given: one common list for all users, or each user's own list in the order of the ground truth's rows (for a sparse matrix, the nonzero columns of that user's row); per-user lists of the wrong number are rejected and without a restriction every item is a candidate. Cutoff, target metric, recall mode, batch size and offset are used as given, by both evaluator classes, and catalogue coverage is the number of items that appeared divided by the number of distinct recommendable items.",
  ["inputs", "configurations"], "all evaluator configurations: restrictions as lists or matrices, settings, cutoffs",
  "The settings combine freely and a restriction that is lost, shifted or shared between users only shows for particular matrices; the stable tests do not import the evaluator.",
  [E_, "cpp_source/evaluator.cpp"],
  [("constructor", E_+":Evaluator.__init__, EvaluatorWithColdUser.__init__"), ("reporting", E_+":_metrics_as_dict, _get_metrics")])

p("C24", "Every reported metric is accumulated by its defining formula",
  "For one user with a ranking of length K and ground truth of size G: hit adds 1 exactly when some recommended item is relevant; precision adds hits/K; recall adds hits/G, or hits/min(G, K) when recall with cutoff is asked for; NDCG adds the discounted gain 1/log2(rank+1) summed over the relevant ranks, divided by that sum over the first min(G, K) ranks; MAP adds the precision at each relevant rank, summed and divided by G; an empty list adds nothing. Over all recommended items: appeared_item counts the items recommended at least once, entropy is the entropy (natural logarithm) of the recommendation frequencies, and gini_index is the Gini index of the item counts; none is undefined when nothing was recommended. Stated over exact arithmetic; rounding is not covered.",
  ["inputs"], "all rankings, ground truths, cutoffs and item counts",
  "A wrong rank offset, bound or divisor only shows for particular rankings; the stable tests do not import the evaluator.",
  ["cpp_source/evaluator.cpp"], [("metric formulas", "cpp_source/evaluator.cpp:Metrics::update, as_dict"), ("discounts", "cpp_source/evaluator.cpp:prepare_dcg_discount")])
p("C25", "Similarities and weightings follow their formulas",
  "For every pair of rows: the normalised cosine similarity is the inner product over (product of the Euclidean norms + shrinkage), the unnormalised one is the inner product; asymmetric cosine is the inner product over (squared norm of the target to the power alpha times squared norm of the other to the power 1 - alpha, + shrinkage); Jaccard and Tversky use the sets of nonzero entries (intersection over union + shrinkage; intersection over intersection + alpha * target only + beta * other only + shrinkage). P3alpha raises the entries to the power alpha and normalises them to transition probabilities (each row of the training matrix, each column of the target); RP3beta also divides the target's row by the item popularity to the power beta. tf-idf multiplies an entry by log(N / (document frequency + smooth)); BM25 is idf * v * (k1 + 1) / (v + k1 * (1 - b + b * length / mean length)) with idf = log(N / (df + 1) + 1). Values are the same wherever a row falls in the blocks. A small constant (below 1e-4) added to a similarity's divisor is allowed; exact arithmetic, rounding is not covered.",
  ["inputs"], "all matrices, hyperparameters, block sizes and block positions",
  "A wrong row offset, exponent or axis only shows for particular shapes and values; the stable tests do not import the native modules.",
  ["cpp_source/knn/similarities.hpp", "cpp_source/util.hpp"], [("similarities", "cpp_source/knn/similarities.hpp:compute_similarity_imple"), ("random walks", "cpp_source/knn/similarities.hpp:P3alphaComputer, RP3betaComputer"), ("weightings", "cpp_source/util.hpp:okapi_BM_25_weight, tf_idf_weight")])
p("C26", "Learnt weights are the documented function of the training matrix",
  "Dense SLIM learns W[i, j] = -P[i, j] / P[j, j] off the diagonal and 0 on it, P being the inverse of X^T X + reg I; EDLAE the same with reg + dropout_p / (1 - dropout_p) * diag(X^T X) added to the diagonal. TopPop scores every item by the sum of its column. SLIM hands the training matrix to the native solver with l1 coefficient n_users * alpha * l1_ratio and l2 coefficient n_users * alpha * (1 - l1_ratio), to the non-negative solver exactly when positive_only. Item-based nearest neighbours compare the columns of X with the columns of the (tf-idf or BM25 weighted) X, user-based ones the rows, weighting always done on the users-by-items matrix, and the similarity matrix is not transposed. P3alpha and RP3beta walk on the items-by-users matrix, and divide each row of W by its sum exactly when normalize_weight. Exact arithmetic; rounding and numerical inversion are not covered.",
  ["inputs", "configurations"], "all training matrices and hyperparameters",
  "A transposed matrix, a swapped axis or a wrong coefficient only shows in the values; no stable test fits a recommender.",
  ["src/irspack/recommenders/dense_slim.py", "src/irspack/recommenders/edlae.py", "src/irspack/recommenders/toppop.py", "src/irspack/recommenders/slim.py", "src/irspack/recommenders/knn.py", "src/irspack/recommenders/user_knn.py", "src/irspack/recommenders/p3.py", "src/irspack/recommenders/rp3.py", "src/irspack/utils/__init__.py"], [("closed forms", "src/irspack/recommenders/dense_slim.py:_learn, edlae.py:_learn"), ("neighbourhoods", "src/irspack/recommenders/knn.py:_learn, user_knn.py:_learn"), ("walk normalisation", "src/irspack/utils/__init__.py:l1_normalize_row")])
p("C27", "Each neighbourhood keeps the top_k largest similarities of its row",
  "Whatever the number of threads, the block size and the cutoff, row r of a similarity result holds min(top_k, number of computed entries) entries of row r of the full similarity matrix, each with its own column and value, and no entry left out is larger than one that is kept; every row is computed, once. The order of ties is free.",
  ["inputs", "configurations"], "all matrices, cutoffs, thread counts and block sizes",
  "Which entries are dropped depends on how many there are and where the row falls in its block; the stable tests do not import the native modules.",
  ["cpp_source/knn/knn.hpp"], [("selection", "cpp_source/knn/knn.hpp:compute_similarity_triple")])
p("C28", "Implicit ALS solvers assemble the documented normal equations",
  "For every factor row with interactions x_j on rows v_j of the other side (m rows, n interactions), each solver works on (alpha0 * G + sum_j x_j v_j v_j^T + lambda I) u = sum_j (b + x_j) v_j, where G is the Gram matrix of all rows of the other side, lambda = reg * (alpha0 * m + n)^nu, and b is alpha0 for the original loss and 0 for the iALS++ loss; with a feature prior, lambda times the prior is added to the right-hand side. Conjugate gradient, Cholesky (with and without prior), subspace and coordinate solvers agree on this system: the last two descend along its gradient P u + lambda u + sum_j (x_j (prediction_j - 1) - b) v_j. Exact arithmetic; convergence is not covered.",
  ["inputs", "configurations"], "all interaction matrices, factors, hyperparameters, solvers and losses",
  "A wrong weight, bias or regularisation changes learnt values only for particular settings (nu, alpha0, loss, solver); the stable tests do not import the native modules.",
  ["cpp_source/als/IALSTrainer.hpp"], [("solvers", "cpp_source/als/IALSTrainer.hpp:Solver.step_cg, step_cholesky, step_cholesky_with_prior, _step_dimrange, _step_icd"), ("Gram matrix", "cpp_source/als/IALSTrainer.hpp:Solver.prepare_p"), ("regularisation", "cpp_source/als/IALSTrainer.hpp:Solver.compute_reg")])
p("N02", "Each implicit ALS sweep does not increase the training loss",
  "With an exact solver, every training epoch leaves the regularised training loss no larger than before, up to floating-point error.",
  ["inputs", "histories"], "all interaction matrices and hyperparameters", "Convergence is a numerical property over all matrices.",
  ["cpp_source/als/IALSTrainer.hpp"], [("alternating solves", "cpp_source/als/IALSTrainer.hpp:step")])
p("N03", "Coordinate descent reaches the SLIM optimum within tolerance",
  "The learnt sparse linear weights minimise the elastic-net objective of each item to the requested tolerance.",
  ["inputs"], "all matrices and penalties", "Numerical optimality over all inputs.",
  ["cpp_source/util.hpp"], [("coordinate descent", "cpp_source/util.hpp:SLIM")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
