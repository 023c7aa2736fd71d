#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the properties, the rule modules, the known findings and the planted bugs."""
import glob, importlib, json, os, sys, textwrap
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
known = json.load(open(V + "/known_findings.json"))
catch = json.load(open(V + "/tools/catch.json")) if os.path.exists(V + "/tools/catch.json") else {}
def w(s, n=118):
    return textwrap.fill(" ".join(s.split()), n)
HOW = {
 "C01": ("every remove-seen method of every recommender class, over all paths", "store(plain scores, nonzero cells of the same rows, -inf)", "undecided when the mask is built by a construct the term language does not model"),
 "C02": ("loops over users as interval arithmetic: start, end, step and the slices handed to the native evaluator, both evaluator classes, model / matrix / stream entry points; the native part is the worker loop of evaluator.cpp", "each user's row meets their own truth row, mask row and offset exactly once per cutoff", "linear bounds; a non-linear chunking expression is undecided"),
 "C03": ("every in-place operation reachable from a public entry point, traced to the buffer it writes", "no such buffer may be one the caller owns", "library results not known to be views are taken as fresh"),
 "C04": ("the validation loop as a transition system over (best, count, snapshot); conditions evaluated on the finite set of orderings of score, best and patience", "strict-maximum semantics of the statement", "one loop iteration from an arbitrary state, so histories of any length"),
 "C05": ("load_state composed with save_state for each trainer; places = attributes an epoch changes and scoring reads; native setters and getters by clang", "identity on each place", "pickle itself is trusted"),
 "C06": ("objective function, study calls, best-parameter assembly, fixed and suggested names, doubling of the dimension", "the target of the statement: minus the target metric, fixed parameters win, user attributes recorded", "optuna's own behaviour is trusted"),
 "C07": ("for each recommender, the value that reaches each argument of the learner as a term over constructor arguments", "a table of roles from the documentation", "parameters whose use is inside an unmodelled library are judged at the call"),
 "C08": ("data frames as (base, row predicate, columns, order); user lists as pieces of a shuffled list with symbolic sizes; every combination of the optional sizes", "pieces tile the user list, matrices hold exactly the rows of their users, held-out and kept predicates complement each other", "predicates over frame columns; all option combinations enumerated"),
 "C09": ("per-row split loops (native) and per-user time split (frames): index sets, counts, order", "train and test index sets partition 0..n, n_test as documented, last by time", "shuffle is a permutation"),
 "C10": ("taint of unseeded randomness (time, entropy, global RNG, set order, thread order) to results, Python and native", "no source reaches a result when a seed is given", "floating-point summation order across threads where the code joins in order"),
 "C11": ("each thread spawn: how positions are handed out, what each worker writes, how failures return", "positions cover the range once; writes of different workers are disjoint; futures are read", "atomic fetch_add, std::async trusted"),
 "C12": ("value flow from every n_threads option to every native thread argument; native guards", "option, else environment, else CPU count; zero refused before work", "-"),
 "C13": ("ID to index dictionaries, profile conversion, frame conversion and export, frame evaluation", "position of an ID is its position in the list, on both directions", "pandas.Categorical and CSR constructors trusted"),
 "C14": ("list building as (candidate order, keep condition, stop condition), Python and native", "the documented filter, evaluated on an exhaustive finite abstraction of score kind, count and membership", "argsort / partial_sort trusted"),
 "C15": ("file, network and rename effects of every data manager with path conditions; token and path taint", "consent before network, rename only after completion, paths confined to the archive location, no eval of content", "answers judged on representative strings"),
 "C16": ("every accessor on the constructed, not learnt, object state", "raises on every path; and can return after learning", "-"),
 "C17": ("registrations of each native module against native signatures, stubs and Python call sites", "names, order, arity, element types, defaults agree", "nanobind binds by position"),
 "C18": ("arguments of fold-in calls against those of training; native solver calls per side; features in all four given / absent combinations", "same function of the interactions, same settings with prediction-time steps, own side's factors", "-"),
 "C19": ("learnt similarity in a zero-diagonal domain on every option path, native diagonal removal and SLIM", "diagonal provably zero", "-"),
 "C20": ("path conditions of every raise on finite orderings of the sizes, and representative option values, tuning ranges", "disagreement raises, agreement does not", "conditions linear in sizes"),
 "C21": ("post-states of each accumulator operation; loops that feed it", "merge adds every field, copy copies, construction zeroes, report reads its own field", "floating-point addition associative"),
 "C22": ("value terms of two entry points under the substitution that makes the inputs the same users", "equal normal forms", "-"),
 "C24": ("the change one update makes to every metric field and the report's distribution values, as sums with bounds, condition and summand over the ranking", "equal to the defining expression as rational functions over independent atoms (cross-multiplied polynomials)", "exact arithmetic; counts not negative"),
 "C25": ("the value stored in every entry of the sparse results, as a function of the entry, its row and column; tables filled by the constructor substituted", "equal to the published formula as rational functions over independent atoms; every row and entry covered", "exact arithmetic"),
 "C26": ("the symbolic weight matrix after learning on every option path, evaluated at a generic off-diagonal and diagonal entry; arguments of the native calls", "equal to the closed form as rational functions over Gram entries, inverse entries and hyperparameters; matrix, orientation and coefficients equal", "exact arithmetic; inverses exist"),
 "C27": ("the triplet list as one symbolic comprehension over blocks, rows and kept positions; bounds and comparator of the selection algorithms", "row offset, column and value of one entry, min(top_k, size) kept; the specification of nth_element / partial_sort / sort puts the largest in the kept prefix for all relations of sizes up to 5", "row sizes and cutoffs up to 5 for the integer side conditions (linear, min and comparisons only)"),
 "C28": ("every accumulation over a row's interactions in the native solvers as a symbolic increment; the Gram matrix after preparation; the base, exponent and factor of every power; what is added to diagonals and residuals", "equal, as polynomials in weight, factor row, prediction, settings and loss, to the terms of the normal equation and its gradient", "polynomials of low degree compared on grids; which polynomial is due is chosen by what the increment mentions (prediction, dot product, square)"),
 "C23": ("evaluator constructors for each kind of restriction, and the reported dictionary", "settings reach the field and native argument of their name", "-"),
}
out = []
A = out.append
A("""# Static verification of irspack

All checks are static. `check.py --property ID` parses `/repo/src/irspack` (Python `ast`, `.pyi` stubs) and
`/repo/cpp_source` (clang's JSON syntax tree, nanobind replaced by the declaration-only headers in `sa/nbstub`) on every
run; nothing of irspack is imported, executed or handed to a solver. The evidence file of a run lists the functions
analysed, every obligation and the rule that decided it.

## Engine (`sa/`)

* `pyproj.py`  project index: modules, classes, MRO, stubs, call targets.
* `interp.py`  interprocedural dataflow: every function is evaluated once over all paths into *gated value terms*
  (phi terms on path conditions, mu terms at loop heads) plus an effect log (stores, attribute writes, calls, raises,
  allocations) carrying path condition, loop stack and call stack. Helpers, closures, properties, constructors,
  generators and comprehensions are inlined, so extracting a helper or rewriting a loop does not change the term.
* `terms.py`/`norm.py`  normal forms: linear arithmetic, min/max, boolean simplification, slices, row-commuting
  matrix products, masks. Values are compared after normalisation.
* `frames.py`  pandas frames as (base frame, row predicate, columns, order) and ID lists as pieces of a base list.
* `cxx.py`/`native.py`/`bindings.py`/`entries.py`  clang syntax tree -> the same term language; templates are analysed on
  their instantiations; thread spawns, atomics and Eigen stores are effects.
* `report.py` obligations. *Discharged*: the normal forms agree. *Violated*: they differ and every construct in the
  term is modelled, or a finite abstraction contains a counterexample. *Undecided*: an unmodelled construct takes part;
  recorded in the evidence, never an alarm. Every check also has a minimum number of obligations; below it, or after an
  analysis error, the run prints INCOMPLETE (exit 0 when something was discharged, 2 when nothing was).

Cost: the Python rules take under 20 s, those with a native part up to 60 s (clang parses dominate). Quick and
thorough runs explore the same obligations: the rules are exhaustive over paths, so there is no larger bound to raise.

## How the machinery was tested

* `tools/mutants/*.py` (about 900 hand-written bugs and refactorings, run by `tools/mut.py`): each bug must be reported
  by its property's check, each refactoring must leave *all* checks quiet.
* `tools/automut.py`: machine-made bugs (operator, constant, condition, argument, deletion) over every source file; the
  survivors were reviewed by hand and became rules, or were judged equivalent or outside every property.
* `tools/autoref.py`: machine-made refactorings (extract helper, inline, rename, reorder, loop rewriting, guard
  inversion, keyword and positional arguments, comprehension and loop, temporaries, file split) of every function; all
  checks must stay quiet, INCOMPLETE counts as a failure.
* `seeded/`: planted bugs with a demonstration, see the table below (`tools/seeds`, `tools/seed.py verify`).

## Properties
""")
rules = {m["property"]: m for m in man["checks"]}
for p in props:
    i = p["id"]
    if i not in rules:
        continue
    m = importlib.import_module("sa.rules." + i.lower())
    what, oracle, bounds = HOW[i]
    A(f"### {i} {p['title']}\n")
    A(w(p["statement"]) + "\n")
    A(f"* level: {rules[i]['level']}; {rules[i]['technique']}")
    A("* analysed: " + what)
    A("* oracle: " + oracle)
    A("* bounds: " + bounds)
    A("* rule: " + " ".join(m.EXPLANATION.split()))
    if getattr(m, "ASSUMPTIONS", None):
        A("* assumes: " + "; ".join(m.ASSUMPTIONS))
    A("* beyond tests: " + " ".join(p["why_tests_cant"].split()) + "\n")
A("## Not applicable\n")
for n in man["not_applicable"]:
    A(f"* {n['property']} ({next(p['title'] for p in props if p['id'] == n['property'])}): {n['reason']}")
A("\n## Planted bugs and the checks that catch them\n")
A("| planted bug | property | what it needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = os.path.basename(os.path.dirname(d)); j = json.load(open(d))
    A(f"| {s} | {j['property']} | {j['needs']} | {catch.get(s, j['property'])} |")
A("\n## Findings\n")
A("Genuine defects found by the checks (or while writing them). Repaired ones are `fix:` commits in /repo; each was shown\nagainst the real code before it was repaired, and the check reports the defect again if it returns.\n")
for f in known["fixed"]:
    A("* " + f)
A("\nRecorded, not repaired (the check prints KNOWN-FINDING for exactly this construct):\n")
for k in known["known"]:
    A(f"* {k['property']} {k['construct']}: {k['what']}. Adding the penalty would change the loss every user trains with; that is a maintainer's decision, not a small repair.")
A("""
## False alarms met and corrected

* Undecided terms were first reported as violations; since then only differences between fully modelled terms are.
* Masks written with `csr.nonzero()`, boolean indexing, `np.where` or row loops are one normal form (C01, C02).
* `sort_indices` on a freshly converted matrix is not a change of the caller's matrix (C03).
* Splitting a module into files, aliasing a bound method, or wrapping a native call in a helper changed call targets;
  call resolution now follows re-exports and bound methods.
* A refactoring that replaces a raise by an equivalent check in a helper is judged by its path condition, not its text.
""")
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
