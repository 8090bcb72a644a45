HEAD = """# Design: static analysis of acerbilab/pyvbmc

This file is put together by `tools/make_design.py` from `tools/design_text.py`, the rule modules, the seeds' meta data and
`known_findings.json`; edit those.

## 1. Approach

Everything is decided from the source text of `/repo/pyvbmc` with the standard library's `ast`; nothing of pyvbmc is imported or run, no
solver is called, and no file outside `/repo` and `/verif` is read.  `check.py Cxx` parses the current tree (every non-test module of the
package and the `.ini` option files), runs the rules of one property, prints each finding as a construct (file:line, function, rule, what
is wrong), writes `evidence/Cxx.json` (functions analysed, obligations per rule, findings, undecided notes) and exits 0 / 1 / 2
(2 = an anchor of the rule is gone, e.g. the function it is about does not exist any more: the analysis gives no answer).

### Engine (`/verif/engine`)
- `program.py` — modules, classes, functions, imports, method resolution. `normal.py` normalises spelling at load time (annotated
  assignments, counted `while` loops).
- `absint.py` — a flow-sensitive interprocedural abstract interpreter. The domain is hash-consed value numbers (*terms*): parameters,
  attribute and item reads, calls with call-site identity, updates, joins (`ite` with the branch condition), loop-carried values. States
  carry must-facts (which conditions hold), a store of fields and items, and a trace of events (calls, stores, raises, reads) with the
  facts under which they happen. Paths are joined, or kept apart (`path_sensitive`, capped). Functions that are in the pinned tree
  (`baseline.py`) stay opaque unless a rule asks for them; *functions that are not* (a helper somebody extracted) *are inlined at every
  call*, and so are lambdas and closures. Loops go to a fixpoint. Conditions are simplified with unit propagation over and/or/not,
  integer comparisons, None/isinstance tests.
- `poly.py` polynomial normal form of terms (so that reordering, distributing and renaming cannot matter); `layout.py` axis-label domain
  for packed arrays; `spaces.py` original/transformed space labels; `alias.py` field-sensitive may-alias and may-mutate summaries to an
  interprocedural fixpoint; `containers.py` whole-program unification (Steensgaard) of keyed containers and object types; `lib.py` queries
  shared by rules (who writes, who calls, scope of helpers).

### What keeps the checks quiet on behaviour-preserving edits
Rules look at terms, facts and events, never at line shapes or names of local variables; new helpers are inlined and writes inside them
are attributed to their callers; what a rule does not recognise becomes an *undecided* note in the evidence, never an alarm. Each rule set
has a mutation suite `tests/cXX.py` (`tools/mut.py tests/cXX.py`): mutants that must be reported, and refactorings that must not
(about 1 350 cases together, also run over all checks by `tools/sweep.sh`). `tools/refuzz.py` is a refactoring fuzzer: it
applies some 35 behaviour-preserving transformations (renaming locals, extracting functions and methods, inlining and introducing temporaries, swapping
branches and independent statements, De Morgan, early returns, comprehensions to loops, `for` to `while`, `if` to ternary and back, NumPy
functions to methods and back, positional to keyword arguments, annotations, log calls, removed docstrings …) to the *whole* package at once
and runs every check, which must stay quiet; the alarms it provoked were all fixed in the rules or the engine. None of these tools is used by a registered check.

### Quick and thorough
The analyses are exhaustive over their abstraction, so the thorough command decides exactly the same obligations as the quick one; there is no
sampling to extend. Each takes 1–40 s on this tree.

### What static analysis means here, and its limits
Only normal Python control flow of the library is modelled (no monkey-patching, no threads: the library has none, no `exec`). NumPy,
SciPy, gpyreg and cma are trusted and modelled by small tables of effects and axioms. Numbers are exact: rounding is outside every claim.
Where a property mentions values at run time (a density, a loss), what is decided is the *structure* that determines them.
"""

PROP = {
"C01": ("The log's `__call__`, `add` and helpers; every mention of the target callable in the package.", "A frozen statement of the recorder's contract (checks before record, one count, one record, same point).", "A unit test can try a handful of bad values; the property is about every path between the target's return and any store, including paths through helpers and exceptions."),
"C02": ("Constructor, growth, trim, new-row and duplicate-row writes of the log; the rewriting of rows by a warp.", "The column set is discovered from the constructor; all other operations are compared with it.", "Holds for any number and order of evaluations (growth and duplicates happen only in long runs)."),
"C03": ("Every function of the package; labels start from declared sources (bounds, log columns, GP/mixture attributes, transform calls, sampling flags).", "A table of space signatures of parameters and attributes; everything else is inferred.", "In tests most problems are unbounded and unwarped, where both spaces coincide."),
"C04": ("`ParameterTransformer.__call__/inverse/log_abs_det_jacobian/__eq__`, the four bounded maps, whitening set-up.", "Algebra: the inverse step list must be the reverse of the direct one; Jacobian terms one per volume-changing step.", "All combinations of rotation, scaling, types and bounds rather than sampled points. Rounding is N05."),
"C05": ("All options operations on all paths, VBMC constructor/load, each read or write of an options object anywhere; both .ini files.", "Option names declared in the .ini files; the freeze contract.", "Any sequence of operations after initialization, and every consulted name, including rarely taken branches."),
"C06": ("Every keyed access in the package, unified into containers.", "Written keys of the same container.", "A misspelt key silently disables a feature (`'x' in d`, `.get`) and no test fails; six such real defects were found."),
"C07": ("History class, the main loop, `finalize`, load, everything that can reach a recorded object (alias summaries).", "Snapshot contract; list of required per-iteration entries.", "Quantifies over everything that happens after recording."),
"C08": ("`optimize` epilogue, `final_boost`, `determine_best_vp`, `_create_result_dict`, `optimize_vp`'s statistics.", "Provenance: each reported entry must come from the same record/solution.", "Differences only show in runs where the best iteration is not the last, or boosting changes something."),
"C09": ("`_check_termination_conditions`, reliability index, entropy-switch tests, the loop and its flag.", "A decision table of the documented conditions, evaluated over all truth assignments.", "Combinations of simultaneous conditions and boundary values are not sampled by tests. `min_iter` is compared with `iteration` as an existing test fixes it (one more than documented), both readings are accepted."),
"C10": ("The warping block of `optimize`, `warp_input`, `warp_gp_and_vp`, everything they call (may-mutate summaries).", "Everything written must be restored.", "A rejected warp needs a long stochastic run; the restored set is compared with the written set for every path."),
"C11": ("All functions (summaries), contracts for every public query.", "A frozen table of granted effects; no effect for queries.", "Aliasing depends on dtype/contiguity/dimension combinations that tests do not have (views from `reshape`, `asarray`, `atleast_2d`)."),
"C12": ("`save`, `load` of VBMC and posterior.", "File mode, path, index and guard of each state change.", "Histories with warps, interruptions and requested iterations."),
"C13": ("All modules.", "Entropy sources other than `numpy.random` module functions are refused; tables for cma/gpyreg.", "Any run; a second generator does not fail a test that only checks shapes."),
"C14": ("Active sampling, acquisition wrapper and its subclasses, initial design, all stores of search bounds.", "Lower and upper limit on each candidate; last write of the wrapper.", "Every candidate and every acquisition function."),
"C15": ("`get/set_parameters`, `get_bounds`, bound loss, expected log joint, entropies, ELBO, softmax penalty.", "One layout specification, 16 flag combinations, raw or not, K=1 or more.", "Tests use mostly the default flags, for which many layouts coincide numerically."),
"C16": ("Every write to a posterior's parameters.", "Normal forms of weights and scales; one count per group of writes; mode cache.", "Needs pruning, adding and warping sequences."),
"C17": ("`pdf`, `log_pdf`, `sample`, `moments`, `mode`, distances.", "Row classes (below/at/inside/above the bounds, zero density) × flags.", "All flags and tail parameters at once. `pdf(orig_flag=True, grad_flag=True, log_flag=False)` is outside: an existing test requires the uncorrected gradient."),
"C18": ("Every handler, `with`, `finally`, and process-wide setter.", "Handlers must raise, or catch a specific type where no user code or own raise of it is reachable.", "Error paths are hardly tested."),
"C19": ("All prior classes.", "Class-hierarchy signatures; orderings of parameters; regions of the log-density masks.", "All orderings and special values. `UserFunction.log_pdf/sample` are the user's own callables (an existing test requires identity) and are exempt from the shape rule."),
"C20": ("`_init_log_joint`, `convert_to_prior`, VBMC constructor, recorder.", "Polynomial identity per (prior, noise mode).", "Every scenario, each function called once."),
"C21": ("`_bounds_check`, VBMC constructor.", "Facts on every normal exit entail the documented conditions.", "All array inputs."),
"C22": ("All timer operations.", "Typestate.", "Branches such as re-used surrogate or skipped phases are rare in tests; one real defect found."),
"C23": ("Every comparison of a selectable name.", "Accepted = dispatched = received sets.", "Every name; an unknown display level is accepted as an existing test requires it (exempt)."),
"C24": ("`determine_best_vp` and its call sites.", "Range, criterion and direction in normal form.", "Histories with instabilities."),
"C25": ("All uses of recorded or training data.", "Row provenance.", "Masks with inactive rows only appear after warm-up trimming or warps."),
"C26": ("All calls, unpackings, attributes, locals and names.", "Callee signatures and arities, class attributes.", "Covers branches no test enters. A live read of an unset local in joined mode is confirmed by following every path of that function separately before it is reported."),
"C27": ("All paths of the warm-up check (8) and of the end-of-warm-up procedure (8), the loop that calls them, every writer of the warm-up flag.",
        "A frozen decision table: stop = ((flat ELCBO and flat best value, if checked) or best value old) and no recent trimming; end = reliable or trimmed before; the documented thresholds and windows as normal forms.",
        "Windows, boundaries and off-by-ones of histories no test builds, and sequences of false alarms. Equal thresholds (distance exactly the limit) are not distinguished for trimming."),
"C28": ("All paths of update_K, the pruning loop of optimize_vp, every call of the fit in the main loop and the final boost, every writer of vp_K.",
        "A frozen decision table over eight conditions, the result compared as a max/min lattice of linear forms in (old number, bonus, cap).",
        "256 combinations of conditions instead of the two histories of the suite."),
"C29": ("Every argmin, argmax, sort-and-take, guarded replacement, minimized objective, acquisition function and optimizer trace of the package.",
        "A frozen table of which results are better when larger or smaller; negation flips, monotone functions and row-preserving operations keep; candidates and values must come from the same rows.",
        "A worse choice costs evaluations but rarely fails a test; the rule does not need the choice to matter in a run. It found the optimizer trace that paired values with the next point (fixed)."),
}

LIMITS = """
## 4. Decisions that came from existing tests (not repaired, not reported)
- `min_iter`: the test suite fixes an off-by-one (`iteration < min_iter`, counted from 0); C09 accepts both boundaries.
- an unknown `display` level is accepted (test `strange_option`); C23 exempts `display`.
- `pdf(orig_flag=True, grad_flag=True, log_flag=False)` returns the uncorrected gradient (test); outside C17's statement.
- `UserFunction.log_pdf` must be the very callable given (test); C19 exempts it.

## 5. False alarms met and what was done
Every one changed the rule or engine, none is listed as a finding: joined-path reads of unset locals whose guards lie in nested `if`s (now confirmed
path by path), writes inside extracted helpers (attributed to callers; helpers called only by an operation are part of it), `while`
rewrites of counted loops (normalised), results taken apart by position instead of unpacked (typed per position), annotated assignments
(normalised), De Morgan forms of validation (entailment instead of shape), reversed branches of the success flag, renamed locals, and
NumPy method/function spellings.

## 6. Observed but not claimed
Weaknesses seen while reading that no claimed property covers, left alone: dead `upper_gp_length_factor` in `_gp_hyp`; integer variables only partly ported;
`_sieve` with no starting points returns a bare posterior; `mode()` returns its cache by reference; plot during `optimize` without a GP;
`__str__` shows x0 through the warped transform; the vb_type 3 start with fixed scales; the unreachable `vargrad` block of `_gp_log_joint`;
misspelt names inside the *defaults file* (`options_path`) are not validated.
"""
