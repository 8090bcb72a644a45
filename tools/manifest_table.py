CLAIM = {
"C01": ("interprocedural abstract interpretation (must-facts on every path) plus who-may-call / who-may-write queries",
        "Sound over the modelled Python subset for the log's two operations (all paths); whole-program queries are by attribute name and receiver type."),
"C02": ("interprocedural abstract interpretation of the log's operations with an alignment (same-rows) domain, plus who-may-write queries",
        "All paths of every operation that writes the log; array semantics are modelled by axioms for the NumPy calls used."),
"C03": ("type inference over a lattice of spaces (original/transformed/log-density kinds) along every call site and definition",
        "Flow- and call-site-sensitive; a value of unknown space never alarms."),
"C04": ("value-numbering dataflow: extraction of the direct, inverse and Jacobian step sequences from the source and comparison in an algebraic normal form",
        "Elementary maps are compared as terms modulo the ring normal form and inverse-pair axioms; floating-point error is outside (N05)."),
"C05": ("guarded-effect analysis (path facts at every mutation of the options), constructor order analysis, name queries over all option accesses",
        "All paths of the options operations; option names built at run time are not followed."),
"C06": ("whole-program unification (Steensgaard-style) analysis of keyed containers with read/written key sets per container",
        "Flow-insensitive except for the constructor's initial entries; keys computed at run time make a container undecided (noted in the evidence)."),
"C07": ("may-alias/may-mutate analysis of writes reaching recorded objects, term extraction of the history's operations, event traces of one abstract iteration",
        "Completeness is decided for the main loop's normal paths; records of runs interrupted by an exception are outside."),
"C08": ("value-numbering dataflow: provenance of the returned pair and the result dictionary compared with the selected history entry",
        "Normal paths of optimize, final_boost and _create_result_dict; entries built by unknown calls are noted, not decided."),
"C09": ("extraction of the termination conditions as a decision table and comparison with the documented one, plus loop-exit queries",
        "Conditions are compared as ordered atoms over option and state reads; numeric thresholds are compared as terms."),
"C10": ("event-trace and snapshot-provenance analysis of the trial re-parameterization, with may-mutate summaries of everything the trial calls",
        "Normal paths of the main loop; caches refreshed lazily and equivalent re-normalisations of the posterior are not counted as changes."),
"C11": ("interprocedural may-alias and may-mutate analysis (field-sensitive access paths) checked against effect contracts",
        "Flow-insensitive within a function except for fresh rebinding; library calls follow a table of effects, unknown callables are assumed not to write their arguments."),
"C12": ("value-numbering dataflow over file modes, paths and restored indices; guard and order analysis of every state change of load",
        "All paths of save and load; a path or index built in an unknown way is noted, not decided. The pickling library is trusted."),
"C14": ("confinement analysis over value terms (limits on every candidate source, mask implication for the rejection), store rules for the search bounds, caller queries",
        "transformed hard bounds are infinite for bounded variables, so the rejection in original space is the decisive limit; both are checked"),
"C19": ("interface-conformance queries over the class hierarchy; abstract evaluation of the extracted constructor guards over every ordering and special value of the parameters; region analysis of the log-density masks; result-shape and delegation dataflow",
        "Constructor guards are evaluated on a finite set of orderings (two coordinates); the values of the densities inside the support (normalisation, smoothness) are N06. UserFunction.log_pdf and sample are the user's callables and are exempt from the shape rule."),
"C18": ("handler and scope analysis over the syntax tree with a name-resolved call graph (reach of user code and of explicit raises), scope rules for process-wide setters",
        "errors of compiled or third-party code are judged by the types the handlers catch; calls are resolved by name"),
"C21": ("abstract interpretation of the bounds check: facts on every normal exit entail the documented conditions, sign analysis of the adjustments, order and use facts in the constructor",
        "bounds and points are checked as whole arrays; the shape conditions are established through the reshapes performed"),
"C13": ("whole-program name-resolution queries for entropy sources and state setters, path facts at the loader's restore, set-order queries, clock taint",
        "Names built at run time and third-party libraries' own sources (cma with seed=nan, gpyreg, scipy defaults, all on the global generator) are trusted."),
"C20": ("abstract interpretation (value numbering) of the target's closures per scenario (prior given x noise mode) compared in a polynomial normal form; path-sensitive dataflow of the prior conversion; decision table of the noise mode",
        "User functions are assumed not to modify the point they are given; a target built in an unknown shape is noted, not decided."),
"C22": ("interprocedural typestate analysis of timers (running / stopped per object and name, branch-correlated, fixpoint over loops); value-numbering check of the timer class and of the measured span",
        "Timer operations are recognised by method name; exceptional exits leave timers to the reset at the next iteration and are not judged."),
"C23": ("dispatch analysis: path conditions of every comparison of a selectable name and of every refusal; agreement of accepted, dispatched and received name sets; constant-propagating abstract interpretation of factories per accepted name",
        "Display levels are exempt (an existing test requires unknown levels to be accepted); the names implemented by the receiving libraries are a frozen table."),
"C24": ("path-sensitive value-numbering dataflow of the selection, parsed into range/criterion/direction and compared in an algebraic normal form",
        "A selection written in a shape the parser does not know is noted, not decided."),
"C25": ("row-provenance analysis: source array and row selection of every value term, compared wherever row-wise data are used together; polynomial check of the noise variance; path conditions of single-row updates",
        "Data whose row origin is not recognised are noted, not decided; recorder and surrogate objects are recognised by class, parameter role or name."),
"C17": ("abstract evaluation of the returned value terms on a finite domain of row classes (position relative to the bounds, zero density) and flag combinations; scenario analysis of sampling, moments, mode and distances",
        "Every flag combination, tail parameter class and row class of pdf is decided on the current tree; the mixture sum is identified by its ingredients, its arithmetic is N-level. Gradients returned in the original space are outside (an existing test fixes their value)."),
"C15": ("abstract interpretation of array terms in a domain of axis labels (dimension and order along every axis, log level, parameter of origin) for all 16 optimize_ flag combinations, against one layout specification",
        "Producers, consumers, bounds, bound loss and gradients are compared for one or several components and GP samples; array operations outside the modelled NumPy subset are reported as undecided in the evidence, never as violations."),
"C16": ("who-may-write analysis of every posterior parameter with abstract evaluation of the stored values: uniform-array evaluation for normalization, symbolic component counts and removal indices for pairing, and effect ordering for the cached mode",
        "Weights are shown normalized by their normal form V/sum(V); sign of raw user weights beyond the setter's refusal, and floating-point error, are not decided. Values outside the recognized shapes are reported as undecided."),
"C26": ("whole-program call resolution and signature binding, return-arity inference, gated reaching definitions of locals, attribute-existence and scoping queries",
        "Calls whose receiver type is unknown are not decided; arities are specialised to the constant arguments of a call."),
"C27": ("path extraction of the stop decision into value terms, algebraic normal forms of its comparisons, exhaustive decision-table comparison, decomposition of the new mask, who-may-write query",
        "Comparisons of a form the normaliser does not recognise leave the affected assignments undecided (listed in the evidence)."),
"C28": ("path extraction of the component update, algebraic and min/max normal forms, exhaustive decision-table comparison, call-site and writer queries",
        "The random order in which light components are tried is not part of the statement."),
"C29": ("orientation analysis of value terms (larger/smaller is better), row-identity dataflow between candidates and deciding values, polynomial sign analysis of the acquisition functions",
        "Values whose orientation the analysis does not know are listed in the evidence notes and not judged."),
}
NA = {
"N01": "A numerical/statistical statement about GP quadrature error on arbitrary targets; no static argument in reach bounds it.",
"N02": "Asymptotic convergence of a stochastic algorithm on arbitrary targets; not decidable from source structure.",
"N03": "Needs symbolic differentiation of vectorised NumPy tensor code with data-dependent loops and an equality decision over the reals; outside dataflow/lint reach (layout of the gradients is claimed as C15).",
"N04": "Statistical convergence of estimators; runtime quantity with no static bound.",
"N05": "Floating-point rounding error close to the bounds; would need a floating-point error analysis of special functions, not available statically here (algebraic direct/inverse pairing is claimed as C04).",
"N06": "Requires integrating densities over arbitrary parameters and comparing with a sampler's distribution; not a source-structure property.",
"N07": "Cost depends on runtime sizes, convergence of numerical optimizers and the user's target; no static bound in reach.",
}
