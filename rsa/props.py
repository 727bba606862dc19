"""Property metadata: the single source for properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
TRUST = ("Python's own parser and symbol tables; the class/call resolution of rsa/project.py (static imports, MRO, "
         "declared attributes); summaries of external libraries (numpy, healpy, astropy, pandas) by name.")

PROPS = {}


def prop(id, title, statement, over, text, why, files, mech, technique, note, rule, assumptions, design):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                     technique=technique, note=note, rule=rule, assumptions=assumptions, design=design)


NOT_APPLICABLE = []  # (id, title, statement, over, text, why, files, mech, reason)


def na(id, title, statement, over, text, why, files, mech, reason):
    NOT_APPLICABLE.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                               mech=mech, reason=reason))


prop(
    "P01", "Stackers add exactly the columns they declare, from columns they declare",
    "For every stacker, every combination of its options, and every table of visits that has the columns the stacker "
    "says it requires, running it reads no other column, fills every column it says it adds on every path, and "
    "changes no column it does not declare. The units, types and column lists it advertises have one entry per added column.",
    ["inputs", "configurations"],
    "every stacker class, every constructor option combination, every path through its computation (including the "
    "already-computed shortcut), every conforming visit table",
    "The tests run most stackers once with default options on one small table that happens to have all the usual "
    "columns, so an undeclared read, a column left unfilled on an option path, or a units list that is too short goes unseen.",
    ["rubin_sim/maf/stackers/base_stacker.py", "rubin_sim/maf/stackers/general_stackers.py",
     "rubin_sim/maf/stackers/coord_stackers.py", "rubin_sim/maf/stackers/date_stackers.py",
     "rubin_sim/maf/stackers/mo_stackers.py", "rubin_sim/maf/stackers/mo_phase.py",
     "rubin_sim/maf/stackers/neo_dist_stacker.py", "rubin_sim/maf/stackers/n_follow_stacker.py",
     "rubin_sim/maf/stackers/sdss_stackers.py", "rubin_sim/maf/stackers/teff_stacker.py",
     "rubin_sim/maf/stackers/m5_optimal_stacker.py", "rubin_sim/maf/stackers/get_col_info.py"],
    [{"name": "column declarations", "where": "stackers/base_stacker.py: cols_req, cols_added, cols_added_dtypes, units"},
     {"name": "computation", "where": "stackers/*.py: _run of each stacker"}],
    "trace-partitioned abstract interpretation of constructors and _run over abstract record arrays",
    "Sound over the option paths the abstract domain distinguishes: a column read or write is attributed to its literal or "
    "option-derived name on every path; an unresolvable name is reported in the evidence, not assumed safe silently. " + TRUST,
    "For each concrete stacker class, abstractly interpret the constructor over all option paths, then _run on an abstract visit table with "
    "cols_present in {False, True}; obligations: each column read is in cols_req or cols_added, each written column is in cols_added, each "
    "added column is written on each returning path, len(units)=len(cols_added)=len(dtypes), nested stackers' requirements are included.",
    ["names of columns flow through the constructor's options unchanged (the domain keeps them symbolic)",
     "library calls do not add columns to the visit table"],
    "")

prop(
    "P02", "Metrics declare every visit column they read",
    "Whatever options a metric is built with, every visit column its computation reads on any path is one it declared "
    "it needs when it was built, so that the columns fetched from the visit database are always sufficient. A metric that delegates to another "
    "metric builds it with, and declares, the same column names, and neither a metric nor a helper writes out the default name of a column that an option names.",
    ["inputs", "configurations"],
    "every metric class, every constructor option combination, every path through its computation, every visit table",
    "Tests hand metrics a record array that already contains all the columns the test author knew were needed; only a run "
    "through the database, with each option, on data reaching each branch would show a missing declaration.",
    ["rubin_sim/maf/metrics/base_metric.py", "rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib",
     "rubin_sim/maf/metric_bundles/metric_bundle.py"],
    [{"name": "column declaration", "where": "metrics/base_metric.py: BaseMetric.__init__, ColRegistry.add_cols"},
     {"name": "column reads", "where": "metrics/*.py, maf_contrib/**: run of each metric"}],
    "trace-partitioned abstract interpretation of metric constructors and run methods, column-name provenance",
    "Decided per class and option path on symbolic column names. Metrics over solar-system observations, whose columns are "
    "not fetched by declaration, are exempt. Reads through names the domain cannot resolve are counted as open sets in the evidence. " + TRUST,
    "For each metric class, abstractly interpret __init__ over all option paths to obtain the declared column set (symbolic in the options), "
    "then interpret run() and everything it calls on an abstract visit array; obligation per read: the (symbolic) column name is declared on that path. "
    "In every class and function with options naming columns: no record or table is read with the default value of such an option as a literal.",
    ["options holding column names are strings", "library calls given the whole visit array do not read undeclared columns"], "")

prop(
    "P03", "Evaluating a metric at one point leaves no trace for the next",
    "The value of a metric at one point of the sky depends only on that point's visits and the metric's configuration: evaluating it "
    "never alters the visits or the point description it shares with other metrics, and never leaves state behind in the metric object that a later evaluation reads. "
    "Row re-ordering of the visits and drawing on from the metric's own random generator are the only permitted side effects.",
    ["inputs", "histories", "configurations"],
    "every metric class, every option path, every path through the evaluation, every order of evaluation over points and metrics",
    "Tests evaluate a metric once, on its own array; contamination shows only when two metrics share visits or when an earlier point takes a particular branch.",
    ["rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/metric_bundles/metric_bundle_group.py"],
    [{"name": "shared visits", "where": "metric_bundles/metric_bundle_group.py: _run_compatible hands one array to every metric of a group"},
     {"name": "evaluation", "where": "metrics/*.py, maf_contrib/**: run of each metric"}],
    "abstract interpretation with alias/ownership tracking of the shared array, slice point and self",
    "Writes are attributed through views, slices, helper calls and nested metrics; stores to self during evaluation are flagged only "
    "when some path may read them before rewriting them. " + TRUST,
    "Interpret run() with the visit array, slice point and self as shared regions; obligation: no store, in-place operator, or in-place library call reaches the shared "
    "regions, and every attribute stored on self during run() is written before it is read on every path of run().",
    ["numpy functions not known to work in place do not modify their arguments", "fancy and boolean indexing copies, basic slicing aliases"], "")

prop(
    "P04", "Metrics read only sky-point information that is guaranteed to be there",
    "Every piece of per-point information a metric reads is either always provided by the slicers that metric can be used with, provided by a map the metric "
    "requests when it is built, or guarded by a presence test. Every map provides the keys it advertises on every path.",
    ["inputs", "configurations"],
    "every metric class and map class, every option path, every slicer the pipeline pairs them with",
    "Tests construct the point description by hand with whatever key the metric wants, so a forgotten map request or a renamed key still passes.",
    ["rubin_sim/maf/maps", "rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/slicers"],
    [{"name": "map request", "where": "metrics/base_metric.py: BaseMetric.__init__(maps=)"},
     {"name": "map key names", "where": "maps/*.py: keynames and run"},
     {"name": "slicer keys", "where": "slicers/*.py: slice_points"}],
    "abstract interpretation; provider/consumer key agreement",
    "Decided per class and option path; keys built from non-constant parts are matched by pattern and counted. " + TRUST,
    "Collect the keys each map writes on each returning path (must equal its advertised names) and the keys each slicer always sets; "
    "obligation per key read in run(): guarded, slicer-provided, or provided by a map the constructor path requests.",
    ["keys listed as caller-supplied (population slicers given by the user) are provided by that user"], "")

prop(
    "P05", "Every name, attribute and call in the package resolves",
    "No operation the package offers fails because the code refers to something that does not exist: every name, imported item, module attribute and object attribute it mentions, its own or one of "
    "the installed libraries it uses (numpy, scipy, astropy, rubin_scheduler, ...), is defined, and every call passes arguments the callee accepts and all arguments it requires. This holds on rarely taken option paths and error paths as well.",
    ["inputs", "programs", "configurations"],
    "every module, function, branch and call site of the package",
    "Tests execute a fraction of the branches; a misspelt name or a keyword a callee no longer takes fails only when that line is reached.",
    ["rubin_sim"],
    [{"name": "module namespaces and exports", "where": "rubin_sim/**/__init__.py and __all__ lists"},
     {"name": "call sites", "where": "all modules"}],
    "whole-program linking: symbol tables, import/export resolution, class attribute universes, call-signature matching, library interfaces read from their installed sources and stubs",
    "Complete over names, imports, exports, own-attribute reads and calls whose callee resolves statically, in the package or an installed library; for objects of unknown class an attribute name "
    "somebody must define and a call some definition of the method must accept. Libraries that fill their namespace dynamically or are not installed are not decided. " + TRUST,
    "Every free name resolves through scopes, module globals, builtins or package star-imports; every __all__ entry, package import and module attribute read names an existing member; every self-attribute "
    "read is defined somewhere in the class family; every resolved call binds (positional/keyword/required, following **kwargs forwarding to the finally receiving signature). Library members and signatures are resolved in the sources and stubs under /opt/venv, reads guarded by hasattr or a handler for the missing name are exempt; an attribute "
    "name occurring nowhere in the package or those libraries, one set on another object that nobody reads, and a method call no project definition of that name accepts are violations.",
    ["attributes set dynamically through setattr/__dict__ make a class open and exempt"], "")

prop(
    "P06", "No path uses a variable before it has been given a value",
    "Whatever arguments, options and data a function is given, it never stops with an unassigned-variable error: on every path to a use of a local variable "
    "the variable has been assigned, or the path has already ended in a deliberate error. In particular an option value the code does not support leads to a clear error, "
    "not to a branch that silently assigns nothing; and whatever a constructor was given, every attribute its methods read has been assigned. (A loop that supplies the value is taken to run at least once.)",
    ["inputs", "configurations"],
    "every function of the package and every path through its branches, loops and exception handlers",
    "A variable assigned in only some branches works for every input the tests use; the unsupported option value or empty selection that skips the assignment is by definition not sampled.",
    ["rubin_sim"],
    [{"name": "functions", "where": "every def in rubin_sim/**"}],
    "path-sensitive definite-assignment dataflow with correlated-condition facts",
    "Every local read is an obligation; two branches on the same unmodified condition are correlated; loops are taken to run at least once (whether a runtime "
    "collection can be empty is not decidable from the source here). " + TRUST,
    "Structured forward dataflow per function: state = set of definitely assigned locals + facts on tested conditions; obligation per local read: the name is definitely assigned in every reachable state. For every constructor exit state, every method (with calls on self followed) reads only attributes that state has assigned.",
    ["conditions built from the same unmodified names evaluate the same twice"], "")

prop(
    "P07", "Leaving out an optional argument never makes the code use None as a value",
    "For every function and method with an argument that may be omitted (its default is None), omitting it either selects a documented default or ends in a deliberate error: "
    "on no path is the missing value indexed, iterated, called, unpacked, measured, compared by size, used in arithmetic or asked for an attribute. The same holds for any local variable that is None on some path, and for an omitted constructor option kept as an attribute and used later by a method.",
    ["inputs", "configurations"],
    "every function, every argument with default None (others arbitrary), every path",
    "Tests call most functions with one combination of arguments; the combination that reaches the unguarded use is the one nobody wrote down.",
    ["rubin_sim"],
    [{"name": "optional arguments", "where": "every def with a None default in rubin_sim/**"}],
    "path-sensitive null-propagation dataflow per optional argument",
    "Each None-default argument is analysed separately with the others unconstrained; arguments whose joint omission the function rejects form a group and are exempt; passing None on to "
    "another package function that checks it for None ends the obligation there. " + TRUST,
    "For each None-default parameter start with the fact 'p is None' and walk all paths of the function; obligation per dereferencing use of a variable: it is not known to be None in any reachable state.",
    ["pipeline-supplied arguments (slice_point, slice_points) are always given by the pipeline", "handlers for TypeError/AttributeError/ValueError/Exception handle the None they enclose"], "")

prop(
    "P08", "Every option takes effect and no computed result is dropped",
    "Every option a caller can set (an argument with a default, of any function, constructor or method) influences something that is used: its value is read before being overwritten, and what it is "
    "stored in or turned into is read in turn. No keyword is accepted and silently discarded, and no value that the code computes into a variable is left unused on all paths.",
    ["inputs", "configurations"],
    "every argument with a default, every keyword passed between package functions, every assignment of a computed value, over all paths",
    "A test of an option passes whenever the option's value coincides with what is hard-coded, and a corrected value that is computed and then not used leaves plausible numbers.",
    ["rubin_sim"],
    [{"name": "options", "where": "every def with default arguments"}, {"name": "assignments", "where": "every function body"}],
    "backward liveness dataflow, interprocedural attribute-use slicing, keyword-flow through **kwargs",
    "All options and assignments of computed (non-default, non-constant) values are obligations. Attributes count as used when any class sharing the instance, or any other object expression, reads that name. "
    "Options fixed by an interface the method overrides are exempt. " + TRUST,
    "An option must be live at function entry and in the backward slice of an effect (return, raise, call, used attribute, control of these); an assignment of a computed value must be live after it on some path; "
    "a keyword passed to a package function must be named, popped or forwarded by it.",
    ["an attribute read anywhere under the same name on another object counts as a use"], "")

prop(
    "P09", "Every operation delivers its result on every path and honours its interface",
    "A function that returns a value on one path returns one on every path that does not end in an error, tuples it returns always have the same number of parts, and callers unpack exactly that many. "
    "Every metric, reduce function, stacker, map, plotter and slicer accepts the call the pipeline makes and gives back a result; a metric with nothing to measure reports its bad value, never None.",
    ["inputs", "configurations"],
    "every function and every path through it; every class plugged into the pipeline, as called by the pipeline",
    "The branch that forgets to return (an unsupported option, an empty selection) produces None, which the pipeline stores as an unmasked NaN or trips over far from the cause; tests do not take that branch.",
    ["rubin_sim", "rubin_sim/maf/metric_bundles/metric_bundle_group.py", "rubin_sim/maf/metric_bundles/mo_metric_bundle.py", "rubin_sim/maf/plots/plot_handler.py"],
    [{"name": "pipeline calls", "where": "metric_bundle_group.py: _run_compatible; mo_metric_bundle.py: run_constraint; plot_handler.py: plot; base_slicer.py; base_stacker.py: run"},
     {"name": "implementations", "where": "every run/_run/reduce_*/__call__/setup_slicer"}],
    "path-sensitive return analysis (class-invariant facts), tuple-arity matching at resolved call sites, protocol binding",
    "Complete over functions; explicit 'return None' and bare 'return' are taken as deliberate except where the pipeline stores the result. Paths that hand their result to an object the caller supplied (a queue) count as delivering. " + TRUST,
    "Walk every function's paths with branch-condition facts and values its constructor admits; obligation: no fall-through path when some path returns a value; one tuple length; unpack sites match; each protocol method binds the pipeline's call and returns a non-None value.",
    ["the table of pipeline calls in rsa/clients/returns.py mirrors the call sites named under mechanisms"], "")

prop(
    "P10", "No check, assignment or message is inert",
    "Everything the code sets out to do happens: an error that is built is raised, a comparison or computed value standing as a statement is used, a condition can be both true and false and each branch can be taken, "
    "a store reaches the array it names rather than a copy that is dropped, a loop leaves something behind, and every text with placeholders receives exactly the values it needs. Lists of names contain every name written in them.",
    ["inputs", "programs"],
    "every statement, condition, loop, store and format template of the package",
    "A validation that never raises or a correction written to a copy leaves all ordinary inputs unaffected, so tests of ordinary inputs pass; only the bad input it was meant for shows it.",
    ["rubin_sim"],
    [{"name": "statements", "where": "all modules"}],
    "syntactic and dataflow inertness analysis: unraised exceptions, dropped pure results, tautologies and branch feasibility by condition facts, stores to temporaries, effect-free loops, template/argument matching",
    "Complete over the listed constructs; feasibility uses equality/membership facts from earlier tests only and forgets them across calls that could change them. " + TRUST,
    "Each expression statement, raise, condition, if/elif chain, subscript store, loop, %-/format template, literal with placeholders and list of string literals is an obligation of its kind.",
    ["numpy functions and string/pandas methods in the tables of rsa/clients/inert.py only compute values", "boolean and index-array selection copies"], "")

prop(
    "P11", "A value computed for one loop item is never used for another",
    "Results that depend on an item (a filter, a field, a visit, a time shift) use that item's values: a loop variable is not read after its loop has run through, a value computed afresh per item in one loop is not "
    "read in another loop, and a total gathered over a loop is not emptied again by each iteration.",
    ["inputs", "configurations"],
    "every loop of the package and every variable assigned in it",
    "With one filter, one field or one iteration, as in small tests, the last item is the only item and the mistake is invisible.",
    ["rubin_sim"],
    [{"name": "loops", "where": "every for/while loop in rubin_sim/**"}],
    "forward reaching-definition dataflow tagging loop targets and per-iteration temporaries",
    "Loops that can stop early (search loops) and running indices are exempt: there the last value is the meaning. " + TRUST,
    "Obligation per read of a variable: no definition reaching it comes from the target of a completed loop, or from a per-item temporary of a loop that does not enclose the read while another loop does; obligation per counter initialised in a loop: it is read in that loop or not accumulated.",
    [], "")

prop(
    "P12", "Angles are always used in the unit they are given in",
    "Whether an angle is in degrees, radians, hours or arcseconds is never confused: each trigonometric, sky-coordinate or healpix operation, each argument with a documented unit, and each sum or comparison receives angles in the unit it expects, "
    "for both settings of every 'degrees' switch. A column, attribute or dictionary entry holds one unit, and a stacker advertises the unit its columns are really in.",
    ["inputs", "configurations"],
    "every expression that carries an angle, on every path, for both values of every degrees switch",
    "Tests run with degrees=True and loose tolerances or near the origin; the radians branch of a switch, a limit in the wrong unit, or a mislabelled column gives plausible but wrong numbers.",
    ["rubin_sim/maf/stackers", "rubin_sim/maf/slicers", "rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/plots", "rubin_sim/skybrightness", "rubin_sim/moving_objects",
     "rubin_sim/satellite_constellations", "rubin_sim/selfcal"],
    [{"name": "sources of units", "where": "visit columns, slice_point entries (radians), docstrings, declared stacker units, astropy .deg/.rad, degrees switches"},
     {"name": "demands", "where": "trigonometric functions, conversions, healpy, rubin_scheduler.utils, astropy, camera footprints, package functions"}],
    "interprocedural unit inference (deg/rad/hour/arcsec lattice) by path-sensitive dataflow, split on the degrees switches",
    "Flags only a known unit meeting a different known demand; an angle whose unit cannot be traced is not judged (the evidence gives the number judged). " + TRUST,
    "Infer a unit for every expression per value of the switch; obligation: at each conversion, trigonometric or library call, package call, sum, comparison and store, the inferred unit equals the demanded one; final units of stacked columns equal the declared units; all stores of one attribute or key agree.",
    ["visit columns are in degrees and slice_point ra/dec in radians, as rubin_sim documents", "unit tables of rubin_scheduler, healpy and astropy functions in rsa/clients/units.py"], "")

prop(
    "P13", "Named settings, records and saved files hold every entry that is read from them",
    "Every entry read by name from a dictionary, settings table, record array or saved file of the package has been put there under that name, for every way in which the container is built and whatever subset of settings the user supplies. "
    "Files written by the package are read back completely: every saved entry is taken up, every entry needed was saved, and a slicer rebuilt from a file has the settings of the one that was saved.",
    ["inputs", "configurations", "histories"],
    "every subscript with a constant name of every container built by the package; every saved entry; every slicer class",
    "An entry that is missing shows only with the plotter, option or file kind that reads it; a setting that is not saved shows only after a round trip with a non-default value.",
    ["rubin_sim/maf/plots", "rubin_sim/maf/slicers", "rubin_sim/maf/metric_bundles", "rubin_sim/maf/batches", "rubin_sim/maf/metrics", "rubin_sim/moving_objects", "rubin_sim/phot_utils"],
    [{"name": "plot settings", "where": "default_plot_dict of every plotter, PlotHandler"}, {"name": "metric records", "where": "dtype of arrays built in metrics, simulations, orbits"},
     {"name": "saved metric files", "where": "BaseSlicer.write_data, read_data, slicer_init"}],
    "abstract interpretation of containers over a key-set domain (closed/open, caller-extended), interprocedural through attributes, returns and arguments; writer/reader agreement",
    "Judges a read only if everything the container can hold is known; reads guarded by a membership test or KeyError handler are not obligations. " + TRUST,
    "Infer the key set of every dictionary/record expression; obligation per constant-name read: the name is in the set, or the container is open. Per saved file: names read back are a subset of names written by some writer and vice versa; per slicer class: saved settings = constructor parameters that affect the slicer, each with its own value.",
    ["plot settings merged by PlotHandler (label, color, ...) are present as PlotHandler sets them"], "")

prop(
    "P14", "What a caller hands in is left as it was",
    "Arrays, tables, lists and dictionaries given to a public function or constructor are not altered by it, neither at once nor later through an object that kept them, and what calls or instances share - default arguments, "
    "default settings, class attributes, tables of a module or library - is not changed in place. Excepted are stackers filling in the visit table, maps filling in the slice points and metrics re-ordering visits, whose purpose that is.",
    ["inputs", "histories", "configurations"],
    "every parameter of every public function and constructor, every attribute that keeps one, every shared container, every path",
    "A test builds its inputs, calls once and looks at the result; that the input, or the starting point of the next call, was altered shows only when the caller goes on using it.",
    ["rubin_sim"],
    [{"name": "in-place changes", "where": "item and slice stores, mutating methods, augmented assignment, out= and inplace= anywhere in rubin_sim/**"}],
    "may-alias analysis (views, elements, containers with known keys) with interprocedural mutation summaries",
    "Follows names, views, tuples, dictionary entries, attributes and calls resolved statically; a change made by an external library on an object handed to it is not seen. Six functions that fill in an argument by agreement with their caller are declared in rsa/clients/aliasing.py. " + TRUST,
    "For every function compute which objects reachable from its parameters, attributes, defaults, module or class containers it changes in place (directly or through callees); obligation: none is a parameter of a public function, an attribute that still is a caller's object, a default, a class attribute or a module-level or library container.",
    ["indexing with a name that is not a loop index or a column name selects a copy", "+= changes in place only arguments documented as arrays, lists or tables"], "")

prop(
    "P15", "Results do not depend on the order in which visits are handed over",
    "A metric, stacker or slicer gives the same result for the same visits in any order: whatever looks at neighbouring, first or last visits, or searches in them, looks at visits sorted first by what decides that. "
    "Arrays that are used row by row with each other are arranged alike, so an array is never sorted, or indexed by row numbers of another arrangement, while its partners are not.",
    ["inputs"],
    "every metric's run, stacker's _run and slicer's set-up with the helpers they call, every path; row-by-row pairings also in all other functions",
    "Tests hand over visits in time order, as a database query usually returns them; a slicer's index tree hands them over in any order.",
    ["rubin_sim/maf/metrics", "rubin_sim/maf/maf_contrib", "rubin_sim/maf/stackers", "rubin_sim/maf/slicers"],
    [{"name": "order-dependent operations", "where": "np.diff, roll, cumsum, searchsorted, interp, first/last/sliced rows, neighbours by loop index in metrics and stackers"},
     {"name": "sorting", "where": "np.sort, argsort, .sort(order=), sort_values"}],
    "abstract interpretation of per-visit arrays over an arrangement domain (origin, masks, sort keys), interprocedural",
    "Judges arrays traced from the visit table through columns, masks, index arrays, permutations and row-by-row arithmetic; anything else (lists built in loops, results of libraries) is not judged. " + TRUST,
    "Give each per-visit array its arrangement; obligations: every operation that depends on neighbours, first or last rows or a binary search gets an array sorted before, by a key that settles the order; every row-by-row pairing gets arrays of one arrangement; no single column of a table is sorted in place.",
    ["visits with equal sort keys may be exchanged"], "")

prop(
    "P16", "The same inputs give the same results on every run",
    "Whatever is drawn at random comes from a generator that was seeded before, and a seed given by the caller reaches every draw. "
    "No result, file name or label depends on the order in which a directory or a set happens to be listed, on the moment of the run, or on per-process values such as the hash of a text.",
    ["inputs", "histories", "configurations"],
    "every random draw, directory listing, set and clock reading in the package, with all uses of what comes from them",
    "A test runs in one process with one hash seed, one file system and one state of the random generator, and can only compare with that run.",
    ["rubin_sim"],
    [{"name": "random draws", "where": "np.random.*, random.*, default_rng, RandomState, rvs in maf metrics, population slicers, selfcal, satellite constellations, orbits"},
     {"name": "listings and sets", "where": "glob, listdir, os.walk, set(...) anywhere in rubin_sim/**"}],
    "dominance of seeding over draws through the call graph, and taint analysis of arbitrary order and of the clock",
    "Draws inside external libraries are not seen, except for rubin_scheduler's uniform_sphere, which seeds. Sets evidently made of integers are not judged, nor are sums of floats over a set. "
    "A generator kept on an object goes on drawing from call to call, which repeats with the program. " + TRUST,
    "Obligations: every draw from process-wide state is dominated by a seeding of that state in its function or in all its callers; every generator is made from something that repeats, and from the seed option if there is one; nothing taken from a listing or a set is indexed, formatted, paired by place or chosen as the first match unless it was sorted or has one element; no clock value is stored, returned or compared in code that calculates results.",
    ["the order in which Python dictionaries list their keys is their insertion order"], "")

prop(
    "P17", "Every value goes to the name that stands for it",
    "Longitude-like and latitude-like coordinates, lower and upper ends, and quantities such as magnitude, flux, time, night, band, seeing and airmass are never handed over as one another. "
    "Arguments reach the parameters called like them, parts of results are received under their own names, and columns, attributes and dictionary entries hold what they are called after.",
    ["inputs", "configurations"],
    "every call with a resolved callee, every result taken apart, every store under a name, every default, comparison and difference",
    "An exchange of two like-shaped values gives plausible numbers; a test sees it only where it knows the right value, and most metrics are only run for not failing.",
    ["rubin_sim"],
    [{"name": "calls", "where": "calls anywhere in rubin_sim/** to package functions, methods and installed libraries"},
     {"name": "sky positions", "where": "healpy, SkyCoord, arctan2 and rubin_scheduler.utils calls in maps, slicers, stackers, metrics, moving objects"}],
    "matching of the role that each name states on both sides of every binding, with callees resolved through the package and installed library sources",
    "Roles are read off the names of variables, columns, attributes and parameters; values without a telling name are not judged. A window sliding along (`start = end`) is allowed between variables. " + TRUST,
    "Obligations: no argument, default, part of a result, entry, column, attribute, paired loop variable, comparison or difference binds two names on opposite sides of one opposition; no two arguments, parts or attributes are exchanged with one another; a minimum, maximum, mean, median or spread of a whole array is not kept under the name of another.",
    ["a name that states a role is used for values of that role"], "")

prop(
    "P18", "A batch returns every bundle it makes, under the caller's selection",
    "Every bundle that a metric batch builds is returned or used and carries the SQL selection, run name and label that the caller handed over, for every combination of options. "
    "Pieces of a selection are joined so that none changes what another selects, they compare columns of the visit database, and bundles made in one loop differ in what they compute whenever their labels differ.",
    ["inputs", "configurations"],
    "every function that makes metric bundles, entered through its callers, with its optional selection taken as given",
    "The batches need simulated surveys and data files to run, so tests hardly touch them, and a bundle that ignores the selection gives plausible numbers for the wrong visits.",
    ["rubin_sim/maf"],
    [{"name": "batches", "where": "rubin_sim/maf/batches/*.py"}, {"name": "scripts", "where": "rubin_sim/maf/maf_night_report.py, run_selfcal_metric.py, run_comparison/*.py"},
     {"name": "bundle collection", "where": "rubin_sim/maf/metric_bundles/metric_bundle_group.py make_bundles_dict_from_list"}],
    "abstract interpretation of every bundle-making function over a dependence, SQL-shape and bundle-ownership domain, calls between batches entered",
    "The rules speak of parameters called sql, constraint, sql_constraint, extra_sql, run_name, opsim and extra_info_label (in either spelling). Loops are taken to run. Selections are judged with the caller's one present; without it no obligation arises. " + TRUST,
    "Obligations: at every return, each bundle made on the way is held by the result or was used; its constraint, run name and label depend on the parameters of those names; no text with an OR outside parentheses (a caller's selection included) is joined by AND; a constraint compares known columns, bands in the band column; within a loop the constraint, metric, slicer, stackers or maps change whenever the label does, and the name changes.",
    ["the database has the columns of rubin_scheduler's SchemaConverter and of col_map_dict"], "")

prop(
    "P19", "The result, tracking and archive databases keep what they are given",
    "Whatever is recorded in the results, tracking and visit-sequence databases is committed before the call returns, a connection opened by a function is released on every way through it, and a locked database is retried without losing the record. "
    "Statements take exactly the parameters they are given and name tables and columns that the schema defines, and every row is written, narrowed and read back under the column it belongs to.",
    ["inputs", "faults", "histories"],
    "every method of the classes that own a database session, every function that opens a connection, every composed statement and every row class, on every path",
    "Lock faults need a second writer and the rarer statements are sent by no test; a lost commit or two columns exchanged leave plausible databases behind.",
    ["rubin_sim/maf/db", "rubin_sim/sim_archive", "rubin_sim/maf"],
    [{"name": "results database", "where": "rubin_sim/maf/db/results_db.py ResultsDb"}, {"name": "tracking database", "where": "rubin_sim/maf/db/tracking_db.py TrackingDb, maf/make_fbs_tracking_db.py"},
     {"name": "archive metadata", "where": "rubin_sim/sim_archive/vseqmetadata.py VisitSequenceArchiveMetadata, sql/make_vseqmeta.sql"}],
    "typestate over sessions and connections, symbolic composition of SQL statements checked against the schema file, and column-tracking abstract interpretation of row classes",
    "Constraints the server enforces at run time (uniqueness, foreign keys, types) are not modelled. Loops are taken to run. Columns that are computed into a statement are left open. " + TRUST,
    "Obligations: no way out of a method, a handler included, leaves something added or executed uncommitted or dropped; sessions, sqlite connections and pooled connections are closed or put back; a composed statement has as many parts and parameters as places, under the names given, and its tables and columns are in the schema; a changing statement is sent with commit, and rows fetched only where it returns some; columns set, compared, selected or read back match the values called after them; queries over two tables say how rows belong together; what the caller narrows by reaches the query; names of a returned table line up with its records; upgrades and downgrades rename the same columns.",
    ["sql/make_vseqmeta.sql is the schema the archive was created with"], "")
