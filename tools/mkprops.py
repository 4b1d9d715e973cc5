#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the list is reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = "guarded call adapter in src/main.rs (cfg verif_hooks)" if hook else None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A mutation edits exactly its own span of the file",
 "The text tested for a mutant is the original source file with only the mutant's reported line/column span removed and the mutant's replacement text (followed by a marker comment) put in its place: every character before and after the span is unchanged. The original text reported for a mutant is exactly the characters of that span. Positions count lines from 1 and columns in characters from 1, including non-ASCII text, multi-line spans, empty spans and spans at the end of the file.",
 ["inputs"], "every source text (without carriage returns, which are normalised on load), every span inside it, every replacement",
 "unit tests try a dozen spans on short ASCII snippets; a text/span pair is an unbounded input",
 ["src/span.rs", "src/mutant.rs"],
 [("Span::replace", "src/span.rs"), ("Span::extract", "src/span.rs"), ("Mutant::mutated_code", "src/mutant.rs"), ("Mutant::original_text", "src/mutant.rs")],
 observe=["file contents cargo sees", "--list --json --diff"], hook=True)

prop("C02", "The source tree is put back after every mutant",
 "Once a mutation has been written into a build directory, the mutated file is written back to the text it was loaded with before anything else is tested there, and before the program ends, whichever way the mutant's cargo commands ended: success, failure, timeout, death by signal, an internal error such as cargo failing to start, or an interrupt. So each mutant is tested with exactly one mutation present in its directory, and with --in-place the user's file is left with its original text (with CR LF line ends turned into LF, as all source text is on load).",
 ["histories", "fault_sequences"], "every sequence of scenarios and every way each cargo command can end",
 "tests run a few fixed trees where cargo always starts; the error and interrupt paths are never taken",
 ["src/lab.rs", "src/mutant.rs", "src/build_dir.rs"],
 [("Worker::run_one_scenario", "src/lab.rs"), ("Mutant::apply / Mutant::revert", "src/mutant.rs"), ("BuildDir::overwrite_file", "src/build_dir.rs")],
 state=[("build directory files", "text of each source file in the directory being tested")],
 observe=["files seen by cargo", "files left after the run"])

prop("C03", "Each mutant's verdict follows from its phase results",
 "A mutant is unviable exactly when a check or build command exited with a failure code; otherwise a timeout when some phase exceeded its limit; otherwise caught when its last phase was the test phase and exited with a failure code, missed when the test phase exited 0, and success when it only had a check or build phase that passed. The baseline is a success when its last phase succeeded, a timeout when a phase timed out, and otherwise a failure. Any non-zero exit code of the command counts as failure and only exit code 0 counts as success.",
 ["inputs", "histories"], "every sequence of phases and every exit status (all codes, signals, timeouts)",
 "tests run real cargo trees, reaching exit codes 0 and 101 in a handful of phase combinations",
 ["src/outcome.rs", "src/process.rs", "src/process/unix.rs"],
 [("ScenarioOutcome::summary and its predicates", "src/outcome.rs"), ("Exit::is_success / is_timeout / is_failure", "src/process.rs"), ("Exit::from(ExitStatus)", "src/process/unix.rs")],
 observe=["outcomes.json", "caught/missed/timeout/unviable.txt"], hook=True)

prop("C04", "Phases run in order, stop at the first failure, with the right limits",
 "Every scenario runs build then test, or with --check only check, in that order, each at most once; a later phase is run only if every earlier one exited successfully, and no phase is left out while all so far succeeded. The test phase runs under the test time limit, and check and build phases under the build time limit. The recorded phase results are exactly the phases that were run, in order, each with its own result.",
 ["histories", "configurations"], "every option combination and every sequence of phase results",
 "tests observe the common sequences for a few trees, never the recorded list against the commands actually run",
 ["src/lab.rs", "src/options.rs"],
 [("Options::phases", "src/options.rs"), ("Worker::run_one_scenario", "src/lab.rs")],
 observe=["commands run", "outcomes.json phase_results"])

prop("C05", "Totals, outcome records and list files agree",
 "After each scenario is recorded, outcomes.json contains every scenario finished so far once, in order, and its totals equal the number of mutant records with each verdict, with the overall total equal to the number of mutant records; the baseline is recorded but never counted. Each mutant with verdict caught, missed, timeout or unviable has its full name appended as one line to the matching list file and to no other, and earlier lines are never altered.",
 ["histories"], "every sequence of scenario outcomes",
 "snapshots check a few fixed runs; the relation must hold after every prefix of every run",
 ["src/outcome.rs", "src/output.rs"],
 [("LabOutcome::add", "src/outcome.rs"), ("OutputDir::add_scenario_outcome", "src/output.rs")],
 state=[("outcomes", "records of finished scenarios"), ("missed/caught/timeout/unviable counters", "per-verdict totals")],
 observe=["mutants.out/outcomes.json", "mutants.out/*.txt"])

prop("C06", "The exit code tells whether untested or uncaught code was found",
 "When testing runs to completion the exit status is 4 if the baseline did not succeed; otherwise 3 if any mutant timed out; otherwise 2 if any mutant was missed; otherwise 0. In particular 0 is returned only if the baseline was good (or skipped) and every mutant tested was caught or unviable (or, with --check, compiled). Wrong arguments give exit status 1.",
 ["histories"], "every multiset of verdicts and every baseline result",
 "tests sample each code once or twice, never the combinations",
 ["src/outcome.rs", "src/main.rs", "src/exit_code.rs"],
 [("LabOutcome::exit_code", "src/outcome.rs"), ("exit code constants", "src/exit_code.rs"), ("main", "src/main.rs")],
 observe=["process exit status"])

prop("C07", "No mutant is tested unless the unmutated tree passes",
 "Unless the baseline is explicitly skipped, the unmutated tree is run through the same phases first, in the first build directory, before any mutation is written; if any of its phases does not succeed no mutant is built or tested, the recorded outcomes hold only the baseline, and the failure is reported. With the baseline skipped, no unmutated run is made.",
 ["histories", "configurations"], "every baseline result in every phase, every number of jobs",
 "tests cover one failing test and one failing build",
 ["src/lab.rs", "src/outcome.rs"],
 [("test_mutants", "src/lab.rs"), ("Lab::run_baseline", "src/lab.rs"), ("ScenarioOutcome::success", "src/outcome.rs")],
 observe=["commands run", "outcomes.json"])

prop("C08", "Every selected mutant is tested and recorded exactly once",
 "In a run that finishes without an internal error, every mutant that survives the filters is tested exactly once and has exactly one record, for any number of parallel jobs and any order; nothing that was not selected is tested. An internal error in any worker makes the whole run fail with an error instead of reporting success.",
 ["schedules", "histories"], "every list of mutants, number of jobs and interleaving of the workers",
 "tests run with small job counts and fixed trees; interleavings and worker errors are not explored",
 ["src/lab.rs", "src/output.rs"],
 [("Worker::run_queue", "src/lab.rs"), ("test_mutants", "src/lab.rs"), ("join_threads", "src/lab.rs")],
 state=[("work queue", "mutants not yet taken by a worker")],
 observe=["outcomes.json", "mutants.json", "commands run"])

prop("C09", "Shards partition the mutants",
 "For every n > 0, running shards 0/n to (n-1)/n over the same tree and options selects every mutant in exactly one shard, keeping their order, with shard sizes differing by at most one. A shard argument is accepted only as k/n with whole numbers 0 <= k < n.",
 ["inputs"], "every mutant list, every k and n, every argument string",
 "tests check one tree with n up to 5",
 ["src/shard.rs"],
 [("Shard::select", "src/shard.rs"), ("Shard::from_str", "src/shard.rs")],
 observe=["--list --shard"], hook=True)

prop("C10", "--in-diff selects exactly the mutants touched by the diff",
 "With a diff, a mutant is kept if and only if it lies in a file the diff names (with or without a b/ prefix) and its span overlaps a line that the diff adds, or the line just before or just after a line the diff removes, in the new file. Context-only lines and lines of other files never select a mutant, the order of the kept mutants is unchanged, and this holds for any amount of diff context, including none.",
 ["inputs"], "every well-formed unified diff that the diff parser accepts (its treatment of missing-final-newline markers and of added lines starting with ++ is the parser's) and every list of mutants of the new version",
 "tests use a few hand-written diffs with three lines of context",
 ["src/in_diff.rs"],
 [("affected_lines", "src/in_diff.rs"), ("diff_filter", "src/in_diff.rs"), ("strip_patch_path", "src/in_diff.rs")],
 observe=["--list --in-diff"], hook=True)

prop("C11", "A diff that does not match the tree is refused",
 "If, for a file that has candidate mutants, any added or context line of the diff differs from the text at that line of the current source file (a line past the end counts as empty), the run fails with an error before listing or testing anything; if all of them agree it is never refused for a mismatch.",
 ["inputs"], "every diff and every source text",
 "one test with one mismatched line",
 ["src/in_diff.rs"],
 [("check_diff_new_text_matches", "src/in_diff.rs"), ("partial_new_file", "src/in_diff.rs")],
 observe=["--list --in-diff"], hook=True)

prop("C12", "File and name filters select exactly what they say",
 "A mutant is kept if and only if its file matches an include glob (when any are given) and no exclude glob, and its full name, including line and column, matches an include regex (when any are given) and no exclude regex. A glob containing a slash is matched against the whole path relative to the tree, and one without a slash matches that name as any component of the path; * does not cross a slash (brackets and ? are the glob library's, and work on bytes).",
 ["inputs", "configurations"], "every combination of globs, regexes, paths and mutant names",
 "tests check a few patterns on a few fixed paths",
 ["src/options.rs", "src/glob.rs", "src/visit.rs"],
 [("Options::allows_source_file_path", "src/options.rs"), ("Options::allows_mutant", "src/options.rs"), ("build_glob_set", "src/glob.rs"), ("walk_package", "src/visit.rs")],
 observe=["--list", "--list-files"])

prop("C13", "--iterate skips exactly what earlier runs caught or found unviable",
 "With --iterate, a mutant is left out if and only if its full name is listed as caught or unviable by the previous run in the output directory, or as previously caught by it; mutants that were missed or timed out are tried again. The new run records every name it skipped, so a later iteration skips it too, however many iterations follow. (Names are single lines.)",
 ["histories"], "every history of runs with any verdicts",
 "one test performs three fixed iterations",
 ["src/output.rs", "src/visit.rs", "src/main.rs"],
 [("load_previously_caught", "src/output.rs"), ("write_previously_caught", "src/output.rs"), ("Discovered::remove_previously_caught", "src/visit.rs"), ("main", "src/main.rs")],
 state=[("previously_caught.txt", "names carried over from earlier runs")],
 observe=["mutants.out", "commands run"])

prop("C14", "Time limits are what the options and the baseline imply",
 "The test limit for mutants is the explicit limit if given; otherwise the larger of the minimum (20 s unless set) and the baseline test time multiplied by the multiplier (5 unless set) rounded up to whole seconds; with the baseline skipped it is 300 s. The build limit is the explicit one if given, otherwise the baseline build time multiplied by the build multiplier if one is set, otherwise none. The baseline itself is limited only by an explicit test limit, and its builds never are.",
 ["inputs", "configurations"], "every combination of options, configuration and baseline durations",
 "tests check a few numbers",
 ["src/timeouts.rs", "src/options.rs"],
 [("Timeouts::for_baseline / from_baseline / without_baseline", "src/timeouts.rs"), ("test_timeout / build_timeout", "src/timeouts.rs")],
 observe=["when cargo commands are stopped", "debug.log"], hook=True)

prop("C15", "Commands over their time limit are stopped and their result is faithful",
 "A cargo command that is still running when its limit has passed is sent a termination signal together with its whole process group, waited for, and reported as a timeout; on an interrupt it is likewise terminated and the run ends with an error. A command that finishes within its limit is reported with exactly its own exit code or signal, and a command is never reported as finished while it is still running. The limit is checked at each poll, every 50 ms: a command that ends within that distance of its limit may be reported either way.",
 ["schedules", "fault_sequences"], "every exit status and every order of exit, deadline and interrupt",
 "tests have one hanging tree; races and signals are not explored",
 ["src/process.rs", "src/process/unix.rs", "src/interrupt.rs"],
 [("Process::run / poll / terminate", "src/process.rs"), ("terminate_child / Exit::from", "src/process/unix.rs"), ("check_interrupted", "src/interrupt.rs")],
 observe=["outcomes.json", "processes left running"], hook=True)

prop("C16", "Relative path dependencies still resolve from the copied tree",
 "In the build directory's top-level manifest and cargo config, a relative path that climbs above the source tree (in dependencies, dev- or build-dependencies, also target-specific and workspace ones, patch, replace, or config path overrides) is rewritten to the absolute location it had in the source tree, while absolute paths, paths inside the tree and all other settings are left alone. A path counts as climbing above the tree exactly when following its components from the start ever goes above the starting directory. Source files that lie above the tree are never mutated.",
 ["inputs"], "every path and every manifest",
 "tests check a few paths and three manifests",
 ["src/path.rs", "src/manifest.rs", "src/source.rs"],
 [("ascent", "src/path.rs"), ("fix_path", "src/manifest.rs"), ("fix_manifest_toml / fix_dependency_table", "src/manifest.rs"), ("fix_cargo_config_toml", "src/manifest.rs"), ("SourceFile::load", "src/source.rs")],
 observe=["Cargo.toml seen by cargo"], hook=True)

prop("C17", "Every scenario has its own log and diff, and the diff is the change tested",
 "Within a run, no two scenarios share a log file or a diff file, whatever their file, line and column, and the file names contain no path separators of the source file. The diff recorded for a mutant is a unified diff that (source text without lone carriage returns) turns the original file into exactly the text that was tested, and every record points to its own log and diff.",
 ["histories"], "every set of scenarios in one run",
 "snapshot tests look at fixed trees with few clashes",
 ["src/output.rs", "src/mutant.rs"],
 [("OutputDir::start_scenario", "src/output.rs"), ("clean_filename", "src/output.rs"), ("Mutant::log_file_name_base", "src/mutant.rs"), ("Mutant::diff", "src/mutant.rs")],
 state=[("used log names", "how often each base name was used")],
 observe=["mutants.out/log", "mutants.out/diff", "outcomes.json"])

prop("C18", "Cargo is invoked with exactly the requested command line",
 "Each phase runs the cargo binary named by $CARGO (or cargo) with the phase's subcommand for the chosen test tool, the profile, the package selection, the feature options and the additional cargo arguments that were requested, in every phase, and with the additional test arguments last and only in the test phase. With lint capping enabled the rust flags from the environment are all kept, in order, with the cap appended exactly once; without it they are not touched.",
 ["configurations"], "every combination of options, phase and environment",
 "tests check a dozen combinations of argument lists",
 ["src/cargo.rs"],
 [("cargo_argv", "src/cargo.rs"), ("encoded_rustflags", "src/cargo.rs"), ("run_cargo", "src/cargo.rs")],
 observe=["argv and environment of cargo"])

prop("C19", "Command line settings override or extend the config file",
 "For settings with a single value (time limit multipliers, minimum test time, profile, output directory, test tool, copying VCS directories, lint capping, default skipped calls) the command line value wins, then the config file, then the documented default; for filters a non-empty command line list replaces the config list; for extra cargo arguments, extra test arguments, error values and skipped calls the config values follow the command line ones. With --no-config the config file has no effect.",
 ["configurations"], "every combination of command line and config settings",
 "tests check one setting at a time",
 ["src/options.rs", "src/config.rs", "src/main.rs"],
 [("Options::new", "src/options.rs"), ("or_slices / join_slices", "src/options.rs"), ("Config::read_tree_config", "src/config.rs")],
 observe=["argv of cargo", "--list", "location of mutants.out"], hook=True)

prop("C20", "The scratch copy holds the whole tree and leaves out only what it must",
 "A build directory made by copying contains every file, directory and symlink of the source tree with the same contents (top-level manifest and cargo config aside), except, at any depth below the top, entries named mutants.out or mutants.out.old, entries with the names of version-control directories unless copying them is asked for, and, only when .gitignore handling is enabled inside a git tree, ignored files. Sockets, devices and pipes are left out; the scratch directory is outside the tree. Copying never changes the source tree.",
 ["inputs", "configurations"], "every source tree and copy option",
 "tests copy four fixed trees",
 ["src/copy_tree.rs", "src/build_dir.rs"],
 [("copy_tree", "src/copy_tree.rs"), ("BuildDir::copy_from", "src/build_dir.rs")],
 observe=["files in cargo's working directory"])

prop("C21", "Test code, unsafe functions and skipped items are never mutated",
 "No mutant is generated inside an item or file marked #[test], #[cfg(test)] or with mutants::skip (directly, or among the attributes that a cfg_attr with any condition applies), inside an unsafe function, inside a constructor function named new in an impl or trait, inside an implementation of Default, or inside the arguments of a call to one of the skipped function names (for a method call also its receiver). #[cfg(test)] means test directly in the cfg list. Such an item does not stop its neighbours from being mutated.",
 ["programs"], "every Rust source file",
 "tests cover each marker on one kind of item",
 ["src/visit.rs"],
 [("attrs_excluded and its parts", "src/visit.rs"), ("fn_sig_excluded", "src/visit.rs"), ("DiscoveryVisitor visit methods", "src/visit.rs")],
 observe=["--list"])

prop("C22", "Operator, guard and match-arm mutants are the intended ones and never no-ops",
 "For every binary operator outside skipped code the operator alone is replaced by exactly its alternatives, never by itself: == and != by each other, && and || by each other, < by == > <=, > by == < >=, <= by >, >= by <, + by - *, - and * by + /, / by % *, % by / +, << and >> by each other, & by | ^, | by & ^, ^ by | &, and compound assignments likewise; for every unary ! and - exactly one mutant deletes it. For every match arm guard exactly two mutants replace it with true and with false, and an arm is deleted only when the match has a wildcard arm and the arm is neither the wildcard nor guarded. A function body is never replaced by what it already is.",
 ["programs"], "every Rust expression",
 "tests check single operators in a few expressions",
 ["src/visit.rs"],
 [("visit_expr_binary / visit_expr_unary / visit_expr_match", "src/visit.rs"), ("collect_fn_mutants", "src/visit.rs"), ("collect_mutant", "src/visit.rs")],
 observe=["--list --json"])

prop("C23", "Each mutant is tested against the requested packages' tests",
 "By default a mutant is built and tested with exactly the package that contains it; with --test-workspace=true with the whole workspace; with --test-package with exactly the named packages that exist, for every mutant. The baseline covers every package that has a selected mutant, each once. Command line choices override the config file.",
 ["configurations", "histories"], "every workspace, mutant list and combination of settings",
 "tests use one workspace with a few option combinations",
 ["src/lab.rs", "src/options.rs", "src/workspace.rs"],
 [("TestsForMutant::new", "src/lab.rs"), ("Worker::run_queue", "src/lab.rs"), ("Lab::run_baseline", "src/lab.rs"), ("Workspace::packages_by_name", "src/workspace.rs"), ("Options::new test_package", "src/options.rs")],
 observe=["argv of cargo"])

prop("C24", "The source files considered are those of the chosen packages' libraries and programs",
 "The files walked for mutants are, for each chosen package, the top file of every library, procedural macro and binary target (never of tests, examples, benches or build scripts) and every file that a mod statement outside skipped code in a walked file leads to, looked up as the compiler does: in the directory of the file for a target's top file, a mod.rs or a file named by a path attribute, and in a directory named after the file otherwise, below the enclosing mod blocks; a path attribute names the file itself, relative to that place (to the file's own directory when no block encloses it, as with a path attribute on an outermost block). A module file that is missing leaves the others in place, a file filter on a file does not hide the modules below it, and files above the tree are left out. The chosen packages are the named ones, all with --workspace, otherwise the package around the current directory, or in a virtual workspace its default members. (One path attribute written directly as #[path = \"...\"] with a relative path; modules declared inside function bodies and cfg_attr paths are not claimed.)",
 ["inputs"], "every tree of modules and every set of packages and targets",
 "tests use a few fixed trees with some combinations of nesting and path attributes",
 ["src/visit.rs", "src/package.rs", "src/workspace.rs", "src/source.rs"],
 [("find_mod_source", "src/visit.rs"), ("walk_package", "src/visit.rs"), ("visit_item_mod / find_path_attribute", "src/visit.rs"), ("package_top_sources / should_mutate_target", "src/package.rs"), ("Workspace::filter_packages", "src/workspace.rs")],
 observe=["--list-files", "--list"])

prop("C25", "Function bodies are replaced by exactly the documented values of their return type",
 "For every function that is mutated, with body not already equal to the value, the body is replaced by exactly the values the documentation gives for its return type, each once, at any nesting: () for no return type; true and false for bool; 0, 1 (and -1 when signed) for integers; 0.0, 1.0, -1.0 for floats; 1 (and -1 when signed) for NonZero types; the empty and the \"xyzzy\" text for String and &str; Ok(v) for every value v of T, and Err(e) for every configured error value e in any Result; None and Some(v); the empty and one-element forms of Vec, slices and known collections; the empty map and one entry for every pair of key and value; Cow borrowed and owned; T::new(v) for Box, Cell, RefCell, Arc, Rc and Mutex; [v; L] for arrays; &v, and a leaked box for &mut; the product of all values of a tuple's parts; empty and one-element iterators for impl Iterator<Item = T>; new, from_iter, new(v) and from(v) for another type with one type argument; nothing for ! and other impl types; Default::default() for everything else. Error values come from --error and error_values together, and one that is not an expression stops the run.",
 ["inputs"], "every return type, however nested, and every list of error values",
 "tests check a few dozen types, most of them one or two levels deep",
 ["src/fnvalue.rs", "src/visit.rs", "src/options.rs"],
 [("return_type_replacements", "src/fnvalue.rs"), ("type_replacements", "src/fnvalue.rs"), ("match_first_type_arg / known_map / known_container / known_collection / maybe_collection_or_container", "src/fnvalue.rs"), ("collect_fn_mutants", "src/visit.rs"), ("Options::parsed_error_exprs", "src/options.rs")],
 observe=["--list --json"])
prop("C26", "The output directory is fresh, earlier results are kept, and only one run writes it",
 "A run that tests mutants writes its results in a new mutants.out in the directory named by --output, the environment or the configuration, or else the tree root, made if it is missing: it starts with empty lists and nothing of an earlier run. The mutants.out that was there is kept unchanged (but for its lock.json) as mutants.out.old, in place of any older one, whatever is in it and however the run that made it ended, and nothing beside the two directories is touched. While another process holds the lock on mutants.out/lock.json, which every run does until it ends, the run waits and changes nothing, even when the waiting is interrupted; listing commands and commands refused for bad arguments create and change nothing at all.",
 ["histories", "fault_sequences", "schedules"], "every earlier content of the directory and every sequence of runs, finished, killed, interrupted or at the same time",
 "tests rotate a directory made by hand once or twice, with one run at a time",
 ["src/output.rs", "src/main.rs", "src/options.rs"],
 [("OutputDir::new", "src/output.rs"), ("LockFile::acquire_lock", "src/output.rs"), ("main", "src/main.rs"), ("Options::new", "src/options.rs")],
 state=[("mutants.out, mutants.out.old", "results of this run and of the one before"), ("lock.json", "locked by the run that writes mutants.out")],
 observe=["the output directory before and after", "the lock"])
prop("C27", "Names, lists, diffs and records all say what each mutant changes, and where",
 "A mutant's record gives its file, the package the file belongs to, its position, its replacement, its kind and the innermost function around it, named by the modules, traits, impls and functions around that within the file, with its return type; its name puts these together as the file (and line and column, unless turned off), what is replaced or deleted, by what, and in which function. --list prints exactly one such name per mutant as text, the same characters with colors as without, and one such record as JSON; a diff in a list is headed by the file and the change and turns the file into exactly the text that is tested; mutants.json and outcomes.json hold the same records. --list-files gives each source file once, with its package in JSON.",
 ["programs", "configurations"], "every file of parts nested in any way, and every combination of --json, --diff, --line-col and --colors",
 "tests compare the lists of a few small trees with snapshots",
 ["src/mutant.rs", "src/list.rs", "src/visit.rs", "src/main.rs"],
 [("Mutant::name / to_styled_string / styled_parts / describe_change / diff", "src/mutant.rs"), ("<Mutant as Serialize>::serialize", "src/mutant.rs"), ("list_mutants / list_files", "src/list.rs"), ("enter_function / in_namespace / collect_mutant / visit_item_impl", "src/visit.rs"), ("main", "src/main.rs")],
 observe=["--list", "--list --json", "--list --diff", "--list-files", "mutants.json", "outcomes.json"])

prop("C28", "The terminal report names every problem and gives the true totals",
 "A run says first how many mutants it found to test. Each scenario that finishes is then reported exactly once, in one piece, by its verdict and full name: the baseline and every mutant that is missed, times out or (with --check) is accepted always, a caught mutant exactly with --caught and one that does not build exactly with --unviable. Unless --no-times is given the report adds the time of each phase that ran, in order. The log follows exactly when the baseline did not succeed or with --all-logs, and is that scenario's log, whatever bytes the commands printed (those that are no text are shown by a mark). When the mutants have been tested, the last line gives the number tested and each count that is not zero of missed, caught, unviable, timed-out and accepted mutants, the same as in outcomes.json; when the baseline fails there is no such line.",
 ["configurations", "histories"], "every sequence of verdicts, every combination of --caught, --unviable, --no-times, --all-logs, --colors, --check and -j",
 "tests compare the text of a few runs",
 ["src/console.rs", "src/outcome.rs", "src/lab.rs", "src/options.rs"],
 [("Console::scenario_finished / lab_finished / discovered_mutants / message / style_outcome / style_scenario / plural", "src/console.rs"), ("LabOutcome::summary_string / ScenarioOutcome::should_show_logs / get_log_content", "src/outcome.rs"), ("Worker::run_one_scenario / test_mutants", "src/lab.rs"), ("Options::new", "src/options.rs")],
 observe=["standard output", "outcomes.json"])

prop("C29", "Tests run in scratch copies that are gone afterwards, or in place only when asked",
 "Unless --in-place is given, every cargo command that checks, builds or tests runs in a scratch copy of its worker's own, a new directory directly below the temporary directory, never in the source tree; at most one copy is made per job. With --in-place (one job) they run in the source tree and no copy is made. Every scratch copy is removed before the program ends, however the run ends: mutants tested with any verdicts, a failing baseline, an internal error, or an interrupt; with --leak-dirs all of them are left. Commands that test nothing make none, and the source tree itself is never removed.",
 ["configurations", "histories", "crash points"], "every combination of --in-place, --leak-dirs and -j, and every way for a run to end",
 "tests look at one copied and one in-place run",
 ["src/build_dir.rs", "src/copy_tree.rs", "src/lab.rs", "src/main.rs"],
 [("BuildDir::for_baseline / copy_from / in_place", "src/build_dir.rs"), ("copy_tree", "src/copy_tree.rs"), ("test_mutants / Lab::run_baseline / Lab::run_queue", "src/lab.rs")],
 observe=["the directory each cargo command runs in", "the temporary directory"])


with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
