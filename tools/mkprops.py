"""Writes properties.jsonl (the text of the properties is kept here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=["pythagoras/" + f for f in files],
                               mechanism=[dict(name=n, where="pythagoras/" + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where="pythagoras/" + w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None)))
F10 = "_010_basic_portals/foundation.py"; A10 = "_010_basic_portals/portal_aware_classes.py"
F20 = "_020_logging_portals/logging_portals.py"; F30 = "_030_data_portals/value_addresses.py"
H30 = "_030_data_portals/hash_addresses.py"; D30 = "_030_data_portals/data_portals.py"
N40 = "_040_ordinary_functions/code_normalizer_implementation.py"; O40 = "_040_ordinary_functions/ordinary_core_classes.py"
AO40 = "_040_ordinary_functions/assert_ordinarity.py"
C60 = "_060_autonomous_functions/autonomous_core_classes.py"; U60 = "_060_autonomous_functions/names_usage_analyzer.py"
G60 = "_060_autonomous_functions/call_graph_explorer.py"; F70 = "_070_pure_functions/pure_core_classes.py"
K70 = "_070_pure_functions/kw_args.py"; X70 = "_070_pure_functions/process_augmented_func_src.py"
F90 = "_090_swarming_portals/swarming_portals.py"; F100 = "_100_default_local_portals/default_local_portal.py"
E800 = "_800_persidict_extensions/first_entry_dict.py"; M800 = "_800_persidict_extensions/overlapping_multi_dict.py"; PKG = "_050_safe_functions/package_manager.py"
C810 = "_810_output_manipulators/output_capturer.py"; S810 = "_810_output_manipulators/output_suppressor.py"
B820 = "_820_strings_signatures_converters/base_16_32_convertors.py"; HS820 = "_820_strings_signatures_converters/hash_signatures.py"
T110 = "_110_top_level_API/top_level_API.py"

p("C01", "Nested portal blocks nest: leaving one gives back the previous portal",
  "For every sequence of entering and leaving portals, in any nesting and with repeated entries of one portal, the current portal is the innermost block not yet left, and the entered and the non-current portals are exactly those the open blocks say. Leaving a block, normally or by an exception (which is never swallowed), gives back the portal that was current before it. Leaving a portal that is not the current one is refused and changes nothing.",
  "histories", "every sequence of create / enter / leave / leave-all over several portals of different classes, to any depth",
  "The tests enter two or three portals in one fixed order; the stack with its repetition counters has unboundedly many histories.",
  [F10], [("enter/exit of the portal stack", F10 + " BasicPortal.__enter__/__exit__"), ("current/noncurrent/entered queries", F10)],
  ["get_most_recently_entered_portal", "get_entered_portals", "get_noncurrent_portals"],
  [("entered portals stack", "consecutive entries of one portal share a slot and a counter", F10)])
p("C02", "The portal used when none is named is chosen by one rule, and sticks",
  "An operation or object that is not given a portal uses the current one; outside every block it uses the most recently created one, and when there is none, the default local portal, of which there is only ever one. A portal-aware object keeps that portal for life, except that once pickled and restored, or copied, it belongs to the portal current where it is restored (or first used). Portals themselves refuse to be pickled.",
  "histories", "every interleaving of creating and entering portals, creating, using, pickling, restoring portal-aware objects, and clearing everything",
  "Tests try a handful of fixed orders; the choice depends on the whole history of creations, entries and restorations.",
  [F10, A10, F100], [("choice of the portal", F10 + " get_best_portal_to_use"), ("capture on restore", A10), ("singleton default portal", F100)],
  ["get_best_portal_to_use", "portal attribute of portal-aware objects"])
p("C03", "Each exception is recorded once in every entered portal, and propagates",
  "An exception that leaves a portal block, a decorated function or the program is recorded exactly once in the crash history of every portal that is entered at the point where it is first noticed - in all of the places that point calls for, with its type, message and traceback - however many further blocks and functions it then passes. It propagates unchanged through all of them, and an exception handled inside a block is not recorded when that block ends normally. A record is never overwritten, and the interpreter's own reporting of uncaught exceptions still happens.",
  "histories", "every nesting of portal blocks and function calls (ordinary, autonomous, pure), every raise / catch / re-raise / chain point, several exceptions in one run",
  "The tests raise one exception in one block; duplication, loss and mis-attribution appear only when several portals, frames and handlers combine.",
  [F20, O40, F70, "_050_safe_functions/safe_core_classes.py"], [("logger with suppression mark", F20 + " _exception_logger, _persist_exception_information"), ("function level", O40 + " OrdinaryFn.execute"), ("exception hook", F20 + " pth_excepthook")],
  ["crash_history of each portal", "sys.excepthook"])
p("C04", "An event is recorded in every entered portal, complete, never overwritten",
  "Logging an event adds exactly one record to the event log of every portal entered at that time and to no other, under the given name or a unique generated one. The record holds every positional and keyword argument as given plus a description of the environment, even when argument names collide with the names the record itself uses. No existing record is ever overwritten or removed.",
  "histories inputs", "every nesting of portals, every mix of named and anonymous events, and every set of argument names including colliding ones",
  "The tests log one event into one portal with innocuous argument names.",
  [F20, "_020_logging_portals/global_event_loggers.py", "_020_logging_portals/execution_environment_summary.py"], [("event logging", F20 + " LoggingPortal.log_event, log_event"), ("collision-free names", F20 + " make_unique_name, add_execution_environment_summary")],
  ["event_log of each portal"])
p("C05", "Equal values have equal addresses, different values different ones",
  "The address of a value is a function of its type and content alone: equal values of one type get the same address in every process, whatever the insertion order of their dict keys or set elements, the portal, the session or the hash seed. Values that differ in type or content, at any depth, get different addresses. The readable prefix and descriptor agree with the value's type, length or shape.",
  "inputs", "every pair of values built from scalars, strings, bytes, lists, tuples, sets, dicts, arrays and data frames to some depth, in any pair of processes",
  "The tests compare a few constants within one process; injectivity and independence from process state quantify over pairs of values and processes.",
  [H30, F30, HS820], [("address construction", H30 + " _build_prefix, _build_hash_signature"), ("hash", HS820)],
  ["str_chain of ValueAddr"])
p("C06", "A stored value can always be read back, from any portal that has it",
  "Storing a value and asking its address for it, at any later time, in the same or another session and whatever the portal the address was restored in, yields an equal value as long as some known portal holds it. Reading a value that only another portal holds also copies it to the address's own portal, so it stays available when the other one is gone. An address whose value no portal holds is reported as not ready, and getting it raises an error instead of a wrong value.",
  "histories fault_sequences", "every sequence of storing, building from text, pickling, restoring, reading and dropping caches over several portals, with portals or values becoming unavailable",
  "The tests do one or two fixed transfers between two portals.",
  [F30, D30, H30], [("read from own, then from other portals, copying", F30 + " get, get_from_noncurrent_portals, ready"), ("address of an address", F30 + " __init__")],
  ["ValueAddr.get/ready", "contents of value_store"])
p("C07", "In a write-once dictionary the first value written to a key stays",
  "Once a key has a value, no later assignment, by this or a concurrent writer, changes it or fails because of it, unless a consistency check is due: then assigning an equal value is accepted and a different one is refused with an error, the stored value staying as it was. Checks are made always with probability one, never with zero or none, and an assignment that returns normally leaves the key present. A storage error during the write is retried once and reported if it persists, never hidden.",
  "schedules fault_sequences histories", "every interleaving of concurrent writers' storage operations, every storage fault point, every sequence of assignments and check probabilities",
  "The tests assign twice in one thread; races and faults between the membership test and the write are never exercised.",
  [E800], [("first write wins, retry", E800 + " __setitem__")],
  ["contents of the wrapped dictionary"])
p("C08", "Normalized source ignores cosmetic edits and keeps every semantic one",
  "Comments, blank lines, docstrings, formatting, indentation of the definition, type annotations and the library's own decorator do not change a function's normalized source. Every edit that can change what the function does - including inside string literals, default values, nested functions and classes - does change it, and the normalized source defines a function that behaves exactly as the original. Normalizing is idempotent, and gives the same text for a function and for its source.",
  "programs", "every function in the supported fragment and every combination of cosmetic and semantic edits to it",
  "The tests compare a few hand-written pairs; both directions quantify over all programs and all edits.",
  [N40, "_040_ordinary_functions/code_normalizer.py"], [("normalization", N40), ("removal of annotations", N40)],
  ["get_normalized_function_source"])
p("C09", "Only ordinary functions are wrapped, and the wrapper behaves like them",
  "Decorating accepts exactly plain functions with named parameters: methods, built-ins, lambdas, closures, async functions, functions with unlimited positional arguments and functions with foreign or several decorators are refused when decorated, callable objects and non-callables too. Calling the wrapper with keyword arguments returns what the original function returns or raises what it raises, whatever the parameters are called and also for recursive calls; positional arguments are refused. A wrapper can be made from another wrapper or from source text with the same effect.",
  "programs inputs", "every kind of callable and decorator, every signature shape (defaults, keyword-only, ** arguments) and every call to it",
  "The tests check a fixed list of callables and one or two calls.",
  [AO40, O40, N40, "_040_ordinary_functions/ordinary_decorator.py", "_050_safe_functions/safe_decorator.py", "_040_ordinary_functions/long_infoname.py", "_040_ordinary_functions/function_name.py", "_040_ordinary_functions/check_n_positional_args.py"], [("acceptance", AO40), ("execution in a synthetic namespace", O40 + " OrdinaryFn.execute")],
  ["ordinary / safe decorators", "calls of the wrapper"])
p("C10", "A function is accepted as autonomous exactly if it needs nothing outside",
  "A decorated function is accepted exactly when every name it uses, at any nesting depth, is bound inside it (parameter, assignment, import, definition, loop, exception, comprehension), is a built-in, is the function itself or the library's own name, or, unless it is declared strictly autonomous, another function of its island. Use of outer non-local variables or of yield is refused when decorating, other outside names at the latest on first use, always before the body runs. What is accepted does not depend on names that happen to exist in the defining module.",
  "programs", "every function in the supported fragment: any nesting of functions, lambdas, classes, comprehensions, imports, global and nonlocal declarations",
  "The tests hold a dozen fixed functions; scoping rules combine freely in real programs.",
  [U60, C60], [("scope analysis", U60), ("checks at decoration and first use", C60 + " _begin_fn_registration, _complete_fn_registration")],
  ["autonomous / strictly_autonomous / pure decorators", "first call"])
p("C11", "A function's dependencies are the island functions it can reach",
  "The dependencies of a function are exactly itself and the functions of its island reachable from it through references in their code, direct or indirect, through cycles, self-references and nested functions, in whatever order they were defined. A strictly autonomous function depends on itself alone. References to names that the function binds itself are not dependencies.",
  "programs", "every call graph over a set of functions, every definition order and every way of referring to a function",
  "The tests explore eight fixed graphs; closure must be right for every graph, including cyclic ones and every iteration order.",
  [G60, C60, U60], [("shallow graph and transitive closure", G60), ("dependencies of a registered function", C60)],
  ["explore_call_graph_deep", "dependencies attribute"])
p("C12", "An island holds one definition per name, the same for every wrapper",
  "Within one portal and session a name in an island has one definition: defining it again with the same normalized source and decorator is accepted and gives an interchangeable wrapper, with a different source, decorator or kind of function it is refused, and a refused definition changes nothing. Islands and portals are independent of each other. Whether a definition or call succeeds, what it returns and its address do not depend on what was called or wrapped before.",
  "histories", "every sequence of defining, redefining, wrapping and calling functions over several islands and portals",
  "The tests redefine one function once; results must be independent of the whole history.",
  [C60, F70, "_060_autonomous_functions/autonomous_decorators.py", "_060_autonomous_functions/autonomicity_checks.py", "_070_pure_functions/pure_decorator.py", "_070_pure_functions/purity_checks.py"], [("registration in an island", C60 + " _begin_fn_registration"), ("sharing registration between wrappers", C60 + " _complete_fn_registration, update")],
  ["decorators, calls, addresses"])
p("C13", "A pure function runs at most once per arguments, and returns that result",
  "Once a call of a pure function has completed, every later call with the same arguments - through any wrapper, entry point, portal object or session over the same storage - returns an equal value without running the body again, unless a consistency check is due. A consistency check runs it again and reports a result different from the stored one, without changing what is stored. Results are those the plain function would return, also for arguments or results that are None, False, empty, or functions, and for recursive and mutually dependent functions.",
  "histories inputs", "every sequence of calls, addresses, executions and new sessions, over all argument values and check probabilities",
  "The tests call a few functions twice in one process.",
  [F70, K70, E800], [("memoized execution", F70 + " PureFn.execute"), ("result store", F70 + " PureCodePortal.execution_results")],
  ["number of body executions", "returned values", "execution_results"])
p("C14", "Two calls share an address exactly if function and arguments are the same",
  "The address of a call is determined by the function's name, island, normalized code, guards, the code of all its dependencies and its arguments by content; it does not depend on the order of keyword arguments, on whether they are given as values or as addresses, on the portal, session or order of definition. Any difference in one of these gives a different address. After a change of code, of the function itself or of any dependency, the next call runs again while results under the old address remain readable.",
  "inputs programs histories", "every pair of calls over functions, versions of code and dependency code, islands, guards and argument sets",
  "The tests compare few calls; the property is about pairs of calls across program versions.",
  [F70, K70, H30], [("call signature", F70 + " PureFnCallSignature, PureFnExecutionResultAddr"), ("argument packing", K70), ("augmented source", F70 + " _complete_fn_registration")],
  ["get_address(...)"])
p("C15", "Concurrent or crashed executions never publish a wrong or lost result",
  "However processes executing, requesting and reading the same call interleave, and wherever one of them stops, a call that is reported ready can be read completely and its result is one the function returned and never changes. Every call that returns does so with the correct value; concurrent executors do not make each other fail. If an execution stops before its result is published, the request for it is still there and a later execution succeeds, and a request outlives a published result only if a process stopped or another asked again.",
  "schedules crash_points", "every interleaving of the storage operations of several processes, and a crash of any of them after any operation",
  "The tests are single-process; orderings of the writes of value, result, records and request only matter under concurrency and crashes.",
  [F70, E800, F30], [("order of writes in execution", F70 + " PureFn.execute"), ("first write wins", E800), ("request protocol", F70 + " request_execution, drop_execution_request, get")],
  ["storage operations of execution", "returned values"])
p("C16", "A failing execution leaves no result and everything else as it was",
  "When a function raises, a guard fails or the storage reports an error at any point, the caller gets that error, no result is published unless it was complete, and portal nesting, captured output streams and the function's own call context are as they were before the call. The same call made later, with the cause gone, succeeds. A failed run counts as an attempt and keeps its pending request.",
  "fault_sequences histories", "every point at which the body, a guard, a nested call or a storage operation can fail, in any sequence of calls",
  "The tests raise from simple bodies only, and never from storage.",
  [F70, O40, C810, F20], [("execution frame", F70 + " PureFnExecutionFrame"), ("exit of portals", F20)],
  ["current portal, sys.stdout, sys.stderr, log handlers", "execution_results, execution_requests"])
p("C17", "Each run of a pure function leaves one complete, separate record",
  "Every time the body of a pure function is run, and only then, one execution record appears under its call's address, with the environment, the arguments, the source codes, everything printed or logged during that run and nothing else, the result if it returned, and the exceptions recorded if it raised. Records of different runs, calls and functions never mix, also when runs nest. The last attempt, output and crash reported are those of the latest run.",
  "histories", "every sequence and nesting of successful, failing and checking runs over several functions and arguments",
  "The tests look at the record of one or two plain runs.",
  [F70, C810], [("execution frame", F70 + " PureFnExecutionFrame"), ("records", F70 + " PureFnExecutionRecord, execution_records")],
  ["execution_records, execution_attempts, execution_outputs, crashes of an address"])
p("C18", "A pure function never runs when one of its guards fails",
  "Before each run of a pure function with guards, every guard is called with the same arguments, in the current environment; the body runs only if none of them raises, and otherwise the call fails with an error and has no result. Asking whether a call can be executed answers exactly that and neither runs the body nor raises. Guards must be strictly autonomous functions of the same island and portal, given as functions or names, and are part of the function's identity and of what travels with it.",
  "histories inputs configurations", "every combination of guards, guard outcomes that change over time, arguments, and sessions the function is restored in",
  "The guard tests need a network; offline no guard is exercised at all.",
  [F70], [("guards", F70 + " _preprocess_guards, can_be_executed, execute")],
  ["can_be_executed", "order of guard and body executions"])
p("C19", "A pending call is retried with exponential backoff, at most six times",
  "A requested call needs execution if it has no result and was never attempted, or if the latest attempt is older than ten seconds doubled once for every attempt made so far. After more than five attempts it is given up, and as soon as a result is available in any known portal it is not needed. The answer depends on nothing else and asking changes nothing.",
  "histories schedules", "every sequence of attempts, successes, failures and time passing",
  "No test lets time pass between attempts.",
  [F70], [("retry rule", F70 + " needs_execution")],
  ["needs_execution under a controlled clock"])
p("C20", "Waiting for a result returns it when published, or times out, no earlier",
  "Getting the result of a call never runs the function: it returns at once if the result is available anywhere, and otherwise leaves a pending request and looks again after one second, then after roughly doubling pauses, until the result appears or the timeout has passed, when it raises a timeout error. It does not time out before the timeout, nor overshoot it by more than the last pause of at least one second. When it returns after waiting, the request is withdrawn, after a timeout it stays.",
  "schedules inputs", "every moment at which the result may appear relative to the polls, every timeout, zero and none included",
  "The tests use real sleeps of a second or two and one schedule.",
  [F70], [("polling loop", F70 + " PureFnExecutionResultAddr.get")],
  ["get(timeout) under a controlled clock"])
p("C21", "A result known to any portal is found, and brought into the current one",
  "If any known portal holds the result of a call, then in every other portal the call is ready, is not executed again and returns that result, and afterwards the result, the function and the arguments can be read from that portal alone. Portals never share results of different calls. If no portal has it, it is not ready.",
  "histories configurations", "every distribution of results over portals, every order of calls, reads and portals becoming unavailable",
  "The tests transfer one result between two portals.",
  [F70, F30], [("look-up in other portals with copying", F70 + " _ready_in_noncurrent_portals")],
  ["ready, get, execute in each portal", "contents of the portals"])
p("C22", "Code travels with the address: a fresh session runs what was defined",
  "From an address, a session that never saw the function's definition recovers its name, island, normalized code, guards and arguments, can execute it, with every dependency it needs, and gets the same address and an equal result. Restoring functions registers them with the same code and decorators they had; if the session already has a different definition under a name, that is an error, never a silent mix. Packing and unpacking arguments preserves them.",
  "programs histories configurations", "every call graph, guard set and argument set, restored in every kind of session: empty, with the same functions, with conflicting ones",
  "The tests restore in the same process, where definitions are still known.",
  [F70, X70, K70, "_070_pure_functions/astkeywords_dict_convertors.py"], [("pickled form of a function", F70 + " PureFn.__getstate__/__setstate__"), ("definition of dependencies", X70)],
  ["execution in a new process"])
p("C23", "Swarmed calls get executed by workers, and workers end with their parent",
  "Every requested call that can be executed is eventually executed by some background worker, whatever other requests, failing calls or broken entries are in the queue, and its result then appears as if it had been called directly. Workers only execute requested calls that need execution, print nothing, use the storage and settings of the portal that started them, and start no workers of their own. Once the parent session has ended or was replaced on that node, workers start nothing new and end.",
  "schedules histories configurations", "every interleaving of requests, worker picks, failures and the parent's end",
  "One test swarms a trivial function and waits; liveness and shutdown over all schedules cannot be sampled.",
  [F90, F70], [("worker loop", F90 + " _background_worker, _process_random_execution_request"), ("parent marker", F90 + " parent_runtime_is_live, _clean_runtime_id")],
  ["processes started", "executions", "compute_nodes, execution_requests"])
p("C24", "Output is passed on and captured in order; streams are always restored",
  "While output is captured, everything written to standard output, standard error or logged through root handlers reaches both its original destination and the capture, once, in the order it was written; nothing from before or after the block is captured. Suppressed output reaches nothing. However such blocks nest and end, normally or by an exception, which is not swallowed and whose trace appears in the captured output, streams and log handlers are afterwards exactly those of before.",
  "histories", "every nesting of capturing and suppressing blocks, every order of writes, prints, flushes and log calls, every exit",
  "The tests check single blocks with a couple of writes.",
  [C810, S810], [("tee streams and log handler", C810), ("suppression", S810)],
  ["captured text, text on the original streams"])
p("C25", "Batch calls return one address per element, in order, each one treated alike",
  "Swarming or running a list or a grid of arguments returns addresses in the order of the list (for a grid: one for every combination), element by element the same as single calls would give, with duplicates sharing an address. After a batch run, every element has its result; after a batch swarm, exactly the elements without results have pending requests. The random order of internal work is not observable in the outcome, and malformed batches are refused before anything is requested.",
  "inputs histories", "every list and grid of arguments with repetitions, every set of already available results, every shuffle",
  "The tests run two small grids of fresh arguments.",
  [F70], [("batches", F70 + " swarm_list, run_list, swarm_grid, run_grid")],
  ["returned lists", "execution_requests, execution_results"])
p("C26", "Number and signature encodings are exact, and signatures do not repeat",
  "Converting a number or hexadecimal text to base 32 and back gives the same number, whatever its size, letter case or leading zeros; the text uses the 32 digits 0-9a-v without leading zeros, and is the same for equal numbers only. Hash signatures are a fixed function of content and at most 22 characters. Random signatures are drawn from the same alphabet, are at most 22 characters long and do not repeat, also across forked processes. The signature of a computing node is the same in every process a user has on one computer, with or without network hardware, and differs between computers and users.",
  "inputs", "every non-negative integer and hexadecimal text, every value hashed, every number of draws in any set of processes",
  "The tests convert a few constants and draw two signatures.",
  [B820, HS820, "_820_strings_signatures_converters/random_signatures.py", "_820_strings_signatures_converters/node_signatures.py"], [("conversions", B820), ("signatures", HS820)],
  ["the conversion functions"])
p("C27", "A portal's settings survive its round trip, and its report tells the truth",
  "A portal rebuilt from the parameters it reports is configured like the original and sees the same stored values, results and requests, for every combination of settings. Its status report gives the true numbers of stored values, cached results, queued requests and logged exceptions (total and today's), and the functions known in each island. Portals over different storage never affect each other's contents or reports.",
  "configurations histories", "every combination of settings and every history of operations before the report",
  "The tests check that a report is a data frame, and a handful of its cells.",
  [F10, D30, C60, F70, F90, T110], [("parameters", F90 + " get_params"), ("reports", F70 + " describe")],
  ["get_params, describe"])
p("C28", "Connecting decides which portal the program works with, and loses nothing stored",
  "Initializing leaves the program with exactly one portal, current and with three workers of its own; connecting to a local portal adds one with the workers asked for, without replacing the portal of an open block; connecting to the default portal, explicitly or because a function without a portal was made, creates it once only. Functions made without naming a portal belong to the current one, else to the one connected last. Each of these reports the portal connected to. Runtime records name the last portal over their storage, and go when their portals are let go of; results and requests stay, whatever the program connects to, and results within reach of any of its portals are not computed again.",
  "histories", "every history of initializing, connecting, entering and leaving portals, defining and calling functions, over several sessions that end normally or are killed",
  "The tests initialize once, and look at the type of the report.",
  [T110, "_100_default_local_portals/default_local_portal.py", F90, F10],
  [("top-level API", T110), ("default portal", "_100_default_local_portals/default_local_portal.py")],
  ["describe, all_portals, execution_results, compute_nodes"])
p("C29", "Dictionaries of several types over one place stay apart from each other",
  "An object that holds dictionaries of several file types over one place (such as the run history) gives each of them as an attribute with the type's name. What is written to, or removed from, one of them shows in it, and in those of the same type that other objects have over the same place, and in no other type's, even under the same key. Settings said for one of them hold for it alone and prevail over those said for all; the file type is always its own. The settings given are not changed. The whole can neither be subscripted, copied nor pickled, and one made from malformed settings is refused.",
  "histories configurations", "every history of making such objects with any parts and settings, and of writing and removing items through them",
  "The tests write a few items to fresh dictionaries of up to four types, without conflicting settings or a second object.",
  [M800], [("one dictionary per file type", M800 + " __init__"), ("run history", F70 + " PureCodePortal.run_history")],
  ["attributes, one per file type"])
p("C30", "Installing or uninstalling a package does what was asked, or raises",
  "A request to install a package runs the installer of the program's own interpreter once, for that package, the version asked for if any, and an upgrade exactly if one was asked for. If it returns, the package can be imported from then on; if the installer fails, or what it installed cannot be imported, it raises. A request to uninstall runs it once, for that package, without asking questions, and returns only if the package can no longer be found, be it another copy of it. Neither touches any other package, and neither depends on what the program looked for, or imported, before.",
  "histories", "every history of installing, upgrading, uninstalling, importing and restarting, with installers that fail, packages that cannot be imported and further copies of them",
  "The tests install and uninstall one package from the network.",
  [PKG], [("installation", PKG + " install_package"), ("removal", PKG + " uninstall_package")],
  ["exceptions, the installer's arguments, installed files"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
