PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} if isinstance(m, tuple) else m for m in mechanism]}
    if state:
        a["state"] = state
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                      anchors=a, technique=technique, note=note, na=na))
    PROPS[-1]["level"] = "exploration"

BASE_NOTE = "Seeded sampling of programs and event placements on the real code; nothing is claimed about what was not drawn. Trusts the Python models, the simulator and that hooks only advance legal events."

P("C01", "Garbage collection never changes what a session computes",
  "Whatever values a session holds, and wherever it holds them (definitions, closures, partial applications, lazy and cyclic data, user types, reference variables, tables, memo caches, BDDs, bexprs), every later use yields the value the program defines. This holds no matter when, how often or in the middle of which statement the evaluator's garbage collector runs, and a collection never crashes the session.",
  ["schedules", "programs", "histories"],
  "All well-typed fl sessions and all placements of garbage collections at allocations.",
  "The tests run small scripts in which collection happens rarely or never, at the points heap growth happens to choose; a missing root shows only when a collection falls into the few allocations during which it matters.",
  ["src/bin/fl/graph.c", "src/bin/fl/symbol.c", "src/bin/fl/language.y", "src/bin/fl/cache.c", "src/bin/fl/table.c", "src/bin/fl/list_ops.c", "src/bin/fl/bexpr.c"],
  [("mark phase over all roots (symbol table, result records, protected nodes, extension objects)", "graph.c Do_garbage_collect"), ("safe points", "graph.c traverse_left, gen_map_rec, Compile")],
  technique="seeded fl sessions with collections forced at chosen allocations, checked against a Python evaluator of the same programs",
  note=BASE_NOTE)

P("C02", "BDDs compute the right functions and stay canonical under any GC and reordering",
  "Every boolean operation (connectives, quantification, relational product, composition, substitution, generalised cofactor, conversion from bexpr, comparison, counting, support, cube and size queries, parametric substitution) returns the BDD of exactly the function it denotes. Two booleans are equal if and only if they are the same function, for all the time the session holds them. This stays true whenever BDD collections, dynamic variable reordering (automatic, by var_order or by Reorder) or evaluator collections happen, also in the middle of an operation.",
  ["schedules", "programs", "histories"],
  "All sequences of BDD operations on any number of variables, and all placements of collections and reorderings.",
  "Truth tables over every operation and every collection point cannot be enumerated by tests; collections and reordering need tables to fill up, which small tests never cause, and their bugs need a stale cache entry or uncounted reference at exactly that moment.",
  ["src/bin/fl/new_bdd.c", "src/bin/fl/new_bdd.h", "src/bin/fl/bexpr.c", "src/bin/fl/graph.c"],
  [("unique tables, complement edges, operation caches", "new_bdd.c"), ("reference counts and B_Garbage_collect", "new_bdd.c"), ("sifting and var_order", "new_bdd.c Dynamic_var_order, Reorder, Var_order")],
  technique="seeded BDD programs with forced BDD collections, reorderings and evaluator collections, checked against truth tables computed in Python",
  note=BASE_NOTE)

P("C03", "An interrupt loses at most the current statement",
  "Pressing control-C at any moment, any number of times, and answering the question with continue, return to the top level or exit does exactly what is answered. Continue leaves every result as if nothing had happened. Return abandons only the current statement: every earlier definition, value, boolean, memo table and setting still gives what the program defines, and later statements work. Exit ends the program with status 2. The session never crashes, hangs or computes a wrong value because of an interrupt.",
  ["schedules", "histories", "fault_patterns"],
  "All sessions, all interrupt times (including inside BDD operations, reordering and garbage collection) and all answers.",
  "Signals arrive at moments the tests never produce; damage (half-updated tables, unbalanced stacks, wrong cached values) shows only in later statements.",
  ["src/bin/fl/fl.c", "src/bin/fl/graph.c", "src/bin/fl/new_bdd.c", "src/bin/fl/cache.c", "src/bin/fl/symbol.c"],
  [("signal handler, question and return to the top level", "fl.c / graph.c gen_interrupt, check_interrupt"), ("restoring evaluator and BDD state", "graph.c Reset_eval.., new_bdd.c B_Clear..., start_jmp_env")],
  technique="seeded sessions in which a simulated user interrupts at chosen steps and answers, every surviving definition checked against a Python evaluator afterwards",
  note=BASE_NOTE)

P("C04", "Failing statements and caught failures leave the session intact",
  "A statement that fails (error, arithmetic and pattern failures, recursion limit, syntax, type and name errors, bad declarations) reports a failure, defines nothing and changes nothing: an older definition of the same name, and everything else held, still gives its value. catch and gen_catch give the handler's value exactly when the guarded expression fails. Side effects before the failure stay and none after it happen. Shared values, parts of them, and memoised functions that failed give the right value or the failure, never something else, whatever collections happen in between.",
  ["programs", "histories", "schedules"],
  "All sessions mixing failing and succeeding statements, and all placements of collections and interrupts between and inside them.",
  "Each test checks one failure and stops; what breaks is a later use of something that was half evaluated, cached or half declared when the failure happened.",
  ["src/bin/fl/graph.c", "src/bin/fl/fl.c", "src/bin/fl/language.y", "src/bin/fl/symbol.c", "src/bin/fl/cache.c", "src/bin/fl/typecheck.c"],
  [("catch/gen_catch and failure propagation", "graph.c P_CATCH, P_GEN_CATCH, Fail"), ("undoing declarations of a failed statement", "language.y, symbol.c")],
  technique="seeded sessions of failing and succeeding statements with injected collections and interrupts, checked against a Python evaluator with failures",
  note=BASE_NOTE)

P("C05", "Files read and written by fl are exact, or the failure is reported",
  "What a session writes to a stream (fprintf, fflush) is on disk exactly when fclose succeeds, in order, appended or replaced as the mode says, and reading (fgets, fget, feof) gives back exactly the bytes of the file, whatever sizes the system's reads and writes return. A disk error or full disk is reported as a failure or a failing fclose: never a silent loss. Closed streams cannot be used and an open file cannot be opened twice. A killed session loses only what was not yet closed or flushed.",
  ["inputs", "fault_patterns", "crash_points"],
  "All sequences of stream operations, file contents, read and write sizes, disk errors, disk sizes and moments of death.",
  "Tests use a healthy disk with small files read in one piece.",
  ["src/bin/fl/io.c"],
  [("stream table and open/close", "io.c c_fopen, c_fclose"), ("reading lines and whole files", "io.c c_fgets, c_fget")],
  technique="seeded stream programs above a simulated disk (short reads, errors, full disk, crash), outputs and disk contents compared with a model",
  note=BASE_NOTE)

P("C06", "Loading files runs exactly their statements, and always returns to the loader",
  "Loading a file (load, cload) runs its statements in order as if typed, with DIR, __FILE__ and __LINE__ naming that file's place, up to the first failing statement. Then, or at its end, control returns to exactly the point after the load in the loading file or at the top level, with its DIR, file and line. A failing or missing file is reported as a failure of the load, which can be caught; definitions made before it stay. cload loads a file once. This holds for all nestings of loads, file contents and sizes, read sizes, failing opens, garbage collections and interrupts.",
  ["inputs", "fault_patterns", "schedules"],
  "All trees of files, ways to name them, placements of failing statements, missing or temporarily unopenable files, interrupts and collections.",
  "Tests load fixed, correct files; what is left behind by a load that stops in the middle of nested files is only seen by what runs next.",
  ["src/bin/fl/lexer", "src/bin/fl/graph.c", "src/bin/fl/fl.c", "src/bin/fl/preamble.fl"],
  [("file stack", "lexer Read_from_file, Return_to_old_fid"), ("return to top level closes open files", "graph.c Reset_eval_context"), ("search path", "fl.c Tryopen"), ("cload", "preamble.fl cload")],
  technique="seeded trees of files loaded under short reads, failing opens, interrupts and collections, compared with a model that executes the same files",
  note=BASE_NOTE)

P("C07", "Saved values are read back as they were, or the reading fails",
  "A value written successfully with write_<type>, bdd_save or bexpr_save is read back (read_<type>, bdd_load, bexpr_load) by any later process as the same value: structure, sharing, closures, references, strings, booleans over the same variable names, whatever variable order, collections and reorderings the reading process has. A write that could not be completed (disk full or failing, helper command failing) is reported, and the session goes on. Reading a file left behind by a failed or killed write, or written for another type, is reported as a failure or gives a value that was being written: never a wrong value and never a crash.",
  ["inputs", "fault_patterns", "crash_points", "histories"],
  "All values, histories of writes and reads by successive processes over the same disk, disk errors, disk sizes, failing helper commands and moments of death.",
  "Tests write and read one value on a healthy disk in one process.",
  ["src/bin/fl/serialize.c", "src/bin/fl/io.c", "src/bin/fl/bexpr.c", "src/bin/fl/new_bdd.c"],
  [("graph serialization with type signature", "serialize.c, io.c Save_graph, Load_graph"), ("BDDs by variable name", "new_bdd.c BDD save and load"), ("bexprs", "bexpr.c")],
  technique="seeded values written and read by successive simulated processes over one simulated disk with errors, full disks, kills and interrupts, compared with a model of what each file may hold",
  note=BASE_NOTE)

P("C08", "Commands and child processes are run, reported and ended exactly",
  "exec, system, system2, pipes and spawned processes run the given command with exactly the given arguments, and give back exactly its output (every byte, of any size) and its exit status or the fact that it was killed. Asking again for a status gives the same answer; a process is reported as running until it has ended. kill stops only the process it was asked to stop. A command that cannot be started (no process, no pipe) is reported as a failure. sleep, time and timeouts follow the clock. Whatever happens (failures, interrupts, end of input, exit), fl sends signals to no process other than its own running children and, when it ends, none of its children keeps running.",
  ["inputs", "schedules", "fault_patterns"],
  "All sequences of process operations, all relative speeds of the processes, all failing system calls and all moments of interrupts and of the end of the session.",
  "Process end and polling race; failing fork, pipe and wait calls never happen in tests.",
  ["src/bin/fl/system.c", "src/bin/fl/io.c", "src/bin/fl/fl.c"],
  [("spawn, poll, status and kill of children", "system.c do_spawn, get_status, Exit"), ("exec and system", "system.c do_exec, do_system"), ("end of input", "lexer, fl.c Exit")],
  technique="seeded scripts of process operations over a simulated process table and clock (seeded order of child steps, failing fork/system/pipe, interrupts), compared with a model of each command",
  note=BASE_NOTE)

P("C09", "para_eval gives its expressions' values whatever happens to its workers",
  "para_eval over a list of expressions gives at each position the value that expression has in the session, computed by a worker process; a position is empty only if its worker was hurt (killed, out of disk or time) or, with single_winner, not the winner. A failing expression shows its own failure when used. With single_winner exactly one position has a value, if any worker could finish. Never more than max_processes workers run at a time, the call ends when all workers have ended, and no worker and no partial result of a dying worker stays behind. This holds for all relative speeds of workers, all moments of worker deaths, all collections and interrupts.",
  ["schedules", "crash_points", "fault_patterns", "programs"],
  "All lists of expressions and options, all interleavings of session and workers, all moments at which workers die or their disk fails.",
  "The tests run para_eval with healthy workers in the one order the machine chooses.",
  ["src/bin/fl/preamble.fl", "src/bin/fl/fl.c", "src/bin/fl/system.c", "src/bin/fl/serialize.c"],
  [("queue of expressions, polling and collecting", "preamble.fl para_eval"), ("worker", "fl.c --eval_expr"), ("children", "system.c do_spawn, get_status")],
  technique="sessions and worker processes run as simulated processes under a seeded scheduler that also kills workers and fails their disk and system calls; results compared with a Python evaluator",
  note=BASE_NOTE)

P("C10", "bexpr operations, models and SAT answers are right, whatever limits expire",
  "Every operation on bexprs denotes its Boolean function: the connectives, bITE, variables, constants, comparison of expressions, conversion to and from BDDs, substitution, saved parts of larger expressions. bget_model gives an assignment that makes the expression true, or an empty one only if there is none; bexpr_is_unsat, implication and equality checks say T exactly if that is so. If a time limit expires, the query fails with a timeout and says nothing wrong, and no later query is affected by it. This holds through garbage collections of nodes and BDDs, reorderings, interrupts and expiring limits at every point.",
  ["inputs", "histories", "fault_patterns", "schedules"],
  "All expressions, all sequences of queries over one shared solver, all moments at which limits expire or interrupts arrive.",
  "Tests ask a few fixed queries of a solver that always has time enough.",
  ["src/bin/fl/bexpr.c", "src/external/minisat", "src/bin/fl/new_bdd.c"],
  [("expression graph with complement edges and simplifications", "bexpr.c be_and, be_find_insert"), ("queries", "bexpr.c bget_model, bexpr_is_unsat, check_for_eq_with_SAT"), ("solver and time limit", "src/external Find_model")],
  technique="seeded histories of bexpr operations and queries under expiring limits, collections and interrupts, compared with truth tables",
  note=BASE_NOTE)

P("C11", "STE computes trajectories and verdicts as defined, whatever happens during a run",
  "STE and bSTE on a circuit made by pexlif2fsm give, for every traced node and time, the value the definition of symbolic trajectory evaluation gives: inputs and forced nodes joined with all active antecedents, weakened where a weakening is active, gates and memories evaluated on the current phase, phase delays on the previous one. Simplified gates may know more, but never something false. trajOK, checkOK and the combined results follow from these values; overlapping, adjacent and empty intervals count as written. -m, -a, a stop node or an interrupt give a prefix of the run; -w only weakens; an unknown node is a failure. Collections, reorderings, interrupts and other runs change nothing.",
  ["inputs", "schedules", "fault_patterns", "histories"],
  "All circuits, event lists, options, and all moments of collections, reorderings and interrupts before, in and between runs.",
  "Tests simulate a few circuits in undisturbed sessions with tidy, non-overlapping intervals.",
  ["src/bin/fl/fsm.c", "src/bin/fl/bexpr.c", "src/bin/fl/new_bdd.c"],
  [("circuits from pexlifs", "fsm.c pexlif2fsm, compile_expr"), ("events", "fsm.c create_event_buffer, process_event"), ("simulation", "fsm.c gSTE, do_phase, do_combinational, update_node"), ("values kept by collections", "fsm.c mark_ste_fn"), ("results", "fsm.c gen_get_ste_result, gen_get_trace_val")],
  technique="seeded circuits and event lists simulated under forced collections, reorderings and interrupts, values and verdicts compared with a dual-rail reference and sampled concrete runs",
  note=BASE_NOTE)

P("C12", "The graphical front end and fl agree on every command, call and line of output",
  "In graphical mode every command of the front end is run exactly once, completely and in order, however its text is split or merged on the way, and all output of it reaches the front end, in order, before it is told that fl is ready again. A call of an exported function gets exactly one answer, to its own number: the function's value (numbers of any size, strings, lists, tuples, booleans, references to objects that stay valid until released, whatever collections happen), or the failure of the function or of its arguments. tcl_eval and imported functions give the value the front end computed, or its failure; while they wait, calls of the front end are served. An interrupt stops only the running command; calls it cuts off are answered as interrupted. Nothing the front end sends in keeping with the protocol ends or corrupts the session.",
  ["inputs", "schedules", "fault_patterns", "histories"],
  "All commands, values and nestings of calls, all ways the five connections split, merge, delay and fill up, all moments of interrupts and collections.",
  "The only test in graphical mode runs one script over a fast local connection; partial lines, full buffers and calls that arrive together depend on timing.",
  ["src/bin/fl/fl.c", "src/bin/fl/remote_tcl.c", "src/bin/fl/error.c", "src/bin/fl/graph.c"],
  [("command loop and connections", "fl.c get_line, process_commands, setup_sockets"), ("calls both ways", "fl.c serve_callback, graph.c tcl_eval"), ("translation of values", "remote_tcl.c"), ("output", "error.c FP, fl.c Tcl_printf"), ("interrupts", "fl.c check_for_interrupt")],
  technique="seeded programs of a simulated front end over simulated sockets (partial, merged and delayed delivery, full buffers, EINTR), with interrupts and collections, every answer and line of output compared with a model",
  note=BASE_NOTE)
