#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mech],
                    "observe_at": list(observe), "hook_needed": hook}})

DB = ["lib/fbuild/db/database.py", "lib/fbuild/db/backend.py", "lib/fbuild/db/cache_backend.py",
      "lib/fbuild/db/pickle_backend.py", "lib/fbuild/db/sqlite_backend.py", "lib/fbuild/db/__init__.py"]

prop("C01", "A cached call never returns a stale result",
  "After any history of source edits, argument changes, output deletions, builds, interrupted or failed builds and restarts, on every database engine, a cached call returns exactly what running the function from scratch now would return, and its declared output files hold what it would have written. This covers plain cached functions, cached methods and properties, cached objects, and every source annotation (single, list, optional).",
  ["histories", "inputs", "configurations"],
  "every history of edits (content, timestamp, deletion and re-creation, at any time distance including within one clock tick), builds and restarts, with each engine and any number of jobs",
  "tests/test_db.py calls each cached function a handful of times in one process with sleeps between edits; no test varies the order or timing of edits, mixes several callers of one file, or restarts.",
  DB, [("prepare/find_call/check_call_files decide whether a stored result may be reused", "lib/fbuild/db/backend.py:prepare"),
       ("file digests with a timestamp shortcut", "lib/fbuild/db/backend.py:add_file")],
  [("_files", "file -> (mtime, digest)", "lib/fbuild/db/cache_backend.py"), ("_call_files", "file -> function -> call -> digest", "lib/fbuild/db/cache_backend.py")],
  ["Context.db.call via fbuild.db.caches/cachemethod/cacheproperty/PersistentObject", "contents of the output files"])

prop("C02", "A cached call that is up to date is not re-run",
  "If a cached call completed, was recorded, and since then its function (and the cached functions it uses), its arguments, the content of its source files and the existence of its outputs are unchanged, then calling it again - in the same build or after a restart - returns the recorded result without running the function. Touching a file, restoring its content, editing files the call does not depend on, changing other functions, or a fresh process do not make it run again.",
  ["histories", "configurations"],
  "every history of touches, unrelated edits, restarts and builds, on each engine, single-job (parallel in C06)",
  "the tests assert single hits right after a single miss in one process",
  DB, [("find_call + digests decide on a hit", "lib/fbuild/db/backend.py:prepare"), ("state is saved at close and read at connect", "lib/fbuild/db/pickle_backend.py")],
  (), ["number of executions of each cached function"])

prop("C03", "Missing output files are rebuilt",
  "If any output file of a cached call - declared as an argument, returned by the function, or registered while it ran - does not exist when the call is made, the function is run again and the file is recreated, for every subset of outputs deleted at any point between builds.",
  ["histories", "configurations"],
  "every subset of outputs deleted, every way of declaring them, each engine, restarts in between",
  "tests delete one declared output once",
  DB, [("existence check over declared, returned and external outputs", "lib/fbuild/db/database.py:Database.call")],
  (), ["existence and content of output files after the build"])

prop("C04", "A code change re-runs the function and everything that called it",
  "When the source text of a cached function changes between two runs, every stored result of that function, and of every cached function that called it directly or through other cached functions, is discarded and recomputed when next needed, no matter in which order, under which arguments or through which caller the functions were called before or after the change. Removing, renaming or recursively calling cached functions never breaks the build.",
  ["histories", "programs"],
  "every call graph (including sharing, recursion through different arguments, conditional calls) and every sequence of edits and partial rebuilds",
  "tests check one caller/callee pair with one call each",
  DB, [("recorded dependents checked recursively", "lib/fbuild/db/backend.py:Backend.check_function"), ("call stack records which cached functions a call used", "lib/fbuild/db/database.py:Database.call")],
  [("_callstack", "cached calls in progress", "lib/fbuild/db/database.py"), ("fun_dependents", "cached functions a function used", "lib/fbuild/db/backend.py")],
  ["results of calls after the edit"])

prop("C05", "Dependencies registered while running are honoured",
  "Source and output files registered from inside a cached call count as dependencies of that call and of all cached calls enclosing it: if such a source changes or disappears, or such an output is missing, the call is run again; otherwise it is not. The source and output sets a cached call reports are the same whether it ran or was answered from the database.",
  ["histories", "configurations"],
  "every history of edits, deletions and re-creations of registered files shared by any number of calls, on each engine",
  "tests register external files for one call at a time and never share one between calls",
  DB, [("add_external_dependencies_to_call", "lib/fbuild/db/database.py"), ("check_external_files/save_external_files", "lib/fbuild/db/backend.py")],
  [("_external_srcs/_external_dsts", "registered dependencies per call", "lib/fbuild/db/cache_backend.py")],
  ["results and executions of calls; the (result, srcs, dsts) triple of .call()"])

prop("C06", "Cached calls made in parallel behave as if made one at a time",
  "When tasks of a parallel build make cached calls concurrently - on shared functions, shared files, nested in each other, on any engine - every call returns its own correct result, no call fails because of another, and every completed call is recorded so that it is a hit next time and is invalidated by exactly the changes it depends on.",
  ["schedules", "configurations"],
  "every interleaving of the worker threads and the database thread",
  "tests run cached calls from one thread; the examples run with one job",
  DB + ["lib/fbuild/sched.py", "lib/fbuild/rpc.py"],
  [("database operations are serialised through the RPC thread", "lib/fbuild/rpc.py"), ("per-task call stack", "lib/fbuild/db/database.py"), ("controlling lock", "lib/fbuild/sched.py")],
  (), ["results, executions and hits over two or more builds"])

prop("C07", "A failed call is not recorded",
  "If a cached function raises, or a build stops because of an error, the failing call leaves no stored result: the exception reaches the caller unchanged, earlier stored results stay valid, and the next build runs the failed call again (and succeeds once the cause is gone) while later calls made by the same process keep correct dependency records.",
  ["histories", "fault_sequences"],
  "every position of failures (exceptions, failing commands) in every call graph, single- and multi-threaded",
  "no test raises inside a cached function and then continues",
  DB, [("result is stored only after the function returns", "lib/fbuild/db/database.py:Database.call")],
  (), ["results, exceptions and executions of later calls"])

prop("C08", "Completed work survives a failed or interrupted build",
  "Every cached call that completed before a build ended - by success, by an error, or by an interrupt (Ctrl-C) at any moment - is recorded on disk when the process exits normally through its shutdown path, and is a hit in the next build. The state file written is always loadable.",
  ["histories", "schedules", "fault_sequences"],
  "every moment at which a task fails or an interrupt arrives, any number of jobs, the persistent engines",
  "no test interrupts a build or inspects the state afterwards",
  ["lib/fbuild/main.py", "lib/fbuild/context.py", "lib/fbuild/rpc.py", "lib/fbuild/sched.py"] + DB[1:5],
  [("save_configuration in the finally block with SIGINT masked", "lib/fbuild/context.py:Context.save_configuration"), ("main's interrupt handler", "lib/fbuild/main.py:main")],
  (), ["executions in the next build; ability to open the state file"])

prop("C09", "A crash at any point never corrupts the saved state",
  "If the process is killed, or the machine loses power, at any instant of a build or of saving the database, the next build starts normally: it finds either the previously saved or the newly saved state (never a torn, empty or missing one when one had been saved), and produces correct results.",
  ["crash_points", "histories"],
  "every crash instant (each file-system operation and scheduling point), process kill and power loss that drops or tears data not flushed to disk",
  "no test kills fbuild",
  DB[1:5] + ["lib/fbuild/context.py"],
  [("write to a temporary file, then rename over the state file", "lib/fbuild/db/pickle_backend.py:PickleBackend.close"), ("sqlite transactions", "lib/fbuild/db/sqlite_backend.py:SqliteBackend.cache")],
  (), ["the next build's start, results and hits"])

prop("C10", "Disk errors while saving state surface and do not destroy it",
  "If an I/O error, short write or full disk hits while the database is being loaded, updated or saved, the build reports an error rather than silently succeeding with lost state, the previously saved state is still usable by the next build, and no later build returns a wrong result because of it.",
  ["fault_sequences", "histories"],
  "every position and kind of file-system or database error during load, update and save",
  "no test injects an I/O error",
  DB[1:5] + ["lib/fbuild/context.py", "lib/fbuild/rpc.py"],
  [("errors travel back through the RPC reply", "lib/fbuild/rpc.py"), ("temporary file + rename", "lib/fbuild/db/pickle_backend.py")],
  (), ["exit status of the build; results of the next build"])

prop("C11", "State from an incompatible version is discarded, not misread",
  "A state file written by a different database version (including one from before versions existed) is never used to answer calls: the build behaves as from scratch and afterwards saves state in the current version, and this stays true when the process crashes at any point while it is replacing the old file.",
  ["histories", "crash_points"],
  "every older version marker and content, each persistent engine, every crash instant during the replacement",
  "one test opens an old version once, without crashes",
  DB[1:5], [("version check on connect", "lib/fbuild/db/backend.py:Backend.connect")],
  (), ["executions and results after opening an old state file"])

prop("C12", "Deleting a function or a file from the state has exactly that effect",
  "After deleting a cached function (or a file) from the state, every call of that function (every call depending on that file) that is made next is run again, all unrelated stored results stay valid, and the command reports failure exactly when nothing was stored under that name. This holds on every persistent engine and across restarts.",
  ["histories", "configurations"],
  "every history of calls and deletions on each engine",
  "tests delete one function and one file on a single-call database through the backend only",
  DB + ["lib/fbuild/main.py"], [("delete_function/delete_file", "lib/fbuild/db/cache_backend.py"), ("--delete-function/--delete-file", "lib/fbuild/main.py:build")],
  (), ["exit status of the command; executions and results of later calls"])

prop("C13", "All database engines give the same answers",
  "For the same history of calls, edits, deletions and restarts, the engines return the same results, run the same functions the same number of times, report the same source and output sets, and fail in the same cases.",
  ["histories", "configurations"],
  "every history; engines pickle, sqlite and (within one process) cache",
  "tests run each engine on its own short script and never compare them on a generated history",
  DB, [("common Backend logic over three stores", "lib/fbuild/db/backend.py")], (), ["results, executions, exceptions"])

prop("S01", "Parallel map returns every result, once, in input order",
  "Mapping a function over a list returns the results in input order and runs the function exactly once per input, for any number of threads, any interleaving, duplicates in the input, and maps nested inside mapped functions to any depth; it always finishes if the functions do.",
  ["schedules", "programs", "configurations"],
  "every interleaving of 1..8 workers and every nesting of maps",
  "tests map small lists with free-running threads and check only the result",
  ["lib/fbuild/sched.py"], [("_evaluate and the ready/done queues", "lib/fbuild/sched.py:Scheduler._evaluate"), ("nested evaluation re-uses the worker thread", "lib/fbuild/sched.py:Scheduler._evaluate")],
  [("ready queue", "tasks that may run", "lib/fbuild/sched.py")], ["Scheduler.map results; number of executions"])

prop("S02", "Dependencies run before dependents",
  "When mapping with dependencies, each input is run exactly once and only after all inputs it depends on have finished successfully; results come in a deterministic order in which dependencies precede dependents; unknown dependencies are ignored; and a dependency cycle is reported as an error instead of hanging or running part of the cycle.",
  ["schedules", "programs", "configurations"],
  "every dependency graph (diamonds, chains, cycles, self-loops, duplicates) under every interleaving",
  "tests use a few fixed graphs and one cycle on free-running threads",
  ["lib/fbuild/sched.py"], [("can_run/children bookkeeping", "lib/fbuild/sched.py:Scheduler._evaluate"), ("depth-first ordering of results", "lib/fbuild/sched.py:Scheduler.map_with_dependencies")],
  (), ["start/finish order of tasks; results"])

prop("S03", "Build code runs one task at a time except where it says otherwise",
  "Outside explicitly interruptible sections (such as waiting for a command) at most one scheduled task executes build code at any instant, so build code needs no locks; this holds with nested maps, after exceptions, when the main thread also uses interruptible sections, and across interrupts. An interruptible section always ends with the caller back in exclusive execution.",
  ["schedules"],
  "every interleaving of workers, nested maps, interruptible sections in workers and in the main thread",
  "unobservable with free-running threads; tests only check results",
  ["lib/fbuild/sched.py", "lib/fbuild/context.py"], [("controlling lock released only in interruptible()", "lib/fbuild/sched.py:Scheduler.interruptible")],
  [("controlling lock", "held by the thread running build code", "lib/fbuild/sched.py")], ["overlap of instrumented task bodies"])

prop("S04", "A failing task stops the batch cleanly",
  "If a task raises, the batch call raises one of the exceptions actually raised by its tasks, tasks that depend on a failed task never run, no further task of the batch is started once the batch call has been told of the failure, and once the batch call has raised no task of that batch starts or is still running. The scheduler stays usable for further batches, and an interrupt raised inside a task is delivered as an interrupt.",
  ["schedules", "fault_sequences"],
  "every subset of failing tasks, every interleaving, nested batches",
  "one test checks that an exception propagates",
  ["lib/fbuild/sched.py"], [("cancellation in _evaluate", "lib/fbuild/sched.py:Scheduler._evaluate"), ("Task.run captures the exception", "lib/fbuild/sched.py:Task.run")],
  (), ["task start/finish events relative to the batch call's return"])

prop("S05", "The scheduler always shuts down",
  "Shutting down - after work, while idle, after failures, or from the interrupt handler while tasks (also nested batches) are running - terminates: every worker thread exits once the tasks already running (and the nested batches they wait for) finish, a worker that is not inside a nested batch starts no further task, and shutting down twice is harmless.",
  ["schedules", "fault_sequences"],
  "every moment of shutdown relative to running, queued and nested tasks",
  "tests shut down an idle scheduler only",
  ["lib/fbuild/sched.py", "lib/fbuild/main.py"], [("shutdown sentinels and thread joins", "lib/fbuild/sched.py:Scheduler.shutdown")],
  (), ["worker threads alive; completion of the shutdown call"])

prop("S06", "-jN runs up to N commands at once and never more",
  "With N jobs, independent tasks that wait for external commands overlap - N commands run at the same time when there is enough work and no worker sits idle while a task is ready - and never more than N workers' commands run at once. With one job, commands never overlap.",
  ["schedules", "configurations"],
  "every interleaving and every command duration, N from 1 to 8",
  "no test measures overlap",
  ["lib/fbuild/sched.py", "lib/fbuild/context.py"], [("worker pool size and interruptible() around command waits", "lib/fbuild/context.py:Context.execute")],
  (), ["number of simulated commands alive; makespan in simulated time"])

prop("R01", "Calls to the server thread are answered exactly once, to the right caller",
  "Each call handed to the server thread runs exactly once, one at a time, in per-caller order, and its own result or exception - and only that - is returned to its caller, for any number of concurrent callers, including calls made right after start and calls made after an earlier call of the same thread was interrupted or failed.",
  ["schedules", "fault_sequences"],
  "every interleaving of callers, start, and interrupts during a call",
  "tests make a few calls from one thread",
  ["lib/fbuild/rpc.py"], [("queue + per-call event and result holder", "lib/fbuild/rpc.py:RPC.call")], (), ["RPC.call results; handler invocations"])

prop("R02", "The server thread stops without losing or hanging callers",
  "Joining the server thread completes every call accepted before, rejects every later call with a 'not running' error, and returns; joining twice, joining one that has already stopped, and calls racing with the join neither hang nor lose an accepted call. A handler that dies does not leave any caller waiting forever.",
  ["schedules", "fault_sequences"],
  "every interleaving of join with calls from other threads; handler failures",
  "tests join an idle server",
  ["lib/fbuild/rpc.py"], [("sentinel in the queue under the call lock", "lib/fbuild/rpc.py:RPC.join")], (), ["completion of every call and join"])

prop("E01", "Executing a command reports its real outcome",
  "Executing a command returns its complete standard output and error if it exits with status zero, raises an execution error carrying exit status and output if not (unless errors are ignored), raises a system error if it cannot be started, and is an interrupt if the command died of one; this holds for any output size, any timing, concurrent executions, and environment or library-path settings reach the command unchanged.",
  ["schedules", "fault_sequences", "inputs"],
  "every command behaviour (exit codes, signals, output sizes and timing, start failures) under every interleaving",
  "tests run a few real commands sequentially",
  ["lib/fbuild/context.py", "lib/fbuild/subprocess/killableprocess.py"], [("Context.execute", "lib/fbuild/context.py"), ("Popen.wait/kill", "lib/fbuild/subprocess/killableprocess.py")],
  (), ["return value or exception of Context.execute", "log output"])

prop("E02", "Timeouts and interrupts kill the whole command, and only it",
  "A command that exceeds its timeout is killed together with every process it started in its group and a timeout error is raised; a command that finishes in time is never killed or reported as timed out later; an interrupt during a command terminates its whole group; fbuild's own processes and other commands are never signalled and no timer or child of a finished execution is left behind.",
  ["schedules", "fault_sequences"],
  "every relation of timeout, exit, output closing, descendants and interrupt arrival",
  "one real-time test kills a sleeping process",
  ["lib/fbuild/context.py", "lib/fbuild/subprocess/killableprocess.py"], [("timer thread killing the process group", "lib/fbuild/context.py:Context.execute"), ("setsid + killpg", "lib/fbuild/subprocess/killableprocess.py:Popen.kill")],
  (), ["processes alive after execute; signals delivered; exception type"])

prop("L01", "Log lines are complete and never mixed",
  "Every message (a log line or a check with its result) logged by any thread appears exactly once and whole in the log file (always) and on the console (if its verbosity allows), with the messages of one thread in the order logged; messages of concurrent tasks are never mixed within a line, and nothing that was logged is lost when a task fails, at shutdown, when it is the last thing logged before exit, or when the program is killed after logging it.",
  ["schedules", "configurations"],
  "every interleaving of logging tasks, 1..8 threads, all verbosity levels, death of the program at any step",
  "no test logs from several threads",
  ["lib/fbuild/console.py", "lib/fbuild/sched.py"], [("per-thread buffers flushed under a lock", "lib/fbuild/console.py:Log")], (), ["captured console stream and log file"])

prop("M01", "A build always ends cleanly with the right exit status",
  "Whatever happens in the build - success, a build error, an unexpected exception, a failing command, an interrupt at any moment - the program saves its state, stops all its threads and ends; it runs the requested targets once each in the order given (building before installing) and reports success exactly when every one of them succeeded. The temporary directory is removed after success and kept after failure, and after an interrupt the program ends as interrupted.",
  ["schedules", "fault_sequences", "configurations"],
  "every place where a target can fail or an interrupt can arrive, any number of jobs and any engine",
  "the examples only run successful builds to completion",
  ["lib/fbuild/main.py", "lib/fbuild/context.py", "lib/fbuild/sched.py", "lib/fbuild/rpc.py"], [("nested try/finally in main", "lib/fbuild/main.py:main"), ("interrupt handler shuts the scheduler down first", "lib/fbuild/main.py:main")],
  (), ["exit status/exception of main, live threads, state file, temporary directory"])

prop("I01", "Installing puts exactly the requested files in place",
  "Installing copies every file marked for installation to its computed target with its content (links as links, requested permissions applied to the installed file and to nothing else), creates missing directories, replaces existing targets, never alters the source files, and can be repeated with the same outcome. If a disk error prevents a file from being installed, the install reports failure.",
  ["inputs", "histories", "fault_sequences"],
  "every combination of file kinds, existing targets, prefixes and permissions, repeated installs, and I/O errors at each step",
  "tests install nothing through the installer",
  ["lib/fbuild/install.py", "lib/fbuild/context.py", "lib/fbuild/path.py"], [("LocalCommander.install", "lib/fbuild/install.py"), ("Context.install computes targets", "lib/fbuild/context.py")],
  (), ["the simulated file system after install"])

prop("I02", "Privileged installation reports the helper's failures",
  "When installation goes through the privileged helper, every requested file is sent to the helper and installed relative to the caller's working directory, success is reported only if the helper acknowledged everything and exited with status zero, and if the helper refuses, dies or fails at any point the install ends promptly with a failure - never hanging and never claiming success.",
  ["fault_sequences", "schedules"],
  "helper death or failure before, during or after each message",
  "no test covers the helper",
  ["lib/fbuild/install.py"], [("line protocol with acknowledgements", "lib/fbuild/install.py:PolkitCommander._send")], (), ["outcome of Installer.install, files installed"])

prop("B01", "An incremental C build equals a clean build",
  "After any sequence of edits to sources and headers (direct and nested includes, added, removed and renamed headers), options, sources and libraries of a target, output deletions, compiler failures, interrupts and restarts, building C objects, libraries and executables with the provided builders produces the same outputs as a clean build of the same tree, and rebuilding an unchanged tree runs no compiler command.",
  ["histories", "configurations", "fault_sequences"],
  "every edit history over generated C projects, on each engine and job count",
  "the examples build once from clean",
  ["lib/fbuild/builders/__init__.py", "lib/fbuild/builders/c/__init__.py", "lib/fbuild/builders/c/gcc/__init__.py"] + DB[:5],
  [("header dependencies from the compiler registered as external sources", "lib/fbuild/builders/c/gcc/__init__.py"), ("build_objects propagates dependencies of its compiles", "lib/fbuild/builders/__init__.py:AbstractCompiler.build_objects")],
  (), ["contents of build outputs; commands run by the simulated toolchain"])

prop("B02", "The outcome of a parallel build does not depend on the schedule",
  "Running the same build of the same tree with any number of jobs and any timing of commands gives the same outputs, the same recorded state (what is a hit next time) and the same set of commands, and a build that fails with one schedule fails with every schedule.",
  ["schedules", "configurations"],
  "every interleaving and command duration for generated projects, 1..8 jobs",
  "the examples run with one job",
  ["lib/fbuild/builders/__init__.py", "lib/fbuild/sched.py"] + DB[:2], [("results are kept in input order", "lib/fbuild/sched.py:Scheduler.map")], (), ["outputs, commands, next build"])

prop("N01", "Configuration checks report what the system has",
  "Every configuration check - header, macro, function, type, integer type, structure, variable and program tests of test classes (also inherited ones), compile, link and run checks of a builder, package queries and program searches - gives the answer that the current system, test declaration and tools determine, with the fields the check promises and in declaration order, whatever other checks run at the same time, whatever was interrupted or killed before, and whether the answer is new or from the database; a changed test is made again, an unchanged one runs no command, and a check that times out or crashes counts as failed without ending the build or leaving its files in the build directory.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "every set of tests over every system, in every interleaving of parallel checks, edit history of the tests and crash point",
  "tests check single tests of the machine they run on, one at a time",
  ["lib/fbuild/config/__init__.py", "lib/fbuild/config/c/__init__.py", "lib/fbuild/builders/__init__.py", "lib/fbuild/builders/pkg_config.py", "lib/fbuild/temp.py"] + DB[:1],
  [("test classes evaluate their fields and cache the result", "lib/fbuild/config/__init__.py"), ("each check is built in a temporary directory", "lib/fbuild/builders/__init__.py:AbstractCompilerBuilder")],
  (), ["results of checks, commands run by the simulated tools, files left"])

prop("B03", "Copied and generated files equal what their inputs determine",
  "After any history of edits to sources, patterns and rules, deleted outputs, failures, interrupts, kills and restarts, each file made by the copy, substitution, configuration file/header and parser rules holds exactly what its current source and patterns determine (also when the source is made by another rule), lies under the requested build root, and is written again only if its source, its patterns or the file itself changed; a rule that cannot be carried out (a placeholder without a value, a failing tool) fails the build, and no other does.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "every edit history over every set of rules, on each engine and job count",
  "no test covers these builders beyond one call",
  ["lib/fbuild/builders/file.py", "lib/fbuild/builders/text.py", "lib/fbuild/builders/bison.py"] + DB[:5],
  [("rules are cached functions with declared sources and outputs", "lib/fbuild/builders/text.py"), ("copies compute their target before copying", "lib/fbuild/builders/file.py:_copy_or_move")],
  (), ["contents and times of the files, outcome of the build"])

prop("B04", "An incremental OCaml build equals a clean build, in dependency order",
  "After any sequence of edits to OCaml modules and their interfaces (values, exported names, uses of other modules, added, removed and broken modules, generated ones), flags, deleted outputs, tool failures, interrupts, kills and restarts, on any number of jobs, building objects, libraries and programs with the bytecode or native OCaml builders succeeds exactly if the modules fit together, compiles every module after what it depends on, links programs from exactly the current modules of their sources and libraries in dependency order, gives the same outputs as a clean build, and runs no command when nothing changed.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every edit history over generated OCaml projects, in every interleaving of the compilations, on each engine and job count",
  "no test runs these builders; the example builds once from clean",
  ["lib/fbuild/builders/ocaml/__init__.py", "lib/fbuild/builders/__init__.py", "lib/fbuild/sched.py"] + DB[:5],
  [("sources are compiled in dependency order", "lib/fbuild/builders/ocaml/__init__.py:Builder.build_objects"), ("dependencies are scanned recursively and registered", "lib/fbuild/builders/ocaml/__init__.py:BytecodeBuilder.scan")],
  (), ["outcome, contents of build outputs, commands run by the simulated tools"])

prop("T01", "Temporary files are private and are cleaned up as promised",
  "Each temporary file or directory handed out is a new one that no concurrent task shares, lies under the build's temporary directory, holds exactly the requested text, and exists for as long as the user of it runs; those requested with deletion are gone afterwards, even if the user failed, and nothing outside the temporary directory is removed by cleaning up.",
  ["schedules", "fault_sequences"],
  "every interleaving of tasks using temporary files, name collisions, and failures inside the using block",
  "tests use one temporary file at a time",
  ["lib/fbuild/temp.py", "lib/fbuild/context.py"], [("mkdtemp under the default directory", "lib/fbuild/temp.py:tempdir")], (), ["paths handed out, simulated file system"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
