"""Which module decides which property, with how many runs, and what the evidence says about it."""

_SIMULATED = ['thread scheduling (baton-passing threads, one runs at a time)', 'clocks and timers']
_STDLIB = 'CPython-level threading, queue, concurrent.futures, os.path, shutil, tempfile (their own source, executed over the simulated _thread/posix/time)'
_ASSUME = [
    'threads are preempted at synchronisation operations, system calls and explicit workload steps '
    '(in a share of the runs also before every line of fbuild code); not inside a line',
    'signals reach the main thread at blocking calls and file system calls',
]

SPECS = {}
META = {}


def add(prop, module, quick, thorough, rule, real, stub, level='exploration', assumptions=()):
    SPECS[prop] = (module, prop)
    META[prop] = {'quick': quick, 'thorough': thorough, 'rule': rule, 'real': list(real) + [_STDLIB],
                  'stub': _SIMULATED + list(stub), 'level': level,
                  'assumptions': _ASSUME + list(assumptions)}


_S = ['fbuild.sched', 'fbuild.console']
add('S01', 'schedprops', 1500, 30000,
    'Random nested maps (1-4 threads, up to 3 rounds, up to 6 inputs with duplicates, depth up to 3) '
    'whose tasks compute, run commands in interruptible sections and map again.', _S, ['commands'])
add('S02', 'schedprops', 2000, 40000,
    'Random dependency graphs of up to 7 inputs (acyclic, cyclic, self-dependent, unknown and '
    'duplicate dependencies, failing tasks and failing dependency functions), each mapped twice.',
    _S, ['commands'])
add('S03', 'schedprops', 1500, 30000,
    'As S01, plus failing tasks and interruptible sections of a thread that is not a worker.',
    _S, ['commands'])
add('S04', 'schedprops', 1500, 30000,
    'Random nested batches and graphs whose tasks fail (errors and interrupts), followed by '
    'further batches on the same scheduler.', _S, ['commands'])
add('S05', 'schedprops', 2000, 40000,
    'Shutdown while idle, after failures, from another thread, twice, and from an interrupt handler '
    'that strikes at a random step of (nested) batches.', _S, ['commands'])
add('S06', 'schedprops', 1500, 30000,
    'Barriers that only open when N commands run at once, and random durations and graphs checked '
    'for idle workers.', _S, ['commands'])

add('R01', 'rpcprops', 2000, 40000,
    'Up to 4 callers with up to 4 calls each (results, exceptions, None, exceptions as results), '
    'calls right after start, calls of the main thread interrupted at random steps.', ['fbuild.rpc'], [])
add('R02', 'rpcprops', 2000, 40000,
    'Joins (once, twice, by two threads, after a handler died) racing with up to 4 callers.',
    ['fbuild.rpc'], [])

_D = ['fbuild.db (all engines)', 'fbuild.main', 'fbuild.context', 'fbuild.rpc', 'fbuild.sched', 'fbuild.path',
      'fbuild.functools', 'fbuild.inspect', 'sqlite3 (the real library on a scratch file)']
_BASE = ('Random histories over a generated project (up to 14 functions, methods and objects, inherited and overridden '
         'ones too, with SRC/DST/plain/default/keyword/star/object arguments and results of many shapes, calls among '
         'them, outside files, includes) built several times with random edits between and during builds, each call '
         'compared with a reference model. ')
_V = ['generated build scripts', 'file system (simulated, with its own crash model)']
_DA = ['fsync makes the file and its directory entry durable', 'sqlite commits are atomic']
for _c, _q, _t, _r in (
        ('C01', 700, 30000, 'All engines; results, outputs and arguments compared.'),
        ('C02', 700, 30000, 'Mostly touches, moves and restores: runs that the model says are not needed are violations.'),
        ('C03', 700, 30000, 'Mostly deletions and damage of declared and registered outputs.'),
        ('C04', 500, 20000, 'Mostly code changes (body, renames, removal, re-ordering) of functions that call each other.'),
        ('C05', 700, 30000, 'Mostly edits of files registered while running; the returned sets are compared.'),
        ('C06', 300, 15000, '2-4 workers and parallel maps over the same functions.'),
        ('C07', 380, 20000, 'Sources that make functions fail, are repaired or undone, fail again; handled and unhandled failures that tear outputs.'),
        ('C08', 450, 25000, 'Builds interrupted (SIGINT) at random steps, many while outputs are written, failing builds.'),
        ('C09', 500, 25000, 'Builds killed or cut off by power loss at random steps, many near the save of the state.'),
        ('C10', 380, 20000, 'File system calls on the state failing with ENOSPC, EIO, EACCES and others at random points; disks that stay full.'),
        ('C11', 450, 20000, 'State files of another version, another format, damaged, truncated, empty.'),
        ('C12', 480, 20000, '--delete-function, --delete-file and --dump runs between builds.'),
        ('C13', 500, 20000, 'The same history on every engine; results, runs and outputs compared.')):
    add(_c, 'dbprops', _q, _t, _BASE + _r, _D, _V, assumptions=_DA)
_E = ['fbuild.context', 'fbuild.subprocess.killableprocess', 'fbuild.sched', 'fbuild.console', 'fbuild.db',
      'fbuild.builders (platform detection)']
_EP = ['commands, process groups, pipes, the subprocess module (sim/procs.py)']
_ER = ('Commands run by parallel tasks and by the main thread: random output (also beyond pipe capacity and not '
       'UTF-8), input, durations around the timeout, children in and outside of the group, exit statuses, '
       'signals, failing starts, interrupts, process numbers used again. ')
add('E01', 'execprops', 2000, 40000, _ER + 'Outputs, statuses, exceptions and environments compared.', _E, _EP)
add('E02', 'execprops', 2000, 40000, _ER + 'Every signal sent, every process and timer left is judged.', _E, _EP)
_I = ['fbuild.install', 'fbuild.context', 'fbuild.path', 'fbuild.builders.find_program', 'fbuild.db',
      'shutil (its own source)']
add('I01', 'installprops', 2000, 40000,
    'Regular files, links, dangling links and links to directories installed to targets that are free, files, '
    'read-only files, links or directories, up to three times with edits between, with an I/O error at a random '
    'file system call in a third of the installs; the whole tree is compared with a model.', _I, ['file system'])
add('I02', 'installprops', 2000, 40000,
    'The same items through the helper: the real helper loop as a second simulated process (killed or with I/O '
    'errors at random steps) or a stand-in that refuses, dies, exits or answers anything at a random message.',
    _I, ['file system', 'pkexec (starts the real helper loop, or plays a failing helper)'])
add('L01', 'miscprops', 1500, 30000,
    'Tasks (nested, failing, waiting for commands), the main thread and another thread log messages of every kind, '
    'verbosity and colour with 1-8 threads; the log file and the console are parsed back into messages; some '
    'programs are killed at a random step.', ['fbuild.console', 'fbuild.sched', 'fbuild.context'],
    ['console', 'commands', 'file system'])
add('T01', 'miscprops', 2000, 40000,
    'Parallel and nested uses of temporary files and directories (with and without deletion, failing users, links '
    'to elsewhere in them, changed working directory, leftovers of an earlier build), name collisions and I/O '
    'errors.', ['fbuild.temp', 'fbuild.context', 'fbuild.sched', 'fbuild.path', 'tempfile and shutil (their source)'],
    ['file system', 'randomness'])
add('M01', 'mainprops', 1000, 30000,
    'Up to four runs of the program with random targets, options, engines and jobs; targets and their parallel '
    'tasks call cached functions, run commands, use temporary files and fail in every way; up to two interrupts '
    'at random steps. Exit status, targets run, threads, temporary directory and (through the next build) the '
    'state are judged.', _D + ['fbuild.target', 'fbuild.options', 'fbuild.temp', 'fbuild.install'],
    ['commands', 'file system', 'generated build script'])
add('B01', 'buildprops', 270, 10000,
    'A generated C or C++ project (nested headers, static and shared libraries, executables) is edited, built, '
    'interrupted, killed or hit by failing tools for up to four rounds; what is built is compared with a clean '
    'build of the same tree, and building twice runs no command.', _D + ['fbuild.builders.c.gcc', 'fbuild.builders.c'],
    ['gcc, g++, ar, ranlib, uname and the programs they make', 'file system', 'generated build script'])
add('B02', 'buildprops', 240, 10000,
    'The same tree is built from the same state with different numbers of jobs, command times and schedules; '
    'outcome, outputs, commands and what is run again afterwards are compared.',
    _D + ['fbuild.builders.c.gcc', 'fbuild.builders.c'],
    ['gcc, g++, ar, ranlib, uname and the programs they make', 'file system', 'generated build script'])
add('N01', 'confprops', 520, 20000,
    'Generated configuration tests (headers, functions, macros, types, integer types, structures, variables, '
    'programs of their own with input, output, failures and timeouts; inherited ones), compile, link and run checks, '
    'pkg-config and program searches are made by parallel tasks for a generated system, over up to four builds with '
    'edits of the tests, interrupts and kills.', _D + ['fbuild.config', 'fbuild.config.c', 'fbuild.builders.c.gcc',
    'fbuild.builders', 'fbuild.temp', 'fbuild.builders.pkg_config'],
    ['gcc, ar, ranlib, uname, pkg-config and the programs they make', 'file system', 'generated build script'])
add('B03', 'fileprops', 900, 30000,
    'Random rules (copies of files and of trees, text, regular expression and format substitutions, configuration files '
    'and headers, parsers) that also use the outputs of each other are built over up to five rounds of edits of '
    'sources and patterns, deletions, failures, interrupts and kills; every file is compared with a model, and nothing '
    'may be written again without a reason.', _D + ['fbuild.builders.file', 'fbuild.builders.text', 'fbuild.builders.bison'],
    ['bison', 'file system', 'generated build script'])
add('B04', 'ocamlprops', 200, 10000,
    'Random OCaml projects (modules with and without interfaces, generated by ocamllex and ocamlyacc, libraries that use '
    'each other, programs) are built over up to four rounds of edits, deleted outputs, failing tools, interrupts and kills; '
    'the outcome and the modules of each program are compared with a model, everything with a clean build, and building '
    'twice runs no command.', _D + ['fbuild.builders.ocaml'],
    ['ocamldep, ocamlc, ocamllex, ocamlyacc and the programs they make', 'file system', 'generated build script'])
NOT_APPLICABLE = {}
