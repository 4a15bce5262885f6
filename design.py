import json,glob,os
top='''# Model checking c-raii

Everything here executes the repository's own code, compiled from /repo's working tree with its own
headers and macros. No separate model can drift from the code: the "model" of a property is a small
reference (a list of armed functions, an interpreter of try and guard, an ordered set, the C library)
that runs beside the code and is compared with it at every step, in every execution. So "traces
validated against the implementation" equals the number of executions.

The library's guarantees, and the properties that carry them:
* scopes and deferred functions: P01 release, P02 cancel/fire, P03 memory, P04 failed allocations, P07 guards
* exceptions: P05 try/catch/finally, P06 protected pointers, P08 recovery, P09 end of the program
* signals: P10 arrival, P25 names, blocking and defaults
* arenas: P11 one thread, P12 several threads
* threads: P19 futures, P21 spawned functions, P29 threads that fail, P20 independence of threads, P24 thread-local storage
* atomics: P22 operations, P23 spinlocks
* values and text: P13 arguments, P14 string functions, P15 memory search, P16 numbers, P17 strings, P18 base64
* containers of the public headers: P26 queue.h, P27 tree.h
* an application's own hooks into exceptions: P28
* command lines: P30 compat/getopt.c

`properties.jsonl` and `MANIFEST.json` are written by `mk.py`, and this file by `design.py`, from `checks/props.py` and `checks/table.py`.
`check.py ID quick|thorough` builds what the check needs from /repo (`MC_REPO` points it elsewhere) in a
directory under /tmp that it removes, runs it, writes `evidence/ID.json`, and prints `VIOLATION` with a
replay file if a violation was confirmed. `check.py ID replay FILE` runs that case again.

## Engine 1: histories, programs, inputs (`lib/mc.c`, `lib/mc_alloc.c`)
A suite is a finite tree of choices (`mc_choose(n)`). The driver visits **every** path depth first in
8 processes, runs the case on the real code, compares, and confirms a failure in a fresh process (or, if
it needs the cases before it, by repeating that process) before reporting it, with the choices as replay.
Nothing is sampled. A suite that ran out of its time budget is reported as capped in the evidence
(`exhaustive: false`); on this machine none is. `mc_skip` drops cases outside the property's domain
before the code runs. `lib/mc_alloc.c` stands under the library as its allocator (RAII_MALLOC and
friends): bounds of blocks, use after release, double release, leaks, and the k-th allocation failing.
Crashes, hangs and unexpected ends of the process are failures.

`lib/bfs.h` adds explicit-state search inside a case: a state is the memory of the real structure; every
operation is applied to every state reached (by restoring that memory) until there are no new ones. A
failure is reported with the path of operations that leads to it.

Builds of the code under test: `O3dbg` (as the suite builds it), `O2` (release), `O0`, `emul`/`O0dbg`
(emulated thread-local storage, which other compilers get). Which ones a check uses is in `checks/table.py`.
The checks build with gcc, as the suite does: `guard` and `try` expand to nested functions clang rejects.

## Engine 2: schedules (`lib/sched.c`, `lib/mc_sched.h`)
The code (library and check) is compiled with `-fsanitize=thread` but linked with `sched.c` instead of
libtsan, so every memory access and atomic operation of the real code arrives there. Threads are real,
one runs at a time. Before every atomic operation (and volatile access to static data), creation, join,
yield and end of a thread the explorer decides which thread goes on. (`call_once` that is done already is no such point: it cannot change.) Decisions are explored depth first;
one execution is one forked process. Bounds: a number of preemptions per suite (100: unlimited); the suites with
many threads instead follow a fixed order (run until it waits, or every k-th point to the next thread) with a
number of deviations from it (none in quick, one in thorough), every such deviation being explored. An
execution is cut where the state's causal (happens-before) history equals one already seen — equal
histories give equal states, since the code between two decisions is deterministic. Threads that wait
actively are recognised (same local state again without own effects: own stack, registers, clock) and put
to sleep until another thread modifies something; if nobody can run, that is a deadlock or endless wait.

Checked in every execution: data races (vector clocks which honour the memory orders given, so an order that is too
weak shows as a race although executions are sequentially consistent), use of freed memory, accesses
outside blocks, frees of what is not allocated, deadlock, endless waiting, leaks at the end, and what the
check itself asserts. Weak-memory effects other than races (for instance store buffering between relaxed
atomics) are outside; the library has no code that relies on them.

## How long, how much
All quick checks take about 11 minutes one after another on 8 idle cores; the longest (P12) 3 minutes.
Thorough bounds are larger in every suite; each evidence file says what was covered.

## Per property
'''
per=[
('P01',"Engine 1 over histories of scope operations (`checks/scope.h` is the shared generator and model: a stack of armed entries). Operations: register plain functions, ones that register more while the scope is released, ones that release or fire again; release the scope; end as guard, by unwinding, by thread end. Lists of 0, 15, 16 (31, 33) earlier entries, because the list grows by 16; `lengths` covers every count over several growths. Oracle: exactly-once, newest first, own argument."),
('P02',"Same engine and model with cancel and fire for every earlier entry, including already cancelled or fired ones; the other entries' numbers must stay valid. `places` cancels or fires up to three of a long list."),
('P03',"Same engine; the allocator below watches each block: size, zeroing, neighbours, contents, life until the end of the scope, one release, nothing left. Scopes with an arena behind them, every block size up to a bound, the scopes of threads, and programs of guards (`P01b.c`, shared with P01) up to 33 deep."),
('P04',"Each history of allocating operations runs once per allocation it makes, with that one failing, and again with it and all later ones failing. Oracle: exception with ENOMEM or refusal; what existed before is intact and released once; nothing of the failed call stays; later calls work. The second executable is P29's."),
('P05',"`checks/prog.h`: trees of statements (try with every combination of catch, catch_any, catch_if, finally; throw, rethrow; guard, defer; protect) run with the real macros, expanded once per nesting depth; a small interpreter of the language rules predicts the event sequence incl. name, message, line, handlers restored. `deep` nests up to 33 levels with every kind of level and of end at chosen depths; `wide` runs up to 38 statements one after another (also in P06, P07, P08, P28). `recur.c` (P05 to P08) is one function that calls itself up to 2049 levels deep, so that no limit or counter on the way goes unseen."),
('P06',"Same with pointers protected one by one, in blocks, changed and set to NULL in between."),
('P07',"Same with every way out of guards (end, break, return with value, throw, throw in a deferred function) and allocations whose release is observed."),
('P08',"Same with deferred functions that ask, recover by message and by name, successfully or not, in guards and tries in every nesting."),
('P09',"Every nesting × list of deferred functions × ending (exit, return from main, uncaught throw, fault, signal); one process per case; events, status and messages collected through a pipe and compared."),
('P10',"Every handled signal × way to raise (raise, kill to itself, real fault) × place × handler, twice in a row, with other signals blocked, in both threads; sequences of two or three."),
('P11',"Histories of allocations around the room that is left, clears, frees, on one to three arenas with different thresholds; shadow list of live blocks."),
('P12',"Engine 2: arenas of several threads over the shared list of free chunks; arenas handed from thread to thread; overlap, contents, leaks and double use of chunks checked in every schedule."),
('P13',"Every sequence of argument types up to the bound × boundary values through each interface (args_for, raii_args_for, va_list, sets inside sets)."),
('P14',"All strings over a small alphabet with bytes that break word tricks (0, 1, 0x7f, 0x80, 0xff), all alignments, guard page behind; against strlen, strcmp, strchr. Overreads within a page are allowed, as word-parallel code needs them."),
('P15',"Same for memchr/memrchr families."),
('P16',"All 16-bit values, limits ±1 of each width, all digit strings and decimals up to the bound; against the C library."),
('P17',"All texts × delimiters/needles/parts over an alphabet; against a plain reference; memory under the allocator's watch."),
('P18',"All byte strings over boundary alphabets encoded/decoded, all texts over an alphabet with invalid characters, and all groups of four; first call orders."),
('P19',"Engine 2: up to three futures with functions of ten kinds, what the creator does meanwhile, and every order and way to collect."),
('P20',"Engine 2: 24 actions of the library in two or three threads; each thread's transcript must equal the one it has alone; any unsynchronised common memory is a race."),
('P21',"Engine 2: spawn/sync/then/result with up to four functions of five kinds, pools of one and two processors."),
('P22',"Engine 2 (and plain enumeration for values): every operation × type × width × order; results of two and three concurrent operations must be those of some order; message passing through every pair of orders."),
('P23',"Engine 2: two locks, eight sequences of sections, up to four threads; mutual exclusion, visibility, progress. With a bound on preemptions of three for three threads; unlimited in thorough."),
('P24',"Engine 1: every order of turns of three threads over two variables; native and emulated storage. A second executable (`also` in the table: suites of configuration X+also in the evidence) explores first and later uses by two and three threads under every schedule with engine 2, and by up to 16 in fixed schedules."),
('P25',"Engine 1, each history in its own process: naming, renaming, blocking (nested), default, flags, table limit (32)."),
('P26',"Explicit-state search (`lib/bfs.h`): both heads and all elements' memory are the state; elements out of a list are poisoned so nothing can rely on stale links; every operation, including walks that remove every subset."),
('P27',"Explicit-state search over tree memory; colour rules, black height, parents and an augmented sum are checked in every state; equal keys included."),
('P29',"Engine 2 with allocations of one chosen thread failing from the k-th on or just that one, or the k-th creation of a thread: the failing call is a panic with ENOMEM (future_error), is tried again and works; a worker's failure arrives at the getter; every other function's result, the deferred functions, the blocks and the threads left are compared with what a program without failures gives. Counting allocations per thread makes 'the k-th fails' independent of the schedule, so all of them are enumerated."),
('P28',"Engine 1: the programs of P05/P06/P07 (`prog.h`) and the endings of P09, run with a setup and an unwind function of the application in seven combinations; the interpreter knows where each exception arrives, so every call, its handler, name, message and data are expected events. Hooks that throw themselves are left out."),
('P30',"Engine 1: every command line over the words that matter for a table of options (short, clusters, arguments in every form, long, abbreviated, ambiguous, `--`, others), for every kind of table, for getopt, getopt_long and getopt_long_only, with and without POSIXLY_CORRECT and the leading + - :. Oracle: the C library's own function called beside it; every result, optarg, optind, optopt, flags set and the final order of the arguments must agree, and a message must name the option. Longer lines and a second line after a first one have suites of their own."),
]
n=sum(l.startswith('fixed:') for l in open('/verif/known-findings.txt'))
fixes='''
## Defects found and repaired
{n} `fix:` commits; `known-findings.txt` lists them with the property that found each. No finding is left unrepaired.

## Not claimed (domains the properties leave out)
Found while building, judged not to be promised by the library, and left out of the generators (not special-cased in oracles):
* `thrd_pool` is unfinished (declared, not usable). `thrd_get` twice on one future; a promise leaks if `thrd_get` is never called; args of args_for leak if `get_args` is never called. Emulated storage running out of memory (P29 uses native storage).
* `got_signal` stays set; `got_uncaught_exception` is a volatile global every unwinding writes (no decision depends on it).
* `return` or `break` out of a plain try; `_return` in a nested guard or inside a plain try of the same function; `_return(value)` evaluates its value after the guard's memory is gone (a value must be taken before).
* a plain throw inside `catch_if` before `caught()`; a second exception from a deferred function while the thread's scope unwinds, or after a recovery; protecting one pointer twice; unprotecting not in reverse order.
* first use of the library inside a try, or by several raw threads at once.
* `get_args` beyond the number of arguments; `atou8`, `cast8`, `htou8` read eight bytes; `itoa8` for |x| ≥ 1e8; more than 18 decimals in `simd_atod`; malformed base64 (memory safety only).
* asynchronous signals at arbitrary instructions (only those a thread raises itself, and those pending at an unblock); several different pending signals at one unblock; `ex_signal` before any setup; a throw while a signal is pending (either may arrive).
* `thrd_sync` cleans the calling thread's whole scope (documented nowhere; programs that keep memory there are left out). Creator scopes passed to workers.
* floating-point `fetch_or/xor/and`; `c89atomic_clear_f32` (does not compile); `atomic_is_lock_free` (needs libatomic).
* `RB_AUGMENT` functions that do not go up to the root; `SPLAY_REMOVE` with a look-alike of an element; RBT_* (its functions are not in the repository).
* `thrd_local_plain`, `thrd_static_plain` and `thrd_local_external` (not usable as they stand for types that are no pointers, or without the definition elsewhere); the `-W foo` extension of compat/getopt.c.
* Windows, tcc and C++ branches are not built here.

## False alarms met while building, and what was done
* Reading `errno` and library-internal statics looked like races in engine 2: only instrumented code (repository and check) is checked.
* Loops that poll (`thrd_is_done`, spinlocks) looked endless: stutter reduction, see above.
* Word-parallel reads past the end of a string but within its page: allowed by P14/P15, guard pages decide.
* A deferred function's exception that replaces another in a scope of the thread: left open, not demanded.
* P25: whether a thrown exception or the pending signal wins on leaving a blocked section: both are accepted.
* Under heavy load forked executions ran out of memory because the kernel kept private futex tables of dead processes: `prctl` in the child, and a throttle on available memory.
A behaviour-preserving edit must leave the checks quiet: nothing compares text of the source, numbers of allocations, or layouts, only what a user sees. Bounds on the number of calls or states are never failures.

## Planted changes and what catches them
Each under `seeded/`, made from the property's text and the code, with a demonstration; all pass the repository's tests.
'''
out=top
for p,t in per: out+='**%s** %s\n\n'%(p,t)
out+=fixes.replace('{n}',str(n))+'\n| change | what it breaks | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    f=lambda s:str(s).replace('|','/').replace('\n',' ')
    out+='| %s | %s | %s | %s quick |\n'%(n,f(d['what_it_breaks']),f(d['needs']),d['property'])
out+=open('/tmp/design_tail.md').read() if os.path.exists('/tmp/design_tail.md') else ''
open('/verif/DESIGN.md','w').write(out)
