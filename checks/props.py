PROPS = []


def P(id, title, statement, over, text, why, files, mech, note):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, 'note': note})


BOUND = 'Every case within the stated bounds is executed on the real code, in the builds listed in the evidence; nothing is said beyond the bounds. Trusts the reference model, the compiler and glibc.'
EXC = ['include/exception.h', 'src/except.c', 'src/raii.c', 'include/raii.h']
P('P01', 'Releasing a scope runs every registered function once, newest first',
  'Whatever was registered with a scope (deferred functions, also ones registered while the scope is being released, and ones that release or register again) has run exactly once with its own argument when the scope has ended, in the reverse order of registration. This holds however the scope ends: explicitly, by a guard, by unwinding, or at the end of the thread.',
  ['histories'], 'all histories of registrations and releases, including registrations made by the functions that run, and any number of earlier registrations',
  'The tests register a handful of functions in one order; growth of the list, re-entrance and every kind of ending in combination are never reached.',
  ['src/raii.c', 'include/raii.h'], [('deferred list', 'src/raii.c raii_defer_internal, raii_deferred_run, raii_deferred_free'), ('growth', 'src/raii.c raii_array_*')], BOUND)
P('P02', 'Cancelling or firing a deferred function affects exactly that one',
  'A deferred function that is cancelled never runs; one that is fired early runs at once, exactly once, and not again when the scope ends. All others still run once, newest first, and their numbers stay valid.',
  ['histories'], 'all histories of registrations, cancellations and early firings over a scope, with every target',
  'The tests cancel and fire one deferred function of three; which one is hit depends on positions and earlier cancellations.',
  ['src/raii.c'], [('cancel, fire', 'src/raii.c raii_deferred_cancel, raii_deferred_fire')], BOUND)
P('P03', 'Scope memory is usable until its scope ends and is then released once',
  'Memory obtained from a scope (malloc, calloc, of scopes, units, threads) has the requested size, is zero where promised, overlaps nothing, keeps its contents and stays allocated until its scope ends. When the scope ends it is released exactly once, and nothing remains allocated.',
  ['histories'], 'all histories of allocations through each interface, registrations, and releases',
  'The tests allocate a few blocks and look at return values; leaks, early and double releases stay invisible.',
  ['src/raii.c', 'include/raii.h'], [('allocation and release', 'src/raii.c malloc_full, calloc_full, raii_delete'), ('scopes', 'src/raii.c unique_init, raii_init')], BOUND)
P('P05', 'try, catch, finally, throw and rethrow follow the language rules',
  'A thrown exception runs the first clause that matches it of the innermost try that has one, with its name, message and line, and nothing after the throw; every finally on the way runs exactly once; an exception raised in a catch or finally continues outside. What no clause matches propagates, and afterwards the handlers are those from before.',
  ['programs'], 'all programs of nested try blocks with every combination of clauses, throws, rethrows and guards up to the bounds',
  'The tests contain a few dozen fixed shapes; combinations of exits, clauses and nesting are far more than those.',
  EXC, [('macros', 'include/exception.h ex_try, ex_catch, ex_finally, ex_end_try'), ('throw and unwind', 'src/except.c ex_throw, ex_unwind_set')], BOUND)
P('P06', 'Protected pointers are released when an exception passes, and only then',
  'When an exception leaves a block in which pointers are protected, the release function of each runs exactly once, newest first, on the value the pointer has then, and not for pointers that are NULL. Pointers no longer protected, and those protected outside the handling try, are left alone. ex_uncaught_exception says so while they run, and not otherwise.',
  ['programs'], 'all programs of protect, unprotect, changes of the pointers, try, throw and guard up to the bounds',
  'The tests protect one or two pointers around one throw.',
  EXC, [('protected list', 'src/except.c ex_protect_ptr, ex_unprotected_ptr, ex_unwind_stack'), ('protected', 'include/exception.h protected, unprotected')], BOUND)
P('P07', 'A guard block releases everything on every way out and restores its outside',
  'Whether a guard block is left at its end, by break, by return with a value or by an exception, also by one from a deferred function, all its deferred functions have run, newest first, and its memory has been released before anything after it runs. The scope and handlers around it are then in force again, and an unguarded value is what was returned.',
  ['programs'], 'all programs of nested guards, deferred functions, allocations, exits, throws and try blocks up to the bounds',
  'The tests use single guards with one way out each.',
  EXC, [('guard', 'include/raii.h guard, guarded, unguarded, _return'), ('guard state', 'src/raii.c guard_set, guard_reset, guard_delete')], BOUND)
P('P08', 'A guard stops an exception only when it was recovered, by its own name',
  'Deferred functions of a guard left by an exception see its message, and see none otherwise. The exception ends at the guard exactly when one of them recovers from it, by message or by name; recovering by another name, or asking, does not stop it, and it reaches the next handler unchanged.',
  ['programs'], 'all programs of guards with recovering, asking and throwing deferred functions, tries and throws up to the bounds',
  'The tests recover from one exception in one guard; unsuccessful recovery and nesting are not tested.',
  EXC, [('recover', 'src/raii.c raii_recover, raii_is_caught, raii_caught, raii_message')], BOUND)
P('P11', 'Arena allocations never overlap or move, and all memory is returned',
  'Every allocation from an arena is inside live memory, aligned to at least two bytes, zero where promised, overlaps no other live allocation of any arena and keeps its contents until its arena is cleared or freed. Clearing and freeing return all memory, and a cleared arena is as good as new.',
  ['histories'], 'all histories of allocations around the remaining room, clears and frees on up to three arenas with different thresholds',
  'The tests allocate a few fixed sizes; boundaries of chunks, reuse of free chunks and several arenas at once are where the arithmetic matters.',
  ['src/arena.c', 'src/raii.c'], [('arena', 'src/arena.c arena_alloc, arena_calloc, arena_clear, arena_free'), ('scope arenas', 'src/raii.c unique_init_arena, malloc_arena')], BOUND)
P('P13', 'Arguments arrive with the values, types and order they were passed with',
  'Any list of arguments described by a format reaches the reader through each interface with every value unchanged, strings and pointers of any length included. Their memory is released with the scope.',
  ['inputs'], 'all formats up to the bound with boundary values of each type',
  'The tests pass one mixed list.',
  ['src/raii.c'], [('arguments', 'src/raii.c raii_args_for, raii_args_ex, raii_vargs, raii_get_args')], BOUND)
P('P14', 'String length, comparison and search give the C library results',
  'For every string, at every address and with anything behind its end, the word-parallel functions give what the C library gives, and read no memory outside the pages of the string.',
  ['inputs'], 'all strings over the alphabet up to the bound, all alignments, all following bytes from the alphabet',
  'The tests use a few aligned literals; carries between bytes, bytes above 127 and ends of pages need specific inputs.',
  ['src/swar.c', 'include/swar.h'], [('words', 'src/swar.c simd_strlen, simd_strcmp, simd_memchr')], BOUND)
P('P15', 'Memory search gives the C library results',
  'For every buffer, length and byte, at every address, forward and backward search give what the C library gives and read nothing outside the pages of the buffer.',
  ['inputs'], 'all buffers over the alphabet up to the bound, all alignments and lengths',
  'The tests use a few literals.',
  ['src/swar.c', 'include/swar.h'], [('search', 'src/swar.c memchr, memrchr families')], BOUND)
P('P16', 'Number conversions are exact',
  'Converting integers to text and text to integers or floating point gives what the C library gives, for every value of the type and every digit string of the documented form.',
  ['inputs'], 'all 8 and 16 bit values, all boundary values of 32 and 64 bits, all digit strings up to the bound',
  'The tests convert a few numbers; group boundaries, signs and widths are not covered.',
  ['src/swar.c', 'include/swar.h'], [('conversions', 'src/swar.c itoa, atoi, atod, htou families')], BOUND)
P('P17', 'Splitting, joining, replacing and copying strings give the obvious result',
  'Splitting a string yields its parts in order, joining yields the parts one after another, replacing substitutes every occurrence from the left, and copies are equal and independent, for all inputs. All memory belongs to the scope, and nothing else is read or written.',
  ['inputs'], 'all texts, delimiters, needles and parts over the alphabet up to the bound',
  'The tests use one text per function.',
  ['src/raii.c', 'src/swar.c'], [('strings', 'src/swar.c str_split_ex, str_concat_ex, str_replace_ex, str_memdup_ex')], BOUND)
P('P18', 'Base64 encodes to the standard text and decodes back, whatever the bytes',
  'Encoding any bytes gives the RFC 4648 text, decoding it gives the bytes back with their length, and a text with a character outside the alphabet is told apart, in any order of calls. Malformed text is never read or written out of bounds.',
  ['inputs', 'histories'], 'all byte strings over boundary alphabets up to the bound, all texts over an alphabet with invalid characters, all orders of first calls',
  'The tests encode and decode one sentence, encoding first.',
  ['src/swar.c'], [('base64', 'src/swar.c raii_encode64, raii_decode64, is_base64')], BOUND)
P('P04', 'A failed allocation raises an exception and loses nothing',
  'When any allocation fails, the call in progress raises an exception with errno set to ENOMEM, or reports that it could not register. What existed before stays intact, usable and is released once as usual, nothing obtained by the failed call remains allocated, and later calls work again.',
  ['fault_sequences', 'histories'], 'all histories of allocating operations up to the bound, with every single allocation, and every suffix of allocations, failing',
  'No test makes an allocation fail.',
  ['src/raii.c', 'src/swar.c', 'src/arena.c'], [('failing allocations', 'src/raii.c try_calloc, try_malloc, malloc_full, calloc_full'), ('arena', 'src/arena.c arena_alloc')], BOUND)
P('P09', 'Ending the program runs everything deferred; an uncaught exception fails it',
  'An exception or signal that nothing handles ends the program with a failure status and a message naming it on standard error, after the finally blocks and guards on its way, the protected pointers, everything deferred in the thread and the termination function have run, each once; a release function that throws while an exception passes ends it at once. When the program ends by exit or at the end of main, everything deferred in the thread runs once, newest first, and the status is kept.',
  ['programs', 'crash_points'], 'all nestings of blocks, deferred functions and endings up to the bounds',
  'A test that ends its process cannot go on; the suite has none.',
  EXC, [('termination', 'src/except.c ex_terminate, ex_print'), ('exit', 'src/raii.c raii_init, raii_destroy')], BOUND)
P('P10', 'Signals arrive as exceptions, again and again',
  'Each handled signal, however raised, becomes the exception of its name at the place where it arrives, and every handler, finally, guard and protected pointer treats it like a thrown one. Afterwards the program goes on, the set of blocked signals is what it was, and the next signal of the same or another kind arrives just as well.',
  ['histories', 'programs'], 'all signals, ways to raise, places, handlers and short sequences of them',
  'The tests raise two or three signals once each; a mask that is not restored, or a handler lost after its first use, goes unnoticed.',
  EXC, [('handler', 'src/except.c ex_handler, ex_signal, ex_signal_setup'), ('mask', 'include/exception.h ex_signal_block, ex_setjmp')], BOUND)
P('P24', 'Thread-local variables are separate per thread and stable',
  'Each thread sees its own value of a thread-local variable, at its own address that does not change, unaffected by what other threads read, write, replace or by their end. A variable is reported empty until its first use in that thread. This holds with and without compiler support.',
  ['histories', 'configurations'], 'all orders of operations of three threads on two variables, both kinds of storage',
  'The test has each thread write once and read after a pause; emulated storage is not built.',
  ['include/cthread.h'], [('macros', 'include/cthread.h thrd_local, thrd_static, thrd_local_extern')], BOUND + ' The orders are of whole operations, one at a time.')
SCHED = 'Every schedule of the listed programs, up to the preemption bound given for each suite in the evidence (100: no bound), is executed on the real code by a controlled scheduler; schedules are cut only at states whose whole causal history was seen before. Executions are sequentially consistent; accesses that weaker orders could break are reported as data races. Nothing is said beyond those programs.'
P('P19', 'A future delivers the value or exception of its function, once it has run',
  'The function given to thrd_async runs exactly once, in a thread of its own. thrd_get and thrd_wait return only after it has ended and everything its thread deferred has run; then all it wrote is visible, its value (also an object from thrd_returning) arrives unchanged, and an exception it let out is thrown by thrd_get with its own name and message. thrd_is_done never says yes before. Futures do not mix, whatever the order, and leave no thread and no memory behind.',
  ['schedules', 'programs'], 'all schedules of all programs with up to three futures of ten kinds of functions, got in every order and way',
  'The suite never runs a future; a single run sees one schedule of one program, and joins, flags and hand-over of memory go wrong only in some.',
  ['src/future.c', 'include/raii.h', 'src/raii.c', 'src/except.c'], [('futures', 'src/future.c thrd_async, thrd_get, thrd_wait, thrd_is_done, future_wrapper'), ('results', 'src/future.c promise_set, promise_get, thrd_returning')], SCHED)
P('P21', 'Spawned functions all finish by thrd_sync and each result is its own',
  'Each function given to thrd_spawn runs exactly once in a thread of its own, in any number per scope. thrd_sync returns when all have ended and what they deferred has run, leaving no thread; it throws the exception of the first spawned function that threw one, and the others keep their results. Every other result is then ready and is what its own function returned, thrd_then goes over exactly these in order, thrd_is_finish never says yes earlier, and destroying the scope leaves no memory behind.',
  ['schedules', 'programs'], 'all schedules of all programs that spawn up to four functions of five kinds, ask, synchronise once or repeatedly and read the results, for several numbers of processors',
  'The suite compiles the spawn tests but never runs them; results mixed up, lost or read too early depend on the order in which threads end.',
  ['src/future.c', 'include/raii.h'], [('spawning', 'src/future.c thrd_spawn, thrd_sync, thrd_then, thrd_result, thrd_is_finish'), ('results', 'src/future.c raii_result_create, thrd_returning')], SCHED)
P('P22', 'Atomic operations act on exactly their object, indivisibly and in order',
  'Every atomic operation of the header, for every type and width, reads and writes exactly the bytes of its object: it returns and leaves what its definition says for every value, and touches no neighbour. Concurrent operations on one object give results that some order of whole operations gives, never a mixture or a lost update, and a failed comparison hands back what was there. An operation with release order that another thread sees through an operation with acquire order makes everything written before it visible to that thread.',
  ['schedules', 'inputs'], 'all schedules of two and three threads over all operations, types, orders and boundary values',
  'Tests are single-threaded on one or two types; an operation of the wrong width, split into two steps, or with a weaker order works there and is wrong only next to other data, in one interleaving or on other hardware.',
  ['include/catomic.h'], [('generic operations', 'include/catomic.h atomic_load, atomic_store, atomic_exchange, atomic_compare_exchange_*, atomic_fetch_*'), ('sized operations', 'include/catomic.h c89atomic_*_{8,16,32,64,i*,f32,f64,ptr}'), ('flags', 'include/catomic.h c89atomic_flag_*, atomic_flag_*')], SCHED)
P('P23', 'A spinlock has one holder, hands over what was written, and is always obtained',
  'Between atomic_lock and atomic_unlock no other thread is between them on the same lock; what the previous holder wrote is seen by the next; different locks do not disturb each other or their neighbours in memory; taking a lock inside another works; and every thread that asks for a lock gets it once the holders have released it, so all threads end. The same holds for c89atomic_spinlock_lock/unlock and for a lock built from atomic_flag_test_and_set with acquire order and atomic_flag_clear with release order.',
  ['schedules', 'programs'], 'all schedules of up to four threads over two locks',
  'No test takes a spinlock in two threads; two holders, a lost wake or a missing order show only in particular interleavings.',
  ['include/catomic.h', 'src/future.c'], [('spinlock', 'include/catomic.h c89atomic_spinlock_lock, c89atomic_spinlock_unlock, atomic_lock, atomic_unlock'), ('flag', 'include/catomic.h c89atomic_flag_test_and_set_explicit, c89atomic_flag_clear_explicit')], SCHED)
P('P20', 'Threads that share nothing do not affect each other',
  'What a thread observes through its scopes, deferred functions, guards, try blocks, exceptions, messages, recovery, protected pointers, arenas, strings and arguments is what it observes when no other thread runs, whatever others do with theirs at the same time: no handler, exception, message, deferred function or memory of one thread becomes that of another, the end of one thread releases only what is its own, and no two threads touch the same memory without synchronisation. With native and with emulated thread-local storage.',
  ['schedules', 'programs'], 'all pairs and triples of threads over 24 kinds of action, in every interleaving of their steps within the stated preemptions',
  'No test of the suite uses the library in two threads at once; a value kept in a static variable or in the wrong context only shows in an interleaving.',
  ['src/raii.c', 'src/except.c', 'include/raii.h', 'include/exception.h', 'include/cthread.h'], [('per-thread scope', 'src/raii.c raii_init, raii_local, raii_destroy'), ('per-thread handlers', 'src/except.c ex_init, ex_local, ex_update, ex_throw, ex_unwind_stack'), ('storage', 'include/cthread.h thrd_local')], SCHED)
P('P12', 'Arenas of different threads share chunks without sharing memory',
  'Threads that allocate from, clear and free arenas of their own at the same time never get memory that overlaps what any other holds: every block keeps its content until its own arena is cleared or freed, is live and zero where asked for, and chunks one arena gave back are given to one other at most. An arena may be made by one thread, used by another and freed by a third as long as they take turns. When all arenas are gone, no more than the chunks kept for later remain, and these are not lost. No thread waits for ever.',
  ['schedules', 'programs'], 'all schedules of two and three threads with up to three operations each, within the stated preemptions',
  'The tests use one arena in one thread; the free list shared by all arenas only matters when several threads give back and take chunks at once.',
  ['src/arena.c'], [('free list', 'src/arena.c free_list, num_free, arena_release, arena_alloc'), ('scopes', 'src/raii.c unique_init_arena, free_arena, malloc_by, calloc_by')], SCHED)
P('P25', 'Signals can be named, renamed, held back and given back',
  'After ex_signal_setup, or any try, ex_signal(sig, name) makes any signal arrive as the exception of that name: the last name given counts, the others keep theirs, and ex_signal_setup gives its signals the standard names again. Up to 32 signals have names; one more, or one that cannot be handled, is refused with a message and changes nothing. A signal sent between ex_signal_block and ex_signal_unblock arrives once, at the outermost unblock, and nothing between is interrupted; afterwards the blocked signals are those from before, also when an exception leaves in between. After ex_signal_default the signals of the setup have their default effect, until the next try, guard or setup. What nothing handles ends the program with its name, and SIGINT with the control-c function as well.',
  ['histories'], 'all sequences of up to four (thorough five) of ten operations on up to six signals, all numbers of names',
  'The tests use the signals of the setup once; names, the full table, blocking and resetting are never tested, and depend on what was done before.',
  EXC, [('names', 'src/except.c ex_signal, ex_sig, ex_signal_setup, ex_signal_default'), ('arrival', 'src/except.c ex_handler, ex_terminate'), ('holding back', 'include/exception.h ex_signal_block, ex_signal_unblock')], BOUND)
P('P28', 'The application\'s own hooks see each exception where it arrives',
  'When exception_setup_func is set, it is called once each time an exception arrives at a handler that is not a guard\'s, and never otherwise: with that handler, the exception\'s name and its message if any, before anything is unwound, and whether or not something catches it there. Data it stores with ex_data_set or ex_swap_set stays with the handler, ex_swap_reset gives the data before the swap back, and if it asks for unwinding with ex_unwind_set, exception_unwind_func is called once with that data before the protected pointers are released; if it does not ask, it is not called. Apart from these calls the program does what it does without hooks.',
  ['histories'], 'all programs of nested blocks up to the bound with seven combinations of hooks, and all endings of programs up to the bound with four',
  'No test sets either hook.',
  EXC, [('hooks', 'src/except.c ex_setup, ex_throw, ex_unwind_stack, ex_data_set, ex_swap_set, ex_unwind_set'), ('declared', 'include/exception.h exception_setup_func, exception_unwind_func'), ('documented', 'README.md global callback functions')], BOUND)
P('P29', 'A thread that cannot start or runs out of memory fails alone',
  'When memory runs out, or the system gives no thread, in thrd_async, thrd_scope, thrd_spawn, thrd_spawn_ex or thrd_sync, the call raises an exception that can be caught (a panic with errno ENOMEM, or future_error), no thread was started by it, and it works when called again. When memory runs out in the thread itself, before, in or after its function, that arrives as an exception at thrd_get or thrd_sync unless the function handled it; the program goes on. Either way every other function runs once and its result or exception arrives as usual, everything a function deferred has run once, and when all are synchronised and their scope has ended nothing remains allocated and no thread is left.',
  ['schedules', 'fault_sequences'], 'all programs of up to two, and some of up to nine functions, with every allocation of every thread, every suffix of them, and every creation of a thread failing, under every schedule within the stated bounds',
  'No test makes an allocation or the creation of a thread fail.',
  ['src/future.c', 'src/raii.c', 'include/raii.h'], [('start', 'src/future.c thrd_start, thrd_async, thrd_spawn, thrd_spawn_ex, thrd_scope, promise_create, future_create'), ('worker', 'src/future.c thrd_raii_wrapper, promise_set, thrd_returning'), ('end', 'src/future.c thrd_get, thrd_sync, thrd_destroy')], SCHED)
STATES = 'The states are the memory of the real structures; every operation is executed on every reachable one, until no new ones appear. Nothing is said about more elements than stated.'
P('P26', 'The lists and queues of queue.h hold exactly what was put in, in order',
  'SLIST, LIST, SIMPLEQ, XSIMPLEQ and TAILQ of compat/sys/queue.h: after any sequence of insertions at either end, before and after an element, removals, replacements, concatenations and initialisations of two lists that exchange elements, each list holds exactly the elements put in and not taken out, in the order the operations say. Walking forwards or backwards, with first, last, next and previous and with the FOREACH macros, meets each once and ends, also when the SAFE forms take out any of them on the way; EMPTY is true exactly when there are none; XSIMPLEQ for any cookie. Nothing but the links of elements in the lists is read or written.',
  ['histories', 'states'], 'all states of two lists over up to five (thorough six) elements, every operation in each',
  'The suite has no test of this header; links that only matter later (the last pointer after a removal, a previous pointer after a replacement) show only in the operations that follow.',
  ['include/compat/sys/queue.h'], [('queues', 'include/compat/sys/queue.h SLIST_*, LIST_*, SIMPLEQ_*, XSIMPLEQ_*, TAILQ_*')], STATES)
P('P27', 'The trees of tree.h are ordered sets and stay balanced',
  'RB and SPLAY trees of compat/sys/tree.h: after any sequence of insertions and removals a tree holds exactly the elements put in and not taken out, in order; inserting a key that is there gives the element there and changes nothing; FIND, NFIND, MIN, MAX, NEXT, PREV and all FOREACH forms, also when the SAFE ones take out any elements on the way, give what an ordered set gives. A red-black tree keeps its colour rules, equal black heights and parent links, so its height stays logarithmic, and RB_AUGMENT is called so that a sum kept up to the root is right everywhere; SPLAY_FIND brings the element found to the root. Elements outside the tree, and everything but the links, are not touched.',
  ['histories', 'states'], 'all shapes reachable with up to 12 (thorough 14) elements in a red-black and 9 (thorough 10) in a splay tree, every operation in each',
  'The suite has no test of this header; most cases of rebalancing need a particular shape and colouring that takes many operations to reach.',
  ['include/compat/sys/tree.h'], [('red-black', 'include/compat/sys/tree.h RB_GENERATE, RB_INSERT, RB_REMOVE, RB_FIND, RB_NFIND, RB_NEXT, RB_PREV, RB_MINMAX, RB_FOREACH*'), ('splay', 'include/compat/sys/tree.h SPLAY_GENERATE, SPLAY_INSERT, SPLAY_REMOVE, SPLAY_FIND, SPLAY_NEXT, SPLAY_MIN, SPLAY_MAX, SPLAY_FOREACH')], STATES)
P('P30', 'getopt reads command lines as the C library does',
  'compat/getopt.c, for systems without one, gives for every command line, option string and table of long options what getopt, getopt_long and getopt_long_only of the C library give: the same options in the same order with their arguments, index and flag, the same errors with a message that names the option unless there shall be none, optind as documented after each call, and the arguments permuted the same way when all are read. Setting optind to 0 starts a new line with nothing left from the one before. (Without the -W extension.)',
  ['inputs', 'histories'], 'all command lines over a vocabulary up to the bound, with all modes',
  'The suite has no test of this file, which the build leaves out where the C library has getopt; the interesting cases need particular orders of options, arguments and modes.',
  ['include/compat/getopt.c', 'include/compat/getopt.h'], [('getopt', 'include/compat/getopt.c getopt, _getopt_internal, exchange, _getopt_initialize')], BOUND)
PROPS.sort(key=lambda p: p['id'])
