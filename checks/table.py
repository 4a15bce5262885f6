"""The checks: which sources, which builds of the repository, what they cover."""
CONFIGS = {
    'O3dbg': {'flags': ['-O3', '-fPIC', '-DUSE_DEBUG']},          # as the suite builds it
    'O2': {'flags': ['-O2']},                                     # release
    'O0': {'flags': ['-O0']},
    'emul': {'flags': ['-O2', '-DUSE_EMULATED_TLS']},              # thread-local storage without compiler support
    'O0dbg': {'flags': ['-O0', '-DUSE_DEBUG']},
}
SEQ = {'quick': ['O3dbg', 'O2'], 'thorough': ['O3dbg', 'O2', 'O0', 'emul']}
TLS = {'quick': ['O3dbg', 'emul'], 'thorough': ['O3dbg', 'emul', 'O2']}
NAT = {'quick': ['O3dbg', 'O2'], 'thorough': ['O2', 'O3dbg', 'O0']}
THR = {'quick': ['O3dbg', 'emul'], 'thorough': ['O2', 'emul', 'O3dbg']}
SCHED = dict(engine='sched', configs=THR, budget={'quick': 420, 'thorough': 5400})
BFS = 'model checking: explicit-state search of all reachable states, on the real code, against a reference model'
PROG = 'Programs are trees of statements written with the real macros (try, catch, catch_any, catch_if, finally, throw, rethrow, guard, defer, allocate, protect), every one of them up to the given number of statements and depth, and families of deep (up to 33 levels) and wide (up to 38 statements) ones; a small interpreter of the language rules gives the expected sequence of events. '
CHECKS = {
    'P01': dict(src=['P01.c', 'P01b.c'], configs=SEQ, covers='Every history of up to 5 (thorough 6) operations on a scope: registering plain, nesting, recursive and scope-releasing functions, releasing; after 0, 15 or 16 (thorough 31, 33) earlier registrations; in every way a scope ends. Every number of registrations up to several growths of the list, and histories that end with their thread. Programs of guards with deferred functions and exceptions (trees of statements, with guards up to 33 deep, and with up to 38 places that defer), of which the sequence of events is expected.'),
    'P02': dict(src=['P02.c'], configs=SEQ, covers='Every history of registrations, cancellations and early firings on a scope, against a list of what is registered; and with up to three places of a long list cancelled or fired.'),
    'P03': dict(src=['P03.c', 'P01b.c'], configs=SEQ, covers='Every history of allocations, registrations and releases on a scope; every block is watched from its allocation to its release by the allocator under it. Scopes backed by arenas; blocks of every size up to the bound; scopes of threads; and programs of guards, up to 33 deep, that allocate.'),
    'P05': dict(src=['P05.c', 'recur.c'], configs=SEQ, covers=PROG + 'Three families: nesting, all shapes of clauses (also finality, several caught() in one catch_if, and catch_if beside other clauses), with guards. And functions that call themselves up to 2049 levels deep through every alternation of kinds of level, with the exception stopped at either end, halfway or nowhere.'),
    'P06': dict(src=['P06.c', 'recur.c'], configs=SEQ, covers=PROG + 'Here with pointers protected one by one, in blocks, and both, set to NULL and pointed elsewhere. And functions that call themselves up to 2049 levels deep through every alternation of kinds of level, with the exception stopped at either end, halfway or nowhere.'),
    'P07': dict(src=['P07.c', 'P07b.c', 'recur.c'], configs=SEQ, covers=PROG + 'Here with every way out of a guard, with deferred functions that defer, throw, try and open guards, and with long lists; and functions made with block() with results of ten kinds, left in every way, recursive, nested in one function, called up to 300 times. And functions that call themselves up to 2049 levels deep through every alternation of kinds of level, with the exception stopped at either end, halfway or nowhere.'),
    'P08': dict(src=['P08.c', 'recur.c'], configs=SEQ, covers=PROG + 'Here with deferred functions that recover, ask and recover by name, with all kinds of throws, and with names of which one is the beginning of another. And functions that call themselves up to 2049 levels deep through every alternation of kinds of level, with the exception stopped at either end, halfway or nowhere.'),
    'P11': dict(src=['P11.c'], configs=SEQ, covers='Every history of allocations of sizes around the room that is left, clears and frees on up to 3 arenas, alone and behind scopes, against a list of live blocks; every size up to 520 (thorough 1024) and those around the powers of two up to 1M, on new, used and cleared arenas.'),
    'P13': dict(src=['P13.c'], configs=SEQ, covers='Every sequence of argument types up to the bound with boundary values, passed through each of the ways to make arguments and read back.'),
    'P14': dict(src=['P14.c'], configs=SEQ, covers='Every string over a small alphabet up to the bound, at every alignment, with neighbours that must not matter and a guard page behind the last byte, and strings of lengths around the powers of two up to 256K, against the C library.'),
    'P15': dict(src=['P15.c'], configs=SEQ, covers='Every buffer over a small alphabet up to the bound, at every alignment and with a guard page behind it, and lengths around the powers of two up to 256K, against the C library.'),
    'P16': dict(src=['P16.c'], configs=SEQ, covers='Every digit string up to the bound, all 16-bit values, and all boundary values of each width, against the C library.'),
    'P17': dict(src=['P17.c'], configs=SEQ, covers='Every text and delimiter, needle or list of parts over a small alphabet up to the bound, against a plain reference; and up to 65537 parts, and parts of up to 65537 bytes.'),
    'P18': dict(src=['P18.c'], configs=SEQ, covers='Every byte string over boundary alphabets up to the bound is encoded and decoded; every text over an alphabet with invalid characters is validated and decoded; texts up to 256K.'),
    'P04': dict(src=['P04.c'], configs=SEQ, also=dict(SCHED, src=['P29.c'], configs={'quick': ['O2'], 'thorough': ['O2', 'O3dbg']}), covers='Every history of up to 3 (thorough 4) operations that allocate, each run once for every allocation it makes with that one failing, and once more with all later ones failing too. Every way to allocate with sizes no machine has, among them sums and products that overflow to something small.'),
    'P09': dict(src=['P09.c'], configs=SEQ, covers='Every nesting of up to 3 (thorough 4) blocks, every list of deferred functions of the thread, every way to end; each in a process of its own whose events, exit status and messages are collected.'),
    'P10': dict(src=['P10.c'], configs=SEQ, covers='Every handled signal, by raise, kill or a real fault, in every place and handled in every way, repeated, with other signals blocked, in the main and another thread; every sequence of two (thorough three) over three of the signals and a throw; and in the functions of futures and spawned functions, one after another, thrown to whoever waits.'),
    'P24': dict(src=['P24.c'], configs=TLS, also=dict(SCHED, src=['P24b.c']), covers='Every order of turns of three threads over two thread-local variables, with native and emulated storage; and, under every schedule, the first and later uses by two and three threads (up to 16 in a few fixed schedules), before and after use by the first thread.'),
    'P19': dict(SCHED, src=['P19.c'], covers='Programs that start one, two or three futures with functions of ten kinds (values, objects, exceptions, panics, scopes, guards, nested futures, exceptions they handle themselves), do something of their own meanwhile, and get them in every order, after waiting, polling or asking; values of full width, objects of several sizes; and up to 32 futures at a time in a few fixed schedules (deviations: none, thorough one).'),
    'P21': dict(SCHED, src=['P21.c'], covers='Programs that spawn up to three (thorough four) functions of five kinds in a scope, ask for the state or a result meanwhile, synchronise once, twice, or between the spawns, walk over the results, read them and destroy the scope, for pools of one and two processors; and up to 33 at a time, synchronised all at once or every few, in a few fixed schedules (deviations: none, thorough one).'),
    'P22': dict(SCHED, src=['P22.c'], covers='Every atomic operation of every type, width and order on boundary values beside guarded neighbours; all pairs of operations in two threads and three threads of one operation against the results some order gives; publication of a plain value through every pair of a releasing and an acquiring operation.'),
    'P23': dict(SCHED, src=['P23.c'], covers='Two threads with one of eight sequences of sections over two locks under every schedule, three and four threads with bounded preemptions (thorough: three unlimited), for locks made with atomic_lock, c89atomic_spinlock_lock and an atomic_flag; up to 12 threads in rotation.'),
    'P20': dict(SCHED, src=['P20.c'], covers='Every pair of programs of one action, and related pairs of two actions, in two threads, and every three of one action in three, of 24 actions over scopes, guards, try blocks, rethrowing, protected pointers, recovery, arenas, arguments and strings, with other threads running inside each action, against the same programs run alone; and up to 12 threads of two actions in rotation.'),
    'P12': dict(SCHED, src=['P12.c'], covers='Two threads with one to three and three threads with one or two of seven operations on arenas of their own (allocate small, large, huge, zeroed, clear, free, an arena scope), with up to two chunks given back before, and with arenas another thread made, in every interleaving (longer programs: bounded preemptions); and up to 10 threads of three operations in rotation.'),
    'P25': dict(src=['P25.c'], configs=SEQ, covers='Every sequence of up to four (thorough five) of ten operations (setup, default, naming, raising in a try, a guard or bare, while blocked once, twice, or with a throw, resetting flags), in the main or another thread, with and without end functions; every number of names around the size of the table, with refused ones before and among them, and every signal probed; each in a process of its own.'),
    'P26': dict(src=['P26.c'], configs=SEQ, technique=BFS, covers='Every state that two lists over up to five (thorough six) elements can be in, for each of the five kinds, three cookies and both ways to initialise, and every operation (also walks that take out any subset) in every state, against arrays.'),
    'P28': dict(src=['P28.c', 'P28b.c'], configs=SEQ, covers=PROG + 'Here with a setup function and an unwind function of the application in seven combinations: every call of them, with the handler, name, message and data it sees, belongs to the expected events; and every sequence of up to five (thorough six) uses of the data in the setup function and in the catch.'),
    'P29': dict(SCHED, src=['P29.c'], configs=NAT, assumptions=['the thread-local storage of a new thread itself is there (native storage)'], covers='Programs that start one, two or several (three to nine) functions of seven kinds by thrd_async, thrd_spawn or thrd_spawn_ex, with and without a guard around: every single allocation of every thread, every suffix of them, and every creation of a thread fails, each under every schedule (two: bounded preemptions; several: a few fixed schedules, thorough one deviation); the failed call is tried again.'),
    'P30': dict(src=['P30.c', 'P30b.c'], configs=SEQ, covers='Every command line of up to two (thorough three) of 57 words, of up to four (thorough five) of 21, and of up to seven (thorough eight) of a few, with nine option strings and two tables of long options, by short, long and long-only options, with and without POSIXLY_CORRECT and messages, on the first use and after another line, against the C library: every result, argument, index, flag and the order of the arguments afterwards.'),
    'P27': dict(src=['P27.c'], configs=SEQ, technique=BFS, covers='Every shape a red-black tree over up to 12 (thorough 14) and a splay tree over up to 9 (thorough 10) elements can reach, with different and with equal keys, and every operation in every state, against a set, with the rules of colours, heights, parents and augmentation checked in each.'),
}
