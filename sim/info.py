"""What the checks state about themselves: used by ../check and ../mkmanifest.py."""

# properties whose oracle includes "the process survives"
CRASH = {'C01', 'C02', 'C03', 'C04', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18'}
LEVEL = {'C11': 'fault_enumeration'}

RULE = ('Each case is one simulated execution of real library calls, generated from (VERIF_SEED, run index): a workload, a thread-team grant for every parallel region, a schedule policy and faults. '
        'It counts as non-trivial if a parallel region ran with more than one thread, or a thread was preempted, or a fault (failed memory request, stall, hostile memory, misaligned buffer, restricted CPU) fired; '
        'distinct means a different hash over the whole event trace (switches, grants, allocations, results). Workers draw run indices from one counter, so no index runs twice.')
RULES = {
    'C01': 'Workload: one complex FFT object, every documented operation; first the fixed strata over lengths 2..2^24, mixed-radix and large-prime lengths and backends, then random ones. Oracle: independent long-double DFT.',
    'C02': 'Workload: one real FFT object, all operations, lengths 2..2^22 (quick). Oracle: independent long-double DFT; input buffer compared byte for byte.',
    'C03': 'Workload: one DCT object, all operations, lengths 2..2^21 (quick). Oracle: independent long-double DCT-II/III.',
    'C04': 'Workload: one Bluestein object, all operations, odd, even, prime lengths 1..2^19 (quick). Oracle: independent long-double DFT.',
    'C05': 'Workload: set-up and transform calls that open parallel regions. Oracle: happens-before race detector over every instrumented access, fed by the simulated OpenMP synchronisation.',
    'C06': 'Workload: the same calls under 1..9 threads, any grant and schedule. Oracle: output bits equal those of a one-thread run.',
    'C07': 'Workload: calls with a stalled team member or a stalled other caller. Oracle: nobody waits for ever, bounded steps after the stall, other callers complete while one is stalled.',
    'C08': 'Workload: calls made by members of the caller\'s own parallel region (each member, single, master, critical, worksharing loop), nesting on or off. Oracle: results, the caller\'s own loop and barrier history, thread settings, accesses that conflict between calls.',
    'C09': 'Workload: 2-4 callers (up to 8 with several objects each) with their own objects, or sharing a set-up real FFT. Oracle: bits equal to the lone run; race detector between calls of different callers.',
    'C10': 'Workload: library statics reset, first calls from 2-4 threads under fine-grained preemption. Oracle: backend, results, exceptions, leaks, race detector.',
    'C11': 'Workload: every k-th memory request of create and setup fails, for 48 type/length classes, then random failures by index, by size, for all. Oracle: exception type, block accounting, later results.',
    'C12': 'Workload: transforms and destruction with every memory request failing, half of the runs on threads with 64 KB of stack. Oracle: number of requests is zero, results right.',
    'C13': 'Workload: random histories of create, setup (also to lengths 0 and 1), failed setup, transforms, destroy; many objects at once; each operation thousands of times; addresses of released blocks handed out again. Oracle: bits equal to a fresh object.',
    'C14': 'Workload: histories with misaligned buffers, failures, all lengths from 0. Oracle: shadow memory over every access, read-only inputs, block accounting, MXCSR and x87 control words.',
    'C15': 'Workload: memory filled with NaN, infinities, huge, denormal, random or mixed bytes, three placements, any alignment of 8. Oracle: bits equal to the zero-filled aligned run.',
    'C16': 'Workload: every reported CPU feature set (600 and random ones), every length class under the least CPU each backend needs. Oracle: breakpoints on all instructions the described CPU lacks, backend selected, exception type, results.',
    'C17': 'Workload: 2-4 threads hand objects to one another (create in one, set up in the next, use, destroy in others), waiting for each other or ending before the next starts. Oracle: bits equal to a one-thread run, memory of ended threads poisoned, race detector, block accounting.',
    'C18': 'Workload: objects made before the library\'s own static initialisers ran, used before and after, and used, set up again and destroyed after its exit handlers ran. Oracle: bits equal to an ordinary run, backend, block accounting.',
}
FAULTS = {'thread teams smaller than requested': 'short_grants', 'memory requests failed': 'alloc_fails', 'threads stalled': 'stalls', 'memory blocks handed out with hostile contents': 'poisoned',
          'blocks at minimal alignment': 'misaligned', 'caller buffers off 64-byte alignment': 'unaligned_user', 'preemptions': 'preempts', 'regions opened inside another region': 'nested_regions', 'threads with a small stack': 'small_stack', 'released addresses handed out again': 'reused', 'transforms on objects of length 0': 'empty_runs',
          'calls inside the caller\'s region': 'callernested', 'CPU queries answered by the simulator': 'cpuid', 'waits for another thread\'s one-time initialisation': 'guard_waits'}
SCHED = {'context switches': 'switches', 'blocked waits': 'blocks', 'parallel regions': 'regions', 'regions with several threads': 'regions_par', 'barriers': 'barriers', 'single constructs': 'singles',
         'worksharing loops': 'loops', 'locks': 'locks', 'atomics': 'atomics', 'steps checked for races': 'race_checks', 'threads started': 'fibers', 'preemptions forced by the fairness bound': 'forced_fair',
         'instructions single-stepped or trapped': 'trapped', 'std::bad_alloc thrown by the simulated allocator': 'throws'}
REAL = ['all of /repo/src and /repo/inc: dispatcher, factory, table set-up, every backend (SSE2, AVX, AVX2) kernel, compiled with -fsanitize=thread instrumentation; its CPUID and XGETBV instructions run into breakpoints and are answered by the simulator', 'the C++ exception runtime']
STUB = ['OpenMP runtime (teams, worksharing, barriers, single, critical, nested regions)', 'thread scheduler (fibers)', 'malloc/new and free/delete', 'one-time initialisation guards, mutexes, condition variables',
        'CPUID and XGETBV', 'thread-local storage, std::thread, pthread threads, semaphores and barriers, if the library used them',
        'process start and exit (library statics restored before each run, its static initialisers and exit handlers run by the simulator)', 'the application (client.cpp)', 'clocks, getenv, sysconf if they were called']
ASSUME = ['preemption happens at memory accesses and synchronisation operations of library code; accesses take effect in program order (sequential consistency), weaker orders are covered by the race detector only',
          'the compiler is gcc with -O1 and thread instrumentation, not the shipped -O3 code',
          'the simulated OpenMP runtime behaves as the OpenMP specification allows',
          'lengths up to 2^24; samples, not a proof']
HOOK_COMMIT = '30a21d778cf40bff0ffaf1f9b438581ba26923dc'
