#!/usr/bin/env python3
"""Builds the simulator and the instrumented library image from /repo's working tree.
usage: build.py [--full]   prints the build directory (contains simrun and liblib.so)"""
import array, os, re, sys, hashlib, subprocess, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('OTFFT_REPO', '/repo')
OUT = os.environ.get('OTFFT_SIM_BUILD', os.path.join(ROOT, 'build'))

# Kernel instantiations no dispatch path reaches are left out of the simulated image (70 s -> 10 s of build).
# If a run reaches one after all (a changed dispatch), it exits with 77 and the image is rebuilt in full.
USED = {'otfft_algo_dif4.cpp': {2, 4, 10}, 'otfft_avxdif4omp.h': set(), 'otfft_algo_dif8.cpp': {6, 8, 9}, 'otfft_avxdif8omp.h': {13},
        'otfft_algo_dit8.cpp': {3, 5, 12}, 'otfft_avxdit8omp.h': {14, 15, 17}, 'otfft_algo_dif16.cpp': {7, 11}, 'otfft_avxdif16omp.h': set(),
        'otfft_algo_dit4.cpp': {1}, 'otfft_avxdit4omp.h': set(), 'otfft_algo_dit16.cpp': set(), 'otfft_avxdit16omp.h': set(),
        'otfft_algo_sixstep.cpp': {16, 18, 19, 20, 21, 22, 23, 24}}
CASE = re.compile(r'^(\s*case\s+(\d+)\s*:)(.*<.*)(break;\s*)$')

CXX = ['g++']
BASE = ('-O1 -g0 -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -DUNIX -std=gnu++11 -fPIC -fvisibility=hidden '
        '-fvisibility-inlines-hidden -fno-gnu-unique -DBUILD_X64 -fopenmp -DNDEBUG -msse -msse2 -mfpmath=sse -frounding-math -fno-finite-math-only '
        '-fsignaling-nans -fpermissive -w -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove').split() + ['-include', os.path.join(HERE, 'intrin.h')]
BACKENDS = [('SSE2', '-msse2'), ('AVX', '-mavx'), ('AVX2', '-mavx2')]
SIMFLAGS = '-O2 -g0 -std=gnu++17 -fno-pie -w'.split()
SIMSRC = ['core.cpp', 'omp.cpp', 'model.cpp', 'main.cpp']

REDEF = {
    'malloc': 'sim_malloc', 'calloc': 'sim_calloc', 'realloc': 'sim_realloc', 'free': 'sim_free', 'posix_memalign': 'sim_posix_memalign',
    'aligned_alloc': 'sim_aligned_alloc', 'memalign': 'sim_memalign',
    '_Znwm': 'sim_new', '_Znam': 'sim_new', '_ZnwmRKSt9nothrow_t': 'sim_new_nt', '_ZnamRKSt9nothrow_t': 'sim_new_nt',
    '_ZnwmSt11align_val_t': 'sim_new_al', '_ZnamSt11align_val_t': 'sim_new_al',
    '_ZnwmSt11align_val_tRKSt9nothrow_t': 'sim_new_al_nt', '_ZnamSt11align_val_tRKSt9nothrow_t': 'sim_new_al_nt',
    '_ZdlPv': 'sim_delete', '_ZdaPv': 'sim_delete', '_ZdlPvm': 'sim_delete_sz', '_ZdaPvm': 'sim_delete_sz',
    '_ZdlPvSt11align_val_t': 'sim_delete_al', '_ZdaPvSt11align_val_t': 'sim_delete_al',
    '_ZdlPvmSt11align_val_t': 'sim_delete_sz_al', '_ZdaPvmSt11align_val_t': 'sim_delete_sz_al',
    '_ZdlPvRKSt9nothrow_t': 'sim_delete', '_ZdaPvRKSt9nothrow_t': 'sim_delete',
    'memcpy': 'sim_memcpy', 'memmove': 'sim_memmove', 'memset': 'sim_memset', 'memcmp': 'sim_memcmp',
    '__cxa_guard_acquire': 'sim_cxa_guard_acquire', '__cxa_guard_release': 'sim_cxa_guard_release', '__cxa_guard_abort': 'sim_cxa_guard_abort',
    '__cxa_atexit': 'sim_cxa_atexit', '__cxa_thread_atexit': 'sim_cxa_thread_atexit', 'atexit': 'sim_cxa_atexit',
    'pthread_once': 'sim_pthread_once', '__gthread_once': 'sim_pthread_once', 'pthread_self': 'sim_pthread_self',
    'pthread_cond_wait': 'sim_pthread_cond_wait', 'pthread_cond_signal': 'sim_pthread_cond_signal', 'pthread_cond_broadcast': 'sim_pthread_cond_broadcast',
    '_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE': 'sim_cv_wait',
    '_ZNSt18condition_variable10notify_oneEv': 'sim_cv_notify_one', '_ZNSt18condition_variable10notify_allEv': 'sim_cv_notify_all',
    '_ZNSt6thread20hardware_concurrencyEv': 'sim_hardware_concurrency', 'sysconf': 'sim_sysconf', 'getenv': 'sim_getenv', 'secure_getenv': 'sim_getenv',
    'clock_gettime': 'sim_clock_gettime', 'gettimeofday': 'sim_gettimeofday', 'time': 'sim_time', 'clock': 'sim_clock',
    '_ZNSt6chrono3_V212system_clock3nowEv': 'sim_chrono_now', '_ZNSt6chrono3_V212steady_clock3nowEv': 'sim_chrono_now',
    'nanosleep': 'sim_nanosleep', 'clock_nanosleep': 'sim_nanosleep', 'usleep': 'sim_usleep', 'sched_yield': 'sim_sched_yield',
    'rand': 'sim_rand', '_ZNSt13random_device9_M_getvalEv': 'sim_random_device', 'random': 'sim_rand', 'getpid': 'sim_getpid', 'abort': 'sim_abort', 'exit': 'sim_exit', '_exit': 'sim_exit', '__assert_fail': 'sim_assert_fail',
}
REDEF.update({
    'pthread_cond_timedwait': 'sim_pthread_cond_timedwait', 'pthread_cond_clockwait': 'sim_pthread_cond_timedwait',
    'pthread_mutex_timedlock': 'sim_pthread_mutex_lock', 'pthread_mutex_clocklock': 'sim_pthread_mutex_lock', 'pthread_rwlock_timedwrlock': 'sim_pthread_rwlock_wrlock', 'pthread_rwlock_timedrdlock': 'sim_pthread_rwlock_rdlock',
    'sem_init': 'sim_sem_init', 'sem_destroy': 'sim_sem_destroy', 'sem_wait': 'sim_sem_wait', 'sem_trywait': 'sim_sem_trywait', 'sem_post': 'sim_sem_post', 'sem_timedwait': 'sim_sem_wait',
    'pthread_barrier_init': 'sim_pthread_barrier_init', 'pthread_barrier_destroy': 'sim_pthread_barrier_destroy', 'pthread_barrier_wait': 'sim_pthread_barrier_wait',
    'pthread_spin_init': 'sim_pthread_spin_init', 'pthread_spin_destroy': 'sim_pthread_mutex_destroy', 'pthread_spin_lock': 'sim_pthread_spin_lock', 'pthread_spin_unlock': 'sim_pthread_mutex_unlock', 'pthread_spin_trylock': 'sim_pthread_mutex_trylock',
    '_ZNSt10_Sp_lockerC1EPKv': 'sim_sp_locker', '_ZNSt10_Sp_lockerC1EPKvS1_': 'sim_sp_locker2', '_ZNSt10_Sp_lockerD1Ev': 'sim_sp_locker_d',
    'pthread_create': 'sim_pthread_create', 'pthread_join': 'sim_pthread_join', 'pthread_detach': 'sim_pthread_detach', 'pthread_key_create': 'sim_pthread_key_create', 'pthread_key_delete': 'sim_pthread_key_delete',
    'pthread_setspecific': 'sim_pthread_setspecific', 'pthread_getspecific': 'sim_pthread_getspecific',
    '_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE': 'sim_thread_start', '_ZNSt6thread4joinEv': 'sim_thread_join', '_ZNSt6thread6detachEv': 'sim_thread_detach',
    '_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj': 'sim_futex_notify',
    '_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE': 'sim_futex_wait',
    '_ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE': 'sim_futex_wait',
    '_ZNSt13random_device7_M_finiEv': 'sim_rd_fini', '_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': 'sim_rd_init', '_ZNSt13random_device9_M_getvalEv': 'sim_rd_getval',
    '_ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE': 'sim_sched_yield',
    '_ZNSt8ios_base4InitC1Ev': 'sim_ios_init', '_ZNSt8ios_base4InitD1Ev': 'sim_ios_init', '__tls_get_addr': 'sim_tls_get_addr', 'omp_alloc': 'sim_omp_alloc', 'omp_free': 'sim_omp_free',
    '__cpu_model': 'sim_cpu_model', '__cpu_features2': 'sim_cpu_features2', '__cpu_indicator_init': 'sim_cpu_indicator_init',
})
for f in 'mutex_lock mutex_unlock mutex_trylock mutex_init mutex_destroy rwlock_wrlock rwlock_rdlock rwlock_unlock'.split():
    REDEF['pthread_' + f] = 'sim_pthread_' + f


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise SystemExit('build step failed (%d): %s\n%s' % (r.returncode, ' '.join(cmd), r.stdout[-6000:]))
    return r.stdout


def inputs():
    fs = []
    for d in ('src', 'inc'):
        p = os.path.join(REPO, d)
        for base, _, names in os.walk(p):
            for n in sorted(names):
                if n.endswith(('.cpp', '.h', '.in', '.hpp', '.c', '.inc')) and n != 'otfft_config.h':
                    fs.append(os.path.join(base, n))
    for n in sorted(os.listdir(HERE)):
        if n.endswith(('.cpp', '.h', '.py')):
            fs.append(os.path.join(HERE, n))
    return sorted(fs)


def key(full):
    h = hashlib.sha256()
    for f in inputs():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(b'full' if full else b'pruned')
    return h.hexdigest()[:16]


def prepare_sources(d, full):
    src = os.path.join(d, 'src')
    inc = os.path.join(d, 'inc')
    shutil.copytree(os.path.join(REPO, 'src'), src)
    shutil.copytree(os.path.join(REPO, 'inc'), inc)
    cfg = os.path.join(inc, 'otfft_config.h')
    with open(cfg, 'w') as f:
        f.write('#pragma once\n#define OTFFT_WITH_SSE2\n#define OTFFT_WITH_AVX\n#define OTFFT_WITH_AVX2\n')
    if full:
        return
    for n, used in USED.items():
        p = os.path.join(src, n)
        if not os.path.exists(p):
            continue
        t = open(p).read()
        out = []
        hit = False
        for l in t.split('\n'):
            m = CASE.match(l)
            if m and int(m.group(2)) not in used:
                l = m.group(1) + ' otfft_sim_pruned(); ' + m.group(4)
                hit = True
            out.append(l)
        if hit:
            with open(p, 'w') as f:
                f.write('extern "C" void otfft_sim_pruned();\n#line 1\n' + '\n'.join(out))


def build(full=False):
    os.makedirs(OUT, exist_ok=True)
    lock = open(os.path.join(OUT, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    k = key(full)
    final = os.path.join(OUT, k)
    if os.path.exists(os.path.join(final, 'ok')):
        os.utime(final)
        return final
    # keep only a few old builds
    olds = sorted((os.path.join(OUT, x) for x in os.listdir(OUT) if os.path.isdir(os.path.join(OUT, x))), key=os.path.getmtime)
    for o in olds[:-3]:
        shutil.rmtree(o, ignore_errors=True)
    d = final + '.tmp'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    prepare_sources(d, full)
    src = os.path.join(d, 'src')
    incs = ['-I' + os.path.join(d, 'inc'), '-I' + src]
    jobs = []
    per_backend = lambda f: f.startswith('otfft_algo') or 'OTFFT_NAMESPACE' in open(os.path.join(src, f), errors='replace').read()
    cpps = sorted(f for f in os.listdir(src) if f.endswith('.cpp'))
    algos = [f for f in cpps if per_backend(f)]
    common = [f for f in cpps if f not in algos]
    objs = {b: [] for b, _ in BACKENDS}
    weight = {'otfft_algo_sixstep.cpp': 9, 'otfft_algo.cpp': 7, 'otfft_algo_mixed.cpp': 6, 'otfft_algo_dit8.cpp': 5, 'otfft_algo_dif16.cpp': 5}
    for b, m in BACKENDS:
        for a in algos:
            o = os.path.join(d, b + '_' + a[:-4] + '.o')
            objs[b].append(o)
            jobs.append((weight.get(a, 3) + (1 if b == 'AVX2' else 0), CXX + BASE + incs + [m, '-DUSE_' + b, '-DOTFFT_NAMESPACE=OTFFT_' + b, '-c', os.path.join(src, a), '-o', o]))
    cobj = []
    for a in common:
        o = os.path.join(d, 'common_' + a[:-4] + '.o')
        cobj.append(o)
        jobs.append((2, CXX + BASE + incs + ['-DUSE_SSE2', '-DUSE_AVX', '-DUSE_AVX2', '-c', os.path.join(src, a), '-o', o]))
    o = os.path.join(d, 'client.o')
    cobj.append(o)
    jobs.append((2, CXX + BASE + incs + ['-c', os.path.join(HERE, 'client.cpp'), '-o', o]))
    sobj = []
    for a in SIMSRC:
        o = os.path.join(d, 'sim_' + a[:-4] + '.o')
        sobj.append(o)
        jobs.append((8, CXX + SIMFLAGS + ['-c', os.path.join(HERE, a), '-o', o]))
    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 2)) as ex:
        list(ex.map(lambda j: sh(j[1]), jobs))
    redef = os.path.join(d, 'redef')
    # objcopy wants distinct target names: further symbols served by the same seam go through a jump
    seen, lines, asm = set(), [], []
    for n, (s, t) in enumerate(REDEF.items()):
        if t in seen:
            u = '%s__%d' % (t, n)
            asm.append('.globl %s\n.type %s,@function\n%s: jmp %s\n' % (u, u, u, t))
            t = u
        seen.add(t)
        lines.append('%s %s\n' % (s, t))
    with open(redef, 'w') as f:
        f.write(''.join(lines))
    alias = os.path.join(d, 'alias.s')
    with open(alias, 'w') as f:
        f.write('.text\n' + ''.join(asm) + '.section .note.GNU-stack,"",@progbits\n')

    def statics(o):
        # static initialisers and finalisers: the simulator runs them, the loader must not
        a = []
        for sec in sorted(set(re.findall(r'\s(\.(?:init_array|fini_array|ctors|dtors)[.\d]*)\s', sh(['objdump', '-h', o])))):
            to = 'sim_fini' if sec.startswith(('.fini', '.dtors')) else 'sim_init' if sec in ('.init_array', '.ctors') else 'sim_initp'
            a += ['--rename-section', '%s=%s,alloc,load,data' % (sec, to)]
        return a

    def backend(b):
        r = os.path.join(d, b + '.o')
        sh(['ld', '-r', '--force-group-allocation', '-o', r] + objs[b])
        # inline functions shared by the backends (same name, different instruction set) must not be merged
        weak = [l.split()[-1] for l in sh(['nm', '--defined-only', r]).splitlines() if len(l.split()) == 3 and (l.split()[1] == 'W' or l.split()[1] in 'Vu' and l.split()[2].startswith(('_ZTV', '_ZTT')))]
        loc = os.path.join(d, b + '.loc')
        with open(loc, 'w') as f:
            f.write(''.join(w + '\n' for w in weak))
        sh(['objcopy', '--localize-symbols=' + loc, '--redefine-syms=' + redef] + statics(r) + [r])
        return r
    with ThreadPoolExecutor(max_workers=4) as ex:
        robj = list(ex.map(backend, [b for b, _ in BACKENDS]))
    for o in cobj:
        sh(['objcopy', '--redefine-syms=' + redef] + statics(o) + [o])
    so = os.path.join(d, 'liblib.so')
    sh(CXX + ['-shared', '-o', so, '-Wl,-z,now', '-Wl,-z,relro'] + robj + cobj + ['-lm'])
    # instruction addresses, for the breakpoints that stand for instructions the simulated CPU lacks
    dis = subprocess.run(['objdump', '-d', '--no-show-raw-insn', so], stdout=subprocess.PIPE, text=True, check=True).stdout
    addr = array.array('I', (int(m, 16) for m in re.findall(r'^ +([0-9a-f]+):\t', dis, re.M)))
    with open(os.path.join(d, 'insns'), 'wb') as f:
        addr.tofile(f)
    with open(os.path.join(d, 'cpuinsns'), 'wb') as f:
        array.array('I', (int(m, 16) for m in re.findall(r'^ +([0-9a-f]+):\t(?:cpuid|xgetbv|rdtscp?)\b', dis, re.M))).tofile(f)
    exe = os.path.join(d, 'simrun')
    sh(CXX + ['-no-pie', '-rdynamic', '-o', exe] + sobj + [alias] + ['-ldl', '-lpthread'])
    und = sh(['nm', '-D', '--undefined-only', so])
    allowed_prefix = ('__tsan_', 'GOMP_', 'omp_', 'sim_', 'otfft_sim_', '__cxa_', '_ZSt', '_ZNSt', '_ZNKSt', '_ZTISt', '_ZTVSt', '_ZTSSt', '_ZTVN10__cxxabiv1', '__gxx_personality', '_Unwind_',
                      '_ITM_', '__gmon_start__', '__stack_chk_fail', '__tls_get_addr', '__dynamic_cast')
    pure = {'sin', 'cos', 'sincos', 'sqrt', 'fabs', 'floor', 'ceil', 'pow', 'exp', 'log', 'log2', 'ldexp', 'frexp', 'fmod', 'tan', 'atan', 'atan2', 'cosl', 'sinl', 'sqrtl', 'strlen', 'strcmp', 'strncmp', 'lround', 'round', 'trunc', 'fma', 'hypot', 'log10', 'exp2',
            'cbrt', 'sinf', 'cosf', 'sqrtf', 'sincosf', 'sincosl', 'rint', 'nearbyint', 'lrint', 'abs', 'qsort', 'fegetround', 'fesetround', 'fegetenv', 'fesetenv', 'fegetexcept', 'feholdexcept', 'feupdateenv', 'feclearexcept', 'feenableexcept', 'fedisableexcept', 'memchr', 'strchr', 'strcpy', 'strstr', '__errno_location', 'puts', 'printf', 'fprintf', 'stderr', 'stdout', 'fwrite', 'fputs', 'fputc', 'putchar', 'snprintf', 'logl', 'scalbn', 'copysign', 'cexp', '__muldc3', 'fmax', 'fmin', 'fflush'}
    unknown = []
    for l in und.splitlines():
        s = l.split()[-1].split('@')[0]
        if not s.startswith(allowed_prefix) and s not in pure:
            unknown.append(s)
    with open(os.path.join(d, 'unseamed'), 'w') as f:
        f.write('\n'.join(sorted(unknown)))
    for o in os.listdir(d):
        if o.endswith('.o') or o.endswith('.loc'):
            os.unlink(os.path.join(d, o))
    shutil.rmtree(src)
    shutil.rmtree(os.path.join(d, 'inc'))
    open(os.path.join(d, 'ok'), 'w').close()
    shutil.rmtree(final, ignore_errors=True)
    os.rename(d, final)
    return final


if __name__ == '__main__':
    t = time.time()
    p = build('--full' in sys.argv)
    print(p)
    if '-v' in sys.argv:
        print('%.1f s' % (time.time() - t))
