// Deterministic simulator for otfft: core interface.
// One OS thread; every simulated thread is a fiber; every nondeterministic choice comes from one PRNG
// (or from an explicit replay list).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <functional>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef uintptr_t uptr;
#define LIKELY(x) __builtin_expect(!!(x),1)
#define UNLIKELY(x) __builtin_expect(!!(x),0)

// ---------------------------------------------------------------- PRNG
struct Rng {
    u64 s;
    explicit Rng(u64 seed=1) : s(seed) { next(); next(); }
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z>>30))*0xBF58476D1CE4E5B9ull; z = (z ^ (z>>27))*0x94D049BB133111EBull; return z ^ (z>>31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b-a+1)); }
    double unit() { return (next()>>11) * (1.0/9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
static inline u64 mix64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x^(x>>30))*0xbf58476d1ce4e5b9ull; x = (x^(x>>27))*0x94d049bb133111ebull; return x^(x>>31); }
static inline u64 hmix(u64 h, u64 v) { return mix64(((h<<29)|(h>>35))*0xff51afd7ed558ccdull ^ mix64(v)); }
u64 hash_bytes(const void* p, size_t n, u64 h=0x1234567);

// ---------------------------------------------------------------- address window
constexpr int  MAXT     = 128;                  // simulated threads per run
constexpr uptr BASE     = 0x200000000000ull;    // fixed: addresses are the same in every execution
constexpr u64  STK_EACH = 4u<<20;
constexpr u64  STK_AREA = (u64)MAXT*STK_EACH;
constexpr u64  WIN      = 14ull<<30;

// ---------------------------------------------------------------- environment of one run
enum Fill { FILL_ZERO, FILL_NAN, FILL_SNAN, FILL_INF, FILL_HUGE, FILL_DENORM, FILL_RANDOM, FILL_STALE, FILL_MIX, FILL_COUNT };
enum Place { PLACE_WIDE, PLACE_MIN, PLACE_PAGE, PLACE_COUNT };
struct CpuDesc { u32 leaf0=13, ecx1=0, edx1=0, ebx7=0; u64 xcr0=0; };
struct Env {
    int nthreads = 4;       // OMP_NUM_THREADS
    int hwconc = 4;
    int nested = 0;         // nested regions may be granted more than one thread
    int fill = FILL_ZERO, ufill = FILL_ZERO;
    int place = PLACE_WIDE;
    CpuDesc cpu;
    int race = 1;           // race detector on
    int memcheck = 1;
    int step_trap = 0;      // single-step and check instructions
    int reuse = 0;          // released blocks are handed out again, the latest first, as real allocators do
    int icv = 0;            // the callers' other OpenMP settings: bit 0 dynamic, bits 1-2 run-time schedule
    int stack = 0;          // KB of stack each simulated thread has (0: the usual, large one)
};

// ---------------------------------------------------------------- scheduling
enum PolicyKind { POL_RTB, POL_RANDOM, POL_PCT, POL_STRAGGLER, POL_REVERSE, POL_RR, POL_HOT, POL_REPLAY, POL_COUNT };
struct Policy {
    int kind = POL_RTB;
    u64 quantum = 1000;     // mean (RANDOM/STRAGGLER/HOT) or exact (RR)
    u64 total = 100000;     // estimated steps (PCT)
    int depth = 3;          // PCT change points
};
struct SwitchRec { u8 block; u8 tid, target; u64 at; };   // block=0: preempt tid at its at-th step; block=1: at its at-th blocking
struct GrantRec { int tid; u32 ord; int n; };

// fault decisions that belong to the schedule
struct Grants { int mode = 0; /*0 full,1 random,2 always one,3 fixed list*/ };

// ---------------------------------------------------------------- violations
enum VClass { V_NONE=0, V_WRONG, V_BITS, V_RACE, V_DEADLOCK, V_NOPROGRESS, V_CRASH, V_TERMINATE, V_EXCEPTION,
    V_OOB, V_UAF, V_BADFREE, V_CONSTWRITE, V_LEAK, V_FPMODE, V_ALLOC, V_TEAM, V_ICV, V_CPU, V_BACKEND, V_BLOCKED, V_STRONG, V_MODIFIED, V_XRACE, V_COUNT };
extern const char* vname[V_COUNT];
struct Violation { int cls=V_NONE; std::string detail; int thread=-1, op=-1; uptr pc=0, pc2=0; };

// ---------------------------------------------------------------- statistics of one run
struct Stats {
    u64 steps=0, switches=0, preempts=0, blocks=0, regions=0, regions_par=0, short_grants=0, nested_regions=0, callernested=0,
        barriers=0, singles=0, loops=0, locks=0, atomics=0, guards=0, guard_waits=0, allocs=0, alloc_fails=0, frees=0, race_checks=0, stalls=0, ops=0, runs=0,
        poisoned=0, misaligned=0, unaligned_user=0, trapped=0, cpuid=0, forced_fair=0, throws=0, vex=0, fibers=0, small_stack=0, empty_runs=0, reused=0;
    void add(const Stats& o);
    template<class F> static void each(F f);
};
#define STAT_FIELDS(X) X(steps) X(switches) X(preempts) X(blocks) X(regions) X(regions_par) X(short_grants) X(nested_regions) X(callernested) \
    X(barriers) X(singles) X(loops) X(locks) X(atomics) X(guards) X(guard_waits) X(allocs) X(alloc_fails) X(frees) X(race_checks) X(stalls) X(ops) X(runs) \
    X(poisoned) X(misaligned) X(unaligned_user) X(trapped) X(cpuid) X(forced_fair) X(throws) X(vex) X(fibers) X(small_stack) X(empty_runs) X(reused)

// ---------------------------------------------------------------- per-call context (allocation faults, accounting)
struct CallCtx {
    int thread=-1, op=-1;
    bool in_lib=false;
    int fail_mode=0;       // 0 none, 1 k-th, 2 from k-th, 3 size>=k, 4 all
    u64 fail_k=0;
    u64 nalloc=0, nfailed=0;
    bool forbid_alloc=false; // record V_ALLOC on any request
    u32 uid=0;               // identifies the call within the run
    int stall_member=-1;     // team member (0 = the caller) that stops getting scheduled ...
    u64 stall_after=0;       // ... after so many of its own steps in this call
    u64 stall_target=0;
};

struct Fiber;
extern Fiber* g_cur;

// ---------------------------------------------------------------- core API
void core_init(const char* sopath);                  // map memory, load library, install signal handlers
void run_begin(const Env& e, const Policy& p, u64 seed, int grant_mode, const std::vector<SwitchRec>* replay, const std::vector<GrantRec>* grants,
               u64 vmask, u64 step_limit);
void run_end();
int  spawn_caller(int id, std::function<void()> f, bool exits=false);   // create a caller fiber (id = its tid)
bool run_fibers(const std::vector<int>& tids);        // schedule until these are done; false if the run was aborted
void report(int cls, const std::string& detail, uptr pc=0, uptr pc2=0);   // from fiber context; aborts the run if cls is in the mask
bool run_aborted();
void call_begin(CallCtx* c); void call_end(CallCtx* c);   // bracket one library call
void stall_fiber(int tid, u64 until_step);            // tid not scheduled until global step count (or nobody else can run)

extern Stats g_stats;
extern std::vector<Violation> g_viol;                 // fatal one first
extern u64 g_other[V_COUNT];                          // violations outside the mask, counted
extern u64 g_trace;                                   // trace hash
extern std::vector<SwitchRec> g_switchlog;
extern std::vector<GrantRec> g_grantlog;
extern bool g_switchlog_overflow;
static inline void trace(u64 v) { g_trace = hmix(g_trace, v); }
u64 steps_now();

// simulated memory
void* sim_alloc(size_t n, size_t align, bool user, int fill, int place, size_t misalign=0);
void  sim_release(void* p);
void  mem_set_ro(void* p, size_t n, bool ro);
struct Block { u64 off; u64 size; bool user, live; int thread, op; u32 id; u64 key; };
std::vector<Block> live_lib_blocks(bool unreachable_only);
u64   lib_bytes_live();
void  fill_bytes(void* p, size_t n, int fill, u64 seed);

void lib_start();          // run the static initialisers of the library, as the start of a process does
void lib_exit();           // run its exit handlers
void at_exit(void (*fn)(void*), void* arg);
void wait_done(int tid);   // until that caller thread has ended
void wait_token(int k); void give_token(int k); void need_token(int k);   // hand-over between callers
void set_nthreads(int n);
CallCtx* cur_ctx();
void set_ctx(CallCtx* c);
int  cur_tid();
void yield_point();       // preemption point in caller code

// ICVs of the current fiber, for checking that calls leave them alone
struct Icv { int nthreads, dyn, nest, maxlev, skind=2, schunk=1; bool operator==(const Icv& o) const { return nthreads==o.nthreads&&dyn==o.dyn&&nest==o.nest&&maxlev==o.maxlev&&skind==o.skind&&schunk==o.schunk; } };
Icv cur_icv();

// client functions exported by the library image
struct Client {
    size_t (*holder_size)();
    void (*init)(void* h);
    void (*create)(void* h, int type, int n, int backend);
    void (*setup)(void* h, int n);
    void (*run)(void* h, int opcode, void* x, void* y);
    void (*destroy)(void* h);
    const char* (*kind)(void* h);
    int  (*has)(int backend);
    void (*statics)(void*** r);
    unsigned* (*cpu_model)();
    void (*region)(int nt, int mode, void (*cb)(void*, int, int), void* ctx, int niter, int* hist, int* log);
};
extern Client g_client;
extern uptr g_so_lo, g_so_text_hi;
std::string pc_name(uptr pc);
CpuDesc host_cpu();
