// Core of the deterministic simulator: address window with shadow memory, fibers and seeded scheduler,
// race detector, allocation faults, instrumentation hooks, crash containment.
#include "core.h"
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <csetjmp>
#include <cerrno>
#include <cmath>
#include <algorithm>
#include <exception>
#include <mutex>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cxxabi.h>
#include <cpuid.h>

const char* vname[V_COUNT] = {"none","wrong-result","bits-differ","data-race","deadlock","no-progress","crash","terminate","unexpected-exception",
    "out-of-bounds","use-after-release","bad-release","const-input-written","leak","fp-mode-changed","allocation-in-call","caller-team-disturbed",
    "caller-settings-changed","unsupported-instruction","wrong-backend","other-caller-blocked","failed-setup-not-reported","caller-data-changed","data-race-between-callers"};

#define EXPORT extern "C" __attribute__((visibility("default")))
#define NOINLINE __attribute__((noinline))
#define ALWAYS inline __attribute__((always_inline))

// ------------------------------------------------------------------------------------------------ globals
Fiber g_fibers[MAXT];
Fiber* g_cur = nullptr;
i64 g_budget = INT64_MAX/2;
static i64 g_budget0 = INT64_MAX/2;
static u64 g_steps = 0;
int g_nt = 0;
int g_multi = 0;           // fibers alive
static bool g_inrun = false;
static bool g_aborted = false;
Stats g_stats;
std::vector<Violation> g_viol;
u64 g_other[V_COUNT];
u64 g_trace = 0;
std::vector<SwitchRec> g_switchlog;
std::vector<GrantRec> g_grantlog;
bool g_switchlog_overflow = false;
Env g_env;
static Policy g_pol;
static Rng g_rng;            // schedule decisions
static Rng g_frng;           // fills and placement
static Rng g_grng;           // team grants
static u64 g_vmask = 0;
static u64 g_step_limit = 0;
static u64 g_fair = 0;
static const std::vector<SwitchRec>* g_replay = nullptr;
static const std::vector<GrantRec>* g_grants_in = nullptr;
static int g_grant_mode = 0;
Client g_client;
uptr g_so_lo=0, g_so_text_hi=0;
static uptr g_so_text_lo=0;
static uptr g_dlo=0; static u64 g_dlen=0;
static u8* g_dsnap = nullptr;
// thread-local storage of the library: each simulated thread has its own block at the top of its stack area
static u8* g_tls_addr = nullptr; static size_t g_tls_size = 0, g_tls_room = 0, g_tls_mod = 0; static u8* g_tls_image = nullptr;
static u8* tls_of(int tid); static size_t g_tls_bias=0, g_tls_filesz=0; static const u8* g_tls_init=nullptr;

// shadow
static u8*  g_st;            // valid-byte mask per 8-byte cell
static u32 *g_w, *g_r; static u8 *g_wm, *g_rm;
constexpr u64 NCELL = WIN>>3;
constexpr u64 DCELLS = 1u<<20;        // library statics, up to 8 MB
static u64 g_ro_lo=0, g_ro_len=0;
static std::vector<std::pair<u64,u64>> g_ro;
static const u64 STK_FILL = 48u<<10;    // part of a new thread's stack that is filled
static u64 g_heap = STK_AREA;         // bump pointer
static std::vector<Block> g_blocks;
static std::unordered_map<u64,std::vector<u32>> g_freed;   // released blocks by request, when addresses are reused
static bool g_race=true, g_chk=true;
static u64 g_stk_low[MAXT];           // lowest stack cell used in race shadow

template<class F> void Stats::each(F) {}
void Stats::add(const Stats& o) {
#define X(f) f += o.f;
    STAT_FIELDS(X)
#undef X
}

u64 hash_bytes(const void* p, size_t n, u64 h)
{
    const u8* b = (const u8*)p;
    while (n >= 8) { u64 v; memcpy(&v,b,8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h>>32; b += 8; n -= 8; }
    u64 v = 0; memcpy(&v,b,n); h = (h ^ v ^ (n<<56)) * 0x9E3779B97F4A7C15ull; return h ^ (h>>29);
}

// ------------------------------------------------------------------------------------------------ context switch
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8,%rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
struct EhGlobals { void* caught; unsigned int uncaught; };
static void* g_main_sp;
static EhGlobals g_main_eh;
static sigjmp_buf g_main_jmp;

u64 steps_now() { return g_steps + (u64)(g_budget0 - g_budget); }
static ALWAYS void account() { u64 d = (u64)(g_budget0 - g_budget); g_steps += d; if (g_cur) g_cur->lstep += d; g_budget0 = g_budget; }

static void vc_join(u32* a, const u32* b) { for (int i=0;i<g_nt;i++) if (b[i]>a[i]) a[i]=b[i]; }
void vc_tick(Fiber* f) { f->vc[f->tid]++; f->epoch = ((u32)f->tid<<24) | (f->vc[f->tid] & 0xFFFFFF); }

static u8* tls_of(int tid) { return (u8*)(((BASE + (u64)(tid+1)*STK_EACH - 256 - g_tls_room + 63) & ~63ull) + g_tls_bias); }
struct TlsIndex { unsigned long mod, off; };
extern "C" void* __tls_get_addr(TlsIndex*);
EXPORT void* sim_tls_get_addr(TlsIndex* i) { return g_cur && i->mod==g_tls_mod && g_cur->tid<MAXT ? (void*)(tls_of(g_cur->tid)+i->off) : __tls_get_addr(i); }
static void tls_out(Fiber* f)
{
    f->once[0] = std::__once_callable; f->once[1] = (void*)std::__once_call;
}
static void tls_in(Fiber* f)
{
    std::__once_callable = f->once[0]; std::__once_call = (void(*)())f->once[1];
}

static void set_budget(Fiber* f)
{
    i64 b = INT64_MAX/4;
    switch (g_pol.kind) {
    case POL_RANDOM: case POL_STRAGGLER: {
        double q = -log(1.0 - g_rng.unit()) * (double)g_pol.quantum; b = 1 + (i64)std::min(q, 1e15); break; }
    case POL_RR: b = (i64)g_pol.quantum; break;
    case POL_PCT: {
        u64 next = ~0ull; for (u64 c : g_cur_rt.pct_points) if (c > g_steps && c < next) next = c;
        if (next != ~0ull) b = (i64)(next - g_steps); break; }
    case POL_REPLAY: {
        auto& v = f->replay; while (f->rp < v.size() && v[f->rp].at <= f->lstep) f->rp++;
        if (f->rp < v.size()) b = (i64)(v[f->rp].at - f->lstep); break; }
    default: break;
    }
    if (f->stall_at != ~0ull) { i64 s = (i64)(f->stall_at - f->lstep); if (s < 1) s = 1; if (s < b) b = s; }
    i64 fair = (i64)(f->slice_start + g_fair) - (i64)f->lstep; if (fair < 1) fair = 1;
    if (g_multi > 1 && fair < b) b = fair;
    i64 lim = (i64)g_step_limit - (i64)g_steps; if (lim < 1) lim = 1;
    if (lim < b) b = lim;
    g_budget = g_budget0 = b;
}

static bool eligible(Fiber* f) { return f->state == F_RUN && !(f->stall_until > g_steps); }

static void log_switch(u8 block, int tid, int target, u64 at)
{
    if (g_switchlog.size() < 400000) g_switchlog.push_back(SwitchRec{block,(u8)tid,(u8)target,at}); else g_switchlog_overflow = true;
}

static void do_switch(Fiber* to)
{
    Fiber* from = g_cur;
    g_stats.switches++;
    trace(((u64)from->tid<<8 | to->tid) ^ (from->lstep<<16));
    EhGlobals* eh = (EhGlobals*)abi::__cxa_get_globals();
    from->eh[0] = (uptr)eh->caught; from->eh[1] = eh->uncaught; tls_out(from);
    eh->caught = (void*)to->eh[0]; eh->uncaught = (unsigned)to->eh[1]; tls_in(to);
    from->last_run = g_steps;
    g_cur = to; to->slice_start = to->lstep;
    set_budget(to);
    sim_switch(&from->sp, to->sp);
}
static void to_main()
{
    // abandon or finish: back to run_fibers
    Fiber* from = g_cur; void* dummy;
    EhGlobals* eh = (EhGlobals*)abi::__cxa_get_globals();
    *eh = g_main_eh;
    if (from) tls_out(from);
    g_cur = nullptr;
    g_budget = g_budget0 = INT64_MAX/4;
    sim_switch(&dummy, g_main_sp);
    __builtin_unreachable();
}
[[noreturn]] static void abort_run() { account(); g_aborted = true; to_main(); __builtin_unreachable(); }
bool run_aborted() { return g_aborted; }

void report(int cls, const std::string& detail, uptr pc, uptr pc2)
{
    if (!(g_vmask & (1ull<<cls))) { g_other[cls]++; return; }
    Violation v; v.cls = cls; v.detail = detail; v.pc = pc; v.pc2 = pc2;
    CallCtx* c = cur_ctx(); if (c) { v.thread = c->thread; v.op = c->op; }
    trace(0xBAD00 + cls);
    if (g_viol.empty()) g_viol.push_back(v);
    if (g_cur) abort_run();
    g_aborted = true;
}

// ------------------------------------------------------------------------------------------------ scheduler
static std::vector<int> g_waitfor;
static int owner_of(Fiber* f) { return f->ctx ? f->ctx->thread : f->tid; }
static void stall_ends(Fiber* s)
{
    // nobody else can run: every other caller must have finished, or be held up by a stall of its own
    for (int t : g_waitfor) {
        Fiber* c = &g_fibers[t];
        if (c->state == F_DONE || t == owner_of(s)) continue;
        bool own = false;
        for (int i=0;i<g_nt;i++) if (g_fibers[i].state==F_RUN && g_fibers[i].stall_until==~0ull && owner_of(&g_fibers[i])==t) own = true;
        // waiting for a one-time initialisation another thread has begun is a first use, not a dependence between calls
        for (int i=0;i<g_nt;i++) if (owner_of(&g_fibers[i])==t && g_fibers[i].state==F_BLOCK && g_fibers[i].why && strstr(g_fibers[i].why,"initialisation")) own = true;
        if (!own) { report(V_BLOCKED, "t" + std::to_string(t) + " cannot go on (waits at " + c->why + ") while t" + std::to_string(s->tid) + " of another caller's call is not scheduled"); return; }
    }
}
static void collect(std::vector<Fiber*>& v, bool include_cur, bool end_stall=true)
{
    v.clear();
    for (int i=0;i<g_nt;i++) { Fiber* f=&g_fibers[i]; if (eligible(f) && (include_cur || f!=g_cur)) v.push_back(f); }
    if (v.empty() && end_stall) {  // only stalled fibers left: the stall ends for the one that waited longest
        Fiber* best=nullptr;
        for (int i=0;i<g_nt;i++) { Fiber* f=&g_fibers[i]; if (f->state==F_RUN && (include_cur||f!=g_cur) && (!best || f->last_run < best->last_run)) best=f; }
        if (best) {
            if (best->stall_until == ~0ull) stall_ends(best);
            best->stall_until = 0; v.push_back(best);
        }
    }
}
static std::vector<Fiber*> g_cand;

static Fiber* choose(bool blocked)
{
    // g_cand holds the candidates (in tid order); returns the policy's pick
    switch (g_pol.kind) {
    case POL_RANDOM: case POL_RTB: case POL_HOT: return g_cand[g_rng.below(g_cand.size())];
    case POL_REVERSE: return g_cand.back();
    case POL_RR: { for (Fiber* f : g_cand) if (f->tid > g_cur->tid) return f; return g_cand[0]; }
    case POL_PCT: { Fiber* b=g_cand[0]; for (Fiber* f : g_cand) if (f->prio > b->prio) b=f; return b; }
    case POL_STRAGGLER: {
        std::vector<Fiber*> quick; for (Fiber* f : g_cand) if (!f->slow) quick.push_back(f);
        if (!quick.empty()) return quick[g_rng.below(quick.size())];
        return g_cand[g_rng.below(g_cand.size())]; }
    }
    (void)blocked;
    for (Fiber* f : g_cand) if (f->tid > g_cur->tid) return f;
    return g_cand[0];
}
// A thread that keeps waiting by spinning for a stalled thread of its own call: the stall, however long, ends.
static u32 g_nstall=0, g_spin_left=0;
static void spin_wait_for_stalled()
{
    for (int i=0;i<g_nt;i++) { Fiber* s=&g_fibers[i]; if (s!=g_cur && s->state==F_RUN && s->stall_until==~0ull && owner_of(s)==owner_of(g_cur)) { if (g_spin_left) g_spin_left--; else { s->stall_until=0; g_nstall--; g_spin_left=300; } return; } }
}
static Fiber* default_pick() { for (Fiber* f : g_cand) if (f->tid > g_cur->tid) return f; return g_cand[0]; }

static void preempt_now(bool fair)
{
    // called with accounting done; current fiber remains runnable
    Fiber* t = nullptr;
    if (g_pol.kind == POL_REPLAY) {
        Fiber* f = g_cur;
        while (f->rp < f->replay.size() && f->replay[f->rp].at < f->lstep) f->rp++;
        if (f->rp < f->replay.size() && f->replay[f->rp].at == f->lstep) {
            int tgt = f->replay[f->rp].target; f->rp++;
            if (tgt < g_nt && g_fibers[tgt].state==F_RUN) t = &g_fibers[tgt];
        }
    }
    else if (!fair) {
        collect(g_cand, true, false);
        if (!g_cand.empty()) t = choose(false);
    }
    if (!t && fair) {
        if (g_nstall) spin_wait_for_stalled();
        collect(g_cand, false, false);
        for (Fiber* f : g_cand) if (!t || f->last_run < t->last_run) t = f;
        if (t) g_stats.forced_fair++;
    }
    if (t && t != g_cur) {
        log_switch(0, g_cur->tid, t->tid, g_cur->lstep);
        g_stats.preempts++;
        do_switch(t);
    }
    else { if (fair) g_cur->slice_start = g_cur->lstep; set_budget(g_cur); }
}

static void switch_away();
static NOINLINE void slow_budget()
{
    if (!g_cur) { g_budget = g_budget0 = INT64_MAX/4; return; }
    account();
    if (g_steps >= g_step_limit) {
        // let a step be taken before aborting is impossible: report
        g_step_limit += g_step_limit/4 + 1000;
        report(V_NOPROGRESS, "step budget exhausted after " + std::to_string(g_steps) + " steps");
        abort_run();
    }
    if (g_pol.kind == POL_PCT) {
        for (size_t i=0;i<g_cur_rt.pct_points.size();i++) if (g_cur_rt.pct_points[i] == g_steps) { g_cur->prio = -(i64)(i+1); }
    }
    if (g_cur->stall_at <= g_cur->lstep) {
        g_cur->stall_at = ~0ull;
        if (g_multi > 1) { g_cur->stall_until = ~0ull; g_nstall++; g_spin_left=300; g_stats.stalls++; switch_away(); return; }
    }
    bool fair = g_multi>1 && g_cur->lstep >= g_cur->slice_start + g_fair;
    if (g_pol.kind == POL_STRAGGLER && g_rng.chance(0.02)) for (int i=0;i<g_nt;i++) g_fibers[i].slow = g_rng.chance(0.5);
    preempt_now(fair);
}

void sync_point()
{
    if (!g_cur) return;
    g_budget--;
    bool want = false;
    if (g_multi > 1) switch (g_pol.kind) {
        case POL_RANDOM: case POL_HOT: want = g_rng.chance(0.3); break;
        case POL_STRAGGLER: want = true; break;
        case POL_RTB: want = false; break;
        case POL_PCT: { want = false; for (int i=0;i<g_nt && !want;i++) want = g_fibers[i].state==F_RUN && g_fibers[i].prio > g_cur->prio; break; }
        default: break;
    }
    if (g_budget <= 0) slow_budget();
    else if (want) { account(); preempt_now(false); }
}
void yield_point() { sync_point(); }
// the current thread waits by spinning or asks to be put off: someone else runs
void give_way()
{
    if (!g_cur) return;
    g_budget--;
    if (g_multi > 1) { account(); preempt_now(true); }
}

static bool all_done() { for (int t : g_waitfor) if (g_fibers[t].state != F_DONE) return false; return true; }

static std::string deadlock_text()
{
    std::string s = "no thread can run:";
    for (int i=0;i<g_nt;i++) if (g_fibers[i].state==F_BLOCK) { s += " t" + std::to_string(i) + " waits at " + g_fibers[i].why; }
    return s;
}

// current fiber is not runnable any more (blocked or done)
static void switch_away()
{
    account();
    Fiber* f = g_cur;
    collect(g_cand, false);
    if (g_cand.empty() && f->state == F_RUN) { f->stall_until = 0; set_budget(f); return; }
    if (g_cand.empty()) {
        if (f->state == F_DONE && all_done()) { to_main(); }
        report(V_DEADLOCK, deadlock_text());
        g_aborted = true; to_main();
    }
    Fiber* d = default_pick(); Fiber* t = d;
    u64 ord = f->nblocks++;
    g_stats.blocks++;
    if (g_pol.kind == POL_REPLAY) {
        while (f->rb < f->replayb.size() && f->replayb[f->rb].at < ord) f->rb++;
        if (f->rb < f->replayb.size() && f->replayb[f->rb].at == ord) {
            int tgt = f->replayb[f->rb].target;
            for (Fiber* c : g_cand) if (c->tid == tgt) t = c;
        }
    }
    else t = choose(true);
    if (t != d) log_switch(1, f->tid, t->tid, ord);
    do_switch(t);
}
void block_cur(const char* why) { g_cur->state = F_BLOCK; g_cur->why = why; switch_away(); }
void wake(Fiber* f) { if (f->state == F_BLOCK) f->state = F_RUN; }

static void fiber_ended(Fiber* f);
static void fiber_main()
{
    Fiber* f = g_cur;
    try { f->body(); }
    catch (...) { report(V_TERMINATE, "exception left a thread"); }
    if (f->exits) { run_tls_dtors(f); f->ever = false; if (g_tls_size) memset(tls_of(f->tid), 0xDB, g_tls_size); }
    vc_tick(f);
    if (f->on_exit) f->on_exit();
    f->state = F_DONE; g_multi--; fiber_ended(f);
    account();
    if (all_done()) { to_main(); }
    switch_away();
    __builtin_unreachable();
}
static void fiber_tramp() { fiber_main(); abort(); }

Fiber* fiber_start(int tid, std::function<void()> body, Fiber* parent)
{
    Fiber* f = &g_fibers[tid];
    f->tid = tid; f->body = std::move(body);
    if (!f->ever) {
        f->ever = true;
        u32 own = f->vc[tid];
        memset(f->vc, 0, sizeof f->vc);
        f->vc[tid] = own;
        if (!f->used) {      // a later thread with the same number goes on counting
            f->used = true;
            f->lstep = 0; f->nblocks = 0; f->region_ord = 0;
            f->replay.clear(); f->replayb.clear(); f->rp = f->rb = 0;
            if (g_replay) for (auto& r : *g_replay) if (r.tid == tid) (r.block ? f->replayb : f->replay).push_back(r);
        }
        f->prio = (i64)(g_rng.next()>>2);
        f->slow = g_pol.kind==POL_STRAGGLER && g_rng.chance(0.4);
        // a new thread's stack holds what the run's memory fault says, never what an earlier run left there
        { u64 fl = g_env.stack ? std::min<u64>(STK_FILL,(u64)g_env.stack<<9) : STK_FILL;
        fill_bytes((void*)(BASE + (u64)(tid+1)*STK_EACH - fl), fl - 256, g_env.fill==FILL_STALE?FILL_RANDOM:g_env.fill, 3); }
        if (g_tls_size) memcpy(tls_of(tid), g_tls_image, g_tls_size);
        f->tls_dtors.clear();
        static const int sk[]={2,1,3,1}, sc[]={1,7,2,0};
        f->icv = Icv{g_env.nthreads, g_env.icv&1, g_env.nested, g_env.nested ? 8 : 1, sk[g_env.icv>>1&3], sc[g_env.icv>>1&3]};
        f->stall_until = 0;
    }
    f->eh[0]=f->eh[1]=0; f->exits=false; f->on_exit = nullptr; f->task = nullptr; f->ctx = nullptr;
    f->last_run = g_steps;
    if (tid >= g_nt) g_nt = tid+1;
    f->stall_at = ~0ull;
    if (parent) { vc_join(f->vc, parent->vc); f->ctx = parent->ctx; f->icv = parent->icv; }
    vc_tick(f); mark_ctx(f);
    uptr top = BASE + (u64)(tid+1)*STK_EACH - 256 - g_tls_room;
    uptr* s = (uptr*)(top & ~15ull);
    *--s = 0;                    // alignment: at entry rsp % 16 == 8
    *--s = (uptr)&fiber_tramp;
    for (int i=0;i<6;i++) *--s = 0;
    u32 csr; asm volatile("stmxcsr %0":"=m"(csr)); u16 cw; asm volatile("fnstcw %0":"=m"(cw));
    csr &= ~0x3fu;
    *--s = (u64)csr | ((u64)cw<<32);
    f->sp = s;
    f->state = F_RUN; g_multi++; g_stats.fibers++; if (g_env.stack) g_stats.small_stack++;
    if (g_multi == 2 && g_cur && g_cur->tid < MAXT && g_cur->state == F_RUN) { account(); set_budget(g_cur); }   // from now on the current thread's turn is bounded
    return f;
}
int spawn_caller(int id, std::function<void()> fn, bool exits) { fiber_start(id, std::move(fn), nullptr)->exits = exits; return id; }

// caller fibers run in phases; everything before a phase happens before it
static u32 g_base_vc[MAXT];
bool run_fibers(const std::vector<int>& tids)
{
    if (g_aborted) return false;
    g_waitfor = tids;
    for (int t : tids) { vc_join(g_fibers[t].vc, g_base_vc); vc_tick(&g_fibers[t]); }
    EhGlobals* eh = (EhGlobals*)abi::__cxa_get_globals();
    g_main_eh = *eh;
    if (sigsetjmp(g_main_jmp, 1) == 0) {
        collect(g_cand, true);
        static Fiber boot; boot.tid = 255; g_cur = &boot;
        Fiber* t = g_pol.kind==POL_REPLAY ? g_cand[0] : choose(true);
        if (g_pol.kind==POL_REPLAY && g_replay) { for (auto& r : *g_replay) if (r.block==2 && r.at==g_cur_rt.phase) for (Fiber* c : g_cand) if (c->tid==r.target) t=c; }
        else if (t != g_cand[0]) log_switch(2, 255, t->tid, g_cur_rt.phase);
        g_cur_rt.phase++;
        EhGlobals* e2 = (EhGlobals*)abi::__cxa_get_globals();
        e2->caught = (void*)t->eh[0]; e2->uncaught = (unsigned)t->eh[1]; tls_in(t);
        g_cur = t; t->slice_start = t->lstep; set_budget(t);
        sim_switch(&g_main_sp, t->sp);
    }
    else { // crash handler came back
        account(); *(EhGlobals*)abi::__cxa_get_globals() = g_main_eh; g_cur = nullptr; g_aborted = true; g_budget = g_budget0 = INT64_MAX/4;
    }
    for (int i=0;i<g_nt;i++) vc_join(g_base_vc, g_fibers[i].vc);
    return !g_aborted;
}
void stall_fiber(int tid, u64 until) { if (tid < MAXT) { g_fibers[tid].stall_until = until; g_stats.stalls++; } }

CallCtx* cur_ctx() { return g_cur ? g_cur->ctx : nullptr; }
void set_ctx(CallCtx* c) { if (g_cur) { g_cur->ctx = c; vc_tick(g_cur); mark_ctx(g_cur); } }
void mark_ctx(Fiber* f)
{
    u32 uid = f->ctx ? f->ctx->uid : 0;
    if (f->hist.empty() || f->hist.back().second != uid) f->hist.push_back({f->vc[f->tid], uid});
}
static u32 call_at(int tid, u32 clk)
{
    auto& h = g_fibers[tid].hist; u32 r = 0;
    for (auto& e : h) { if (e.first <= clk) r = e.second; else break; }
    return r;
}
void arm_stall(Fiber* f, int member)
{
    CallCtx* c = f->ctx;
    if (!c || c->stall_member != member || c->stall_target == ~0ull) return;
    if (f == g_cur) account();
    if (!c->stall_target) c->stall_target = f->lstep + c->stall_after + 1;
    f->stall_at = c->stall_target;
    if (f == g_cur) set_budget(f);
}
void call_begin(CallCtx* c) { set_ctx(c); arm_stall(g_cur, 0); }
void call_end(CallCtx* c)
{
    for (int i=0;i<g_nt;i++) if (g_fibers[i].ctx==c) g_fibers[i].stall_at = ~0ull;
    set_ctx(nullptr);
}
int cur_tid() { return g_cur ? g_cur->tid : -1; }
Icv cur_icv() { return g_cur->icv; }

// team size granted to a parallel region
int grant_team(int want)
{
    Fiber* f = g_cur;
    u32 ord = f->region_ord++;
    int n = want;
    if (g_grants_in) { for (auto& g : *g_grants_in) if (g.tid==f->tid && g.ord==ord) { n = std::min(want, g.n); break; } }
    else switch (g_grant_mode) {
        case 1: n = 1 + (int)g_grng.below(want); break;
        case 2: n = 1; break;
        case 3: n = g_grng.chance(0.5) ? want : 1 + (int)g_grng.below(want); break;
        case 4: n = std::max(1, want-1); break;
        default: break;
    }
    if (n < 1) n = 1;
    if (n != want) { if (g_grantlog.size() < 100000) g_grantlog.push_back(GrantRec{f->tid, ord, n}); g_stats.short_grants++; }
    trace(0x6100 + n);
    return n;
}

// ------------------------------------------------------------------------------------------------ race detector
static std::vector<std::vector<u32>> g_sets;      // interned read sets: pairs (tid<<24|clk)
static std::unordered_map<u64,u32> g_setnext;     // (set,epoch) -> set
static std::map<std::vector<u32>,u32> g_setid;
static u64 g_hot_lo=0, g_hot_hi=0;

static std::string where(u64 off);
static NOINLINE void race_report(u64 c, bool w, bool prev_w, int other, u32 clk, uptr pc)
{
    u32 mine = g_cur->ctx ? g_cur->ctx->uid : 0, theirs = call_at(other, clk);
    u64 off = c<<3; std::string loc;
    if (c >= NCELL) loc = "library static data +" + std::to_string((c-NCELL)*8);
    else loc = where(off);
    report(mine==theirs ? V_RACE : V_XRACE, std::string(w?"write":"read") + " by t" + std::to_string(g_cur->tid) + " and earlier " + (prev_w?"write":"read") + " by t" + std::to_string(other) +
        " of " + loc + " are not ordered", pc);
}
static u32 set_with(u32 id, u32 ep, const u32* vc)
{
    // add epoch, drop members ordered before the current thread
    std::vector<u32> v;
    for (u32 e : g_sets[id]) { int t=e>>24; if (t==(int)(ep>>24)) continue; if ((e&0xFFFFFF) <= vc[t]) continue; v.push_back(e); }
    v.push_back(ep); std::sort(v.begin(), v.end());
    if (v.size()==1) return ep;
    auto it = g_setid.find(v);
    if (it == g_setid.end()) { it = g_setid.emplace(v, (u32)g_sets.size()).first; g_sets.push_back(v); }
    return 0x80000000u | it->second;
}
static NOINLINE void race_read_slow(u64 c, u32 R, u8 mask)
{
    Fiber* f=g_cur; u32 me=f->epoch;
    if (!(R & 0x80000000u)) {
        int t = R>>24; if (t == f->tid || (R&0xFFFFFF) <= f->vc[t]) { g_r[c]=me; g_rm[c]=mask; return; }
        if (mask != 0xFF || g_rm[c] != 0xFF) { g_r[c]=me; g_rm[c]=mask; return; }   // partial masks: keep the newest only
        std::vector<u32> v{R,me}; std::sort(v.begin(), v.end());
        auto it = g_setid.find(v);
        if (it == g_setid.end()) { it = g_setid.emplace(v,(u32)g_sets.size()).first; g_sets.push_back(v); }
        g_r[c] = 0x80000000u | it->second; return;
    }
    u32 id = R & 0x7fffffff;
    for (u32 e : g_sets[id]) if (e == me) return;
    static u64 lk=~0ull; static u32 lv=0; (void)lk; (void)lv;
    g_r[c] = set_with(id, me, f->vc);
    if (!(g_r[c]&0x80000000u)) g_rm[c]=mask;
}
static NOINLINE void race_write_slow(u64 c, u8 mask, uptr pc)
{
    Fiber* f=g_cur; u32 R=g_r[c];
    if (R & 0x80000000u) {
        for (u32 e : g_sets[R&0x7fffffff]) { int t=e>>24; if (t!=f->tid && (e&0xFFFFFF) > f->vc[t]) { race_report(c,true,false,t,e&0xFFFFFF,pc); break; } }
    }
    else if (R) { int t=R>>24; if (t!=f->tid && (R&0xFFFFFF) > f->vc[t] && (g_rm[c]&mask)) race_report(c,true,false,t,R&0xFFFFFF,pc); }
    if (mask==0xFF) g_r[c]=0;
}
static ALWAYS void race_cell(u64 c, u8 mask, bool w, uptr pc)
{
    Fiber* f=g_cur; u32 me=f->epoch; u32 W=g_w[c];
    if (W != me) {
        if (W) { int t=W>>24; if (UNLIKELY(t!=f->tid && (W&0xFFFFFF) > f->vc[t] && (g_wm[c]&mask))) race_report(c,w,true,t,W&0xFFFFFF,pc); }
    }
    if (w) {
        if (g_r[c]) race_write_slow(c,mask,pc);
        if (W==me) g_wm[c] |= mask; else { g_w[c]=me; g_wm[c]=mask; }
    }
    else {
        if (W==me) return;
        u32 R=g_r[c];
        if (R==me) { g_rm[c] |= mask; return; }
        if (!R) { g_r[c]=me; g_rm[c]=mask; }
        else race_read_slow(c,R,mask);
    }
}
static void race_range(u64 cell0, unsigned boff, u64 sz, bool w, uptr pc)
{
    u64 c=cell0; u64 done=0;
    while (done < sz) {
        unsigned o = done ? 0 : boff; unsigned k = (unsigned)std::min<u64>(8-o, sz-done);
        race_cell(c, (u8)(((1u<<k)-1)<<o), w, pc);
        done += k; c++;
    }
}

// ------------------------------------------------------------------------------------------------ memory
static Block* block_at(u64 off)
{
    size_t lo=0, hi=g_blocks.size();
    while (lo<hi) { size_t m=(lo+hi)/2; if (g_blocks[m].off <= off) lo=m+1; else hi=m; }
    return lo ? &g_blocks[lo-1] : nullptr;
}
static std::string bname(const Block* b)
{
    return std::string(b->user?"caller buffer ":"library block ") + std::to_string(b->id) + " (" + std::to_string(b->size) + " bytes)";
}
static std::string where(u64 off)
{
    if (off < STK_AREA) return "stack of t" + std::to_string(off/STK_EACH);
    Block* b = block_at(off);
    if (b && off < b->off + b->size) return bname(b) + " at byte " + std::to_string(off-b->off) + (b->live?"":" (released)");
    if (b && off < b->off + b->size + 4096) return std::to_string(off-(b->off+b->size)) + " bytes past the end of " + bname(b) + (b->live?"":" (released)");
    if (b) { size_t i = (size_t)(b-&g_blocks[0])+1; if (i<g_blocks.size()) return std::to_string(g_blocks[i].off-off) + " bytes before " + bname(&g_blocks[i]); }
    return "unallocated memory";
}
static NOINLINE void slow_bad(u64 off, u64 sz, bool w, uptr pc)
{
    u64 bad = off; for (u64 i=0;i<sz;i++) { u64 o=off+i; if (!(g_st[o>>3]>>(o&7)&1)) { bad=o; break; } }
    Block* b = block_at(bad);
    bool uaf = b && !b->live && bad < b->off+b->size;
    report(uaf?V_UAF:V_OOB, std::string(w?"write":"read") + " of " + std::to_string(sz) + " bytes: " + where(bad), pc);
}
static NOINLINE bool range_ok(u64 off, u64 sz)
{
    while (sz) { unsigned o=off&7; unsigned k=(unsigned)std::min<u64>(8-o,sz); u8 m=(u8)(((1u<<k)-1)<<o); if ((g_st[off>>3]&m)!=m) return false; off+=k; sz-=k; }
    return true;
}
static NOINLINE void slow_ro(u64 off, u64 sz, uptr pc)
{
    for (auto& r : g_ro) if (off < r.second && off+sz > r.first) { report(V_CONSTWRITE, "write of " + std::to_string(sz) + " bytes: " + where(off), pc); return; }
}

template<unsigned SZ> static ALWAYS bool st_ok(u64 off)
{
    u64 c = off>>3;
    if (SZ==8 && LIKELY(!(off&7))) return g_st[c]==0xFF;
    if (SZ==16 && LIKELY(!(off&7))) { u16 v; memcpy(&v,g_st+c,2); return v==0xFFFF; }
    if (SZ==32 && LIKELY(!(off&7))) { u32 v; memcpy(&v,g_st+c,4); return v==0xFFFFFFFFu; }
    return range_ok(off,SZ);
}
template<unsigned SZ, bool W> static ALWAYS void acc(uptr a, uptr pc)
{
    if (UNLIKELY(--g_budget <= 0)) slow_budget();
    u64 off = a - BASE;
    if (LIKELY(off < WIN)) {
        if (g_chk && off >= STK_AREA && UNLIKELY(!st_ok<SZ>(off))) slow_bad(off,SZ,W,pc);
        if (W && UNLIKELY(off - g_ro_lo < g_ro_len)) slow_ro(off,SZ,pc);
        if (g_race && g_multi > 1) {
            if (off < STK_AREA) { u64 t = off/STK_EACH; if ((off>>3) < g_stk_low[t]) g_stk_low[t] = off>>3; }
            if (SZ==8 && LIKELY(!(off&7))) race_cell(off>>3,0xFF,W,pc);
            else if (SZ==16 && LIKELY(!(off&7))) { race_cell(off>>3,0xFF,W,pc); race_cell((off>>3)+1,0xFF,W,pc); }
            else race_range(off>>3, off&7, SZ, W, pc);
        }
    }
    else {
        u64 d = a - g_dlo;
        if (d < g_dlen && g_race && g_multi > 1 && g_cur) race_range(NCELL + (d>>3), d&7, SZ, W, pc);
    }
}
static NOINLINE void acc_range(uptr a, u64 sz, bool w, uptr pc)
{
    if (!sz) return;
    g_budget -= (i64)(sz/32) + 1;
    if (UNLIKELY(g_budget <= 0)) slow_budget();
    u64 off = a - BASE;
    if (off < WIN) {
        if (g_chk && off >= STK_AREA && !range_ok(off,sz)) slow_bad(off,sz,w,pc);
        if (w && off < g_ro_lo+g_ro_len && off+sz > g_ro_lo) slow_ro(off,sz,pc);
        if (g_race && g_multi > 1) {
            if (off < STK_AREA) { u64 t=off/STK_EACH; if ((off>>3) < g_stk_low[t]) g_stk_low[t]=off>>3; }
            race_range(off>>3, off&7, sz, w, pc);
        }
    }
    else { u64 d = a - g_dlo; if (d < g_dlen && g_race && g_multi>1 && g_cur) race_range(NCELL+(d>>3), d&7, std::min<u64>(sz,g_dlen-d), w, pc); }
}
void mem_access(const void* p, size_t n, bool w, uptr pc) { acc_range((uptr)p, n, w, pc); }

#define PC ((uptr)__builtin_return_address(0))
#define HOOK(SZ) \
EXPORT void __tsan_read##SZ(void* p){ acc<SZ,false>((uptr)p,PC); } \
EXPORT void __tsan_write##SZ(void* p){ acc<SZ,true>((uptr)p,PC); } \
EXPORT void __tsan_unaligned_read##SZ(void* p){ acc<SZ,false>((uptr)p,PC); } \
EXPORT void __tsan_unaligned_write##SZ(void* p){ acc<SZ,true>((uptr)p,PC); } \
EXPORT void __tsan_volatile_read##SZ(void* p){ acc<SZ,false>((uptr)p,PC); } \
EXPORT void __tsan_volatile_write##SZ(void* p){ acc<SZ,true>((uptr)p,PC); } \
EXPORT void __tsan_unaligned_volatile_read##SZ(void* p){ acc<SZ,false>((uptr)p,PC); } \
EXPORT void __tsan_unaligned_volatile_write##SZ(void* p){ acc<SZ,true>((uptr)p,PC); } \
EXPORT void __tsan_read_write##SZ(void* p){ acc<SZ,false>((uptr)p,PC); acc<SZ,true>((uptr)p,PC); } \
EXPORT void __tsan_unaligned_read_write##SZ(void* p){ acc<SZ,false>((uptr)p,PC); acc<SZ,true>((uptr)p,PC); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
EXPORT void __tsan_read_range(void* p, unsigned long n){ if (n==32) acc<32,false>((uptr)p,PC); else acc_range((uptr)p,n,false,PC); }
EXPORT void __tsan_write_range(void* p, unsigned long n){ if (n==32) acc<32,true>((uptr)p,PC); else acc_range((uptr)p,n,true,PC); }
EXPORT void __tsan_vptr_update(void** p, void*){ acc<8,true>((uptr)p,PC); }
EXPORT void __tsan_vptr_read(void** p){ acc<8,false>((uptr)p,PC); }
EXPORT void __tsan_init(){}
EXPORT void __tsan_func_entry(void*){}
EXPORT void __tsan_func_exit(){}
EXPORT void __tsan_ignore_thread_begin(){}
EXPORT void __tsan_ignore_thread_end(){}

// atomics: executed directly (one OS thread), with acquire/release edges on the address
struct SyncVar { u32 vc[MAXT]; };
static std::unordered_map<uptr,SyncVar> g_sync;
void sync_acquire(uptr a) { if (!g_cur) return; auto it=g_sync.find(a); if (it!=g_sync.end()) vc_join(g_cur->vc, it->second.vc); }
void sync_release(uptr a) { if (!g_cur) return; auto& s=g_sync[a]; vc_join(s.vc, g_cur->vc); vc_tick(g_cur); }
static void at_pre(uptr a, bool w, unsigned sz, uptr pc)
{
    if (!g_cur) return;
    g_stats.atomics++; sync_point();
    Fiber* f=g_cur; u64 now=f->lstep+(u64)(g_budget0-g_budget);
    if (f->at_addr==a && f->at_pc==pc && now-f->at_step<24) { if (++f->at_n>=200) { f->at_n=0; give_way(); now=f->lstep+(u64)(g_budget0-g_budget); } } else f->at_n=0;
    f->at_addr=a; f->at_pc=pc; f->at_step=now;
    u64 off=a-BASE; if (off<WIN && g_chk && off>=STK_AREA && !range_ok(off,sz)) slow_bad(off,sz,w,pc);
}
#define ATOM(T,B) \
EXPORT T __tsan_atomic##B##_load(const volatile T* a,int mo){ at_pre((uptr)a,false,sizeof(T),PC); T v=*a; if (mo!=0) sync_acquire((uptr)a); return v; } \
EXPORT void __tsan_atomic##B##_store(volatile T* a,T v,int mo){ at_pre((uptr)a,true,sizeof(T),PC); if (mo!=0) sync_release((uptr)a); *a=v; } \
EXPORT T __tsan_atomic##B##_exchange(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=v; return o; } \
EXPORT T __tsan_atomic##B##_fetch_add(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)(o+v); return o; } \
EXPORT T __tsan_atomic##B##_fetch_sub(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)(o-v); return o; } \
EXPORT T __tsan_atomic##B##_fetch_and(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)(o&v); return o; } \
EXPORT T __tsan_atomic##B##_fetch_or(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)(o|v); return o; } \
EXPORT T __tsan_atomic##B##_fetch_xor(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)(o^v); return o; } \
EXPORT T __tsan_atomic##B##_fetch_nand(volatile T* a,T v,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); sync_release((uptr)a); T o=*a; *a=(T)~(o&v); return o; } \
EXPORT int __tsan_atomic##B##_compare_exchange_strong(volatile T* a,T* e,T v,int,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); if (*a==*e){ sync_release((uptr)a); *a=v; return 1;} *e=*a; return 0; } \
EXPORT int __tsan_atomic##B##_compare_exchange_weak(volatile T* a,T* e,T v,int m,int n){ return __tsan_atomic##B##_compare_exchange_strong(a,e,v,m,n); } \
EXPORT T __tsan_atomic##B##_compare_exchange_val(volatile T* a,T e,T v,int,int){ at_pre((uptr)a,true,sizeof(T),PC); sync_acquire((uptr)a); T o=*a; if (o==e){ sync_release((uptr)a); *a=v; } return o; }
ATOM(u8,8) ATOM(u16,16) ATOM(u32,32) ATOM(u64,64)
EXPORT void __tsan_atomic_thread_fence(int){ sync_point(); }
EXPORT void __tsan_atomic_signal_fence(int){}

// ------------------------------------------------------------------------------------------------ allocator
static void st_set(u64 off, u64 size, bool valid)
{
    u64 end=off+size;
    while (off<end && (off&7)) { u8 b=(u8)(1u<<(off&7)); if (valid) g_st[off>>3]|=b; else g_st[off>>3]&=(u8)~b; off++; }
    if (end>off) { memset(g_st+(off>>3), valid?0xFF:0, (end-off)>>3); u64 o=off+((end-off)&~7ull); while (o<end) { u8 b=(u8)(1u<<(o&7)); if (valid) g_st[o>>3]|=b; else g_st[o>>3]&=(u8)~b; o++; } }
}
void fill_bytes(void* p, size_t n, int fill, u64 seed)
{
    u64* q=(u64*)p; size_t m=n/8; u8* t=(u8*)p+m*8;
    u64 v=0;
    Rng r(seed);
    switch (fill) {
    case FILL_ZERO: memset(p,0,n); return;
    case FILL_NAN: v=0x7ff8dead00000001ull; break;
    case FILL_SNAN: v=0xfff4000000000001ull; break;
    case FILL_INF: v=0x7ff0000000000000ull; break;
    case FILL_HUGE: v=0x7fe1ccf385ebc8a0ull; break;   // about 1e308
    case FILL_DENORM: v=0x000000000000beefull; break;
    case FILL_RANDOM: for (size_t i=0;i<m;i++) { double d=r.unit()*2-1; memcpy(q+i,&d,8); } memset(t,0x5a,n-m*8); return;
    case FILL_STALE: {   // what an allocator really returns: contents of blocks released earlier
        size_t k=g_blocks.size(); size_t done=0; int tries=0;
        while (done<n && k && tries<40) { tries++; Block& b=g_blocks[r.below(k)]; if (b.live||!b.size||b.user) continue; size_t c=std::min<size_t>(n-done,b.size); memmove((u8*)p+done,(void*)(BASE+b.off),c); done+=c; }
        if (done<n) { u8* z=(u8*)p+done; size_t left=n-done; memset(z,0x41,left); }
        return; }
    case FILL_MIX: for (size_t i=0;i<m;i++) { u64 x=r.next(); switch (x&3) { case 0: q[i]=0x7ff8000000000000ull; break; case 1: q[i]=0; break; case 2: { double d=1e200*r.unit(); memcpy(q+i,&d,8); break; } default: q[i]=x; } } memset(t,0xa5,n-m*8); return;
    }
    for (size_t i=0;i<m;i++) q[i]=v;
    memset(t,0xff,n-m*8);
}
static u64 g_fillcnt=0;
void* sim_alloc(size_t n, size_t align, bool user, int fill, int place, size_t misalign)
{
    if (align<8 && !user) align=8;
    if (align<1) align=1;
    if (n > (6ull<<30)) return nullptr;
    u64 key=0, cap=n;
    if (g_env.reuse) {
        // size classes, four to a doubling
        if (n<=128) cap=(n+15)&~15ull; else { u64 g=1ull<<(63-__builtin_clzll(n)); g>>=2; cap=(n+g-1)/g*g; }
        key=hmix(hmix(cap,align),misalign); auto i=g_freed.find(key);
        if (i!=g_freed.end() && !i->second.empty()) {
            Block& b=g_blocks[i->second.back()]; i->second.pop_back();
            b.user=user; b.live=true; b.size=n; b.thread=b.op=-1; CallCtx* c=cur_ctx(); if (c) { b.thread=c->thread; b.op=c->op; }
            st_set(b.off,n,true);
            if (g_race) { u64 c0=b.off>>3, c1=((b.off+n+7)>>3)+1; memset(g_w+c0,0,(c1-c0)*4); memset(g_r+c0,0,(c1-c0)*4); }
            if (fill!=FILL_STALE) fill_bytes((void*)(BASE+b.off),n,fill,hmix(0x77,g_fillcnt++));
            fill_bytes((void*)(BASE+((b.off+n+7)&~7ull)),64,fill==FILL_ZERO?FILL_NAN:fill,2);
            if (fill!=FILL_ZERO) g_stats.poisoned++;
            g_stats.reused++;
            return (void*)(BASE+b.off);
        }
    }
    u64 off = g_heap + 128;
    if (place==PLACE_WIDE) { off = (off + 4095) & ~4095ull; }
    else if (place==PLACE_MIN) { off = (off + 2*align-1) & ~(u64)(2*align-1); off += align; off += (g_frng.below(16)) * 2*align; }
    else { off += g_frng.below(4096); off = (off + align-1) & ~(u64)(align-1); }
    off += misalign;
    if (place==PLACE_PAGE && n && n<4096 && !misalign) {  // straddle a page boundary
        u64 pg=(off+8191)&~4095ull; u64 o2=(pg-n/2)&~(u64)(align-1); if (o2>off) off=o2;
    }
    u64 end = off + n;
    if (off + cap + 4096 > WIN) { fprintf(stderr,"simulated memory exhausted\n"); fflush(0); _exit(2); }
    Block b{off,n,user,true,-1,-1,(u32)g_blocks.size(),key};
    CallCtx* c=cur_ctx(); if (c) { b.thread=c->thread; b.op=c->op; }
    g_blocks.push_back(b);
    st_set(off,n,true);
    g_heap = off + cap + 128;
    // redzones hold poison too, so that a stray read has an effect
    fill_bytes((void*)(BASE+((off-64)&~7ull)), 64, fill==FILL_ZERO?FILL_NAN:fill, 1);
    fill_bytes((void*)(BASE+off), n, fill, hmix(0x77,g_fillcnt++));
    fill_bytes((void*)(BASE+((end+7)&~7ull)), 64, fill==FILL_ZERO?FILL_NAN:fill, 2);
    if (fill!=FILL_ZERO) g_stats.poisoned++;
    if (place!=PLACE_WIDE) g_stats.misaligned++;
    return (void*)(BASE+off);
}
void sim_release(void* p)
{
    u64 off=(uptr)p-BASE;
    Block* b=block_at(off);
    if (!b || b->off!=off) { report(V_BADFREE, "release of a pointer that is not the start of a block: " + where(off)); return; }
    if (!b->live) { report(V_BADFREE, "second release of " + bname(b)); return; }
    if (g_race && g_multi>1 && g_cur && !b->user) { if (b->size <= (1u<<20)) race_range(off>>3, off&7, b->size, true, 0); else race_range(off>>3,off&7,4096,true,0); }
    b->live=false;
    if (b->key) g_freed[b->key].push_back(b->id);
    st_set(b->off,b->size,false);
}
void mem_set_ro(void* p, size_t n, bool ro)
{
    u64 off=(uptr)p-BASE;
    if (ro) g_ro.push_back({off,off+n}); else for (size_t i=0;i<g_ro.size();i++) if (g_ro[i].first==off) { g_ro.erase(g_ro.begin()+i); break; }
    u64 lo=~0ull, hi=0; for (auto& r:g_ro) { lo=std::min(lo,r.first); hi=std::max(hi,r.second); }
    if (g_ro.empty()) { g_ro_lo=0; g_ro_len=0; } else { g_ro_lo=lo; g_ro_len=hi-lo; }
}
u64 lib_bytes_live() { u64 s=0; for (auto& b:g_blocks) if (b.live&&!b.user) s+=b.size; return s; }
std::vector<Block> live_lib_blocks(bool unreachable_only)
{
    std::vector<Block> out; std::vector<char> mark(g_blocks.size(),0);
    if (unreachable_only) {
        std::vector<u32> work;
        auto scan=[&](const u8* lo, const u8* hi){ for (const u8* q=(const u8*)(((uptr)lo+7)&~7ull); q+8<=hi; q+=8) { u64 v; memcpy(&v,q,8); u64 off=v-BASE; if (off>=WIN||off<STK_AREA) continue; Block* b=block_at(off); if (b && b->live && !b->user && off<b->off+std::max<u64>(b->size,1) && !mark[b->id]) { mark[b->id]=1; work.push_back(b->id);} } };
        scan((u8*)g_dlo,(u8*)g_dlo+g_dlen);
        for (int i=0;i<g_nt;i++) if (g_tls_size && g_fibers[i].ever) scan(tls_of(i), tls_of(i)+g_tls_size);
        extern void* g_specific[MAXT][8]; scan((u8*)g_specific,(u8*)(g_specific+MAXT));
        while (!work.empty()) { u32 i=work.back(); work.pop_back(); scan((u8*)BASE+g_blocks[i].off,(u8*)BASE+g_blocks[i].off+g_blocks[i].size); }
    }
    for (auto& b:g_blocks) if (b.live && !b.user && !mark[b.id]) out.push_back(b);
    return out;
}

// library allocation entry point: fault decision, then placement
void* lib_alloc(size_t n, size_t align, bool zero, uptr pc)
{
    if (!g_inrun || !g_cur) { void* p=nullptr; if (align<=16) p=malloc(n); else if (posix_memalign(&p,align,n)) p=nullptr; if (p&&zero) memset(p,0,n); return p; }
    sync_point();
    g_stats.allocs++;
    CallCtx* c=cur_ctx();
    u64 k=0; bool fail=false;
    if (c) {
        k=c->nalloc++;
        if (c->forbid_alloc) { report(V_ALLOC, "memory request of " + std::to_string(n) + " bytes", pc); }
        switch (c->fail_mode) { case 1: fail = k==c->fail_k; break; case 2: fail = k>=c->fail_k; break; case 3: fail = n>=c->fail_k; break; case 4: fail=true; break; }
    }
    trace(0xA110C000 + n*2 + fail);
    if (fail) { c->nfailed++; g_stats.alloc_fails++; return nullptr; }
    void* p=sim_alloc(n, align, false, zero?FILL_ZERO:g_env.fill, g_env.place);
    return p;
}
void lib_free(void* p)
{
    if (!p) return;
    u64 off=(uptr)p-BASE;
    if (off>=WIN) { if (!g_cur) { free(p); return; } /* memory of a library constructor or of libstdc++ */ free(p); return; }
    g_stats.frees++; sync_point();
    sim_release(p);
}

// ------------------------------------------------------------------------------------------------ crash containment
// thread stacks: the run's environment says how much of each may be used; below it lies a guard area
static int g_stack_kb=0;
static void stack_limit(int kb)
{
    if (kb==g_stack_kb) return;
    u64 lo=4096, was=g_stack_kb?STK_EACH-((u64)g_stack_kb<<10):lo, now=kb?STK_EACH-((u64)kb<<10):lo;
    for (int i=0;i<MAXT;i++) {
        uptr b=BASE+(u64)i*STK_EACH;
        if (now>was) mprotect((void*)(b+was),now-was,PROT_NONE); else mprotect((void*)(b+now),was-now,PROT_READ|PROT_WRITE);
    }
    g_stack_kb=kb;
}
static bool stack_guard(uptr a) { u64 off=a-BASE; if (off>=STK_AREA) return false; off%=STK_EACH; return off<(g_stack_kb?STK_EACH-((u64)g_stack_kb<<10):4096); }
static char g_altstack[1<<16];
static void crash_text(int sig, uptr pc, std::string& s)
{
    s = std::string("signal ") + std::to_string(sig) + " in " + pc_name(pc);
}
static void on_crash(int sig, siginfo_t* si, void* uc)
{
    ucontext_t* u=(ucontext_t*)uc; uptr pc=(uptr)u->uc_mcontext.gregs[REG_RIP];
    u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
    if (!g_inrun || !g_cur) { const char m[]="simulator crashed outside a run\n"; if (write(2,m,sizeof m-1)){} _exit(70); }
    if (sig==SIGABRT || !(pc>=g_so_text_lo && pc<g_so_text_hi)) {
        // inside libc or the simulator: find the nearest library frame on the stack, if any
        uptr sp=(uptr)u->uc_mcontext.gregs[REG_RSP];
        u64 off=sp-BASE; uptr found=0;
        if (off<STK_AREA) { uptr end=BASE+(off/STK_EACH+1)*STK_EACH-64; for (uptr q=(sp+7)&~7ull; q<end && q<sp+65536; q+=8) { uptr v=*(uptr*)q; if (v>=g_so_text_lo && v<g_so_text_hi) { found=v; break; } } }
        if (found) pc=found;
    }
    account();
    std::string s; crash_text(sig,pc,s);
    if (sig==SIGSEGV && stack_guard((uptr)si->si_addr)) s="stack overflow (the thread has "+std::to_string(g_stack_kb?g_stack_kb:(int)(STK_EACH>>10))+" KB) in "+pc_name(pc);
    int cls=V_CRASH;
    if (!(g_vmask & (1ull<<cls))) g_other[cls]++;
    else { Violation v; v.cls=cls; v.detail=s; v.pc=pc; CallCtx* c=cur_ctx(); if (c) { v.thread=c->thread; v.op=c->op; } trace(0xBAD00+cls); if (g_viol.empty()) g_viol.push_back(v); }
    siglongjmp(g_main_jmp,1);
}
// a thread that computes without ever touching memory does not advance the step counter: a CPU-time watchdog
static void on_tick(int, siginfo_t*, void* uc)
{
    static u64 last=~0ull; static int same=0;
    if (!g_inrun || !g_cur) { same=0; last=~0ull; return; }
    u64 s=steps_now(); uptr pc=(uptr)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (s!=last || !(pc>=g_so_text_lo && pc<g_so_text_hi)) { last=s; same=0; return; }
    if (++same<7) return;
    same=0; account();
    if (!(g_vmask & (1ull<<V_NOPROGRESS))) g_other[V_NOPROGRESS]++;
    else { Violation v; v.cls=V_NOPROGRESS; v.detail="a thread computes for ever without touching memory"; CallCtx* c=cur_ctx(); if (c) { v.thread=c->thread; v.op=c->op; } trace(0xBAD00+V_NOPROGRESS); if (g_viol.empty()) g_viol.push_back(v); }
    siglongjmp(g_main_jmp,1);
}
static void on_terminate()
{
    if (g_inrun && g_cur) {
        // noexcept boundary or uncaught exception inside the library
        std::string d="std::terminate called";
        if (std::exception_ptr e=std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { d+=std::string(" with ")+x.what(); } catch (...) {} }
        if (g_vmask & (1ull<<V_TERMINATE)) { Violation v; v.cls=V_TERMINATE; v.detail=d; CallCtx* c=cur_ctx(); if (c) { v.thread=c->thread; v.op=c->op; } trace(0xBAD00+V_TERMINATE); if (g_viol.empty()) g_viol.push_back(v); }
        else g_other[V_TERMINATE]++;
        account();
        siglongjmp(g_main_jmp,1);
    }
    abort();
}

// ------------------------------------------------------------------------------------------------ single-step instruction check
static bool vex_needs(const u8* p, int& need)
{
    // need: 2=AVX, 3=AVX2, 4=FMA, 5=AVX-512 (or other) ; prefixes before VEX are not allowed, so VEX starts the instruction
    need=0;
    if (*p==0x62) { need=5; return true; }
    if (*p!=0xC4 && *p!=0xC5) return false;
    int map, pp, L, vw=0; u8 op;
    if (*p==0xC5) { map=1; pp=p[1]&3; L=(p[1]>>2)&1; op=p[2]; }
    else { map=p[1]&31; pp=p[2]&3; L=(p[2]>>2)&1; vw=p[2]>>7; op=p[3]; }
    need=2;
    if (map==1) {
        if (L && pp==1) {   // 256-bit integer operations
            if ((op>=0x60&&op<=0x6D)||(op>=0x71&&op<=0x76)||(op>=0xD1&&op<=0xD5)||(op>=0xD8&&op<=0xE5)||(op>=0xE8&&op<=0xEF)||(op>=0xF1&&op<=0xFE)||op==0x70||op==0xD7) need=3;
        }
        if (L && (pp==2||pp==3) && op==0x70) need=3;
    }
    else if (map==2) {
        if (op>=0x96 && op<=0xBF && op!=0xA0) need=4;
        else if (op>=0xF2 && op<=0xF7) need=3;                                   // BMI
        else if (op==0x45||op==0x46||op==0x47) need=3;                           // variable shifts
        else if (op==0x58||op==0x59||op==0x78||op==0x79||op==0x5A||op==0x8C||op==0x8E||op==0x36||op==0x16||(op>=0x90&&op<=0x93)) need=3;
        else if ((op==0x18||op==0x19) && ( (*p==0xC4? p[4]:p[3])>>6)==3) need=3; // broadcast from register
        else if (op==0x1A) need=2;
        else if (L && ((op<=0x0B)||(op>=0x1C&&op<=0x1E)||(op>=0x20&&op<=0x25)||(op>=0x28&&op<=0x2B)||(op>=0x30&&op<=0x3F)||op==0x40)) { if (!(op>=0x0C&&op<=0x0F)) need=3; }
    }
    else if (map==3) {
        if (op==0x00||op==0x01||op==0x02||op==0x38||op==0x39||op==0x46) need=3;
        else if (op==0xF0) need=3;
        else if (L && (op==0x0E||op==0x0F||op==0x42||op==0x4C)) need=3;
    }
    (void)vw;
    return true;
}
static bool legacy_needs(const u8* p, int& need)
{
    // SSE3 and later in legacy encodings: need 1 = beyond SSE2
    need=0; int pfx=0;
    for (;;) { if (*p==0x66||*p==0xF2||*p==0xF3) { pfx=*p; p++; } else if ((*p&0xF0)==0x40) p++; else break; }
    if (*p!=0x0F) return false;
    if (p[1]==0x38||p[1]==0x3A) { need=1; return true; }
    if ((p[1]==0x7C||p[1]==0x7D||p[1]==0xD0) && (pfx==0x66||pfx==0xF2)) { need=1; return true; }
    if ((p[1]==0x12&&pfx==0xF2)||((p[1]==0x16||p[1]==0x12)&&pfx==0xF3)||(p[1]==0xF0&&pfx==0xF2)) { need=1; return true; }
    return false;
}
bool g_allow_avx=true, g_allow_avx2=true, g_allow_fma=true, g_allow_sse3=true;
static volatile int g_trapcls=0; static uptr g_trappc=0;
// The trap flag is off while the library is inside a function of somebody else (the simulator, libc): a
// breakpoint at the return address turns it on again.  Functions that call back into the library are stepped through.
static uptr g_bp=0; static u8 g_bpold;
static void bp_clear() { if (g_bp) { *(volatile u8*)g_bp=g_bpold; g_bp=0; } }
static bool calls_back(uptr pc)
{
    static std::unordered_map<uptr,bool> memo; auto i=memo.find(pc); if (i!=memo.end()) return i->second;
    Dl_info d; bool r=true;
    if (dladdr((void*)pc,&d) && d.dli_sname && d.dli_saddr==(void*)pc) { std::string s=d.dli_sname; r = s.compare(0,5,"GOMP_")==0 || s.find("throw")!=std::string::npos || s.find("_Unwind")!=std::string::npos || s.find("once")!=std::string::npos || s.find("qsort")!=std::string::npos; }
    return memo[pc]=r;
}
// Mode 2: every instruction of the library that the simulated CPU lacks is replaced by a breakpoint.
struct PatchClass { std::vector<uptr> at; bool on=false; };
static PatchClass g_pt[6]; static std::unordered_map<uptr,std::pair<u8,u8>> g_ptold;     // address -> original byte, class
static void text_writable() { static bool rwx=false; if (!rwx) { rwx=true; uptr lo=g_so_text_lo&~4095ull, hi=(g_so_text_hi+4095)&~4095ull; if (mprotect((void*)lo,hi-lo,PROT_READ|PROT_WRITE|PROT_EXEC)) { perror("mprotect"); _exit(71); } } }
static void pt_load()
{
    static bool done=false; if (done) return; done=true;
    Dl_info d; if (!dladdr((void*)g_so_text_lo,&d)) _exit(71);
    std::string f=d.dli_fname; f=f.substr(0,f.rfind('/'))+"/insns"; FILE* in=fopen(f.c_str(),"rb"); if (!in) { perror("insns"); _exit(71); }
    u32 buf[4096]; size_t n; while ((n=fread(buf,4,4096,in))>0) for (size_t i=0;i<n;i++) { uptr a=(uptr)d.dli_fbase+buf[i]; if (a<g_so_text_lo||a>=g_so_text_hi) continue; int need; if (vex_needs((u8*)a,need) || legacy_needs((u8*)a,need)) { g_pt[need].at.push_back(a); g_ptold[a]={*(u8*)a,(u8)need}; } }
    fclose(in);
}
static void pt_set()
{
    bool want[6]={false,false,false,false,false,false};
    if (g_env.step_trap==2) { pt_load(); want[1]=!g_allow_sse3; want[2]=!g_allow_avx; want[3]=!g_allow_avx2; want[4]=!g_allow_fma; want[5]=true; }
    for (int c=1;c<6;c++) if (g_pt[c].on!=want[c]) { text_writable(); for (uptr a : g_pt[c].at) *(volatile u8*)a = want[c]?0xCC:g_ptold[a].first; g_pt[c].on=want[c]; }
}
static void pt_hit(ucontext_t* u)
{
    uptr a=(uptr)u->uc_mcontext.gregs[REG_RIP]-1; auto i=g_ptold.find(a); if (i==g_ptold.end()) return;
    *(volatile u8*)a=i->second.first; g_pt[i->second.second].on=false;      // one hit is enough; the class is patched again for the next run
    for (uptr b : g_pt[i->second.second].at) *(volatile u8*)b=g_ptold[b].first;
    u->uc_mcontext.gregs[REG_RIP]=(greg_t)a;
    if (!g_trapcls) { g_trapcls=i->second.second; g_trappc=a; }
}
// CPUID and XGETBV that do not go through the hook are breakpoints for the whole run and answered here.
static std::unordered_map<uptr,int> g_cpuinsn;         // address -> 1 CPUID, 2 XGETBV, 3 RDTSC, 4 RDTSCP
void clock_begin(u64); u64 clock_ns();
static void cpuid_answer(u32 info, u32 sub, u32* r);
static void cpuinsn_load(const char* sopath)
{
    std::string f=sopath; f=f.substr(0,f.rfind('/')+1)+"cpuinsns"; FILE* in=fopen(f.c_str(),"rb"); if (!in) return;
    Dl_info d; if (!dladdr((void*)g_so_text_lo,&d)) _exit(71);
    u32 x; while (fread(&x,4,1,in)==1) { uptr a=(uptr)d.dli_fbase+x; const u8* q=(u8*)a; int k= q[0]==0x0F&&q[1]==0xA2 ? 1 : q[0]==0x0F&&q[1]==0x01&&q[2]==0xD0 ? 2 : q[0]==0x0F&&q[1]==0x31 ? 3 : q[0]==0x0F&&q[1]==0x01&&q[2]==0xF9 ? 4 : 0; if (k) { text_writable(); g_cpuinsn[a]=k; *(volatile u8*)a=0xCC; } }
    fclose(in);
}
static bool cpuinsn_hit(ucontext_t* u)
{
    uptr a=(uptr)u->uc_mcontext.gregs[REG_RIP]-1; if (a<g_so_text_lo||a>=g_so_text_hi) return false;
    auto i=g_cpuinsn.find(a); if (i==g_cpuinsn.end()) return false;
    auto* R=u->uc_mcontext.gregs;
    if (i->second>2) { u64 t=clock_ns()*3; R[REG_RAX]=(u32)t; R[REG_RDX]=t>>32; if (i->second==4) R[REG_RCX]=0; R[REG_RIP]=(greg_t)(a+(i->second==4?3:2)); return true; }
    g_stats.cpuid++;
    trace(0xC1D+(u32)R[REG_RAX]); if (i->second==1) { u32 r[4]; cpuid_answer((u32)R[REG_RAX],(u32)R[REG_RCX],r); R[REG_RAX]=r[0]; R[REG_RBX]=r[1]; R[REG_RCX]=r[2]; R[REG_RDX]=r[3]; R[REG_RIP]=(greg_t)(a+2); }
    else { if ((!(g_env.cpu.ecx1>>27&1) || (u32)R[REG_RCX]!=0) && !g_trapcls) { g_trapcls=6; g_trappc=a; } R[REG_RAX]=(u32)g_env.cpu.xcr0; R[REG_RDX]=(u32)(g_env.cpu.xcr0>>32); R[REG_RIP]=(greg_t)(a+3); }
    return true;
}
static void on_trap(int, siginfo_t*, void* uc)
{
    ucontext_t* u=(ucontext_t*)uc; if (!g_cpuinsn.empty() && cpuinsn_hit(u)) return;
    uptr pc=(uptr)u->uc_mcontext.gregs[REG_RIP];
    static uptr last=0;
    if (g_env.step_trap==2) { pt_hit(u); return; }
    if (g_bp && pc==g_bp+1 && !(u->uc_mcontext.gregs[REG_EFL] & 0x100)) {
        pc=g_bp; bp_clear(); u->uc_mcontext.gregs[REG_RIP]=(greg_t)pc;
        u->uc_mcontext.gregs[REG_EFL] |= 0x100; last=pc;
    }
    else if (pc<g_so_text_lo || pc>=g_so_text_hi) {
        bool entered = last>=g_so_text_lo && last<g_so_text_hi; last=pc;
        if (!entered) return;
        uptr ret=*(uptr*)u->uc_mcontext.gregs[REG_RSP];
        if (ret<g_so_text_lo || ret>=g_so_text_hi || calls_back(pc)) return;
        bp_clear(); g_bp=ret; g_bpold=*(u8*)ret; *(volatile u8*)ret=0xCC;
        u->uc_mcontext.gregs[REG_EFL] &= ~0x100;
        return;
    }
    last=pc;
    g_stats.trapped++;
    int need; bool bad=false;
    if (vex_needs((u8*)pc,need)) {
        g_stats.vex++;
        bad = !(need==2?g_allow_avx : need==3?g_allow_avx2 : need==4?g_allow_fma : false);
    }
    else bad = !g_allow_sse3 && legacy_needs((u8*)pc,need);
    if (bad && !g_trapcls) { g_trapcls=need; g_trappc=pc; u->uc_mcontext.gregs[REG_EFL] &= ~0x100; }
}
void trap_on()
{
    if (g_env.step_trap!=1) return;
    text_writable();
    g_trapcls=0; asm volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc");
}
void trap_off()
{
    if (!g_env.step_trap && !g_trapcls) return;
    if (g_env.step_trap==1) asm volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc");
    bp_clear();
    if (g_trapcls) { static const char* nm[]={"","SSE3 or later","AVX","AVX2","FMA","AVX-512","XGETBV without OSXSAVE"}; int c=g_trapcls; g_trapcls=0; report(V_CPU, std::string("executed an instruction of ") + nm[c] + " in " + pc_name(g_trappc), g_trappc); }
}

static void cpu_model_fill();
// ------------------------------------------------------------------------------------------------ run control
RtState g_cur_rt;
static u64 g_used_heap=STK_AREA;
static void extra_reset();
static bool g_race_dirty=false;

void run_begin(const Env& e, const Policy& p, u64 seed, int grant_mode, const std::vector<SwitchRec>* replay, const std::vector<GrantRec>* grants, u64 vmask, u64 step_limit)
{
    clock_begin(seed);
    // reset everything a process would start with
    u64 hi = std::max(g_heap, g_used_heap);
    u64 c0=STK_AREA>>3, c1=(hi>>3)+64;
    if (c1-c0 > (8u<<20)) {
        auto dis=[&](void* b,u64 esz){ uptr lo=((uptr)b+c0*esz)&~4095ull, h2=((uptr)b+c1*esz+4095)&~4095ull; madvise((void*)lo,h2-lo,MADV_DONTNEED); };
        dis(g_st,1); if (g_race_dirty) { dis(g_w,4); dis(g_r,4); dis(g_wm,1); dis(g_rm,1); }
        madvise((void*)(BASE+STK_AREA), (c1<<3)-STK_AREA, MADV_DONTNEED);
    }
    else { memset(g_st+c0,0,c1-c0); if (g_race_dirty) { memset(g_w+c0,0,(c1-c0)*4); memset(g_r+c0,0,(c1-c0)*4); } }
    for (int i=0;i<MAXT;i++) if (g_stk_low[i]!=~0ull) { u64 top=((u64)(i+1)*STK_EACH)>>3; u64 lo=g_stk_low[i]; memset(g_w+lo,0,(top-lo)*4); memset(g_r+lo,0,(top-lo)*4); g_stk_low[i]=~0ull; }
    memset(g_w+NCELL,0,((g_dlen>>3)+2)*4); memset(g_r+NCELL,0,((g_dlen>>3)+2)*4);
    memcpy((void*)g_dlo,g_dsnap,g_dlen);
    g_heap=STK_AREA; g_used_heap=STK_AREA; g_blocks.clear(); g_freed.clear(); g_ro.clear(); g_ro_lo=g_ro_len=0; g_fillcnt=0;
    g_sets.clear(); g_sets.push_back({}); g_setnext.clear(); g_setid.clear(); g_sync.clear();
    for (int i=0;i<g_nt;i++) { memset(g_fibers[i].vc,0,sizeof g_fibers[i].vc); g_fibers[i].ever=g_fibers[i].used=false; g_fibers[i].state=F_NONE; g_fibers[i].body=nullptr; g_fibers[i].on_exit=nullptr; g_fibers[i].hist.clear(); g_fibers[i].stall_at=~0ull; g_fibers[i].stall_until=0; g_fibers[i].ctx=nullptr; g_fibers[i].at_addr=0; g_fibers[i].at_n=0; }
    memset(g_base_vc,0,sizeof g_base_vc);
    g_nt=0; g_multi=0; g_nstall=0; g_spin_left=0; g_cur=nullptr; g_steps=0; g_aborted=false;
    g_stats=Stats(); g_viol.clear(); memset(g_other,0,sizeof g_other); g_trace=hmix(1,seed); g_switchlog.clear(); g_grantlog.clear(); g_switchlog_overflow=false;
    stack_limit(e.stack);
    g_env=e; g_trapcls=0; pt_set(); cpu_model_fill(); g_pol=p; g_rng=Rng(hmix(seed,1)); g_frng=Rng(hmix(seed,2)); g_grng=Rng(hmix(seed,3)); g_grant_mode=grant_mode; g_replay=replay; g_grants_in=grants; g_vmask=vmask; g_step_limit=step_limit;
    g_fair = std::max<u64>(p.total*2, 200000);
    if (replay) g_pol.kind=POL_REPLAY;
    g_race=e.race; g_chk=e.memcheck; if (g_race) g_race_dirty=true; else g_race_dirty=false;
    rt_reset(); extra_reset();
    g_cur_rt.phase=0; g_cur_rt.pct_points.clear();
    if (g_pol.kind==POL_PCT) for (int i=0;i<p.depth;i++) g_cur_rt.pct_points.push_back(1+g_rng.below(std::max<u64>(p.total,2)));
    g_budget=g_budget0=INT64_MAX/4;
    g_inrun=true;
}
void run_end() { g_inrun=false; g_used_heap=std::max(g_used_heap,g_heap); g_cur=nullptr; g_stats.steps=g_steps; if (g_env.race) g_stats.race_checks=g_steps; g_budget=g_budget0=INT64_MAX/4; }
bool in_run() { return g_inrun; }

// ------------------------------------------------------------------------------------------------ symbol names
struct Sym { uptr lo, hi; std::string name; };
static std::vector<Sym> g_syms; static bool g_syms_loaded=false; static std::string g_sopath;
static void load_syms()
{
    g_syms_loaded=true;
    std::string cmd="nm -S --defined-only -C '" + g_sopath + "' 2>/dev/null";
    FILE* f=popen(cmd.c_str(),"r"); if (!f) return;
    char* line=nullptr; size_t cap=0;
    while (getline(&line,&cap,f)>0) { unsigned long a,s; char t; int n=0; if (sscanf(line,"%lx %lx %c %n",&a,&s,&t,&n)>=3 && (t=='t'||t=='T'||t=='W'||t=='w')) { std::string nm(line+n); while(!nm.empty()&&nm.back()=='\n') nm.pop_back(); g_syms.push_back({g_so_lo+a,g_so_lo+a+s,nm}); } }
    free(line); pclose(f);
    std::sort(g_syms.begin(),g_syms.end(),[](const Sym&a,const Sym&b){return a.lo<b.lo;});
}
static bool g_names=false;
void names_enable() { g_names=true; }
std::string pc_name(uptr pc)
{
    if (!pc) return "?";
    if (pc<g_so_text_lo||pc>=g_so_text_hi) return "outside the library";
    if (!g_names) { char b[40]; snprintf(b,sizeof b,"lib+0x%lx",(unsigned long)(pc-g_so_lo)); return b; }
    if (!g_syms_loaded) load_syms();
    size_t lo=0,hi=g_syms.size(); while (lo<hi) { size_t m=(lo+hi)/2; if (g_syms[m].lo<=pc) lo=m+1; else hi=m; }
    char b[40]; snprintf(b,sizeof b,"lib+0x%lx",(unsigned long)(pc-g_so_lo));
    if (lo && pc<g_syms[lo-1].hi+16) return g_syms[lo-1].name + " (" + b + ")";
    return b;
}

// ------------------------------------------------------------------------------------------------ init
static void* reserve(void* at, size_t n)
{
    void* p=mmap(at,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|(at?MAP_FIXED_NOREPLACE:0),-1,0);
    if (p==MAP_FAILED || (at && p!=at)) { fprintf(stderr,"cannot reserve simulated memory: %s\n",strerror(errno)); _exit(2); }
    madvise(p,n,MADV_HUGEPAGE);
    return p;
}
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d)
{
    const char* want=(const char*)d;
    if (!i->dlpi_name || !strstr(i->dlpi_name,want)) return 0;
    g_so_lo=i->dlpi_addr;
    uptr relro_lo=0,relro_hi=0;
    for (int k=0;k<i->dlpi_phnum;k++) if (i->dlpi_phdr[k].p_type==PT_GNU_RELRO) { relro_lo=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; relro_hi=(relro_lo+i->dlpi_phdr[k].p_memsz+4095)&~4095ull; }
    for (int k=0;k<i->dlpi_phnum;k++) { auto& p=i->dlpi_phdr[k];
        if (p.p_type==PT_LOAD && (p.p_flags&PF_X)) { g_so_text_lo=i->dlpi_addr+p.p_vaddr; g_so_text_hi=g_so_text_lo+p.p_memsz; }
        if (p.p_type==PT_LOAD && (p.p_flags&PF_W)) { uptr lo=i->dlpi_addr+p.p_vaddr, hi=lo+p.p_memsz; if (lo>=relro_lo && lo<relro_hi) lo=relro_hi; if (hi>lo) { g_dlo=lo; g_dlen=hi-lo; } }
        if (p.p_type==PT_TLS) { g_tls_size=p.p_memsz; g_tls_addr=(u8*)i->dlpi_tls_data; g_tls_mod=i->dlpi_tls_modid; g_tls_room=(p.p_memsz+p.p_align+63)&~63ull; g_tls_bias=p.p_vaddr&(p.p_align-1); g_tls_init=(const u8*)(i->dlpi_addr+p.p_vaddr); g_tls_filesz=p.p_filesz; }
    }
    return 1;
}
void core_init(const char* sopath)
{
    g_sopath=sopath;
    reserve((void*)BASE,WIN);
    for (int i=0;i<MAXT;i++) { mprotect((void*)(BASE+(u64)i*STK_EACH),4096,PROT_NONE); g_stk_low[i]=~0ull; }
    g_st=(u8*)reserve(0,NCELL+4096);
    g_w=(u32*)reserve(0,(NCELL+DCELLS)*4); g_r=(u32*)reserve(0,(NCELL+DCELLS)*4);
    g_wm=(u8*)reserve(0,NCELL+DCELLS); g_rm=(u8*)reserve(0,NCELL+DCELLS);
    void* h=dlopen(sopath,RTLD_NOW|RTLD_LOCAL);
    if (!h) { fprintf(stderr,"cannot load %s: %s\n",sopath,dlerror()); _exit(2); }
#define GET(f,n) *(void**)&g_client.f=dlsym(h,n); if (!g_client.f) { fprintf(stderr,"missing %s\n",n); _exit(2); }
    GET(holder_size,"oc_holder_size") GET(create,"oc_create") GET(setup,"oc_setup") GET(run,"oc_run") GET(destroy,"oc_destroy") GET(kind,"oc_kind") GET(has,"oc_has") GET(region,"oc_region") GET(statics,"oc_statics") GET(init,"oc_holder_init") GET(cpu_model,"oc_cpu_model")
#undef GET
    const char* base=strrchr(sopath,'/'); base=base?base+1:sopath;
    dl_iterate_phdr(phdr_cb,(void*)base);
    if (!g_so_text_hi) { fprintf(stderr,"library image not found\n"); _exit(2); }
    cpuinsn_load(sopath);
    if (g_dlen > DCELLS*8-64) g_dlen=DCELLS*8-64;
    g_tls_image=(u8*)calloc(1,g_tls_size+1); if (g_tls_size) memcpy(g_tls_image,g_tls_init,g_tls_filesz);
    g_dsnap=(u8*)malloc(g_dlen+1); memcpy(g_dsnap,(void*)g_dlo,g_dlen);
    stack_t ss{}; ss.ss_sp=g_altstack; ss.ss_size=sizeof g_altstack; sigaltstack(&ss,nullptr);
    struct sigaction sa{}; sa.sa_sigaction=on_crash; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; sigemptyset(&sa.sa_mask);
    for (int s : {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
    sa.sa_sigaction=on_trap; sigaction(SIGTRAP,&sa,nullptr);
    sa.sa_sigaction=on_tick; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_RESTART; sigaction(SIGVTALRM,&sa,nullptr);
    itimerval tv{{3,0},{3,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
    std::set_terminate(on_terminate);
}
CpuDesc host_cpu()
{
    CpuDesc d; u32 a,b,c,dd; __cpuid(0,a,b,c,dd); d.leaf0=a;
    __cpuid(1,a,b,c,dd); d.ecx1=c; d.edx1=dd;
    if (d.leaf0>=7) { __cpuid_count(7,0,a,b,c,dd); d.ebx7=b; }
    if (d.ecx1 & (1u<<27)) { u32 lo,hi; asm volatile("xgetbv":"=a"(lo),"=d"(hi):"c"(0)); d.xcr0=((u64)hi<<32)|lo; }
    return d;
}
static void cpuid_answer(u32 info, u32 sub, u32* r)
{
    r[0]=r[1]=r[2]=r[3]=0; const CpuDesc& c=g_env.cpu;
    if (info==0) { r[0]=c.leaf0; r[1]=0x756e6547; r[2]=0x6c65746e; r[3]=0x49656e69; }
    else if (info<=c.leaf0) { if (info==1) { r[0]=0x306c3; r[2]=c.ecx1; r[3]=c.edx1; } else if (info==7) { if (!sub) r[1]=c.ebx7; } else if (info==13) { if (!sub) r[0]=(u32)c.xcr0; r[3]=sub?0:(u32)(c.xcr0>>32); } }
    else if (info>=0x80000000u && info<0x80000009u) { if (info==0x80000000u) r[0]=0x80000008u; }
    // leaves beyond the maximum: real processors return data of the highest leaf; give all ones, the most misleading answer
    else { r[0]=r[1]=r[2]=r[3]=~0u; }
}
EXPORT void otfft_sim_cpuid(int info, int* regs)
{
    g_stats.cpuid++;
    sync_point();
    trace(0xC1D+info);
    u32 r[4]; cpuid_answer((u32)info,0,r); for (int i=0;i<4;i++) regs[i]=(int)r[i];
}
// what libgcc's __builtin_cpu_supports would know of this CPU
static void cpu_model_fill()
{
    u32* m=g_client.cpu_model(); const CpuDesc& c=g_env.cpu; u32 f=0; if (c.leaf0<1) { memset(m,0,64); return; }
    bool os=(c.ecx1>>27&1) && (c.xcr0&6)==6;
    auto set=[&](int b,bool on){ if (on) f|=1u<<b; };
    set(0,c.edx1>>15&1); set(1,c.edx1>>23&1); set(2,c.ecx1>>23&1); set(3,c.edx1>>25&1); set(4,c.edx1>>26&1); set(5,c.ecx1&1); set(6,c.ecx1>>9&1); set(7,c.ecx1>>19&1); set(8,c.ecx1>>20&1);
    set(9,os&&(c.ecx1>>28&1)); set(10,os&&c.leaf0>=7&&(c.ebx7>>5&1)); set(14,os&&(c.ecx1>>12&1));
    memset(m,0,64); m[0]=1; m[1]=1; m[2]=1; m[3]=f;
}
EXPORT u64 otfft_sim_xgetbv(u32 xcr)
{
    sync_point(); g_stats.cpuid++;
    if (!(g_env.cpu.ecx1 & (1u<<27))) report(V_CPU, "XGETBV executed although OSXSAVE is not reported", PC);
    if (xcr!=0) report(V_CPU, "XGETBV of an unsupported register", PC);
    return g_env.cpu.xcr0;
}
static void** g_statics[6];
static std::vector<std::pair<void(*)(void*),void*>> g_atexit;
void at_exit(void (*fn)(void*), void* arg) { if (g_cur) g_atexit.push_back({fn,arg}); }
static void run_list_of(void** lo, void** hi) { for (void** q=lo;q && q<hi;q++) if (*q) ((void(*)(int,char**,char**))*q)(0,nullptr,nullptr); }
void lib_start()
{
    g_client.statics(g_statics); CallCtx c; c.thread=g_cur->tid; c.uid=0xFFFF; set_ctx(&c); trap_on();
    try { run_list_of(g_statics[0],g_statics[1]); run_list_of(g_statics[2],g_statics[3]); }
    catch (...) { trap_off(); report(V_TERMINATE,"an exception left a static initialiser of the library"); }
    trap_off(); set_ctx(nullptr); trace(0x57A27); sync_point();
}
void lib_exit()
{
    CallCtx c; c.thread=g_cur->tid; c.uid=0xFFFE; set_ctx(&c); trap_on();
    try { run_tls_dtors(g_cur); while (!g_atexit.empty()) { auto h=g_atexit.back(); g_atexit.pop_back(); h.first(h.second); } run_list_of(g_statics[4],g_statics[5]); }
    catch (...) { trap_off(); report(V_TERMINATE,"an exception left an exit handler of the library"); }
    trap_off(); set_ctx(nullptr); trace(0xE417);
}
// hand-over between caller threads, with the ordering a thread-safe queue or a join gives
static std::map<int,std::pair<int,std::vector<Fiber*>>> g_tok; static char g_tokaddr[4096];
void need_token(int k) { g_tok[k].first++; }
void give_token(int k) { sync_point(); auto i=g_tok.find(k); if (i==g_tok.end()) return; sync_release((uptr)&g_tokaddr[k&4095]); if (--i->second.first<=0) { for (Fiber* f : i->second.second) wake(f); i->second.second.clear(); } sync_point(); }
void wait_token(int k) { sync_point(); auto i=g_tok.find(k); if (i==g_tok.end()) return; while (i->second.first>0) { i->second.second.push_back(g_cur); block_cur("a hand-over from another caller"); } sync_acquire((uptr)&g_tokaddr[k&4095]); }
static std::vector<Fiber*> g_endwait;
static void fiber_ended(Fiber* f) { (void)f; for (Fiber* w : g_endwait) wake(w); g_endwait.clear(); }
void wait_done(int tid)
{
    sync_point(); if (tid<1 || tid>8 || tid==g_cur->tid) return; Fiber* f=&g_fibers[tid];
    while (f->state==F_RUN || f->state==F_BLOCK) { g_endwait.push_back(g_cur); block_cur("the end of another caller"); }
    vc_join(g_cur->vc,f->vc); vc_tick(g_cur); mark_ctx(g_cur);
}
static void extra_reset() { g_tok.clear(); g_endwait.clear(); g_atexit.clear(); }
void set_nthreads(int n) { if (g_cur) g_cur->icv.nthreads=n<1?1:n; }
size_t block_size(void* p) { u64 off=(uptr)p-BASE; Block* b=off<WIN?block_at(off):nullptr; return b&&b->off==off?b->size:0; }
