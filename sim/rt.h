// Internal interface between the core (scheduler, memory) and the simulated OpenMP / pthread runtime.
#pragma once
#include "core.h"
enum FState { F_NONE, F_RUN, F_BLOCK, F_DONE };
struct Team;
struct Task { Team* team=nullptr; int num=0, level=0, active=0; Task* up=nullptr; u64 ws=0, single=0; };
struct Fiber {
    int tid=0; bool ever=false, used=false;
    void* sp=nullptr; int state=F_NONE; const char* why="";
    u32 vc[MAXT]; u32 epoch=0;
    u64 lstep=0, nblocks=0, slice_start=0, last_run=0, stall_until=0, stall_at=~0ull;
    u32 region_ord=0; uptr at_addr=0, at_pc=0; u64 at_step=0; u32 at_n=0;
    std::vector<SwitchRec> replay, replayb; size_t rp=0, rb=0;
    i64 prio=0; bool slow=false;
    std::vector<std::pair<void(*)(void*),void*>> tls_dtors;
    Icv icv{}; uptr eh[2]={0,0}; void* once[2]={nullptr,nullptr}; bool exits=false;
    std::function<void()> body, on_exit;
    Task* task=nullptr; CallCtx* ctx=nullptr;
    std::vector<std::pair<u32,u32>> hist;   // (own clock, call uid) from which on
};
struct RtState { u64 phase=0; std::vector<u64> pct_points; };
extern RtState g_cur_rt;
extern Fiber g_fibers[MAXT];
extern int g_nt, g_multi;
extern Env g_env;
Fiber* fiber_start(int tid, std::function<void()> body, Fiber* parent);
void block_cur(const char* why);
void wake(Fiber* f);
void sync_point();
void give_way();
void vc_tick(Fiber* f);
void sync_acquire(uptr a);
void sync_release(uptr a);
int grant_team(int want);
void rt_reset();
void run_tls_dtors(Fiber* f);
void* lib_alloc(size_t n, size_t align, bool zero, uptr pc);
void lib_free(void* p);
size_t block_size(void* p);
void mem_access(const void* p, size_t n, bool w, uptr pc);
bool in_run();
void mark_ctx(Fiber* f);
void arm_stall(Fiber* f, int member);
void trap_on(); void trap_off();
void names_enable();
extern bool g_allow_avx, g_allow_avx2, g_allow_fma, g_allow_sse3;
