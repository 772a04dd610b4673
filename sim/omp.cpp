// Simulated OpenMP runtime (the GOMP_* / omp_* interface), POSIX threads primitives, C++ guards, allocator
// entry points, clocks and environment. Everything the library image imports and that could be a source of
// nondeterminism ends here.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <deque>
#include <algorithm>
#include <memory>
#include <new>
#include <mutex>
#include <condition_variable>
#include <system_error>
#include <map>
#include <functional>
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <omp.h>

#define EXPORT extern "C" __attribute__((visibility("default"),used))
#define PC ((uptr)__builtin_return_address(0))
typedef unsigned long long ull;

static void vjoin(u32* a, const u32* b) { for (int i=0;i<g_nt;i++) if (b[i]>a[i]) a[i]=b[i]; }

struct Work { u64 next=0, end=0, incr=1, chunk=1, rest=0; int mode=0; int done=0; bool up=true; bool ordered=false; u64 turn=0; std::vector<Fiber*> wait; };
struct Node { int kids=0; std::vector<Fiber*> wait; u32 vc[MAXT]; Node() { memset(vc,0,sizeof vc); } };   // a task as the parent of others
struct QTask { std::shared_ptr<Node> parent; void (*fn)(void*); std::vector<char> data; size_t align; u32 vc[MAXT]; };
struct Team {
    int n=1;
    Fiber* m[MAXT];
    Task task[MAXT];
    int arrived=0; u64 gen=0; u32 bvc[2][MAXT];
    u64 singles=0;
    std::map<u64,Work> work;
    void* copy=nullptr; bool copy_ready=false; u32 cvc[MAXT];
    int left=0; bool join_wait=false; Fiber* master=nullptr; u32 jvc[MAXT];
    std::deque<std::shared_ptr<QTask>> queue; int running=0;
};
static std::vector<std::unique_ptr<Team>> g_teams;
static std::vector<Team*> g_freeteams;
static std::map<std::pair<int,int>,int> g_worker;   // (parent tid, index) -> tid
static int g_next_worker=16;
struct Lock { int owner=-1; int depth=0; int readers=0; std::vector<Fiber*> wait; };
static std::unordered_map<uptr,Lock> g_locks;
static std::unordered_map<uptr,std::vector<Fiber*>> g_waiters;  // condition variables, guards, once flags
static u64 g_clock_extra=0;
// The clocks of a run: an offset, a rate and forward jumps of its own (all from the run's seed).
static u64 g_ck_seed=0, g_ck_rate=16, g_ck_jump=0, g_ck_rand=0;
void clock_begin(u64 seed)
{
    static const u64 J[]={0,0,1000,1000000,1000000000ull}; Rng r(hmix(seed,0xC10C)); g_ck_seed=r.next(); g_ck_rate=1+r.below(r.chance(0.5)?32:2048); g_ck_jump=J[r.below(5)]; g_ck_rand=0;
}
u64 clock_ns() { u64 s=steps_now(), n=g_clock_extra+(g_ck_seed>>24)+(s*g_ck_rate>>4); if (g_ck_jump) { u64 i=s>>12; n+=i*g_ck_jump+mix64(g_ck_seed^i)%g_ck_jump; } return n; }
static Rng g_orng;

static void rt_reset2();
void rt_reset()
{
    g_teams.clear(); g_freeteams.clear(); g_worker.clear(); g_next_worker=16; g_locks.clear(); g_waiters.clear(); g_clock_extra=0; g_orng=Rng(12345); rt_reset2();
}
void run_tls_dtors(Fiber* f)
{
    while (!f->tls_dtors.empty()) { auto d=f->tls_dtors.back(); f->tls_dtors.pop_back(); d.first(d.second); }
}
static Team* new_team()
{
    Team* t;
    if (!g_freeteams.empty()) { t=g_freeteams.back(); g_freeteams.pop_back(); }
    else { g_teams.emplace_back(new Team); t=g_teams.back().get(); }
    t->arrived=0; t->gen=0; memset(t->bvc,0,sizeof t->bvc); t->singles=0; t->work.clear(); t->copy_ready=false; t->join_wait=false; memset(t->jvc,0,sizeof t->jvc); t->queue.clear(); t->running=0;
    return t;
}
static int worker_tid(int parent, int idx)
{
    auto k=std::make_pair(parent,idx);
    auto it=g_worker.find(k);
    if (it!=g_worker.end() && g_fibers[it->second].state!=F_RUN && g_fibers[it->second].state!=F_BLOCK) return it->second;
    int t;
    if (g_next_worker<MAXT-16) t=g_next_worker++;
    else {
        t=-1;
        for (int i=16;i<MAXT-16;i++) if (g_fibers[i].state!=F_RUN && g_fibers[i].state!=F_BLOCK) { t=i; break; }
        if (t<0) return -1;
        for (auto i=g_worker.begin();i!=g_worker.end();) if (i->second==t) i=g_worker.erase(i); else ++i;
        u32 own=g_fibers[t].vc[t]; memset(g_fibers[t].vc,0,sizeof g_fibers[t].vc); g_fibers[t].vc[t]=own;
    }
    g_worker[k]=t;
    return t;
}
static Task* T() { return g_cur ? g_cur->task : nullptr; }
static void drain_tasks(Team* t);

static void team_barrier(const char* why)
{
    Task* k=T(); if (!k || k->team->n==1) { if (k) drain_tasks(k->team); return; }
    Team* t=k->team; Fiber* f=g_cur;
    g_stats.barriers++;
    sync_point();
    drain_tasks(t);
    u64 g=t->gen; u32* b=t->bvc[g&1];
    vjoin(b,f->vc); vc_tick(f);
    if (++t->arrived==t->n) {
        drain_tasks(t); vjoin(b,f->vc);
        t->arrived=0; t->gen++; memset(t->bvc[(g+1)&1],0,sizeof t->bvc[0]);
        for (int i=0;i<t->n;i++) if (t->m[i]!=f) wake(t->m[i]);
        vjoin(f->vc,b);
        sync_point();
    }
    else {
        while (t->gen==g) block_cur(why);
        vjoin(f->vc,b);
    }
}

struct WsInit { int mode; u64 start,end,incr,chunk; bool up; };
static void region(void (*fn)(void*), void* data, unsigned want, const WsInit* ws)
{
    Fiber* f=g_cur;
    if (!f) { fn(data); return; }
    sync_point();
    g_stats.regions++;
    Task* up=f->task; int level=up?up->level:0, active=up?up->active:0; const Icv icv=f->icv;
    int n = want ? (int)want : f->icv.nthreads;
    if (n>96) n=96;
    if (n<1) n=1;
    if (active>=1) { g_stats.nested_regions++; if (!f->icv.nest || active>=f->icv.maxlev) n=1; }
    if (n>1) n=grant_team(n);
    Team* t=new_team();
    t->master=f; t->m[0]=f;
    int tids[MAXT];
    for (int i=1;i<n;i++) {
        // a worker of this parent (its pool), or of the same position when the parent itself is nested
        tids[i]=worker_tid(f->tid, level*128+i);
        if (tids[i]<0) { n=i; break; }
        // reserve so that the next request does not pick it again
        g_fibers[tids[i]].state=F_BLOCK; g_fibers[tids[i]].why="start";
    }
    t->n=n; t->left=n-1;
    for (int i=0;i<n;i++) { t->task[i]=Task(); t->task[i].team=t; t->task[i].num=i; t->task[i].level=level+1; t->task[i].active=active+(n>1); t->task[i].up=up; }
    if (ws) { Work w; w.mode=ws->mode; w.next=ws->start; w.end=ws->end; w.incr=ws->incr; w.chunk=ws->chunk?ws->chunk:1; w.up=ws->up; w.rest=0; t->work[0]=w; for (int i=0;i<n;i++) t->task[i].ws=1; }
    if (n>1) g_stats.regions_par++;
    u64 before_ord=f->region_ord; (void)before_ord;
    for (int i=1;i<n;i++) {
        Task* tk=&t->task[i];
        Fiber* w=fiber_start(tids[i],[fn,data,t]{ fn(data); drain_tasks(t); },f);
        w->task=tk; t->m[i]=w; arm_stall(w,i);
        w->on_exit=[t,w]{ vjoin(t->jvc,w->vc); if (--t->left==0 && t->join_wait) wake(t->master); };
    }
    if (n>1) vc_tick(f);
    f->task=&t->task[0];
    if (n>1) sync_point();
    fn(data);
    drain_tasks(t);
    t->join_wait=true;
    while (t->left>0) block_cur("the end of a parallel region");
    drain_tasks(t);
    vjoin(f->vc,t->jvc); vc_tick(f);
    f->task=up; f->icv=icv;          // settings made inside the region belong to its implicit tasks
    g_freeteams.push_back(t);
    sync_point();
}

EXPORT void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn,data,n,nullptr); }
EXPORT unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { region(fn,data,n,nullptr); return n; }
EXPORT void GOMP_barrier() { if (!g_cur) return; team_barrier("a barrier"); }
EXPORT bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
EXPORT bool GOMP_cancel(int,bool) { return false; }
EXPORT bool GOMP_cancellation_point(int) { return false; }

EXPORT bool GOMP_single_start()
{
    Task* k=T(); if (!k) return true;
    sync_point(); g_stats.singles++;
    u64 o=k->single++;
    if (k->team->singles==o) { k->team->singles=o+1; return true; }
    return false;
}
EXPORT void* GOMP_single_copy_start()
{
    Task* k=T(); if (!k || k->team->n==1) return nullptr;
    sync_point(); g_stats.singles++;
    Team* t=k->team; u64 o=k->single++;
    if (t->singles==o) { t->singles=o+1; return nullptr; }
    team_barrier("the end of a single construct");
    return t->copy;
}
EXPORT void GOMP_single_copy_end(void* d)
{
    Task* k=T(); if (!k || k->team->n==1) return;
    k->team->copy=d; team_barrier("the end of a single construct");
}

// ---------------------------------------------------------------- worksharing loops
// modes: 0 static(chunk; chunk 0 = equal blocks), 1 dynamic, 2 guided
static Work* cur_work(Task* k, u64 ord) { auto it=k->team->work.find(ord); return it==k->team->work.end()?nullptr:&it->second; }
static thread_local struct { u64 iter[MAXT]; } g_static_iter;   // per fiber: iteration of a static loop
static Task g_solo_task[MAXT]; static std::unique_ptr<Team> g_solo_team[MAXT];
static Task* T_or_solo()
{
    Task* k=T(); if (k) return k;
    int t=g_cur?g_cur->tid:0;
    if (!g_solo_team[t]) g_solo_team[t].reset(new Team);
    g_solo_team[t]->n=1; g_solo_team[t]->work.clear(); g_solo_team[t]->m[0]=g_cur; g_solo_task[t]=Task(); g_solo_task[t].team=g_solo_team[t].get();
    return &g_solo_task[t];
}
static Task* cur_or_solo() { Task* k=T(); return k?k:&g_solo_task[g_cur?g_cur->tid:0]; }
static bool chunk_next(Task* k, u64 ord, u64* lo, u64* hi)
{
    Work* w=cur_work(k,ord); if (!w) return false;
    sync_point(); g_stats.loops++;
    u64 total = w->up ? (w->end>w->next ? (w->end-w->next+w->incr-1)/w->incr : 0) : (w->next>w->end ? (w->next-w->end+(0-w->incr)-1)/(0-w->incr) : 0);
    // signed loops are mapped to offsets, so plain unsigned comparison is right
    if (w->mode==0) {
        // total iterations of the whole loop are in rest (fixed at start); next is the loop start
        u64 it=g_static_iter.iter[g_cur?g_cur->tid:0]++;
        u64 n=k->team->n, me=k->num, tot=total;
        if (w->chunk==0) { if (it) return false; u64 q=tot/n, r=tot%n; u64 s=me*q+std::min<u64>(me,r), e=s+q+(me<r); if (s>=e) return false; *lo=w->next+s*w->incr; *hi=w->next+e*w->incr; return true; }
        u64 s=(it*n+me)*w->chunk; if (s>=tot) return false; u64 e=std::min(s+w->chunk,tot);
        *lo=w->next+s*w->incr; *hi=w->next+e*w->incr; return true;
    }
    if (!total) return false;
    u64 c=w->chunk; if (w->mode==2) c=std::max<u64>(c,(total+k->team->n-1)/k->team->n);
    c=std::min(c,total);
    *lo=w->next; *hi=w->next+c*w->incr; w->next=*hi;
    return true;
}
static bool loop_start_(int mode, bool up, u64 s, u64 e, u64 incr, u64 chunk, u64* lo, u64* hi)
{
    Task* k=T_or_solo(); u64 o=k->ws++;
    if (!k->team->work.count(o)) { Work w; w.mode=mode; w.next=s; w.end=e; w.incr=incr; w.chunk=chunk; if (mode!=0&&!w.chunk) w.chunk=1; w.up=up; k->team->work[o]=w; }
    g_static_iter.iter[g_cur?g_cur->tid:0]=0;
    return lo ? chunk_next(k,o,lo,hi) : true;
}
extern struct OrdChunk { u64 lo,hi; bool have; } g_chunk[MAXT];
static void loop_done(bool wait)
{
    Task* k=cur_or_solo(); u64 o=k->ws-1; Work* w=k->team?cur_work(k,o):nullptr;
    if (w && w->ordered && g_cur) g_chunk[g_cur->tid].have=false;
    if (w && ++w->done==k->team->n) k->team->work.erase(o);
    if (wait && g_cur && g_cur->task) team_barrier("the end of a worksharing construct");
}
// signed interface: values are shifted by 2^63 so that order is preserved as unsigned
#define SH(v) ((u64)(v) ^ (1ull<<63))
static bool lstart(int mode, long s, long e, long incr, long chunk, long* a, long* b)
{
    u64 lo,hi; bool r=loop_start_(mode, incr>0, SH(s), SH(e), (u64)incr, (u64)chunk, a?&lo:nullptr, &hi);
    if (a && r) { *a=(long)SH(lo); *b=(long)SH(hi); }
    return r;
}
static bool lnext(long* a, long* b) { u64 lo,hi; Task* k=cur_or_solo(); bool r=chunk_next(k,k->ws-1,&lo,&hi); if (r) { *a=(long)SH(lo); *b=(long)SH(hi); } return r; }
static bool unext(ull* a, ull* b) { u64 lo,hi; Task* k=cur_or_solo(); bool r=chunk_next(k,k->ws-1,&lo,&hi); if (r) { *a=lo; *b=hi; } return r; }
static bool ustart(int mode, bool up, ull s, ull e, ull incr, ull chunk, ull* a, ull* b) { u64 lo,hi; bool r=loop_start_(mode,up,s,e,incr,chunk,a?&lo:nullptr,&hi); if (a&&r) { *a=lo; *b=hi; } return r; }
#define LOOP(name,mode) \
EXPORT bool GOMP_loop_##name##_start(long s,long e,long i,long c,long*a,long*b){ return lstart(mode,s,e,i,c,a,b); } \
EXPORT bool GOMP_loop_##name##_next(long*a,long*b){ return lnext(a,b); } \
EXPORT bool GOMP_loop_ull_##name##_start(bool u,ull s,ull e,ull i,ull c,ull*a,ull*b){ return ustart(mode,u,s,e,i,c,a,b); } \
EXPORT bool GOMP_loop_ull_##name##_next(ull*a,ull*b){ return unext(a,b); } \
EXPORT void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,long c,unsigned){ WsInit w{mode,SH(s),SH(e),(u64)i,(u64)c,i>0}; region(fn,d,n,&w); }
LOOP(static,0) LOOP(dynamic,1) LOOP(guided,2) LOOP(nonmonotonic_dynamic,1) LOOP(nonmonotonic_guided,2)
static int rt_mode(long& c) { const Icv v=g_cur?g_cur->icv:Icv{1,0,0,1}; c=v.schunk; switch (v.skind&15) { case 1: return 0; case 3: if (c<1) c=1; return 2; case 4: c=0; return 0; default: if (c<1) c=1; return 1; } }
#define LOOPR(name) \
EXPORT bool GOMP_loop_##name##_start(long s,long e,long i,long*a,long*b){ long c; const int m=rt_mode(c); return lstart(m,s,e,i,c,a,b); } \
EXPORT bool GOMP_loop_##name##_next(long*a,long*b){ return lnext(a,b); } \
EXPORT void GOMP_parallel_loop_##name(void(*fn)(void*),void*d,unsigned n,long s,long e,long i,unsigned){ long c; const int m=rt_mode(c); WsInit w{m,SH(s),SH(e),(u64)i,(u64)c,i>0}; region(fn,d,n,&w); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
// ordered loops: a chunk's ordered part waits until every earlier chunk has been given back
OrdChunk g_chunk[MAXT];
static void turn_wait(Work* w) { auto& c=g_chunk[g_cur->tid]; while (w->turn!=c.lo) { w->wait.push_back(g_cur); block_cur("an ordered region"); } sync_acquire((uptr)w); }
static void turn_pass()
{
    if (!g_cur || !g_chunk[g_cur->tid].have) return;
    Task* k=cur_or_solo(); Work* w=cur_work(k,k->ws-1); if (!w) return;
    turn_wait(w); auto& c=g_chunk[g_cur->tid]; w->turn=c.hi; c.have=false; sync_release((uptr)w); auto q=std::move(w->wait); w->wait.clear(); for (Fiber* f : q) wake(f);
}
static bool ord_next(u64* lo, u64* hi)
{
    turn_pass(); Task* k=cur_or_solo(); bool r=chunk_next(k,k->ws-1,lo,hi);
    if (g_cur) { auto& c=g_chunk[g_cur->tid]; c.have=r; if (r) { c.lo=*lo; c.hi=*hi; } }
    return r;
}
static bool ord_start(int mode, bool up, u64 s, u64 e, u64 incr, u64 chunk, u64* lo, u64* hi)
{
    if (g_cur) g_chunk[g_cur->tid].have=false;
    Task* k=T_or_solo(); bool fresh=!k->team->work.count(k->ws); loop_start_(mode,up,s,e,incr,chunk,nullptr,hi);
    Work* w=cur_work(cur_or_solo(),cur_or_solo()->ws-1); if (fresh) { w->ordered=true; w->turn=s; }
    return ord_next(lo,hi);
}
EXPORT void GOMP_ordered_start() { sync_point(); if (!g_cur || !g_chunk[g_cur->tid].have) return; Task* k=cur_or_solo(); Work* w=cur_work(k,k->ws-1); if (w && w->ordered) turn_wait(w); }
EXPORT void GOMP_ordered_end() { if (g_cur) { Task* k=cur_or_solo(); Work* w=cur_work(k,k->ws-1); if (w) sync_release((uptr)w); } sync_point(); }
#define OLOOP(name,mode) \
EXPORT bool GOMP_loop_ordered_##name##_start(long s,long e,long i,long c,long*a,long*b){ u64 lo,hi; bool r=ord_start(mode,i>0,SH(s),SH(e),(u64)i,(u64)c,&lo,&hi); if (r) { *a=(long)SH(lo); *b=(long)SH(hi); } return r; } \
EXPORT bool GOMP_loop_ordered_##name##_next(long*a,long*b){ u64 lo,hi; bool r=ord_next(&lo,&hi); if (r) { *a=(long)SH(lo); *b=(long)SH(hi); } return r; } \
EXPORT bool GOMP_loop_ull_ordered_##name##_start(bool u,ull s,ull e,ull i,ull c,ull*a,ull*b){ u64 lo,hi; bool r=ord_start(mode,u,s,e,i,c,&lo,&hi); if (r) { *a=lo; *b=hi; } return r; } \
EXPORT bool GOMP_loop_ull_ordered_##name##_next(ull*a,ull*b){ u64 lo,hi; bool r=ord_next(&lo,&hi); if (r) { *a=lo; *b=hi; } return r; }
OLOOP(static,0) OLOOP(dynamic,1) OLOOP(guided,2)
EXPORT bool GOMP_loop_ordered_runtime_start(long s,long e,long i,long*a,long*b){ return GOMP_loop_ordered_dynamic_start(s,e,i,1,a,b); }
EXPORT bool GOMP_loop_ordered_runtime_next(long*a,long*b){ return GOMP_loop_ordered_dynamic_next(a,b); }
#define LOOPRU(name) \
EXPORT bool GOMP_loop_ull_##name##_start(bool u,ull s,ull e,ull i,ull*a,ull*b){ long c; const int m=rt_mode(c); return ustart(m,u,s,e,i,c,a,b); } \
EXPORT bool GOMP_loop_ull_##name##_next(ull*a,ull*b){ return unext(a,b); }
LOOPRU(runtime) LOOPRU(nonmonotonic_runtime) LOOPRU(maybe_nonmonotonic_runtime)
EXPORT bool GOMP_sections_end_cancel();
EXPORT void GOMP_scope_start(void*) {}
EXPORT void GOMP_loop_end() { loop_done(true); }
EXPORT void GOMP_loop_end_nowait() { loop_done(false); }
EXPORT bool GOMP_loop_end_cancel() { loop_done(true); return false; }

EXPORT unsigned GOMP_sections_start(unsigned n) { u64 lo,hi; return loop_start_(1,true,1,(u64)n+1,1,1,&lo,&hi) ? (unsigned)lo : 0; }
EXPORT unsigned GOMP_sections_next() { u64 lo,hi; Task* k=cur_or_solo(); return chunk_next(k,k->ws-1,&lo,&hi) ? (unsigned)lo : 0; }
EXPORT void GOMP_sections_end() { loop_done(true); }
EXPORT bool GOMP_sections_end_cancel() { loop_done(true); return false; }
EXPORT void GOMP_sections_end_nowait() { loop_done(false); }
EXPORT void GOMP_parallel_sections(void(*fn)(void*),void*d,unsigned n,unsigned count,unsigned) { WsInit w{1,1,(u64)count+1,1,1,true}; region(fn,d,n,&w); }

// ---------------------------------------------------------------- tasks
static std::vector<std::shared_ptr<Node>> g_node[MAXT];
static std::shared_ptr<Node> cur_node() { auto& v=g_node[g_cur?g_cur->tid:0]; if (v.empty()) v.push_back(std::make_shared<Node>()); return v.back(); }
static void run_task(Team* t, std::shared_ptr<QTask> q)
{
    (void)t; int tid=g_cur?g_cur->tid:0;
    if (g_cur) vjoin(g_cur->vc,q->vc);
    cur_node(); g_node[tid].push_back(std::make_shared<Node>());
    q->fn((void*)(((uptr)q->data.data()+q->align-1)&~(uptr)(q->align-1)));
    g_node[tid].pop_back();
    if (g_cur) { vjoin(q->parent->vc,g_cur->vc); vc_tick(g_cur); }
    q->parent->kids--; auto w=std::move(q->parent->wait); q->parent->wait.clear(); for (Fiber* f : w) wake(f);
}
static void drain_tasks(Team* t)
{
    while (!t->queue.empty()) { auto q=t->queue.front(); t->queue.pop_front(); run_task(t,q); }
}
EXPORT void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*,void*), long size, long align, bool if_c, unsigned flags, void**, int, void*)
{
    sync_point();
    auto q=std::make_shared<QTask>(); q->parent=cur_node(); q->parent->kids++; q->fn=fn; q->align=align<1?1:align; q->data.resize(size+align+16);
    void* p=(void*)(((uptr)q->data.data()+q->align-1)&~(uptr)(q->align-1));
    if (cpy) cpy(p,data); else memcpy(p,data,size);
    memset(q->vc,0,sizeof q->vc); if (g_cur) { vjoin(q->vc,g_cur->vc); vc_tick(g_cur); }
    Task* k=T();
    if (!k || !if_c || (flags&8) || k->team->n==1 || g_orng.chance(0.3)) { static Team solo; run_task(k?k->team:&solo,q); return; }
    k->team->queue.push_back(q);
}
EXPORT void GOMP_taskwait()
{
    Task* k=T(); sync_point(); if (!g_cur) return;
    auto n=cur_node();
    while (n->kids>0) { if (k && !k->team->queue.empty()) { auto q=k->team->queue.front(); k->team->queue.pop_front(); run_task(k->team,q); } else { n->wait.push_back(g_cur); block_cur("a task"); } }
    vjoin(g_cur->vc,n->vc);
}
EXPORT void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
EXPORT void GOMP_taskyield() { sync_point(); }
EXPORT void GOMP_taskgroup_start() {}
EXPORT void GOMP_taskgroup_end() { GOMP_taskwait(); }
static void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*,void*), long size, long align, unsigned flags, unsigned long num, u64 start, u64 end, u64 step, bool up)
{
    u64 n = up ? (end>start?(end-start+step-1)/step:0) : (start>end?(start-end+(0-step)-1)/(0-step):0); if (!n) return;
    u64 parts = flags&(1u<<9) ? (num?n/num:1) : num ? num : 4; parts=std::max<u64>(1,std::min(parts,n));
    for (u64 i=0;i<parts;i++) {
        std::vector<char> b(size+align+16); void* p=(void*)(((uptr)b.data()+align-1)&~(uptr)(align-1));
        if (cpy) cpy(p,data); else memcpy(p,data,size);
        ((u64*)p)[0]=start+(n*i/parts)*step; ((u64*)p)[1]=start+(n*(i+1)/parts)*step;
        // an already copied block: a plain copy from here on
        GOMP_task(fn,p,nullptr,size,align,true,0,nullptr,0,nullptr);
    }
    if (!(flags&(1u<<11))) GOMP_taskwait();
}
EXPORT void GOMP_taskloop(void (*fn)(void*), void* d, void (*c)(void*,void*), long sz, long al, unsigned f, unsigned long n, int, long s, long e, long st) { taskloop(fn,d,c,sz,al<1?1:al,f,n,SH(s)^(1ull<<63),(u64)e,(u64)st,st>0); }
EXPORT void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*c)(void*,void*), long sz, long al, unsigned f, unsigned long n, int, ull s, ull e, ull st) { taskloop(fn,d,c,sz,al<1?1:al,f,n,s,e,st,(f&(1u<<8))!=0); }

// ---------------------------------------------------------------- locks
static bool lock_try(uptr a, bool rec)
{
    Lock& l=g_locks[a];
    if (l.owner==-1 && !l.readers) { l.owner=g_cur->tid; l.depth=1; sync_acquire(a); return true; }
    if (rec && l.owner==g_cur->tid) { l.depth++; return true; }
    return false;
}
static void lock_acq(uptr a, bool rec, const char* why)
{
    if (!g_cur) return;
    sync_point(); g_stats.locks++;
    while (!lock_try(a,rec)) { g_locks[a].wait.push_back(g_cur); block_cur(why); }
}
static void lock_rel(uptr a, bool pause=true)
{
    if (!g_cur) return;
    Lock& l=g_locks[a];
    if (l.readers) l.readers--;
    else { if (l.depth>0) l.depth--; if (l.depth) return; l.owner=-1; }
    sync_release(a);
    auto w=std::move(l.wait); l.wait.clear(); for (Fiber* f : w) wake(f);
    if (pause) sync_point();
}
static char g_crit, g_atom;
EXPORT void GOMP_critical_start() { lock_acq((uptr)&g_crit,false,"a critical section"); }
EXPORT void GOMP_critical_end() { lock_rel((uptr)&g_crit); }
EXPORT void GOMP_critical_name_start(void** p) { lock_acq((uptr)p,false,"a named critical section"); }
EXPORT void GOMP_critical_name_end(void** p) { lock_rel((uptr)p); }
EXPORT void GOMP_atomic_start() { lock_acq((uptr)&g_atom,false,"an atomic construct"); }
EXPORT void GOMP_atomic_end() { lock_rel((uptr)&g_atom); }

// ---------------------------------------------------------------- omp_* queries and settings
#define FI g_cur
extern "C" {
#define E __attribute__((visibility("default"),used))
E int omp_get_thread_num() noexcept { Task* k=T(); return k?k->num:0; }
E int omp_get_num_threads() noexcept { Task* k=T(); return k?k->team->n:1; }
E int omp_get_max_threads() noexcept { return FI?FI->icv.nthreads:1; }
E int omp_get_num_procs() noexcept { return g_env.hwconc<1?1:g_env.hwconc; }
E int omp_in_parallel() noexcept { Task* k=T(); return k && k->active>0; }
E void omp_set_num_threads(int n) noexcept { if (FI) FI->icv.nthreads=n>0?n:1; }
E void omp_set_dynamic(int d) noexcept { if (FI) FI->icv.dyn=d; }
E int omp_get_dynamic() noexcept { return FI?FI->icv.dyn:0; }
E void omp_set_nested(int d) noexcept { if (FI) { FI->icv.nest=d; FI->icv.maxlev=d?8:1; } }
E int omp_get_nested() noexcept { return FI?FI->icv.nest:0; }
E void omp_set_max_active_levels(int d) noexcept { if (FI) { FI->icv.maxlev=d; FI->icv.nest=d>1; } }
E int omp_get_max_active_levels() noexcept { return FI?FI->icv.maxlev:1; }
E int omp_get_level() noexcept { Task* k=T(); return k?k->level:0; }
E int omp_get_active_level() noexcept { Task* k=T(); return k?k->active:0; }
E int omp_get_thread_limit() noexcept { return 1<<30; }
E int omp_get_ancestor_thread_num(int l) noexcept { Task* k=T(); if (l==0) return 0; while (k && k->level>l) k=k->up; return k&&k->level==l?k->num:-1; }
E int omp_get_team_size(int l) noexcept { Task* k=T(); if (l==0) return 1; while (k && k->level>l) k=k->up; return k&&k->level==l?k->team->n:-1; }
E double omp_get_wtime() noexcept { return clock_ns()*1e-9; }
E double omp_get_wtick() noexcept { return 1e-9; }
E int omp_in_final() noexcept { return 0; }
E int omp_get_default_device() noexcept { return 0; }
E void omp_set_default_device(int) noexcept {}
E int omp_get_num_devices() noexcept { return 0; }
E int omp_get_initial_device() noexcept { return 0; }
E int omp_is_initial_device() noexcept { return 1; }
E int omp_get_max_task_priority() noexcept { return 0; }
E int omp_get_num_places() noexcept { return 0; }
E int omp_get_place_num() noexcept { return -1; }
E int omp_get_num_teams() noexcept { return 1; }
E int omp_get_team_num() noexcept { return 0; }
E omp_proc_bind_t omp_get_proc_bind() noexcept { return omp_proc_bind_false; }
E int omp_get_supported_active_levels() noexcept { return 8; }
E void omp_get_schedule(omp_sched_t* k, int* c) noexcept { *k=(omp_sched_t)(FI?FI->icv.skind:2); *c=FI?FI->icv.schunk:1; }
E void omp_set_schedule(omp_sched_t k, int c) noexcept { if (FI) { FI->icv.skind=(int)k; FI->icv.schunk=c; } }
E int omp_pause_resource_all(omp_pause_resource_t) noexcept { return 0; }
E void* sim_omp_alloc(size_t n, uptr) noexcept { return lib_alloc(n,16,false,PC); }
E void sim_omp_free(void* p, uptr) noexcept { lib_free(p); }
E int omp_get_cancellation() noexcept { return 0; }
E void omp_init_lock(omp_lock_t* l) noexcept { g_locks[(uptr)l]=Lock(); }
E void omp_destroy_lock(omp_lock_t* l) noexcept { g_locks.erase((uptr)l); }
E void omp_set_lock(omp_lock_t* l) noexcept { lock_acq((uptr)l,false,"a lock"); }
E void omp_unset_lock(omp_lock_t* l) noexcept { lock_rel((uptr)l); }
E int omp_test_lock(omp_lock_t* l) noexcept { sync_point(); return lock_try((uptr)l,false); }
E void omp_init_nest_lock(omp_nest_lock_t* l) noexcept { g_locks[(uptr)l]=Lock(); }
E void omp_destroy_nest_lock(omp_nest_lock_t* l) noexcept { g_locks.erase((uptr)l); }
E void omp_set_nest_lock(omp_nest_lock_t* l) noexcept { lock_acq((uptr)l,true,"a lock"); }
E void omp_unset_nest_lock(omp_nest_lock_t* l) noexcept { lock_rel((uptr)l); }
E int omp_test_nest_lock(omp_nest_lock_t* l) noexcept { sync_point(); return lock_try((uptr)l,true); }
}

// ---------------------------------------------------------------- POSIX threads and C++ guards (reached through renamed symbols)
EXPORT int sim_pthread_mutex_lock(pthread_mutex_t* m) { lock_acq((uptr)m, true, "a mutex"); return 0; }
EXPORT int sim_pthread_mutex_unlock(pthread_mutex_t* m) { lock_rel((uptr)m); return 0; }
EXPORT int sim_pthread_mutex_trylock(pthread_mutex_t* m) { if (!g_cur) return 0; sync_point(); return lock_try((uptr)m,false)?0:EBUSY; }
EXPORT int sim_pthread_mutex_init(pthread_mutex_t* m,const void*) { g_locks[(uptr)m]=Lock(); return 0; }
EXPORT int sim_pthread_mutex_destroy(pthread_mutex_t* m) { g_locks.erase((uptr)m); return 0; }
EXPORT int sim_pthread_rwlock_wrlock(void* m) { lock_acq((uptr)m,false,"a read-write lock"); return 0; }
EXPORT int sim_pthread_rwlock_rdlock(void* m)
{
    if (!g_cur) return 0;
    sync_point(); g_stats.locks++;
    while (g_locks[(uptr)m].owner!=-1) { g_locks[(uptr)m].wait.push_back(g_cur); block_cur("a read-write lock"); }
    g_locks[(uptr)m].readers++; sync_acquire((uptr)m); return 0;
}
EXPORT int sim_pthread_rwlock_unlock(void* m) { lock_rel((uptr)m); return 0; }
static std::unordered_map<uptr,i64> g_sem; static char g_spl;
void* g_specific[MAXT][8]; static int g_nkeys=0; static void (*g_keydtor[8])(void*);
static void key_dtor(void* w) { uptr i=(uptr)w; void* v=g_specific[i/8][i%8]; g_specific[i/8][i%8]=nullptr; if (v && g_keydtor[i%8]) g_keydtor[i%8](v); }
static void wait_on(uptr a, const char* why) { g_waiters[a].push_back(g_cur); block_cur(why); }
static void wake_all(uptr a) { auto it=g_waiters.find(a); if (it==g_waiters.end()) return; auto w=std::move(it->second); g_waiters.erase(it); for (Fiber* f : w) wake(f); }
EXPORT int sim_pthread_once(int* flag, void (*fn)())
{
    if (!g_cur) { if (!*flag) { *flag=2; fn(); } return 0; }
    sync_point(); g_stats.guards++;
    for (;;) {
        if (*flag==2) { sync_acquire((uptr)flag); return 0; }
        if (*flag==0) break;
        g_stats.guard_waits++; wait_on((uptr)flag,"a one-time initialisation");
    }
    *flag=1;
    try { fn(); } catch (...) { *flag=0; wake_all((uptr)flag); throw; }
    sync_point(); sync_release((uptr)flag); *flag=2; wake_all((uptr)flag);
    return 0;
}
static void cond_wait(uptr c, uptr m) { if (!g_cur) return; sync_point(); lock_rel(m,false); wait_on(c,"a condition variable"); lock_acq(m,true,"a mutex"); }
EXPORT int sim_pthread_cond_wait(void* c, void* m) { cond_wait((uptr)c,(uptr)m); return 0; }
EXPORT int sim_pthread_cond_signal(void* c) { sync_point(); auto& w=g_waiters[(uptr)c]; if (!w.empty()) { Fiber* f=w.front(); w.erase(w.begin()); wake(f); } return 0; }
EXPORT int sim_pthread_cond_broadcast(void* c) { sync_point(); wake_all((uptr)c); return 0; }
EXPORT int sim_pthread_cond_timedwait(void* c, void* m) { (void)c; if (!g_cur) return ETIMEDOUT; lock_rel((uptr)m); stall_fiber(g_cur->tid, steps_now()+500+g_orng.below(5000)); sync_point(); lock_acq((uptr)m,true,"a mutex"); return ETIMEDOUT; }
EXPORT int sim_sem_init(void* s, int, unsigned v) { g_sem[(uptr)s]=v; return 0; }
EXPORT int sim_sem_destroy(void* s) { g_sem.erase((uptr)s); return 0; }
EXPORT int sim_sem_wait(void* s) { if (!g_cur) return 0; sync_point(); while (g_sem[(uptr)s]<=0) wait_on((uptr)s,"a semaphore"); g_sem[(uptr)s]--; sync_acquire((uptr)s); return 0; }
EXPORT int sim_sem_trywait(void* s) { sync_point(); if (g_sem[(uptr)s]<=0) { errno=EAGAIN; return -1; } g_sem[(uptr)s]--; sync_acquire((uptr)s); return 0; }
EXPORT int sim_sem_post(void* s) { sync_point(); g_sem[(uptr)s]++; sync_release((uptr)s); wake_all((uptr)s); return 0; }
struct PBar { unsigned n=1, in=0; u64 gen=0; };
static std::unordered_map<uptr,PBar> g_pbar;
EXPORT int sim_pthread_barrier_init(void* b, const void*, unsigned n) { PBar p; p.n=n; g_pbar[(uptr)b]=p; return 0; }
EXPORT int sim_pthread_barrier_destroy(void* b) { g_pbar.erase((uptr)b); return 0; }
EXPORT int sim_pthread_barrier_wait(void* b)
{
    if (!g_cur) return 0;
    sync_point(); PBar& p=g_pbar[(uptr)b]; u64 g=p.gen; sync_release((uptr)b);
    if (++p.in==p.n) { p.in=0; p.gen++; wake_all((uptr)b); sync_acquire((uptr)b); return PTHREAD_BARRIER_SERIAL_THREAD; }
    while (g_pbar[(uptr)b].gen==g) wait_on((uptr)b,"a barrier");
    sync_acquire((uptr)b); return 0;
}
EXPORT int sim_pthread_spin_init(void* m, int) { g_locks[(uptr)m]=Lock(); return 0; }
EXPORT int sim_pthread_spin_lock(void* m) { lock_acq((uptr)m,false,"a spin lock"); return 0; }
EXPORT void sim_sp_locker(u8* self, void* p) { self[0]=0; self[1]=0; (void)p; lock_acq((uptr)&g_spl,true,"a shared pointer"); }
EXPORT void sim_sp_locker2(u8* self, void* p, void*) { sim_sp_locker(self,p); }
EXPORT void sim_sp_locker_d(u8*) { lock_rel((uptr)&g_spl); }
// threads the library starts itself
struct PThr { Fiber* f=nullptr; bool done=false; void* ret=nullptr; u32 vc[MAXT]; };
static std::map<u64,PThr> g_pthr; static u64 g_next_pthr=0;
static u64 start_thread(std::function<void*()> fn)
{
    sync_point(); int tid=-1; for (int i=MAXT-1;i>=MAXT-16;i--) if (g_fibers[i].state!=F_RUN && g_fibers[i].state!=F_BLOCK) { tid=i; break; }
    if (tid<0) return 0;
    u64 h=(++g_next_pthr)<<8; PThr* q=&g_pthr[h]; memset(q->vc,0,sizeof q->vc);
    g_fibers[tid].ever=false; Fiber* f=fiber_start(tid,[q,fn]{ q->ret=fn(); },g_cur); f->exits=true; q->f=f;
    f->on_exit=[q,f,h]{ q->done=true; vjoin(q->vc,f->vc); wake_all((uptr)q); };
    if (g_cur) vc_tick(g_cur);
    sync_point(); return h;
}
static int join_thread(u64 h, void** ret)
{
    auto it=g_pthr.find(h); if (it==g_pthr.end()) return ESRCH; PThr* q=&it->second;
    sync_point(); while (!q->done) wait_on((uptr)q,"the end of a thread");
    vjoin(g_cur->vc,q->vc); vc_tick(g_cur); if (ret) *ret=q->ret; g_pthr.erase(h); return 0;
}
EXPORT int sim_pthread_create(unsigned long* t, const void*, void* (*fn)(void*), void* arg) { u64 h=start_thread([fn,arg]{ return fn(arg); }); if (!h) return EAGAIN; *t=h; return 0; }
EXPORT int sim_pthread_join(unsigned long t, void** ret) { return join_thread(t,ret); }
EXPORT int sim_pthread_detach(unsigned long) { return 0; }
struct ThrState { virtual ~ThrState(); virtual void run()=0; };
EXPORT void sim_thread_start(unsigned long* self, ThrState** st, void (*)())
{
    ThrState* s=*st; *st=nullptr;
    u64 h=start_thread([s]()->void* { void** v=*(void***)s; ((void(*)(void*))v[2])(s); ((void(*)(void*))v[1])(s); return nullptr; });
    if (!h) { ((void(*)(void*))(*(void***)s)[1])(s); throw std::system_error(EAGAIN,std::generic_category()); }
    *self=h;
}
EXPORT void sim_thread_join(unsigned long* self) { if (!*self) throw std::system_error(EINVAL,std::generic_category()); join_thread(*self,nullptr); *self=0; }
EXPORT void sim_thread_detach(unsigned long* self) { *self=0; }
EXPORT bool sim_futex_wait(void*, unsigned* a, unsigned v, bool, i64, i64) { sync_point(); while (g_cur && *(volatile unsigned*)a==v) wait_on((uptr)a,"a future"); return true; }
EXPORT void sim_futex_notify(unsigned* a) { sync_point(); wake_all((uptr)a); }
EXPORT int sim_pthread_key_create(unsigned* k, void (*d)(void*)) { if (g_nkeys>=8) return EAGAIN; g_keydtor[g_nkeys]=d; *k=g_nkeys++; return 0; }
EXPORT int sim_pthread_key_delete(unsigned) { return 0; }
EXPORT int sim_pthread_setspecific(unsigned k, void* v)
{
    int t=g_cur?g_cur->tid:0; if (k>=8) return EINVAL;
    if (g_cur && g_keydtor[k] && v && !g_specific[t][k]) { int kk=(int)k; g_cur->tls_dtors.push_back({(void(*)(void*))&key_dtor,(void*)(uptr)(t*8+kk)}); }
    g_specific[t][k]=v; return 0;
}
EXPORT void* sim_pthread_getspecific(unsigned k) { return k<8?g_specific[g_cur?g_cur->tid:0][k]:nullptr; }
EXPORT void sim_cv_wait(void* cv, std::unique_lock<std::mutex>& l) { cond_wait((uptr)cv,(uptr)l.mutex()->native_handle()); }
EXPORT void sim_cv_notify_one(void* cv) { sim_pthread_cond_signal(cv); }
EXPORT void sim_cv_notify_all(void* cv) { sim_pthread_cond_broadcast(cv); }
EXPORT unsigned long sim_pthread_self() { return (unsigned long)(g_cur?g_cur->tid+1:1); }

EXPORT int sim_cxa_guard_acquire(volatile u8* g)
{
    if (!g_cur) { if (g[0]) return 0; g[1]=1; return 1; }
    sync_point(); g_stats.guards++;
    for (;;) {
        if (g[0]) { sync_acquire((uptr)g); return 0; }
        if (!g[1]) { g[1]=(u8)(1+g_cur->tid); sync_acquire((uptr)g); return 1; }
        if (g[1]==(u8)(1+g_cur->tid)) { report(V_DEADLOCK,"recursive initialisation of a static object",PC); }
        g_stats.guard_waits++; wait_on((uptr)g,"the initialisation of a static object");
    }
}
EXPORT void sim_cxa_guard_release(volatile u8* g) { if (!g_cur) { g[0]=1; g[1]=0; return; } sync_point(); sync_release((uptr)g); g[0]=1; g[1]=0; wake_all((uptr)g); sync_point(); }
EXPORT void sim_cxa_guard_abort(volatile u8* g) { if (!g_cur) { g[1]=0; return; } sync_release((uptr)g); g[1]=0; wake_all((uptr)g); }
EXPORT int sim_cxa_atexit(void (*fn)(void*), void* a, void*) { at_exit(fn,a); return 0; }
EXPORT void sim_ios_init(void*) {}
EXPORT int sim_cxa_thread_atexit(void (*d)(void*), void* o, void*) { if (g_cur) g_cur->tls_dtors.push_back({d,o}); return 0; }

// ---------------------------------------------------------------- allocator entry points
EXPORT void* sim_malloc(size_t n) { void* p=lib_alloc(n,16,false,PC); if (!p) errno=ENOMEM; return p; }
EXPORT void* sim_calloc(size_t a, size_t b) { if (a && b>SIZE_MAX/a) { errno=ENOMEM; return nullptr; } void* p=lib_alloc(a*b,16,true,PC); if (!p) errno=ENOMEM; return p; }
EXPORT void sim_free(void* p) { lib_free(p); }
EXPORT void* sim_realloc(void* p, size_t n)
{
    if (!p) return sim_malloc(n);
    if (n==0) { lib_free(p); return nullptr; }
    size_t old=0; old=block_size(p);
    void* q=lib_alloc(n,16,false,PC); if (!q) { errno=ENOMEM; return nullptr; }
    size_t m=std::min(old,n); mem_access(p,m,false,PC); mem_access(q,m,true,PC); memcpy(q,p,m); lib_free(p); return q;
}
EXPORT int sim_posix_memalign(void** out, size_t al, size_t n) { void* p=lib_alloc(n,al,false,PC); if (!p) return ENOMEM; *out=p; return 0; }
EXPORT void* sim_aligned_alloc(size_t al, size_t n) { void* p=lib_alloc(n,al,false,PC); if (!p) errno=ENOMEM; return p; }
EXPORT void* sim_memalign(size_t al, size_t n) { void* p=lib_alloc(n,al,false,PC); if (!p) errno=ENOMEM; return p; }
static void* do_new(size_t n, size_t al, uptr pc) { void* p=lib_alloc(n?n:1,al,false,pc); if (!p) { g_stats.throws++; throw std::bad_alloc(); } return p; }
EXPORT void* sim_new(size_t n) { return do_new(n,16,PC); }
EXPORT void* sim_new_nt(size_t n, const std::nothrow_t&) { return lib_alloc(n?n:1,16,false,PC); }
EXPORT void* sim_new_al(size_t n, size_t al) { return do_new(n,al,PC); }
EXPORT void* sim_new_al_nt(size_t n, size_t al, const std::nothrow_t&) { return lib_alloc(n?n:1,al,false,PC); }
EXPORT void sim_delete(void* p) { lib_free(p); }
EXPORT void sim_delete_sz(void* p, size_t) { lib_free(p); }
EXPORT void sim_delete_al(void* p, size_t) { lib_free(p); }
EXPORT void sim_delete_sz_al(void* p, size_t, size_t) { lib_free(p); }
// memory that crosses into the C++ library and back
void operator delete(void* p) noexcept { if ((uptr)p-BASE<WIN) lib_free(p); else free(p); }
void operator delete(void* p, size_t) noexcept { if ((uptr)p-BASE<WIN) lib_free(p); else free(p); }
void operator delete[](void* p) noexcept { if ((uptr)p-BASE<WIN) lib_free(p); else free(p); }
void operator delete[](void* p, size_t) noexcept { if ((uptr)p-BASE<WIN) lib_free(p); else free(p); }
void* operator new(size_t n) { void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p=malloc(n?n:1); if (!p) throw std::bad_alloc(); return p; }

EXPORT void* sim_memcpy(void* d, const void* s, size_t n) { mem_access(s,n,false,PC); mem_access(d,n,true,PC); return memmove(d,s,n); }
EXPORT void* sim_memmove(void* d, const void* s, size_t n) { mem_access(s,n,false,PC); mem_access(d,n,true,PC); return memmove(d,s,n); }
EXPORT void* sim_memset(void* d, int c, size_t n) { mem_access(d,n,true,PC); return memset(d,c,n); }
EXPORT int sim_memcmp(const void* a, const void* b, size_t n) { mem_access(a,n,false,PC); mem_access(b,n,false,PC); return memcmp(a,b,n); }

// ---------------------------------------------------------------- clocks, environment, process
static u64 now_ns() { return 1700000000000000000ull + clock_ns(); }
EXPORT int sim_clock_gettime(int, struct timespec* t) { sync_point(); u64 n=now_ns(); t->tv_sec=(time_t)(n/1000000000ull); t->tv_nsec=(long)(n%1000000000ull); return 0; }
EXPORT int sim_gettimeofday(struct timeval* t, void*) { u64 n=now_ns(); t->tv_sec=(time_t)(n/1000000000ull); t->tv_usec=(long)(n%1000000000ull/1000); return 0; }
EXPORT long sim_time(long* t) { long v=(long)(now_ns()/1000000000ull); if (t) *t=v; return v; }
EXPORT long sim_clock() { return (long)(clock_ns()/1000); }
EXPORT i64 sim_chrono_now() { sync_point(); return (i64)now_ns(); }
EXPORT int sim_nanosleep(const struct timespec* a, struct timespec*) { if (a) g_clock_extra+=(u64)a->tv_sec*1000000000ull+a->tv_nsec; if (g_cur) stall_fiber(g_cur->tid, steps_now()+1000); sync_point(); return 0; }
EXPORT int sim_usleep(unsigned us) { g_clock_extra+=(u64)us*1000; if (g_cur) stall_fiber(g_cur->tid, steps_now()+1000); sync_point(); return 0; }
EXPORT int sim_sched_yield() { if (g_cur) { give_way(); } return 0; }
EXPORT unsigned sim_hardware_concurrency() { sync_point(); return (unsigned)g_env.hwconc; }
EXPORT long sim_sysconf(int n) { if (n==_SC_NPROCESSORS_ONLN||n==_SC_NPROCESSORS_CONF) return g_env.hwconc>0?g_env.hwconc:1; if (n==_SC_PAGESIZE) return 4096; return -1; }
EXPORT char* sim_getenv(const char*) { return nullptr; }
EXPORT int sim_rand() { return (int)(mix64(g_ck_seed+ ++g_ck_rand)>>33); }
EXPORT u32 sim_random_device(void*) { return (u32)mix64(g_ck_seed*3+ ++g_ck_rand); }
EXPORT unsigned sim_rd_getval(void*) { return (unsigned)g_orng.next(); }
EXPORT void sim_rd_init(void*, void*) {}
EXPORT void sim_rd_fini(void*) {}
EXPORT int sim_getpid() { return 4242; }
EXPORT void sim_exit(int) { report(V_TERMINATE,"the library ended the process",PC); _exit(70); }
EXPORT void sim_abort() { report(V_TERMINATE,"the library called abort",PC); _exit(70); }
EXPORT void sim_assert_fail(const char* e, const char* f, unsigned l, const char*) { report(V_TERMINATE,std::string("assertion ")+e+" failed at "+f+":"+std::to_string(l),PC); _exit(70); }
EXPORT void otfft_sim_pruned() { const char m[]="PRUNED\n"; if (write(2,m,sizeof m-1)){} _exit(77); }
static void rt_reset2() { g_sem.clear(); g_pbar.clear(); g_pthr.clear(); g_next_pthr=0; memset(g_specific,0,sizeof g_specific); memset(g_chunk,0,sizeof g_chunk); for (auto& v : g_node) v.clear(); }
