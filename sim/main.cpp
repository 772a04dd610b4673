// Workloads, oracles, batch search, minimiser and replay.
#include "core.h"
#include "rt.h"
#include "model.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <algorithm>
#include <set>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <limits>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <signal.h>
#include <list>

// ================================================================================================ plans
enum OpKind { OP_CREATE, OP_SETUP, OP_RUN, OP_DESTROY, OP_REGION, OP_YIELD, OP_GIVE, OP_WAIT, OP_JOIN, OP_START, OP_EXIT, OP_THREADS };
static const char* opname[]={"create","setup","run","destroy","region","yield","hand over","wait for","wait for the end of caller","start the library","run the exit handlers","set the number of threads"};
static const char* typname[]={"complex","real","dct","bluestein"};
static const char* bename[]={"auto","sse2","avx","avx2"};
static const char* opcname[]={"fwd","fwd0","fwdu","fwdn","inv","inv0","invu","invn"};
struct Op {
    int thread=0;        // 0 prologue, 1..8 concurrent callers, 9 epilogue
    int kind=OP_RUN, obj=0, type=0, n=0, be=0, opc=0, in=0, mx=0, my=0;
    int fail=0; i64 fk=0; int noalloc=0, stm=-1; i64 sta=0; int fp=0, rnt=0, rmode=0, sub=-1;
};
#define OPF(X) X(thread) X(kind) X(obj) X(type) X(n) X(be) X(opc) X(in) X(mx) X(my) X(fail) X(fk) X(noalloc) X(stm) X(sta) X(fp) X(rnt) X(rmode) X(sub)
struct Plan {
    std::string prop; u64 seed=1; Env env; Policy pol; int grant=0; int bits=0, tol=1, base_nt=0; // base_nt 0: env.nthreads
    std::vector<Op> ops;
    bool explicit_sched=false; std::vector<SwitchRec> sw; std::vector<GrantRec> gr;
    std::string tag;
};
struct Outcome { Violation v; u64 hash=0; Stats st; bool died=false; int death=0; std::vector<SwitchRec> sw; std::vector<GrantRec> gr; bool overflow=false; bool nontrivial=false; u64 other[V_COUNT]; std::string shape; };

static std::string ser(const Plan& p)
{
    std::ostringstream o;
    o << "prop " << p.prop << "\nseed " << p.seed << "\ntag " << (p.tag.empty()?"-":p.tag) << "\n";
    const Env& e=p.env;
    o << "env " << e.nthreads << " " << e.hwconc << " " << e.nested << " " << e.fill << " " << e.ufill << " " << e.place << " " << e.race << " " << e.memcheck << " " << e.step_trap << " " << e.stack << " " << e.reuse << " " << e.icv << "\n";
    o << "cpu " << e.cpu.leaf0 << " " << e.cpu.ecx1 << " " << e.cpu.edx1 << " " << e.cpu.ebx7 << " " << e.cpu.xcr0 << "\n";
    o << "policy " << p.pol.kind << " " << p.pol.quantum << " " << p.pol.total << " " << p.pol.depth << "\n";
    o << "grant " << p.grant << "\ncheck " << p.bits << " " << p.tol << " " << p.base_nt << "\n";
    for (auto& q : p.ops) {
        o << "op";
#define X(f) o << " " << q.f;
        OPF(X)
#undef X
        o << "   # " << (q.thread==0?"before":q.thread==9?"after":"caller " + std::to_string(q.thread)) << ": " << opname[q.kind]; if (q.kind==OP_JOIN||q.kind==OP_THREADS) o << " " << q.n; else if (q.kind<OP_START) o << " object " << q.obj;
        if (q.kind==OP_CREATE) o << " " << typname[q.type] << " " << bename[q.be];
        if (q.kind==OP_CREATE||q.kind==OP_SETUP) o << " n=" << q.n;
        if (q.kind==OP_RUN) o << " " << opcname[q.opc];
        if (q.fail) o << " with failing memory requests (mode " << q.fail << ", k=" << q.fk << ")";
        if (q.noalloc) o << " with no memory available";
        if (q.stm>=0) o << ", member " << q.stm << " stalls after " << q.sta << " steps";
        o << "\n";
    }
    if (p.explicit_sched) {
        o << "schedule " << p.sw.size() << " " << p.gr.size() << "\n";
        for (auto& s : p.sw) o << "sw " << (int)s.block << " " << (int)s.tid << " " << (int)s.target << " " << s.at << "\n";
        for (auto& g : p.gr) o << "gr " << g.tid << " " << g.ord << " " << g.n << "\n";
    }
    return o.str();
}
static bool deser(std::istream& in, Plan& p, std::map<std::string,std::string>& extra)
{
    std::string line; bool any=false;
    while (std::getline(in,line)) {
        size_t h=line.find('#'); if (h!=std::string::npos) line.resize(h);
        std::istringstream s(line); std::string k; if (!(s>>k)) continue;
        any=true;
        if (k=="prop") s>>p.prop; else if (k=="seed") s>>p.seed; else if (k=="tag") s>>p.tag;
        else if (k=="env") { Env& e=p.env; s>>e.nthreads>>e.hwconc>>e.nested>>e.fill>>e.ufill>>e.place>>e.race>>e.memcheck>>e.step_trap; if (!(s>>e.stack)) e.stack=0; if (!(s>>e.reuse)) e.reuse=0; if (!(s>>e.icv)) e.icv=0; }
        else if (k=="cpu") { CpuDesc& c=p.env.cpu; s>>c.leaf0>>c.ecx1>>c.edx1>>c.ebx7>>c.xcr0; }
        else if (k=="policy") s>>p.pol.kind>>p.pol.quantum>>p.pol.total>>p.pol.depth;
        else if (k=="grant") s>>p.grant;
        else if (k=="check") s>>p.bits>>p.tol>>p.base_nt;
        else if (k=="op") { Op q;
#define X(f) s >> q.f;
            OPF(X)
#undef X
            p.ops.push_back(q); }
        else if (k=="schedule") p.explicit_sched=true;
        else if (k=="sw") { int b,t,g; u64 a; s>>b>>t>>g>>a; p.sw.push_back(SwitchRec{(u8)b,(u8)t,(u8)g,a}); }
        else if (k=="gr") { GrantRec g; s>>g.tid>>g.ord>>g.n; p.gr.push_back(g); }
        else { std::string rest; std::getline(s,rest); extra[k]=rest; }
    }
    return any;
}

// ================================================================================================ property masks
#define B(x) (1ull<<V_##x)
static const u64 HARD = B(CRASH)|B(TERMINATE)|B(EXCEPTION)|B(DEADLOCK)|B(NOPROGRESS);
static u64 mask_of(const std::string& p)
{
    int i=atoi(p.c_str()+1);
    switch (i) {
    case 1: case 3: case 4: return HARD|B(WRONG);
    case 2: return HARD|B(WRONG)|B(MODIFIED);
    case 5: return B(RACE);
    case 6: return HARD|B(BITS);
    case 7: return B(DEADLOCK)|B(NOPROGRESS)|B(BLOCKED);
    case 8: return HARD|B(WRONG)|B(BITS)|B(TEAM)|B(ICV)|B(XRACE);
    case 9: return HARD|B(WRONG)|B(BITS)|B(XRACE);
    case 10: return HARD|B(WRONG)|B(BITS)|B(XRACE)|B(BACKEND)|B(LEAK);
    case 11: return HARD|B(STRONG)|B(LEAK)|B(BADFREE)|B(UAF)|B(WRONG)|B(BITS);
    case 12: return HARD|B(ALLOC)|B(WRONG)|B(BITS);
    case 13: return HARD|B(BITS);
    case 14: return B(OOB)|B(UAF)|B(BADFREE)|B(CONSTWRITE)|B(LEAK)|B(FPMODE)|B(CRASH)|B(MODIFIED);
    case 15: return B(BITS)|B(WRONG)|B(CRASH)|B(TERMINATE);
    case 17: return HARD|B(WRONG)|B(BITS)|B(XRACE)|B(UAF)|B(OOB)|B(BADFREE)|B(LEAK);
    case 18: return HARD|B(WRONG)|B(BITS)|B(UAF)|B(OOB)|B(BADFREE)|B(BACKEND);
    case 16: return B(CPU)|B(BACKEND)|B(EXCEPTION)|B(WRONG)|B(CRASH)|B(TERMINATE);
    }
    return ~0ull;
}

// ================================================================================================ CPU descriptions
static CpuDesc full_cpu() { CpuDesc c; c.leaf0=13; c.ecx1=0x1|0x200|0x1000|0x80000|0x100000|0x4000000|0x8000000|0x10000000; c.edx1=0x2000000|0x4000000; c.ebx7=0x20; c.xcr0=7; return c; }
static bool cpu_avx(const CpuDesc& c) { return c.leaf0>=1 && (c.ecx1&0x10000000) && (c.ecx1&0x8000000) && (c.ecx1&0x4000000) && (c.xcr0&6)==6; }
static bool cpu_avx2(const CpuDesc& c) { return cpu_avx(c) && c.leaf0>=7 && (c.ebx7&0x20); }
static bool cpu_sse2(const CpuDesc& c) { return c.leaf0>=1 && (c.edx1&0x4000000); }
static bool g_host_avx, g_host_avx2;
// backend a request must lead to, 0 = none (domain_error)
static int expect_backend(const CpuDesc& c, int be)
{
    bool u[4]={false,cpu_sse2(c),cpu_avx(c),cpu_avx2(c)};
    if (be==0) return u[3]?3:u[2]?2:u[1]?1:0;
    return u[be]?be:0;
}
static bool host_can(int b) { return b==3?g_host_avx2:b==2?g_host_avx:true; }
static int kind_backend(const char* k) { if (strstr(k,"OTFFT_AVX2")) return 3; if (strstr(k,"OTFFT_AVX")) return 2; if (strstr(k,"OTFFT_SSE2")) return 1; return 0; }

// ================================================================================================ inputs and references
static int log2i(u64 n) { int l=0; while ((1ull<<l)<n) l++; return l; }
static size_t in_doubles(int type, int opc, size_t n) { if (type==1) return opc<4?n:2*n; return type==2?n:2*n; }
static size_t out_doubles(int type, int opc, size_t n) { if (type==1) return opc<4?2*n:n; return type==2?n:2*n; }
static int dir_of(int opc) { return opc>=4; }
static void fill_vals(double* v, size_t m, size_t unitlen, int in, u64 salt)
{
    int kind=in>>4; Rng r(hmix(hmix(0x1234,(u64)in),salt)); size_t units=m/unitlen;
    auto dense=[&](double s){ for (size_t i=0;i<m;i++) v[i]=(r.unit()*2-1)*s; };
    switch (kind) {
    case 1: { std::fill(v,v+m,0.0); size_t k=r.below(units); for (size_t j=0;j<unitlen;j++) v[k*unitlen+j]=r.unit()+0.5; break; }
    case 2: for (size_t i=0;i<m;i++) v[i]=(i%unitlen)?-0.75:1.5; break;
    case 3: { u64 f=r.below(units); for (size_t i=0;i<units;i++) { double a=6.283185307179586*(double)((f*i)%units)/(double)units; v[i*unitlen]=cos(a); if (unitlen>1) v[i*unitlen+1]=sin(a); } break; }
    case 4: dense(1e150); break;
    case 5: dense(1e-150); break;
    case 6: for (size_t i=0;i<m;i++) v[i]=ldexp(r.unit()*2-1,(int)r.range(-25,25)); break;
    case 7: { std::fill(v,v+m,0.0); for (int j=0;j<4;j++) v[r.below(m)]=r.unit()*2-1; break; }
    case 8: for (size_t i=0;i<m;i++) { i64 x=r.range(-3,3); v[i]= x==0? ((r.next()&1)?-0.0:0.0) : (double)x; } break;
    // data with a structure a short cut could be tempted to use
    case 9: std::fill(v,v+m,0.0); break;
    case 10: case 11: dense(1.0); if (unitlen==2) for (size_t i=0;i<units;i++) v[2*i+(kind==10)]=0; else for (size_t i=0;i<m/2;i++) v[m-1-i]=kind==10?v[i]:-v[i]; break;
    case 12: dense(1.0); std::fill(v+(units+1)/2*unitlen,v+m,0.0); break;
    case 13: for (size_t i=0;i<m;i++) v[i]=((i/unitlen)&1)?-0.7:0.7; break;
    case 14: dense(1.0); for (size_t i=in&1;i<units;i+=2) for (size_t j=0;j<unitlen;j++) v[i*unitlen+j]=0; break;
    case 15: dense(1.0); for (size_t i=1;i<units-i;i++) { v[(units-i)*unitlen]=v[i*unitlen]; if (unitlen>1) v[(units-i)*unitlen+1]=-v[i*unitlen+1]; } break;
    default: dense(1.0);
    }
}
typedef std::shared_ptr<std::vector<double>> Vec;
struct Lru { struct E { Vec v; std::list<u64>::iterator it; }; std::unordered_map<u64,E> m; std::list<u64> order; size_t bytes=0, cap;
    explicit Lru(size_t c):cap(c){}
    Vec get(u64 k) { auto i=m.find(k); if (i==m.end()) return nullptr; order.erase(i->second.it); order.push_front(k); i->second.it=order.begin(); return i->second.v; }
    void put(u64 k, Vec v) { while (bytes>cap && !order.empty()) { u64 o=order.back(); order.pop_back(); bytes-=m[o].v->size()*8; m.erase(o); } order.push_front(k); m[k]=E{v,order.begin()}; bytes+=v->size()*8; }
};
static Lru g_in(96u<<20), g_ref(160u<<20);
static u64 dkey(int type,int opc,int n,int in) { return ((u64)type<<60)|((u64)dir_of(opc)<<58)|((u64)(u32)in<<34)|(u64)(u32)n; }
static Vec input_of(int type,int opc,int n,int in)
{
    u64 k=dkey(type,opc,n,in); if (Vec v=g_in.get(k)) return v;
    Vec v=std::make_shared<std::vector<double>>(in_doubles(type,opc,n));
    double* d=v->data(); size_t N=n;
    if (type==1 && dir_of(opc)) {
        fill_vals(d,2*N,2,in,hmix(type,n)); d[1]=0; if (N>1) d[N+1]=0;
        for (size_t i=1;i<N/2;i++) { d[2*(N-i)]=d[2*i]; d[2*(N-i)+1]=-d[2*i+1]; }
    }
    else fill_vals(d,v->size(),(type==1||type==2)?1:2,in,hmix(type,n));
    g_in.put(k,v); return v;
}
static Vec ref_of(int type,int opc,int n,int in)
{
    u64 k=dkey(type,opc,n,in); if (Vec v=g_ref.get(k)) return v;
    Vec x=input_of(type,opc,n,in);
    Vec v=std::make_shared<std::vector<double>>(out_doubles(type,opc,n));
    size_t N=n;
    if (type==0||type==3) ref_dft((const cd*)x->data(),(cd*)v->data(),N,dir_of(opc)?1:-1);
    else if (type==1) {
        std::vector<cd> a(N),b(N);
        if (!dir_of(opc)) { for (size_t i=0;i<N;i++) a[i]=(*x)[i]; ref_dft(a.data(),(cd*)v->data(),N,-1); }
        else { ref_dft((const cd*)x->data(),b.data(),N,1); for (size_t i=0;i<N;i++) (*v)[i]=b[i].real(); }
    }
    else { if (!dir_of(opc)) ref_dct2(x->data(),v->data(),N); else ref_dct3(x->data(),v->data(),N); }
    g_ref.put(k,v); return v;
}
static double scale_of(int type,int opc,double n)
{
    switch (type) {
    case 0: case 3: return opc==0||opc==3||opc==7 ? 1/n : opc==2||opc==6 ? 1/sqrt(n) : 1;
    case 1: return opc==0||opc==3||opc==7 ? 1/n : opc==2||opc==6 ? 1/sqrt(n) : 1;
    default: return opc==0||opc==3||opc==7 ? 1/n : 1;
    }
}
static double tol_of(int type,int n)
{
    // a bound on the rounding error relative to the largest output value: a few ulps per pass, more for
    // the odd radices, whose twiddle powers are formed by repeated multiplication
    u64 N=n; const double eps=1.1102230246251565e-16;
    if (type==3) { u64 L=1; while (L<2*N-1) L<<=1; return 36*(log2i(L)+4)*eps; }
    u64 m=(type==0)?N:std::max<u64>(N/2,1); double c=12*(log2i(N)+3);
    for (u64 p=2;m>1;) { if (m%p) { p++; if (p*p>m) p=m; continue; } m/=p; if (p==3) c+=150; else if (p==5) c+=300; else if (p>5) c+=150+3.0*(double)p; }
    return c*eps;
}

// rough number of instrumented accesses of one call, for placing preemptions
static double est_cplx(u64 n)
{
    if (n<2) return 20; double l=log2((double)n);
    if ((n&(n-1))==0) return 8.0*n*(l/3+1)/2+60;
    u64 m=n; double c=0; int lg=0; while (m%2==0) { m/=2; lg++; } c+=lg*1.0; for (u64 p=3;m>1;) { if (m%p==0) { c+= p<=5? 2.0 : p*1.5; m/=p; } else p+=2; if (p*p>m && m>1) p=m; }
    return n*(c+1)*2.5+100;
}
static double est_steps(int type,u64 n)
{
    switch (type) { case 0: return 0.42*est_cplx(n); case 1: return 0.45*(est_cplx(n/2)+6*n); case 2: return 0.65*(est_cplx(n/2)+12*n); }
    u64 L=1; while (L<2*n-1) L<<=1; return 0.72*(2*est_cplx(L)+8*L);
}
static double est_setup(int type,u64 n)
{
    if (type==3) { u64 L=1; while (L<2*n-1) L<<=1; return 1.0*L+3*n+0.42*est_cplx(L)+400; }
    return 2.5*n+400;
}

// ================================================================================================ execution
struct Base { bool ok=false; u64 hash=0; u64 steps=0, create_allocs=0, create_steps=0; };
static std::unordered_map<u64,Base> g_base;
static Base baseline(int type,int n,int be,int opc,int in,int nt);

struct Obj { void* h=nullptr; int type=-1, n=0, be=0; bool live=false, ok=false, empty=false; };
struct Exec {
    const Plan* p; std::vector<Obj> objs; std::vector<CallCtx> ctx; std::vector<u64> ophash; std::vector<Base> base; std::vector<Vec> in, ref; std::vector<double> worst;
    u64 nuid=1;
};
static Exec* X;
static std::string op_text(const Op& o, const Obj& b) { std::ostringstream s; s << opname[o.kind] << " "; if (o.kind==OP_RUN) s << typname[b.type] << " " << opcname[o.opc] << " n=" << b.n << " " << bename[b.be]; else if (o.kind==OP_CREATE) s << typname[o.type] << " n=" << o.n << " " << bename[o.be]; else if (o.kind==OP_SETUP) s << typname[b.type<0?0:b.type] << " n=" << o.n; return s.str(); }
static double g_worst_ratio=0; static std::string g_worst_text;

enum Exc { EX_NONE, EX_BAD_ALLOC, EX_DOMAIN, EX_OTHER };
static const char* excname[]={"no exception","std::bad_alloc","std::domain_error","another exception"};
template<class F> static Exc guarded(F f)
{
    try { f(); return EX_NONE; }
    catch (const std::bad_alloc&) { return EX_BAD_ALLOC; }
    catch (const std::domain_error&) { return EX_DOMAIN; }
    catch (...) { return EX_OTHER; }
}
static void check_after(const Op& o, const Obj& b, const Icv& icv, u32 csr, u16 cw)
{
    u32 csr2=_mm_getcsr(); u16 cw2; asm volatile("fnstcw %0":"=m"(cw2));
    if ((csr&~0x3fu)!=(csr2&~0x3fu) || cw!=cw2) { _mm_setcsr(csr); asm volatile("fldcw %0"::"m"(cw)); report(V_FPMODE,"floating-point control changed by "+op_text(o,b)); }
    Icv now=cur_icv();
    if (!(now==icv)) report(V_ICV,"OpenMP settings of the calling thread changed by "+op_text(o,b));
}
static void do_op(size_t i, int owner)
{
    const Op& o=X->p->ops[i]; const Env& E=X->p->env;
    Obj& b=X->objs[o.obj];
    CallCtx& c=X->ctx[i]; c=CallCtx(); c.thread=owner; c.op=(int)i; c.uid=(u32)X->nuid++;
    c.fail_mode=o.fail; c.fail_k=(u64)o.fk; c.forbid_alloc=o.noalloc; if (o.noalloc) c.fail_mode=4;
    c.stall_member=o.stm; c.stall_after=(u64)o.sta;
    g_stats.ops++;
    trace(0x0B000000+i);
    u32 csr=_mm_getcsr(); u16 cw; asm volatile("fnstcw %0":"=m"(cw));
    u32 csr0=csr;
    switch (o.fp) { case 1: csr|=0x8040; break; case 2: csr=(csr&~0x6000u)|0x4000; break; case 3: csr=(csr&~0x6000u)|0x6000; break; case 4: csr=(csr&~0x6000u)|0x2000|0x8000; break; }
    if (o.fp) _mm_setcsr(csr);
    Icv icv=cur_icv();
    auto restore=[&]{ if (o.fp) _mm_setcsr(csr0); };
    switch (o.kind) {
    case OP_GIVE: give_token(o.n); break;
    case OP_WAIT: wait_token(o.n); break;
    case OP_JOIN: wait_done(o.n); break;
    case OP_START: lib_start(); break;
    case OP_EXIT: lib_exit(); break;
    case OP_THREADS: set_nthreads(o.n); break;
    case OP_YIELD: for (int k=0;k<o.n;k++) yield_point(); break;
    case OP_CREATE: {
        if (b.live) { restore(); break; }
        int want=expect_backend(E.cpu,o.be);
        if (want && !host_can(want)) { restore(); break; }
        if (!g_client.has(o.be)) { restore(); break; }
        b.type=o.type;
        call_begin(&c); trap_on();
        Exc e=guarded([&]{ g_client.create(b.h,o.type,o.n,o.be); });
        trap_off(); call_end(&c);
        check_after(o,b,icv,csr,cw); restore();
        trace(0xE0+e);
        if (!want) {
            if (e==EX_DOMAIN) break;
            if (e==EX_BAD_ALLOC && c.nfailed) break;
            report(V_BACKEND, e==EX_NONE ? "a request no backend can serve returned an object: "+op_text(o,b) : std::string("a request no backend can serve ended with ")+excname[e]+" instead of std::domain_error");
            break;
        }
        if (c.nfailed) {
            if (e==EX_NONE) { report(V_STRONG,"a memory request failed during "+op_text(o,b)+" but the call returned as if it had succeeded"); b.live=true; b.ok=false; break; }
            if (e!=EX_BAD_ALLOC) report(V_EXCEPTION,std::string("a memory request failed during ")+op_text(o,b)+" and the call ended with "+excname[e]+" instead of std::bad_alloc");
            u64 n=0,bytes=0; for (auto& k : live_lib_blocks(true)) if (k.thread==owner && k.op==(int)i) { n++; bytes+=k.size; }
            if (n) report(V_LEAK,std::to_string(n)+" blocks ("+std::to_string(bytes)+" bytes) are lost after a failed "+op_text(o,b));
            break;
        }
        if (e!=EX_NONE) { report(V_EXCEPTION,op_text(o,b)+" ended with "+excname[e]); break; }
        b.live=true; b.n=o.n; b.ok=o.n>0; b.empty=o.n==0; b.be=want;
        int got=kind_backend(g_client.kind(b.h));
        trace(0xBE00+got);
        if (got!=want) report(V_BACKEND,op_text(o,b)+" returned an object of backend "+bename[got]+" instead of "+bename[want]);
        break; }
    case OP_SETUP: {
        if (!b.live) { restore(); break; }
        call_begin(&c); trap_on();
        Exc e=guarded([&]{ g_client.setup(b.h,o.n); });
        trap_off(); call_end(&c);
        check_after(o,b,icv,csr,cw); restore();
        trace(0xE0+e);
        if (c.nfailed) {
            b.ok=b.empty=false; b.n=0;
            if (e==EX_NONE) report(V_STRONG,"a memory request failed during "+op_text(o,b)+" but the call returned as if it had succeeded");
            else if (e!=EX_BAD_ALLOC) report(V_EXCEPTION,std::string("a memory request failed during ")+op_text(o,b)+" and the call ended with "+excname[e]+" instead of std::bad_alloc");
            break;
        }
        if (e!=EX_NONE) { b.ok=b.empty=false; report(V_EXCEPTION,op_text(o,b)+" ended with "+excname[e]); break; }
        b.n=o.n; b.ok=o.n>0; b.empty=o.n==0;
        break; }
    case OP_DESTROY: {
        if (!b.live) { restore(); break; }
        call_begin(&c); trap_on();
        Exc e=guarded([&]{ g_client.destroy(b.h); });
        trap_off(); call_end(&c);
        check_after(o,b,icv,csr,cw); restore();
        b.live=false; b.ok=b.empty=false;
        if (e!=EX_NONE) report(V_EXCEPTION,op_text(o,b)+" ended with "+excname[e]);
        break; }
    case OP_RUN: {
        if (b.live && b.empty && !(b.type==2 && (o.opc==2||o.opc==6))) {   // length 0: whatever the object did before, nothing may be touched now
            g_stats.empty_runs++;
            double* x=(double*)sim_alloc(0,64,true,FILL_ZERO,PLACE_WIDE); double* y=(double*)sim_alloc(0,64,true,FILL_ZERO,PLACE_WIDE);
            call_begin(&c); trap_on();
            Exc e=guarded([&]{ g_client.run(b.h,o.opc,x,y); });
            trap_off(); call_end(&c);
            check_after(o,b,icv,csr,cw); restore();
            if (e!=EX_NONE) report(V_EXCEPTION,op_text(o,b)+" ended with "+excname[e]);
            sim_release(x); sim_release(y);
            break;
        }
        if (!b.live || !b.ok || b.n<=0 || !X->in[i] || X->in[i]->size()!=in_doubles(b.type,o.opc,b.n)) { restore(); break; }
        if (b.type==2 && (o.opc==2||o.opc==6)) { restore(); break; }
        size_t nx=in_doubles(b.type,o.opc,b.n), ny=b.type==1?out_doubles(b.type,o.opc,b.n):0;
        if (o.mx||o.my) g_stats.unaligned_user++;
        double* x=(double*)sim_alloc(nx*8,64,true,FILL_ZERO,E.place==PLACE_MIN?PLACE_WIDE:E.place,(size_t)o.mx*8);
        double* y=ny?(double*)sim_alloc(ny*8,64,true,E.ufill,PLACE_WIDE,(size_t)o.my*8):nullptr;
        memcpy(x,X->in[i]->data(),nx*8);
        bool ro=b.type==1 && o.opc<4;
        if (ro) mem_set_ro(x,nx*8,true);
        call_begin(&c); trap_on();
        Exc e=guarded([&]{ g_client.run(b.h,o.opc,x,y); });
        trap_off(); call_end(&c);
        if (ro) mem_set_ro(x,nx*8,false);
        check_after(o,b,icv,csr,cw); restore();
        if (e!=EX_NONE) { report(V_EXCEPTION,op_text(o,b)+" ended with "+excname[e]); break; }
        if (ro && memcmp(x,X->in[i]->data(),nx*8)) report(V_MODIFIED,"the input buffer was changed by "+op_text(o,b));
        const double* out=ny?y:x; size_t no=ny?ny:nx;
        u64 h=hash_bytes(out,no*8); trace(h);
        X->ophash[i]=h;
        if (!o.fp) {
            if (X->ref[i]) {
                const double* r=X->ref[i]->data(); double s=scale_of(b.type,o.opc,b.n), mx=0, worst=0; size_t wi=0; bool bad=false;
                for (size_t k=0;k<no;k++) mx=std::max(mx,fabs(r[k]));
                mx*=s; if (mx==0) mx=std::numeric_limits<double>::min();
                for (size_t k=0;k<no;k++) { double d=fabs(out[k]-r[k]*s); if (!(d<=worst)) { if (d!=d) { bad=true; wi=k; break; } worst=d; wi=k; } }
                double tol=tol_of(b.type,b.n)*mx + std::numeric_limits<double>::denorm_min()*64;
                double ratio=worst/tol;
                if (ratio>g_worst_ratio) { g_worst_ratio=ratio; g_worst_text=op_text(o,b); }
                if (bad || !(worst<=tol)) { char t[200]; snprintf(t,sizeof t,": element %zu is %.17g, expected %.17g (allowed error %.3g)",wi,out[wi],r[wi]*s,tol); report(V_WRONG,op_text(o,b)+t); }
            }
            if (X->base[i].ok && X->base[i].hash!=h) report(V_BITS,op_text(o,b)+": output bits differ from the same call on a fresh object run alone");
        }
        sim_release(x); if (y) sim_release(y);
        break; }
    }
    trace(c.nalloc);
}
struct RegionCtx { size_t first; int nsub; int owner; int calls[8]; int reps; };
static void region_cb(void* cv, int idx, int phase)
{
    RegionCtx* r=(RegionCtx*)cv; if (idx<0||idx>=8) return;
    int mode=X->p->ops[r->first].rmode; int s=-1;
    if (mode==0 && phase==0) s=idx; else if ((mode==1||mode==2) && phase==1) s=0; else if (mode==3 && phase==2) s=idx; else if (mode==4 && phase==3) s=idx;
    if (s<0||s>=r->nsub) return;
    size_t n=X->p->ops.size();
    for (size_t k=r->first+1;k<n && X->p->ops[k].sub>=0;k++) if (X->p->ops[k].sub==s) do_op(k,r->owner);
}
static void do_region(size_t i, int owner)
{
    const Op& o=X->p->ops[i]; RegionCtx rc; memset(&rc,0,sizeof rc); rc.first=i; rc.owner=owner;
    for (size_t k=i+1;k<X->p->ops.size() && X->p->ops[k].sub>=0;k++) rc.nsub=std::max(rc.nsub,X->p->ops[k].sub+1);
    const int niter=13;
    int* hist=(int*)sim_alloc(sizeof(int)*2*niter,64,true,FILL_ZERO,PLACE_WIDE); int* log=(int*)sim_alloc(sizeof(int)*40,64,true,FILL_ZERO,PLACE_WIDE);
    g_stats.callernested++;
    trace(0x4E610+i);
    g_client.region(o.rnt,o.rmode,region_cb,&rc,niter,hist,log);
    for (int k=0;k<2*niter;k++) if (hist[k]!=1) { report(V_TEAM,"the caller's own worksharing loop ran iteration "+std::to_string(k%niter)+" "+std::to_string(hist[k])+" times"); return; }
    if (log[32]||log[33]) report(V_TEAM,"a barrier of the caller's own team let a member through early");
}
static void run_list(int thread, int owner)
{
    const Plan& p=*X->p;
    for (size_t i=0;i<p.ops.size();i++) {
        const Op& o=p.ops[i]; if (o.thread!=thread || o.sub>=0) continue;
        if (o.kind==OP_REGION) do_region(i,owner); else do_op(i,owner);
    }
    if (thread==9) for (auto& b : X->objs) if (b.live) { CallCtx c; c.thread=owner; c.uid=(u32)X->nuid++; set_ctx(&c); g_client.destroy(b.h); set_ctx(nullptr); b.live=false; }
}
static double plan_steps(const Plan& p)
{
    double s=2000; std::map<int,std::pair<int,int>> st;
    for (auto& o : p.ops) switch (o.kind) {
        case OP_CREATE: st[o.obj]={o.type,o.n}; s+=est_setup(o.type,std::max(o.n,2)); break;
        case OP_SETUP: if (st.count(o.obj)) { st[o.obj].second=o.n; s+=est_setup(st[o.obj].first,std::max(o.n,2)); } break;
        case OP_RUN: if (st.count(o.obj)) s+=est_steps(st[o.obj].first,std::max(st[o.obj].second,2)); break;
        default: s+=200; }
    return s;
}
static Outcome execute(const Plan& p, u64 mask)
{
    Outcome out; memset(out.other,0,sizeof out.other);
    Exec ex; ex.p=&p; int maxobj=0; for (auto& o:p.ops) maxobj=std::max(maxobj,o.obj);
    ex.objs.resize(maxobj+1); size_t n=p.ops.size(); ex.ctx.resize(n); ex.ophash.assign(n,0); ex.base.resize(n); ex.in.resize(n); ex.ref.resize(n);
    // static interpretation: which length and backend each transform works with
    std::map<int,std::array<int,3>> st; u64 nt=p.base_nt?p.base_nt:p.env.nthreads;
    int ncall=0;
    for (size_t i=0;i<n;i++) { const Op& o=p.ops[i]; if (o.thread>=1&&o.thread<=8) ncall=std::max(ncall,o.thread);
        if (o.kind==OP_CREATE) st[o.obj]={o.type,o.n,expect_backend(p.env.cpu,o.be)};
        else if (o.kind==OP_SETUP) { if (st.count(o.obj)) st[o.obj][1]=o.n; }
        else if (o.kind==OP_RUN && st.count(o.obj)) { auto& s=st[o.obj]; if (s[1]<=0||!s[2]||!host_can(s[2])) continue; if (s[0]==2&&(o.opc==2||o.opc==6)) continue;
            ex.in[i]=input_of(s[0],o.opc,s[1],o.in); if (o.fp) continue; if (p.tol) ex.ref[i]=ref_of(s[0],o.opc,s[1],o.in); if (p.bits) ex.base[i]=baseline(s[0],s[1],s[2],o.opc,o.in,(int)nt); } }
    double est=plan_steps(p);
    Policy pol=p.pol;
    g_allow_avx=cpu_avx(p.env.cpu); g_allow_avx2=cpu_avx2(p.env.cpu); g_allow_fma=g_allow_avx && (p.env.cpu.ecx1&0x1000); g_allow_sse3=(p.env.cpu.ecx1&1) && (p.env.cpu.ecx1&0x200) && (p.env.cpu.ecx1&0x80000);
    u64 limit=(u64)(est*28)+20*std::max<u64>(2*pol.total,200000)+1000000;
    run_begin(p.env,pol,p.seed,p.grant,p.explicit_sched?&p.sw:nullptr,p.explicit_sched?&p.gr:nullptr,mask,limit);
    X=&ex; size_t hs=g_client.holder_size();
    for (auto& b:ex.objs) { b.h=sim_alloc(hs,64,true,FILL_ZERO,PLACE_WIDE); g_client.init(b.h); }
    bool ok=true;
    bool started=false; for (auto& o:p.ops) { if (o.kind==OP_START && o.thread==0) started=true; if (o.kind==OP_GIVE) need_token(o.n); }
    spawn_caller(0,[started]{ if (!started) lib_start(); run_list(0,0); }); ok=run_fibers({0});
    if (ok && ncall) { std::vector<int> ids; for (int t=1;t<=ncall;t++) { spawn_caller(t,[t]{ run_list(t,t); },true); ids.push_back(t); } ok=run_fibers(ids); }
    if (ok) { spawn_caller(0,[]{ run_list(9,0); }); ok=run_fibers({0}); }
    trap_off();
    if (ok && g_viol.empty()) { auto lost=live_lib_blocks(true); if (!lost.empty()) { u64 by=0; for (auto& k:lost) by+=k.size; auto& k=lost[0]; std::string t; if (k.op>=0&&k.op<(int)n) t=" (first: "+std::to_string(k.size)+" bytes obtained by operation "+std::to_string(k.op)+", "+opname[p.ops[k.op].kind]+")"; report(V_LEAK,std::to_string(lost.size())+" blocks ("+std::to_string(by)+" bytes) are never released"+t); } }
    run_end();
    X=nullptr;
    trace(steps_now()); for (u64 h : ex.ophash) trace(h);
    g_stats.runs=1;
    out.hash=g_trace; out.st=g_stats; if (!g_viol.empty()) out.v=g_viol[0]; out.sw=g_switchlog; out.gr=g_grantlog; out.overflow=g_switchlog_overflow; memcpy(out.other,g_other,sizeof g_other);
    return out;
}
static Base baseline(int type,int n,int be,int opc,int in,int nt)
{
    u64 k=((u64)(u32)n<<32)|((u64)(in&0xfff)<<20)|((u64)(nt&0xff)<<12)|(be<<8)|(type<<4)|opc;
    auto it=g_base.find(k); if (it!=g_base.end()) return it->second;
    Plan p; p.prop="C00"; p.seed=7; p.env.nthreads=nt; p.env.hwconc=4; p.env.race=0; p.env.memcheck=0; p.env.cpu=full_cpu(); p.pol.kind=POL_RTB; p.tol=0; p.bits=0;
    Op c; c.kind=OP_CREATE; c.type=type; c.n=n; c.be=be; Op r; r.kind=OP_RUN; r.opc=opc; r.in=in; Op d; d.kind=OP_DESTROY;
    p.ops={c,r,d};
    p.pol.total=(u64)plan_steps(p);
    Base b; Exec* save=X; (void)save;
    {   // same as execute, without recursion into references
        Exec ex; ex.p=&p; ex.objs.resize(1); ex.ctx.resize(3); ex.ophash.assign(3,0); ex.base.resize(3); ex.in.resize(3); ex.ref.resize(3);
        ex.in[1]=input_of(type,opc,n,in);
        run_begin(p.env,p.pol,p.seed,0,nullptr,nullptr,B(CRASH)|B(TERMINATE)|B(NOPROGRESS)|B(DEADLOCK),(u64)(plan_steps(p)*28)+8000000);
        X=&ex; ex.objs[0].h=sim_alloc(g_client.holder_size(),64,true,FILL_ZERO,PLACE_WIDE); g_client.init(ex.objs[0].h);
        u64 s0=0,s1=0; spawn_caller(0,[&]{ lib_start(); do_op(0,0); s0=steps_now(); do_op(1,0); s1=steps_now(); do_op(2,0); });
        bool ok=run_fibers({0});
        b.ok=ok && g_viol.empty() && ex.ophash[1]; b.hash=ex.ophash[1]; b.create_allocs=ex.ctx[0].nalloc; b.create_steps=s0; b.steps=s1-s0;
        run_end(); X=nullptr;
    }
    if (g_base.size()>200000) g_base.clear();
    g_base[k]=b; return b;
}
static u64 solo_allocs(int type,int n,int be) { Base b=baseline(type,n,be,type==2?0:0,0,1); return b.ok?b.create_allocs:20; }

#include "gen.h"

// ================================================================================================ one trial in a child process
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Shared { int cls; u64 hash; char detail[2000]; u64 nsw, ngr; int overflow; SwitchRec sw[400000]; GrantRec gr[100000]; u64 steps; int thread, op; };
static Shared* g_sh;
static bool trial(const Plan& p, u64 mask, Outcome& o, int timeout)
{
    if (!g_sh) g_sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
    g_sh->cls=-1; g_sh->nsw=g_sh->ngr=0; g_sh->detail[0]=0;
    fflush(0);
    pid_t pid=fork();
    if (pid==0) {
        signal(SIGALRM,SIG_DFL); alarm(timeout);
        itimerval tv{{3,0},{3,0}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
        names_enable();
        Outcome r=execute(p,mask);
        g_sh->hash=r.hash; snprintf(g_sh->detail,sizeof g_sh->detail,"%s",r.v.detail.c_str()); g_sh->nsw=r.sw.size(); g_sh->ngr=r.gr.size(); g_sh->overflow=r.overflow; g_sh->steps=r.st.steps; g_sh->thread=r.v.thread; g_sh->op=r.v.op;
        if (r.v.pc && (r.v.cls==V_OOB||r.v.cls==V_UAF||r.v.cls==V_RACE||r.v.cls==V_XRACE||r.v.cls==V_CONSTWRITE||r.v.cls==V_ALLOC)) { std::string d=r.v.detail+" in "+pc_name(r.v.pc); snprintf(g_sh->detail,sizeof g_sh->detail,"%s",d.c_str()); }
        memcpy(g_sh->sw,r.sw.data(),r.sw.size()*sizeof(SwitchRec)); memcpy(g_sh->gr,r.gr.data(),r.gr.size()*sizeof(GrantRec));
        g_sh->cls=r.v.cls;
        _exit(0);
    }
    int st=0; while (waitpid(pid,&st,0)<0) {}
    o=Outcome();
    if (WIFEXITED(st) && WEXITSTATUS(st)==77) _exit(77);
    if (WIFEXITED(st) && WEXITSTATUS(st)==2) return false;
    if (!WIFEXITED(st) || WEXITSTATUS(st)!=0 || g_sh->cls<0) {
        o.died=true; o.death=st;
        if (WIFSIGNALED(st) && WTERMSIG(st)==SIGALRM) return false;
        if (mask & B(CRASH)) { o.v.cls=V_CRASH; o.v.detail="the process running the library died"; } o.hash=0xdead; return true;
    }
    o.v.cls=g_sh->cls; o.v.detail=g_sh->detail; o.v.thread=g_sh->thread; o.v.op=g_sh->op; o.hash=g_sh->hash; o.overflow=g_sh->overflow; o.st.steps=g_sh->steps;
    o.sw.assign(g_sh->sw,g_sh->sw+g_sh->nsw); o.gr.assign(g_sh->gr,g_sh->gr+g_sh->ngr);
    return true;
}

// ================================================================================================ minimiser
static Plan minimise(Plan p, int cls, u64 mask, double budget)
{
    double end=now()+budget; int tries=0;
    auto left=[&]{ return now()<end; };
    auto fails=[&](const Plan& q, Outcome& o){ tries++; int lim=(int)std::max(5.0,std::min(120.0,end-now()+30)); return trial(q,mask,o,lim) && o.v.cls==cls; };
    Outcome o;
    auto attempt=[&](const Plan& q){ if (!left()) return false; Outcome t; if (fails(q,t)) { p=q; return true; } return false; };
    // callers
    for (int t=8;t>=1 && left();t--) { Plan q=p; q.ops.clear(); bool had=false; for (auto& x:p.ops) { if (x.thread==t) had=true; else q.ops.push_back(x); } if (had) attempt(q); }
    // operations, in shrinking chunks
    for (size_t chunk=std::max<size_t>(1,p.ops.size()/2); left(); chunk/=2) {
        for (size_t i=0;i<p.ops.size() && left();) { Plan q=p; size_t e=std::min(p.ops.size(),i+chunk); q.ops.erase(q.ops.begin()+i,q.ops.begin()+e); bool wf=true; for (size_t k=0;k<q.ops.size();k++) if (q.ops[k].sub>=0 && (k==0 || (q.ops[k-1].sub<0 && q.ops[k-1].kind!=OP_REGION))) wf=false; if (!wf || !attempt(q)) i+=chunk; }
        if (chunk<=1) break;
    }
    // environment and schedule
    { Plan q=p; q.grant=0; if (p.grant) attempt(q); }
    { Plan q=p; q.pol=Policy(); q.pol.kind=POL_RTB; q.pol.total=p.pol.total; if (p.pol.kind!=POL_RTB) attempt(q); }
    for (int nt : {1,2,3}) if (p.env.nthreads>nt) { Plan q=p; q.env.nthreads=nt; if (attempt(q)) break; }
    { Plan q=p; q.env.fill=FILL_ZERO; q.env.ufill=FILL_ZERO; if (p.env.fill||p.env.ufill) attempt(q); }
    { Plan q=p; q.env.place=PLACE_WIDE; if (p.env.place) attempt(q); }
    { Plan q=p; q.env.nested=0; if (p.env.nested) attempt(q); }
    { Plan q=p; q.env.stack=0; if (p.env.stack) attempt(q); }
    { Plan q=p; q.env.reuse=0; if (p.env.reuse) attempt(q); }
    { Plan q=p; q.env.icv=0; if (p.env.icv) attempt(q); }
    { Plan q=p; for (auto& x:q.ops) x.mx=x.my=0; attempt(q); }
    { Plan q=p; for (auto& x:q.ops) x.in=0; attempt(q); }
    { Plan q=p; for (auto& x:q.ops) x.fp=0; bool d=false; for (auto& x:p.ops) d|=x.fp!=0; if (d) attempt(q); }
    { Plan q=p; for (auto& x:q.ops) x.stm=-1; bool d=false; for (auto& x:p.ops) d|=x.stm>=0; if (d) attempt(q); }
    for (size_t i=0;i<p.ops.size() && left();i++) if (p.ops[i].fail) { Plan q=p; q.ops[i].fail=0; attempt(q); }
    // lengths
    for (size_t i=0;i<p.ops.size() && left();i++) if (p.ops[i].kind==OP_CREATE||p.ops[i].kind==OP_SETUP)
        for (int t=0;t<16 && left();t++) { int n=p.ops[i].n; if (n<4) break; int m=n/2; if (p.ops[i].type!=3 && (m&1)) break; Plan q=p; for (auto& x:q.ops) if ((x.kind==OP_CREATE||x.kind==OP_SETUP) && x.n==n) x.n=m; if (!attempt(q)) break; }
    // explicit schedule
    if (fails(p,o) && !o.overflow) {
        Plan q=p; q.explicit_sched=true; q.sw=o.sw; q.gr=o.gr; Outcome t;
        if (fails(q,t)) {
            p=q;
            auto shrink=[&](auto get){
                for (size_t chunk=std::max<size_t>(1,get(p).size()); left() && !get(p).empty(); chunk=(chunk+1)/2) {
                    for (size_t i=0;i<get(p).size() && left();) { Plan r=p; auto& v=get(r); size_t e=std::min(v.size(),i+chunk); v.erase(v.begin()+i,v.begin()+e); if (!attempt(r)) i+=chunk; }
                    if (chunk<=1) break;
                }
            };
            shrink([](Plan& x)->std::vector<SwitchRec>&{ return x.sw; });
            shrink([](Plan& x)->std::vector<GrantRec>&{ return x.gr; });
        }
    }
    fprintf(stderr,"minimiser: %d trials\n",tries);
    return p;
}

// ================================================================================================ commands
static std::string jstr(const std::string& s) { std::string o="\""; for (char c:s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if ((unsigned char)c<32) o+=' '; else o+=c; } return o+"\""; }
static std::string short_plan(const Plan& p)
{
    std::ostringstream s; static const char* pn[]={"run-to-block","random","pct","straggler","reverse","round-robin","sync-points","replay"}; static const char* gn[]={"full","random","always one","often short","one short"};
    s << "seed " << p.seed << "; threads " << p.env.nthreads << "; policy " << pn[p.pol.kind] << "/" << p.pol.quantum << "; grants " << gn[p.grant] << "; fill " << p.env.fill << "/" << p.env.ufill << " place " << p.env.place; if (p.env.reuse) s << "; addresses reused"; if (p.env.stack) s << "; stacks of " << p.env.stack << " KB"; s << "; ops:";
    int k=0; for (auto& o:p.ops) { if (++k>14) { s << " ..."; break; } s << " [" << o.thread << "]" << opname[o.kind] << "(" << o.obj; if (o.kind==OP_CREATE) s << "," << typname[o.type] << "," << bename[o.be]; if (o.kind==OP_CREATE||o.kind==OP_SETUP) s << "," << o.n; if (o.kind==OP_RUN) s << "," << opcname[o.opc]; if (o.fail) s << ",fail " << o.fail << ":" << o.fk; if (o.noalloc) s << ",no memory"; if (o.stm>=0) s << ",stall " << o.stm << "@" << o.sta; s << ")"; }
    return s.str();
}
static std::map<std::string,std::string> g_args;
static std::string arg(const char* k, const char* d="") { auto i=g_args.find(k); return i==g_args.end()?d:i->second; }
static u64 argn(const char* k, u64 d) { auto i=g_args.find(k); return i==g_args.end()?d:strtoull(i->second.c_str(),0,0); }

static int cmd_batch()
{
    std::string prop=arg("prop"), tier=arg("tier","quick"), out=arg("out"); u64 seed=argn("seed",1); int w=(int)argn("worker",0), W=(int)argn("workers",1);
    double t0=now(), deadline=t0+atof(arg("time","20").c_str()), hard=t0+atof(arg("hard","300").c_str());
    u64 mask=mask_of(prop); u64 idx=argn("start",w); u64 last=argn("count",~0ull);
    int statusfd=-1; { std::string s=arg("status"); if (!s.empty()) statusfd=(int)argn("statusfd",~0ull); }
    volatile u64* status=nullptr; { std::string s=arg("status"); if (!s.empty()) { FILE* f=fopen(s.c_str(),"w+"); if (f) { u64 z[2]={idx,0}; fwrite(z,8,2,f); fflush(f); status=(u64*)mmap(0,16,PROT_READ|PROT_WRITE,MAP_SHARED,fileno(f),0); fclose(f); } } } (void)statusfd;
    u64 M=mandatory(prop,tier); std::set<u64> skip; { std::istringstream s(arg("skip")); std::string t; while (std::getline(s,t,',')) skip.insert(strtoull(t.c_str(),0,0)); }
    Stats tot; u64 runs=0, nontriv=0; std::set<u64> hashes, shapes; u64 other[V_COUNT]={0}; std::vector<std::string> samples; u64 distinct_nt=0; std::map<std::string,u64> tags; u64 mandatory_done=0;
    bool verbose=!arg("verbose").empty();
    int rc=0; u64 vidx=0; Outcome vo;
    // a shared counter deals the run indices to the workers; what a run does depends on its index alone
    volatile u64* next=nullptr; { std::string s=arg("queue"); if (!s.empty()) { FILE* f=fopen(s.c_str(),"r+"); if (f) { next=(u64*)mmap(0,8,PROT_READ|PROT_WRITE,MAP_SHARED,fileno(f),0); fclose(f); } } }
    bool firstrun=true;
    std::vector<u64> list; { std::istringstream s(arg("list")); std::string x; while (std::getline(s,x,',')) list.push_back(strtoull(x.c_str(),0,0)); } size_t li=0;
    for (;; firstrun=false) {
        if (!list.empty()) { if (li>=list.size()) break; idx=list[li++]; } else if (next) idx=__atomic_fetch_add(next,1,__ATOMIC_SEQ_CST); else if (!firstrun) idx+=W;
        if (idx>=M && now()>deadline) break;
        if (now()>hard) break;
        if (idx>last) break;
        if (skip.count(idx)) continue;
        if (status) { status[0]=idx; status[1]=1; }
        Plan p=generate(prop,tier,seed,idx);
        if (p.ops.empty()) continue;
        double r0=now();
        Outcome o=execute(p,mask);
        if (verbose) printf("%llu %.2fs steps %llu est %.0f hash %016llx %s\n",(unsigned long long)idx,now()-r0,(unsigned long long)o.st.steps,plan_steps(p),(unsigned long long)o.hash,short_plan(p).c_str());
        if (verbose) fflush(stdout);
        runs++; tot.add(o.st); for (int i=0;i<V_COUNT;i++) other[i]+=o.other[i];
        if (idx<M) mandatory_done++;
        bool nt=o.st.regions_par>0 || o.st.alloc_fails || o.st.stalls || o.st.poisoned || o.st.unaligned_user || o.st.cpuid>4 || o.st.preempts;
        nontriv+=nt; tags[p.tag]++;
        if (nt && hashes.insert(o.hash).second) distinct_nt++;
        if ((runs==1||runs==7) ) samples.push_back(short_plan(p)+"; steps "+std::to_string(o.st.steps)+" switches "+std::to_string(o.st.switches)+" trace "+std::to_string(o.hash));
        if (o.v.cls) { vidx=idx; vo=o; rc=1; break; }
    }
    std::ofstream f(out.empty()?"/dev/stdout":out);
    f << "{\"runs\":" << runs << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << distinct_nt << ",\"mandatory\":" << M << ",\"mandatory_done\":" << mandatory_done << ",\"seconds\":" << now()-t0 << ",\"next\":" << idx << ",\"worst_ratio\":" << g_worst_ratio << ",\"worst\":" << jstr(g_worst_text) << ",\"stats\":{";
    bool first=true;
#define X(n) f << (first?"":",") << "\"" #n "\":" << tot.n; first=false;
    STAT_FIELDS(X)
#undef X
    f << "},\"tags\":{"; first=true; for (auto& t:tags) { f << (first?"":",") << jstr(t.first.empty()?"-":t.first) << ":" << t.second; first=false; }
    f << "},\"other\":{"; first=true; for (int i=1;i<V_COUNT;i++) if (other[i]) { f << (first?"":",") << jstr(vname[i]) << ":" << other[i]; first=false; }
    f << "},\"samples\":["; first=true; for (auto& s:samples) { f << (first?"":",") << jstr(s); first=false; }
    f << "]"; if (rc) f << ",\"violation\":{\"idx\":" << vidx << ",\"class\":" << jstr(vname[vo.v.cls]) << ",\"hash\":" << vo.hash << ",\"detail\":" << jstr(vo.v.detail) << "}";
    f << "}\n"; f.close();
    return rc;
}
static int cmd_minimise()
{
    std::string prop=arg("prop"), tier=arg("tier","quick"), out=arg("out"); u64 seed=argn("seed",1), idx=argn("idx",0); u64 mask=mask_of(prop);
    Plan p=generate(prop,tier,seed,idx);
    Outcome a,b;
    int lim=(int)argn("limit",240);
    double g0=now(); u64 seen=argn("hash",0);     // trace hash of the run the search saw, 0 if unknown
    if (!trial(p,mask,a,lim) || (!seen && !trial(p,mask,b,lim))) { fprintf(stderr,"gate: a run of the failing plan did not finish\n"); return 3; }
    double one=(now()-g0)/(seen?1:2);
    if (!a.v.cls) { fprintf(stderr,"gate: the violation does not reproduce\n"); return 3; }
    if (seen ? a.hash!=seen : (a.v.cls!=b.v.cls || a.hash!=b.hash)) { fprintf(stderr,"gate: two runs of one seed differ (%s/%016llx, %s/%016llx)\n",vname[a.v.cls],(unsigned long long)a.hash,vname[b.v.cls],(unsigned long long)(seen?seen:b.hash)); return 3; }
    double budget=atof(arg("time","60").c_str()); bool slow=one>20 && budget<200;
    Plan m=slow?p:minimise(p,a.v.cls,mask,budget);
    Outcome c=a; if (!slow) if (!trial(m,mask,c,lim) || c.v.cls!=a.v.cls) { m=p; if (!trial(m,mask,c,lim)) return 3; }
    std::ofstream f(out);
    f << "# replay: " << prop << ", found with VERIF_SEED=" << seed << " tier " << tier << " run " << idx << "\n";
    f << "# " << vname[c.v.cls] << ": " << c.v.detail << "\n";
    f << ser(m);
    f << "class " << vname[c.v.cls] << "\nhash " << c.hash << "\nsteps " << c.st.steps << "\n";
    f.close();
    printf("%s: %s\n",vname[c.v.cls],c.v.detail.c_str());
    return 0;
}
static int cmd_replay()
{
    std::ifstream f(arg("file")); Plan p; std::map<std::string,std::string> ex;
    if (!f || !deser(f,p,ex)) { fprintf(stderr,"cannot read replay file\n"); return 2; }
    Outcome o; if (!trial(p,mask_of(p.prop),o,(int)argn("limit",300))) { printf("replay did not finish\n"); return 3; }
    if (!o.v.cls) { printf("no violation\n"); return 0; }
    std::string want=ex.count("class")?ex["class"]:""; while (!want.empty()&&want[0]==' ') want.erase(0,1);
    u64 wh=ex.count("hash")?strtoull(ex["hash"].c_str(),0,10):0;
    printf("%s: %s\ntrace %llu%s\n",vname[o.v.cls],o.v.detail.c_str(),(unsigned long long)o.hash, want==vname[o.v.cls]&&wh==o.hash?" (identical to the recorded run)":" (differs from the recorded run)");
    return want==vname[o.v.cls]&&wh==o.hash ? 1 : 4;
}
static int cmd_show() { Plan p=generate(arg("prop"),arg("tier","quick"),argn("seed",1),argn("idx",0)); fputs(ser(p).c_str(),stdout); Outcome o=execute(p,mask_of(p.prop)); names_enable(); printf("steps %llu hash %016llx viol %s %s %s\n",(unsigned long long)o.st.steps,(unsigned long long)o.hash,vname[o.v.cls],o.v.detail.c_str(),o.v.pc?pc_name(o.v.pc).c_str():""); return o.v.cls!=0; }
// determinism: each plan twice, once after other work; different histories must not matter
static int cmd_determinism()
{
    u64 n=argn("count",50), seed=argn("seed",1), bad=0; std::string prop=arg("prop"), tier=arg("tier","quick"); u64 from=argn("from",0);
    std::map<u64,u64> h;
    for (u64 i=from;i<from+n;i++) { Plan p=generate(prop,tier,seed,i); h[i]=execute(p,mask_of(prop)).hash; }
    for (u64 i=from+n;i-->from;) { Plan p=generate(prop,tier,seed,i); u64 x=execute(p,mask_of(prop)).hash; if (x!=h[i]) { bad++; printf("differs: run %llu\n",(unsigned long long)i); } }
    u64 all=0; for (auto& k:h) all=hmix(all,k.second);
    printf("%s runs %llu differing %llu digest %016llx\n",prop.c_str(),(unsigned long long)n,(unsigned long long)bad,(unsigned long long)all);
    return bad!=0;
}
// schedule record -> explicit replay must reproduce the trace
static int cmd_replaycheck()
{
    u64 n=argn("count",50), seed=argn("seed",1), bad=0, sk=0; std::string prop=arg("prop"), tier=arg("tier","quick"); u64 from=argn("from",0);
    for (u64 i=from;i<from+n;i++) { Plan p=generate(prop,tier,seed,i); Outcome a=execute(p,mask_of(prop)); if (a.overflow) { sk++; continue; } Plan q=p; q.explicit_sched=true; q.sw=a.sw; q.gr=a.gr; Outcome b=execute(q,mask_of(prop)); if (a.hash!=b.hash) { bad++; size_t z=0; while (z<a.sw.size()&&z<b.sw.size()&&a.sw[z].at==b.sw[z].at&&a.sw[z].tid==b.sw[z].tid&&a.sw[z].target==b.sw[z].target&&a.sw[z].block==b.sw[z].block) z++; for (int w=0;w<2;w++) { auto& v=w?b.sw:a.sw; printf("  switch %zu of %zu:",z,v.size()); for (size_t i=z>3?z-3:0;i<z+4&&i<v.size();i++) printf(" (%d t%d>t%d @%llu)",v[i].block,v[i].tid,v[i].target,(unsigned long long)v[i].at); printf("\n"); } printf("differs: run %llu (%.60s) steps %llu/%llu\n",(unsigned long long)i,short_plan(p).c_str(),(unsigned long long)a.st.steps,(unsigned long long)b.st.steps); } }
    printf("%s runs %llu differing %llu skipped %llu\n",prop.c_str(),(unsigned long long)n,(unsigned long long)bad,(unsigned long long)sk);
    return bad!=0;
}
int main(int argc, char** argv)
{
    if (argc<2) { fprintf(stderr,"usage: simrun batch|minimise|replay|show|determinism|replaycheck --key value ...\n"); return 2; }
    // identical addresses for the library image in every process
    int pers=personality(0xffffffff);
    if (pers!=-1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("OTFFT_SIM_REEXEC")) { if (personality(pers|ADDR_NO_RANDOMIZE)!=-1) { setenv("OTFFT_SIM_REEXEC","1",1); execv("/proc/self/exe",argv); } }
    for (int i=2;i<argc;i++) if (!strncmp(argv[i],"--",2)) { std::string k=argv[i]+2, v="1"; if (i+1<argc && strncmp(argv[i+1],"--",2)) v=argv[++i]; g_args[k]=v; }
    std::string dir=argv[0]; { size_t s=dir.rfind('/'); dir=s==std::string::npos?".":dir.substr(0,s); }
    std::string so=arg("lib",(dir+"/liblib.so").c_str());
    CpuDesc h=host_cpu(); g_host_avx=cpu_avx(h); g_host_avx2=cpu_avx2(h);
    core_init(so.c_str());
    std::string c=argv[1];
    if (c=="selftest") { std::string why; bool ok=ref_selftest(why); printf("%s\n",ok?"reference self-test passed":why.c_str()); return !ok; }
    if (c=="batch") return cmd_batch();
    if (c=="minimise") return cmd_minimise();
    if (c=="replay") return cmd_replay();
    if (c=="show") return cmd_show();
    if (c=="determinism") return cmd_determinism();
    if (c=="replaycheck") return cmd_replaycheck();
    return 2;
}
