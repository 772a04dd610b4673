// Workload generation: (property, tier, seed, run index) -> plan.  The first `mandatory` indices walk through
// fixed strata (lengths, operations, backends, fault positions); the rest is random.

static const int ALLOPS[8]={0,1,2,3,4,5,6,7};
static std::vector<int> ops_of(int type) { if (type==2) return {0,1,3,4,5,7}; return std::vector<int>(ALLOPS,ALLOPS+8); }
static int be_pick(Rng& r) { static const int k[]={0,3,3,2,1,1,2}; for (;;) { int b=k[r.below(7)]; if (b==0||host_can(b)) return b; } }
static int be_fix(int b) { return host_can(b)?b:1; }

static Policy mk_policy(Rng& r, double est)
{
    Policy p; p.total=(u64)std::max(est,200.0); p.depth=1+(int)r.below(6);
    switch (r.below(12)) {
    case 0: p.kind=POL_RTB; break;
    case 1: case 2: case 3: p.kind=POL_RANDOM; break;
    case 4: case 5: case 6: p.kind=POL_PCT; break;
    case 7: case 8: p.kind=POL_STRAGGLER; break;
    case 9: p.kind=POL_REVERSE; break;
    case 10: p.kind=POL_RR; break;
    default: p.kind=POL_HOT; }
    double lo=20, hi=std::max(est/2,100.0); p.quantum=(u64)(lo*pow(hi/lo,r.unit()));
    if (est/p.quantum>200000) p.quantum=(u64)(est/200000)+1;
    return p;
}
static int mk_in(Rng& r) { static const int kinds[]={0,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}; return (kinds[r.below(24)]<<4) | (int)r.below(3); }
static int mixed_n(Rng& r, int maxn, bool even)
{
    static const int f[]={2,2,2,3,3,5,5,7,3,2,11,13,2,4,6,8,9,25,49,17,19};
    int n=even?2:1; int target=(int)(4*pow(maxn/4.0,r.unit()));
    for (int t=0;t<40;t++) { int p=f[r.below(21)]; if (r.chance(0.02)) { static const int big[]={23,29,31,37,53,97,101,127,211,257}; p=big[r.below(10)]; } if ((i64)n*p<=maxn) n*=p; if (n>=target) break; }
    return n;
}

// lengths for which calls of this type run parallel regions
static int par_n(Rng& r, int type, int maxlog)
{
    maxlog=std::max(maxlog,14);
    for (;;) {
        int n;
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: case 4: case 5: n=1<<(13+r.below(std::max(1,maxlog-12))); if (type==1||type==2) n<<=1; break;
        case 6: case 7: case 8: { static const int m[]={49152,40960,36864,57344,50000,45000,33000,98304,81920,34992,61440,43200,33020,33614,39366,46656,78732,62500}; n=m[r.below(18)]; if (type==1||type==2) n*=2; break; }
        default: n=mixed_n(r,1<<16,true); if (n<32768) n*=2; }
        if (type==3) { n=(int)r.range(4096,1<<std::min(maxlog-1,16)); if (r.chance(0.3)) n=1<<(12+r.below(4)); }
        if (log2i(n)<=maxlog+1) return n;
    }
}
static int any_n(Rng& r, int type, int maxlog)
{
    double u=r.unit(); bool even=type!=3;
    if (u<0.4) { int l=1+(int)r.below(maxlog); if (l>13 && r.chance(0.5)) l=1+(int)r.below(13); return 1<<l; }
    if (u<0.75) return mixed_n(r,1<<std::min(maxlog,13),even);
    if (u<0.85) return even ? 2*(1+(int)r.below(600)) : 1+(int)r.below(1200);
    if (maxlog<13) return even ? 2*(1+(int)r.below(2000)) : 1+(int)r.below(2500);
    return par_n(r,type,maxlog);
}
static Plan base_plan(const std::string& prop, u64 seed, u64 idx, Rng& r)
{
    Plan p; p.prop=prop; p.seed=hmix(hmix(seed,idx),99); p.env.cpu=full_cpu();
    static const int nts[]={2,3,4,4,5,6,7,8}; { double u=r.unit(); p.env.nthreads=u<0.01?(int)r.range(25,64):u<0.025?(int)r.range(65,90):u<0.07?(int)r.range(9,24):nts[r.below(8)]; } p.env.hwconc=(int)r.range(1,16);
    p.env.race=0; p.env.memcheck=0; p.env.reuse=r.chance(0.35); { Rng q(hmix(p.seed,0x1C7)); if (q.chance(prop=="C08"?0.6:0.25)) p.env.icv=(int)q.below(8); }
    return p;
}
static Op mk_create(int th,int obj,int type,int n,int be) { Op o; o.thread=th; o.kind=OP_CREATE; o.obj=obj; o.type=type; o.n=n; o.be=be; return o; }
static Op mk_setup(int th,int obj,int n) { Op o; o.thread=th; o.kind=OP_SETUP; o.obj=obj; o.n=n; return o; }
static Op mk_run(int th,int obj,int opc,int in) { Op o; o.thread=th; o.kind=OP_RUN; o.obj=obj; o.opc=opc; o.in=in; return o; }
static Op mk_destroy(int th,int obj) { Op o; o.thread=th; o.kind=OP_DESTROY; o.obj=obj; return o; }
static Op mk_misc(int th,int kind,int n) { Op o; o.thread=th; o.kind=kind; o.n=n; return o; }
static int rnd_op(Rng& r,int type) { auto v=ops_of(type); return v[r.below(v.size())]; }
static void add_object(Plan& p, Rng& r, int th, int obj, int type, int n, int be)
{
    if (r.chance(0.06)) { p.ops.push_back(mk_create(th,obj,type,0,be)); p.ops.push_back(mk_setup(th,obj,n)); }      // the factory's default length
    else if (r.chance(0.2)) { int m=type==3?1+(int)r.below(300):2*(1+(int)r.below(150)); p.ops.push_back(mk_create(th,obj,type,m,be)); p.ops.push_back(mk_setup(th,obj,n)); }
    else p.ops.push_back(mk_create(th,obj,type,n,be));
}

// Every short length in turn: some lengths per run, one object set up again for each of them or a new one.
static const int SWEEP=10;
static int sweep_top(int prop, int type) { switch (prop) { case 14: case 15: return type==3?150:300; default: return type==0?700:type==3?400:1000; } }
static u64 sweep_runs(int prop, int type) { return (u64)((type==3?sweep_top(prop,type):sweep_top(prop,type)/2)+SWEEP-1)/SWEEP; }
static const u64 BIGTEAM=20;
template<class F> static void sweep(Plan& p, Rng& r, int prop, int type, u64 chunk, F each)
{
    p.tag="every short length"; auto all=ops_of(type); bool live=false;
    for (int i=chunk==0?(prop==14?-2:type!=3?-1:0):0;i<SWEEP;i++) {      // the degenerate lengths 0 (memory only) and 1 come first
        int n=(int)(chunk*SWEEP+i+1); if (i<0) n=prop==14?i+2:1; else if (type!=3) n*=2;
        if (n>sweep_top(prop,type)) break;
        if (live && r.chance(0.5)) { p.ops.push_back(mk_destroy(0,0)); live=false; }
        if (live) p.ops.push_back(mk_setup(0,0,n)); else p.ops.push_back(mk_create(0,0,type,n,be_fix(1+(int)((n/2+i+p.seed)%3)))); live=true;
        int off=(int)r.below(all.size()); for (size_t k=0;k<all.size();k++) { Op o=mk_run(0,0,all[(off+k)%all.size()],(int)r.below(3)); each(o); p.ops.push_back(o); }
    }
    if (live) p.ops.push_back(mk_destroy(0,0));
}

// ------------------------------------------------------------------------------------------------ C01-C04
struct Stratum { int n, be, nops, first; };
static const std::vector<Stratum>& strata(int type, const std::string& tier)
{
    static std::map<std::pair<int,std::string>,std::vector<Stratum>> cache;
    auto& v=cache[{type,tier}]; if (!v.empty()) return v;
    bool th=tier=="thorough"; int nall=(int)ops_of(type).size();
    int top = type==0?24:type==1?24:type==2?22:20; if (!th) top = type==0?24:type==1?23:type==2?22:19;
    int sh = type==3?2:type==0?0:-1;      // 2^(l+sh) points are transformed for a length of 2^l
    auto split=[&](int n,int b,int each) { for (int i=0;i<nall;i+=each) v.push_back({n,be_fix(b),std::min(each,nall-i),i}); };
    // beyond 2^24 powers of two are transformed by the mixed-radix kernels
    if (type==0) for (int i=0;i<nall;i+=th?1:4) v.push_back({1<<25,be_fix(th?1+i%3:3-i/4),1,i});
    if (type==1 && th) for (int i=0;i<nall;i+=4) v.push_back({1<<25,be_fix(3-i/4),1,i});
    if (type==0) v.push_back({92698,be_fix(3),1,nall/2});      // a prime factor above 46340: products of two indices leave 32 bits
    if (th && (type==1||type==2)) v.push_back({185396,be_fix(3),1,nall/2});
    for (int l=top;l>=23-sh;l--) { if (th) for (int b=1;b<=3;b++) split(1<<l,b,2); else for (int i=0;i<nall;i++) v.push_back({1<<l,be_fix(1+(l+type+i)%3),1,i}); }
    for (int l=std::min(top,22-sh);l>=21-sh;l--) for (int b=3;b>=1;b--) split(1<<l,b,th?4:2);
    for (int l=20-sh;l>=16-sh;l--) for (int b=3;b>=1;b--) split(1<<l,b,4);
    static const int bigmixed[]={122880,163840,196608,262144*3/2,32768*9,32768*5,100000,98304,90000,81920,78732,61440,57344,54000,50000,49152,46656,45000,40960,40000,36864,36000,33000,33614,34992,62500,60000,33028,32772,34398};
    static const int bigodd[]={300007,262147,200003,150000,131073,131071,100003,99991,87383,70001,65537,65535,40009,46349};
    int q=0;
    if (type==3) for (int n : bigodd) for (int i=0;i<nall;i+=2) { int k=q++; v.push_back({n,be_fix(1+k%3),2,i}); if (th) { v.push_back({n,be_fix(1+(k+1)%3),2,i}); v.push_back({n,be_fix(1+(k+2)%3),2,i}); } }
    else for (int n : bigmixed) { if (type && n<65536) n*=2; for (int b=1;b<=3;b++) { if (th || n<=65536) split(n,b,4); else for (int i=0;i<nall;i+=4) v.push_back({n,be_fix(1+(b+i/4)%3),std::min(2,nall-i),i+(b&1)*2}); } }
    for (int l=15-sh;l>=13-sh;l--) for (int b=3;b>=1;b--) split(1<<l,b,4);
    for (int l=12-sh;l>=(type==3?0:1);l--) for (int b=3;b>=1;b--) v.push_back({1<<l,be_fix(b),nall,0});
    static const int mixed[]={6,10,12,14,18,20,22,24,26,28,30,34,36,40,42,48,50,54,56,60,66,70,72,80,84,90,96,98,100,108,112,120,126,130,144,150,160,162,180,192,200,210,240,242,250,256*3,270,288,300,320,338,360,384,400,480,486,500,512*5,540,576,600,640,686,720,750,768,800,900,960,972,1000,1024*3,1080,1250,1296,1458,1500,1536*5,1800,2000,2310,2430,3072*3,3000,3600,4000,4374,4500,5000,5400,6000,6250,7000,7680,8100,9000,10000,
        12000,15000,16384*3/2,18000,20000,24300,25600,28672,30000,30030,32766,32770,65538,65540,131070,2*127,2*257,2*1009,4*509,8*251,16*127,2*5003};
    int k=0;
    for (int n : mixed) { if (type==3) { for (int d=-1;d<=(th?1:0);d++) if (n+d>0 && n<70000) v.push_back({n+d,be_fix(1+(k++)%3),3,k}); } else { if (type!=0) n*=1; v.push_back({n,be_fix(1+(k++)%3),n>60000?2:4,k}); if (th) { v.push_back({n,be_fix(1+k%3),nall,0}); v.push_back({n,be_fix(1+(k+1)%3),nall,0}); } } }
    if (type==3) for (int n : {1,2,3,4,5,7,9,11,13,15,17,19,23,25,31,33,63,65,127,129,251,257,509,511,513,1021,1023,1025,2047,2049,4095,4097,8191,8193,16383,16385,32767,32769,46341,30011}) v.push_back({n,be_fix(1+(k++)%3),n>60000?2:n<600?nall:3,k});
    return v;
}
static Plan gen_result(const std::string& prop, const std::string& tier, u64 seed, u64 idx, int type)
{
    Rng r(hmix(hmix(seed,idx),0xC01+type)); Plan p=base_plan(prop,seed,idx,r);
    auto& S=strata(type,tier); auto all=ops_of(type);
    int n,be,nops; std::vector<int> list;
    if (idx>=S.size() && idx<S.size()+sweep_runs(type+1,type)) { sweep(p,r,type+1,type,idx-S.size(),[](Op&){}); p.pol=mk_policy(r,plan_steps(p)); return p; }
    if (idx>=S.size()+sweep_runs(type+1,type) && idx<S.size()+sweep_runs(type+1,type)+BIGTEAM) {
        u64 q=idx-S.size()-sweep_runs(type+1,type); static const int L[4][5]={{32768,49152,40000,65536,1<<18},{65536,98304,80000,131072,1<<19},{65536,98304,80000,131072,1<<19},{16384,33000,65537,20011,1<<17}};
        n=L[type][q%5]; be=be_fix(1+(int)((q/5+q)%3)); nops=n>=(1<<17)?1:2; p.tag="large team"; static const int T[]={64,65,72,90,33}; p.env.nthreads=T[(q+q/5)%5]; p.grant=0;
        for (int i=0;i<nops;i++) list.push_back(all[((q/5)*2+i+q%5)%all.size()]);
        add_object(p,r,0,0,type,n,be); for (int o : list) p.ops.push_back(mk_run(0,0,o,(int)r.below(3))); p.ops.push_back(mk_destroy(0,0));
        p.pol=mk_policy(r,plan_steps(p)); return p;
    }
    if (idx<S.size()) { auto& s=S[idx]; n=s.n; be=s.be; nops=s.nops; p.tag="stratum";
        for (int i=0;i<nops;i++) list.push_back(all[(s.first+i)%all.size()]);
    }
    else { p.tag="random"; bool th=tier=="thorough"; int ml=th?19:17; n=!r.chance(0.4)?any_n(r,type,ml):type==3?(int)(4096*pow((th?1<<19:200000)/4096.0,r.unit())):par_n(r,type,ml); be=be_pick(r); nops=1+(int)r.below(n>60000?2:4); for (int i=0;i<nops;i++) list.push_back(all[r.below(all.size())]); }
    p.grant=(int)r.below(5); if (idx>=S.size() && n>=16384 && r.chance(0.08)) { p.env.nthreads=(int)r.range(60,90); p.grant=r.chance(0.8)?0:p.grant; }
    add_object(p,r,0,0,type,n,be);
    bool mand=idx<S.size();
    for (size_t i=0;i<list.size();i++) p.ops.push_back(mk_run(0,0,list[i], mand&&i<2 ? (int)r.below(3) : mk_in(r)));
    if (n<=4096 && mand) for (size_t i=0;i<list.size();i++) p.ops.push_back(mk_run(0,0,list[i],mk_in(r)));
    p.ops.push_back(mk_destroy(0,0));
    p.pol=mk_policy(r,plan_steps(p)); if (log2i(n)>=21) { p.pol.kind=r.chance(0.5)?POL_PCT:POL_HOT; }
    return p;
}

// ------------------------------------------------------------------------------------------------ shared pool of parallel cases
struct PCase { int type,n; };
static const std::vector<PCase>& par_cases(const std::string& tier)
{
    static std::map<std::string,std::vector<PCase>> cache; auto& v=cache[tier]; if (!v.empty()) return v;
    bool th=tier=="thorough";
    for (int l : {13,14,15,16,17,18,19,20,21,22}) { if (l>20&&!th) continue; v.push_back({0,1<<l}); if (l<=(th?20:18)) { v.push_back({1,2<<l}); if (l<=17||th) v.push_back({2,2<<l}); } if (l>=14&&l<=(th?19:17)) v.push_back({3,(1<<(l-1))-(l&1)*3}); }
    if (th) { v.push_back({0,1<<23}); v.push_back({0,1<<24}); }
    for (int n : {33020,36864,40960,45056,49152,50000,57344,78732,98304}) { v.push_back({0,n}); if (n==49152||n==50000||n==40960) { v.push_back({1,2*n}); v.push_back({2,2*n}); } }
    for (int n : {32768,65536,49152,40000}) { v.push_back({1,n}); v.push_back({2,n}); }
    return v;
}

// ------------------------------------------------------------------------------------------------ C05
static u64 sweep_all(int prop);
static Plan gen_c05(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC05)); Plan p=base_plan("C05",seed,idx,r);
    auto& S=par_cases(tier); int type,n,be; std::vector<int> list; bool th=tier=="thorough";
    u64 per=3;
    if (idx<S.size()*per) { // largest first
        std::vector<PCase> o(S); std::stable_sort(o.begin(),o.end(),[](const PCase&a,const PCase&b){return a.n>b.n;});
        auto c=o[idx/per]; type=c.type; n=c.n; be=be_fix(1+(int)(idx%per)); p.tag="stratum"; auto all=ops_of(type);
        if (n>(1<<19)) list={all[(idx*3+1)%all.size()]}; else if (n>(1<<17)) list={all[(idx*3)%(all.size()/2)],all[all.size()/2+(idx*5)%(all.size()/2)]}; else { for (size_t i=0;i<all.size();i+=(th?1:2)) list.push_back(all[(i+idx)%all.size()]); }
    }
    else { p.tag="random"; type=(int)r.below(4); n=par_n(r,type,th?19:17); be=be_pick(r); for (int i=0;i<2;i++) list.push_back(rnd_op(r,type)); }
    p.env.race=1; p.grant=r.chance(0.7)?0:r.chance(0.5)?4:3; if (idx>=S.size()*per && r.chance(0.05)) { p.env.nthreads=(int)r.range(60,90); p.grant=0; }
    add_object(p,r,0,0,type,n,be);
    for (int o : list) p.ops.push_back(mk_run(0,0,o,(int)r.below(3)));
    p.ops.push_back(mk_destroy(0,0));
    p.tol=0; p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C06
static Plan gen_c06(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC06)); Plan p=base_plan("C06",seed,idx,r);
    bool th=tier=="thorough"; auto& S=par_cases(tier); int type,n,be; std::vector<int> list;
    if (idx<S.size()*3) { std::vector<PCase> o(S); std::stable_sort(o.begin(),o.end(),[](const PCase&a,const PCase&b){return a.n>b.n;}); auto c=o[idx/3]; type=c.type; n=c.n; be=be_fix(1+(int)(idx%3)); p.tag="stratum"; auto all=ops_of(type);
        int m=n>(1<<18)?1:n>(1<<16)?2:(int)all.size()/2; for (int i=0;i<m;i++) list.push_back(all[(idx*3+i*(m==2?all.size()/2:1))%all.size()]); }
    else { p.tag="random"; type=(int)r.below(4); n=r.chance(0.85)?par_n(r,type,th?19:17):any_n(r,type,13); be=be_pick(r); for (int i=0;i<3;i++) list.push_back(rnd_op(r,type)); }
    { double u=r.unit(); p.env.nthreads=u<0.05?(int)r.range(60,90):u<0.1?(int)r.range(10,64):(int)r.range(1,9); } p.grant=(int)r.below(5);
    add_object(p,r,0,0,type,n,be); int in=(int)r.below(3);
    for (int o : list) p.ops.push_back(mk_run(0,0,o,in));
    p.ops.push_back(mk_run(0,0,list[r.below(list.size())],in));          // repeated
    if (r.chance(0.35)) { p.ops.insert(p.ops.begin()+r.below(2),mk_misc(0,OP_THREADS,(int)r.range(1,9))); for (int i=0;i<2;i++) p.ops.insert(p.ops.begin()+2+r.below(p.ops.size()-2),mk_misc(0,OP_THREADS,(int)r.range(1,9))); }
    if (r.chance(0.3) && n<(1<<18)) { p.ops.push_back(mk_setup(0,0,n)); p.ops.push_back(mk_run(0,0,list[0],in)); }   // tables built again by another team
    p.ops.push_back(mk_destroy(0,0));
    p.tol=0; p.bits=1; p.base_nt=1; p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C07
static Plan gen_c07(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC07)); Plan p=base_plan("C07",seed,idx,r);
    bool th=tier=="thorough"; auto& S=par_cases(tier); p.tol=0; p.grant=(int)r.below(5);
    if (idx<S.size()*2) {   // one caller, any grant, any stalled member
        std::vector<PCase> o(S); std::stable_sort(o.begin(),o.end(),[](const PCase&a,const PCase&b){return a.n>b.n;}); auto c=o[idx/2]; p.tag="one caller"; auto all=ops_of(c.type); int be=be_fix(1+(int)(idx%3));
        add_object(p,r,0,0,c.type,c.n,be); int m=c.n>(1<<18)?1:c.n>(1<<16)?2:(int)all.size();
        for (int i=0;i<m;i++) { Op o2=mk_run(0,0,all[(idx*5+i)%all.size()],0); o2.stm=(int)r.below(p.env.nthreads); o2.sta=(i64)(est_steps(c.type,c.n)/p.env.nthreads*r.unit()*1.1); p.ops.push_back(o2); }
        p.ops.push_back(mk_destroy(0,0));
    }
    else if (r.chance(0.35)) { p.tag="one caller"; int type=(int)r.below(4), n=any_n(r,type,th?18:16); add_object(p,r,0,0,type,n,be_pick(r)); for (int i=0;i<3;i++) { Op o=mk_run(0,0,rnd_op(r,type),0); if (r.chance(0.6)) { o.stm=(int)r.below(p.env.nthreads); o.sta=(i64)(est_steps(type,n)/p.env.nthreads*r.unit()*1.1); } p.ops.push_back(o); } p.ops.push_back(mk_destroy(0,0)); }
    else {   // one caller's call is held up for ever; the others must finish
        p.tag="stalled caller"; int k=2+(int)r.below(3); p.env.nthreads=(int)r.range(1,4);
        size_t warm=p.ops.size();
        int victim=1+(int)r.below(k); bool same=r.chance(0.6); int T=(int)r.below(4), N=r.chance(0.5)?any_n(r,T,12):par_n(r,T,15);
        for (int t=1;t<=k;t++) {
            int type=same?T:(int)r.below(4), n=same?N:r.chance(0.5)?any_n(r,type,12):par_n(r,type,15); int be=be_pick(r); size_t f=p.ops.size();
            int rounds=1+(int)r.below(2);
            for (int q=0;q<rounds;q++) { p.ops.push_back(mk_create(t,t,type,n,be)); for (int i=0;i<2;i++) p.ops.push_back(mk_run(t,t,rnd_op(r,type),0)); if (r.chance(0.4)) p.ops.push_back(mk_setup(t,t,n)); p.ops.push_back(mk_destroy(t,t)); }
            if (t==victim) { size_t i=f+r.below(p.ops.size()-f); Op& o=p.ops[i]; o.stm=r.chance(0.5)?0:(int)r.below(p.env.nthreads); double e=o.kind==OP_RUN?est_steps(type,n):o.kind==OP_DESTROY?20:est_setup(type,n); o.sta=(i64)(e/(r.chance(0.5)?1:p.env.nthreads)*r.unit()*r.unit()); }
        }
        // the library has been used once: everything the callers will use, so that nothing is left to initialise on first use
        std::vector<Op> w;
        for (auto& o : p.ops) if (o.kind==OP_CREATE) {
            bool seen=false; for (auto& q : w) if (q.kind==OP_CREATE && q.type==o.type && q.n==o.n && q.be==o.be) seen=true;
            if (seen) continue;
            w.push_back(mk_create(0,0,o.type,o.n,o.be)); w.push_back(mk_run(0,0,rnd_op(r,o.type),0)); w.push_back(mk_destroy(0,0));
        }
        p.ops.insert(p.ops.begin()+warm,w.begin(),w.end());
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C08
static Plan gen_c08(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC08)); Plan p=base_plan("C08",seed,idx,r);
    bool th=tier=="thorough"; auto& S=par_cases(tier); p.bits=1; p.tol=1; p.env.nthreads=(int)r.range(2,4); p.env.nested=r.chance(0.5); p.grant=r.chance(0.5)?0:(int)r.below(5); p.env.race=r.chance(0.7);
    int nt=(int)r.range(2,4), mode=(int)r.below(5); std::vector<PCase> cs; int what=0; bool tiny=false;
    if (idx<S.size()) { std::vector<PCase> o(S); std::stable_sort(o.begin(),o.end(),[](const PCase&a,const PCase&b){return a.n>b.n;}); auto c=o[idx]; p.tag="stratum"; if (c.n>(1<<18)) { mode=1+(int)(idx&1); cs={c}; nt=2+(int)r.below(2); } else { cs.assign(nt,c); if (mode==1||mode==2) cs.resize(1); } }
    else { p.tag="random"; int m=(mode==1||mode==2)?1:4; bool same=r.chance(0.5); tiny=r.chance(0.12); if (tiny) p.tag="tiny lengths"; for (int i=0;i<m;i++) { int type=(int)r.below(4); int n=tiny?(type==3?1+(int)r.below(12):2*(1+(int)r.below(10))):r.chance(0.6)?par_n(r,type,th?18:15):any_n(r,type,12); if (same&&i) cs.push_back(cs[0]); else cs.push_back({type,n}); } what=(int)r.below(4); }
    int th0=r.chance(0.3)?1:0;     // the region is opened by a thread other than the initial one
    for (size_t i=0;i<cs.size();i++) if (what!=2) p.ops.push_back(mk_create(th0,(int)i,cs[i].type, what==1?(cs[i].type==3?7:16):cs[i].n,be_fix(1+(int)r.below(3))));
    Op g; g.thread=th0; g.kind=OP_REGION; g.rnt=nt; g.rmode=mode; p.ops.push_back(g);
    for (size_t i=0;i<cs.size();i++) {
        auto put=[&](Op o){ o.sub=(int)i; p.ops.push_back(o); };
        if (what==1) put(mk_setup(th0,(int)i,cs[i].n));
        if (what==2) put(mk_create(th0,(int)i,cs[i].type,cs[i].n,be_fix(1+(int)r.below(3))));
        int k=cs[i].n>(1<<18)?1:tiny?6:2; for (int q=0;q<k;q++) put(mk_run(th0,(int)i,rnd_op(r,cs[i].type),(int)r.below(3)));
        if (what==2||what==3) put(mk_destroy(th0,(int)i));
    }
    if (what<2 && cs[0].n<=(1<<17)) p.ops.push_back(mk_run(th0,0,rnd_op(r,cs[0].type),0));
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C09
static Plan gen_c09(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC09)); Plan p=base_plan("C09",seed,idx,r);
    bool th=tier=="thorough"; p.bits=1; p.tol=1; p.env.race=1; p.grant=r.chance(0.8)?0:1;
    int k=2+(int)r.below(3); p.env.nthreads=(int)r.range(1,4);
    if (r.chance(0.5)) p.ops.push_back(mk_create(0,0,(int)r.below(4),16,be_pick(r)));
    if (r.chance(0.25)) {   // a shared, set-up real FFT
        p.tag="shared"; int n=r.chance(0.5)?par_n(r,1,16):any_n(r,1,14); p.ops.push_back(mk_create(0,9,1,n,be_pick(r)));
        for (int t=1;t<=k;t++) for (int i=0;i<2;i++) p.ops.push_back(mk_run(t,9,rnd_op(r,1),(int)r.below(3)));
        p.ops.push_back(mk_destroy(9,9));
    }
    else if (idx>=60 && r.chance(0.2)) {   // many callers with several small objects each
        p.tag="many callers"; k=3+(int)r.below(6); p.env.nthreads=(int)r.range(1,2); std::vector<int> pool; for (int i=0;i<3;i++) pool.push_back(2*(1+(int)r.below(r.chance(0.5)?30:250)));
        for (int t=1;t<=k;t++) {
            int m=1+(int)r.below(4), base=t*4; std::vector<int> ty(m,-1); int len=4+(int)r.below(10);
            for (int i=0;i<len;i++) { int o=(int)r.below(m); int n=pool[r.below(3)];
                if (ty[o]<0) { ty[o]=(int)r.below(4); p.ops.push_back(mk_create(t,base+o,ty[o],n,be_pick(r))); } else if (r.chance(0.2)) p.ops.push_back(mk_setup(t,base+o,n));
                p.ops.push_back(mk_run(t,base+o,rnd_op(r,ty[o]),(int)r.below(2)));
                if (r.chance(0.2)) { p.ops.push_back(mk_destroy(t,base+o)); ty[o]=-1; } }
            for (int o=0;o<m;o++) if (ty[o]>=0) p.ops.push_back(mk_destroy(t,base+o));
        }
    }
    else {
        p.tag="separate"; bool same=r.chance(0.55); int T=(int)r.below(4), N, be0=be_pick(r);
        if (idx<60) { // the same length in every caller, walking through the dispatch
            static const int Ls[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}; T=(int)(idx%4); same=true; if (idx<36) { N=1<<Ls[idx/2]; if (T==0&&idx%2) T=0; else if (idx/2>14&&T==3) T=0; } else { static const int ms[]={6,10,30,60,100,360,1000,3000,49152,40960,36864,50000}; N=ms[(idx-36)/2]; } p.tag="stratum"; }
        else N=r.chance(0.5)?par_n(r,T,th?17:15):any_n(r,T,12);
        for (int t=1;t<=k;t++) {
            int type=same?T:(int)r.below(4), n=same?N:r.chance(0.4)?par_n(r,type,15):any_n(r,type,12), be=same&&r.chance(0.7)?be0:be_pick(r);
            int rounds=n>20000?1:1+(int)r.below(3);
            if (r.chance(0.2)) p.ops.push_back(mk_misc(t,OP_THREADS,(int)r.range(1,5)));
            for (int q=0;q<rounds;q++) {
                add_object(p,r,t,t,type,n,be); int runs=n>20000?1+(int)r.below(2):2+(int)r.below(3);
                for (int i=0;i<runs;i++) p.ops.push_back(mk_run(t,t,rnd_op(r,type),(int)r.below(3)));
                if (r.chance(0.3) && n<20000) { int m=r.chance(0.5)?n:any_n(r,type,11); p.ops.push_back(mk_setup(t,t,m)); p.ops.push_back(mk_run(t,t,rnd_op(r,type),0)); }
                p.ops.push_back(mk_destroy(t,t));
            }
        }
    }
    p.pol=mk_policy(r,plan_steps(p)); if (p.pol.kind==POL_RTB) p.pol.kind=POL_RANDOM;
    return p;
}
// ------------------------------------------------------------------------------------------------ C10
static Plan gen_c10(const std::string& tier, u64 seed, u64 idx)
{
    (void)tier; Rng r(hmix(hmix(seed,idx),0xC10)); Plan p=base_plan("C10",seed,idx,r); p.tag="first use";
    p.bits=1; p.tol=1; p.env.race=1; p.env.memcheck=1; p.env.nthreads=(int)r.range(1,3); p.env.fill=r.chance(0.5)?FILL_ZERO:FILL_MIX; p.env.ufill=FILL_NAN;
    CpuDesc c=full_cpu();
    switch (r.below(8)) { case 0: c.ebx7=0; break; case 1: c.xcr0=3; break; case 2: c.ecx1&=~0x8000000u; break; case 3: c.leaf0=6; break; case 4: c.leaf0=0; break; default: break; }
    p.env.cpu=c;
    int k=2+(int)r.below(3); bool samebe=r.chance(0.4); int be0=be_pick(r);
    for (int t=1;t<=k;t++) {
        if (r.chance(0.5)) { Op y; y.thread=t; y.kind=OP_YIELD; y.n=(int)r.below(30); p.ops.push_back(y); }
        int type=(int)r.below(4), n=r.chance(0.9)?any_n(r,type,7):any_n(r,type,13); int be=samebe?be0:be_pick(r); if (r.chance(0.05)) be=3;
        p.ops.push_back(mk_create(t,t,type,n,be));
        for (int i=0;i<1+(int)r.below(2);i++) p.ops.push_back(mk_run(t,t,rnd_op(r,type),(int)r.below(3)));
        if (r.chance(0.7)) p.ops.push_back(mk_destroy(t,t));
        if (r.chance(0.3)) { p.ops.push_back(mk_create(t,t+4,(int)r.below(4),8,be_pick(r))); }
    }
    p.pol=mk_policy(r,600); if (r.chance(0.75)) { p.pol.kind=r.chance(0.6)?POL_RANDOM:r.chance(0.5)?POL_PCT:POL_HOT; p.pol.quantum=1+r.below(r.chance(0.5)?6:60); p.pol.total=150+r.below(2000); }
    return p;
}
// ------------------------------------------------------------------------------------------------ C11
static const int c11_n[4][12]={
    {2,8,64,60,1000,2048,49152,1<<14,1<<16,1<<17,1<<18,1<<19},
    {2,8,64,60,1000,2048,65536,1<<15,1<<16,1<<17,98304,1<<19},
    {2,8,64,60,1000,2048,65536,1<<15,1<<16,1<<17,98304,1<<18},
    {1,7,64,61,1000,2047,20011,1<<14,1<<15,40000,1<<16,1<<17}};
static Plan gen_c11(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC11)); Plan p=base_plan("C11",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=1; p.env.memcheck=1; p.env.fill=r.chance(0.5)?FILL_STALE:FILL_NAN; p.env.nthreads=(int)r.range(1,4);
    u64 M=4*12*3;
    if (idx<M) {
        u64 j=M-1-idx; int cls=(int)(j/12), type=(int)((j/3)%4), be=be_fix(1+(int)(j%3)); int n=c11_n[type][cls];
        if (th && cls==11) n<<=1;
        p.tag="every k"; u64 na=solo_allocs(type,n,be);
        int heavy=n>=(1<<17);
        p.ops.push_back(mk_create(0,1,type==3?0:3,type==3?8:9,be)); // a bystander
        for (u64 k=0;k<na;k++) { Op o=mk_create(0,0,type,n,be); o.fail=heavy||k%2?1:2; o.fk=(i64)k; p.ops.push_back(o); if (!heavy && k%3==0) p.ops.push_back(mk_destroy(0,0)); }
        int m=type==3?5:12; p.ops.push_back(mk_create(0,0,type,m,be));
        for (u64 k=0;k<na;k++) {
            Op o=mk_setup(0,0,n); o.fail=k%2?2:1; o.fk=(i64)k; p.ops.push_back(o);
            if (k%4==1) { p.ops.push_back(mk_destroy(0,0)); p.ops.push_back(mk_create(0,0,type,m,be)); }
            else if (k%4==2) { p.ops.push_back(mk_setup(0,0,m)); p.ops.push_back(mk_run(0,0,rnd_op(r,type),0)); }
            else if (k%4==3 && !heavy) { p.ops.push_back(mk_setup(0,0,n)); p.ops.push_back(mk_run(0,0,rnd_op(r,type),0)); }
        }
        p.ops.push_back(mk_setup(0,0,n)); p.ops.push_back(mk_run(0,0,rnd_op(r,type),0)); p.ops.push_back(mk_run(0,1,0,0));
        if (idx%2) { Op o=mk_setup(0,0,n); o.fail=4; p.ops.push_back(o); }
        p.ops.push_back(mk_destroy(0,0)); p.ops.push_back(mk_destroy(0,1));
    }
    else {
        p.tag="random"; int k=r.chance(0.3)?2:0;    // sometimes other callers are working meanwhile
        for (int t=k?1:0;t<=k;t++) {
            int type=(int)r.below(4), be=be_pick(r); bool live=false; int nops=4+(int)r.below(8); int n=2;
            for (int i=0;i<nops;i++) {
                bool fail=r.chance(0.55); int m=any_n(r,type,th?17:14); if (r.chance(0.05)) m=par_n(r,type,15);
                Op o; if (!live) { o=mk_create(t,t,type,m,be); } else o=mk_setup(t,t,m);
                if (fail) { int e=expect_backend(p.env.cpu,be); u64 na=n<40000?solo_allocs(type,m,e):20; o.fail=1+(int)r.below(4); o.fk=o.fail==3?(i64)(8*pow(2.0,r.unit()*18)):(i64)r.below(na+1); }
                p.ops.push_back(o); if (!fail) live=true; n=m;
                if (!fail || r.chance(0.3)) p.ops.push_back(mk_run(t,t,rnd_op(r,type),(int)r.below(3)));
                if (live && r.chance(0.25)) { p.ops.push_back(mk_destroy(t,t)); live=false; }
            }
            p.ops.push_back(mk_destroy(t,t));
        }
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C12
static const int SMALL_STACK=getenv("SIM_STACK")?atoi(getenv("SIM_STACK")):64;   // KB
static Plan gen_c12(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC12)); Plan p=base_plan("C12",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=1; p.env.fill=FILL_NAN; p.grant=(int)r.below(5);
    if (r.chance(0.5)) p.env.stack=SMALL_STACK;
    std::vector<std::pair<int,int>> C; 
    for (int type=0;type<4;type++) { for (int l=(type==3?0:1);l<=(type==0?20:type==3?16:18);l++) C.push_back({type,1<<l}); for (int n : {6,10,12,30,60,98,100,360,1000,1024*3,5000,40960,49152,50000}) C.push_back({type,n}); if (type==3) for (int n : {3,7,17,127,1021,4095,20011,40009}) C.push_back({type,n}); else { C.push_back({type,8002<<(type?1:0)}); for (int n : {2*1009,4*509,2*17*19,2*4*31*37}) C.push_back({type,n}); } }
    std::stable_sort(C.begin(),C.end(),[](const std::pair<int,int>&a,const std::pair<int,int>&b){return a.second>b.second;});
    auto one=[&](int th_,int obj,int type,int n,int be,int runs,bool every){
        add_object(p,r,th_,obj,type,n,be); auto all=ops_of(type); int off=(int)r.below(all.size());
        for (int i=0;i<runs;i++) { Op o=mk_run(th_,obj,all[(off+i*(every?1:3))%all.size()],(int)r.below(3)); o.noalloc=1; if (r.chance(0.5)) { o.mx=(int)r.below(r.chance(0.6)?8:64); o.my=(int)r.below(r.chance(0.6)?8:64); } if (r.chance(0.1)) p.ops.push_back(mk_misc(th_,OP_THREADS,(int)r.range(1,8))); p.ops.push_back(o); }
        Op d=mk_destroy(th_,obj); d.noalloc=1; p.ops.push_back(d);
    };
    if (idx<C.size()) { p.tag="stratum"; p.env.stack=SMALL_STACK; auto c=C[idx]; if (c.second%4001==0) { one(0,0,c.first,c.second,be_fix(1+(int)((idx+seed)%3)),1,true); p.pol=mk_policy(r,plan_steps(p)); return p; } one(0,0,c.first,c.second,be_fix(1+(int)((idx+seed)%3)),c.second>(1<<18)?2:c.second>(1<<16)?4:8,true); }
    else {
        int k=r.chance(0.4)?2+(int)r.below(2):0; p.tag=k?"several callers":"one caller";
        for (int t=k?1:0;t<=k;t++) { int type=(int)r.below(4); int n=any_n(r,type,th?19:15); one(t,t,type,n,be_pick(r),1+(int)r.below(4),false); }
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C13
static Plan gen_c13(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC13)); Plan p=base_plan("C13",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=0; p.env.nthreads=r.chance(0.5)?1:4; p.env.fill=r.chance(0.5)?FILL_STALE:FILL_ZERO; p.grant=0;
    int type=(int)r.below(4), be=be_pick(r); int nobj=1+(int)r.below(2);
    auto size=[&]{ double u=r.unit(); if (u<0.12) return par_n(r,type,th?17:15); if (u<0.55) { int l=(type==3?0:1)+(int)r.below(12); return 1<<l; } return any_n(r,type,12); };
    std::vector<int> ns; for (int i=0;i<4;i++) ns.push_back(size());
    if (idx<96) {   // pairs of neighbouring dispatch classes, both orders
        p.tag="stratum"; type=(int)(idx%4); static const int L[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18}; int i=(int)(idx/4)%18; int a=1<<L[i], b=1<<L[(i+1+r.below(16))%18]; if (type==3) { a=std::min(a,1<<15); b=std::min(b,1<<15); } ns={a,b,mixed_n(r,2000,true),a*2>(1<<18)?a:a*2}; nobj=1;
        for (int n : {ns[0],ns[1],ns[0],ns[2],ns[3],ns[1]}) { Op o= p.ops.empty()?mk_create(0,0,type,n,be):mk_setup(0,0,n); p.ops.push_back(o); for (int q=0;q<(n>(1<<15)?1:3);q++) p.ops.push_back(mk_run(0,0,rnd_op(r,type),(int)r.below(2))); }
    }
    else if (idx<126) {   // every operation, very often on one object
        p.tag="long use"; u64 q=idx-96; type=0; while (q>=ops_of(type).size()) q-=ops_of(type++).size(); nobj=1;
        p.ops.push_back(mk_create(0,0,type,type==3?1+(int)r.below(30):2*(1+(int)r.below(16)),be)); int len=th?9000:2200;
        for (int i=0;i<len;i++) p.ops.push_back(mk_run(0,0,ops_of(type)[q],0));
    }
    else if (r.chance(0.15)) {   // many objects alive at a time, of few lengths
        p.tag="many objects"; nobj=6+(int)r.below(th?60:30); std::vector<int> live(nobj,0), ty(nobj); int len=nobj*(2+(int)r.below(3));
        std::vector<int> pool; for (int i=0;i<3;i++) pool.push_back(2*(1+(int)r.below(r.chance(0.5)?40:300))); pool.push_back(1<<(1+r.below(9)));
        for (int i=0;i<len;i++) {
            int o=(int)r.below(nobj); int n=pool[r.below(pool.size())];
            if (!live[o]) { ty[o]=r.chance(0.7)?type:(int)r.below(4); p.ops.push_back(mk_create(0,o,ty[o],n,r.chance(0.7)?be:be_pick(r))); live[o]=1; }
            else if (r.chance(0.15)) p.ops.push_back(mk_setup(0,o,n));
            p.ops.push_back(mk_run(0,o,rnd_op(r,ty[o]),(int)r.below(2)));
            if (r.chance(0.12)) { p.ops.push_back(mk_destroy(0,o)); live[o]=0; }
        }
    }
    else if (r.chance(0.12)) {   // one or two objects used very often
        p.tag="long use"; int len=200+(int)r.below(th?6000:1500); bool setups=r.chance(0.4); int op=rnd_op(r,type); bool oneop=r.chance(0.4);
        auto small=[&]{ return type==3?1+(int)r.below(40):2*(1+(int)r.below(24)); }; int n1=small(), n2=small();
        for (int o=0;o<nobj;o++) p.ops.push_back(mk_create(0,o,type,n1,be));
        for (int i=0;i<len;i++) { int o=(int)r.below(nobj); if (setups&&r.chance(0.4)) p.ops.push_back(mk_setup(0,o,r.chance(0.5)?n1:n2)); p.ops.push_back(mk_run(0,o,oneop?op:rnd_op(r,type),(int)r.below(2))); }
    }
    else {
        p.tag="random"; int len=5+(int)r.below(th?25:12);
        for (int o=0;o<nobj;o++) p.ops.push_back(mk_create(0,o,type,ns[r.below(ns.size())],be));
        for (int i=0;i<len;i++) {
            int o=(int)r.below(nobj); double u=r.unit();
            if (u<0.4) { Op s=mk_setup(0,o,r.chance(0.06)?(int)r.below(2):r.chance(0.7)?ns[r.below(ns.size())]:size()); if (r.chance(0.2)) { s.fail=1+(int)r.below(4); s.fk=s.fail==3?(i64)(8*pow(2.0,r.unit()*16)):(i64)r.below(12); } p.ops.push_back(s); if (s.fail && r.chance(0.7)) p.ops.push_back(mk_setup(0,o,ns[r.below(ns.size())])); }
            else if (u<0.48) p.ops.push_back(mk_misc(0,OP_THREADS,(int)r.range(1,8)));
            else if (u<0.54) { p.ops.push_back(mk_destroy(0,o)); if (r.chance(0.3)) { p.ops.push_back(mk_create(0,o,type,0,be)); p.ops.push_back(mk_setup(0,o,ns[r.below(ns.size())])); } else p.ops.push_back(mk_create(0,o,type,ns[r.below(ns.size())],be)); }
            for (int q=0;q<1+(int)r.below(3);q++) { Op x=mk_run(0,o,rnd_op(r,type),(int)r.below(2)); if (r.chance(0.1)) x.in=mk_in(r); p.ops.push_back(x); }
        }
    }
    for (int o=0;o<nobj;o++) p.ops.push_back(mk_destroy(0,o));
    p.pol=Policy(); p.pol.kind=POL_RTB; p.pol.total=(u64)plan_steps(p);
    return p;
}
// ------------------------------------------------------------------------------------------------ C14
static Plan gen_c14(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC14)); Plan p=base_plan("C14",seed,idx,r); bool th=tier=="thorough";
    p.tol=0; p.env.memcheck=1; p.env.fill=r.chance(0.3)?FILL_ZERO:FILL_RANDOM; p.env.ufill=FILL_RANDOM; p.env.place=(int)r.below(3); p.grant=(int)r.below(5);
    std::vector<std::pair<int,int>> C;
    for (int type=0;type<4;type++) { for (int l=(type==3?0:1);l<=(type==0?(th?24:22):type==3?(th?18:16):(th?20:18));l++) C.push_back({type,1<<l}); for (int n : {6,10,12,14,18,22,26,30,34,50,60,98,100,242,360,1000,1024*3,5000,40960,49152,50000,98304}) C.push_back({type,n}); if (type==3) for (int n : {3,5,7,9,17,33,127,1021,4095,4097,20011,40009}) C.push_back({type,n}); }
    std::stable_sort(C.begin(),C.end(),[](const std::pair<int,int>&a,const std::pair<int,int>&b){return a.second>b.second;});
    auto mis=[&](Op& o){ o.mx=(int)r.below(r.chance(0.5)?8:64); o.my=(int)r.below(r.chance(0.5)?8:64); if (r.chance(0.08)) o.fp=1+(int)r.below(4); };
    if (idx>=300 && idx<300+sweep_all(14)) { u64 q=idx-300; int type=0; while (q>=sweep_runs(14,type)) q-=sweep_runs(14,type++); sweep(p,r,14,type,q,mis); p.pol=mk_policy(r,plan_steps(p)); return p; }
    if (idx<C.size()*2) {
        p.tag="stratum"; auto c=C[idx/2]; int type=c.first,n=c.second; auto all=ops_of(type);
        if (r.chance(0.3)) p.ops.push_back(mk_misc(0,OP_THREADS,1+(int)r.below(2)));
        add_object(p,r,0,0,type,n,be_fix(1+(int)((idx+idx/2+seed)%3))); if (p.ops[0].kind==OP_THREADS) p.ops.push_back(mk_misc(0,OP_THREADS,3+(int)r.below(6))); int m=n>(1<<18)?2:n>(1<<16)?4:(int)all.size();
        int off=(int)r.below(all.size()); for (int i=0;i<m;i++) { Op o=mk_run(0,0,all[(off+i*(m==2?all.size()/2:1))%all.size()],0); mis(o); p.ops.push_back(o); }
        if (n<=(1<<16)) { if (idx%3==0) { p.ops.push_back(mk_setup(0,0,(int)(idx&1))); p.ops.push_back(mk_run(0,0,all[off],0)); } p.ops.push_back(mk_setup(0,0,type==3?n+1:n*2)); Op o=mk_run(0,0,all[off],0); mis(o); p.ops.push_back(o); p.ops.push_back(mk_setup(0,0,n>3&&n%4==0?n/2:n)); o=mk_run(0,0,all[(off+3)%all.size()],0); mis(o); p.ops.push_back(o); }
        p.ops.push_back(mk_destroy(0,0));
    }
    else {
        int k=r.chance(0.25)?2+(int)r.below(2):0; p.tag=k?"several callers":"history";
        for (int t=k?1:0;t<=k;t++) {
            int type=(int)r.below(4), be=be_pick(r); bool live=false; int len=4+(int)r.below(10);
            for (int i=0;i<len;i++) {
                int n=r.chance(0.08)?(int)r.below(2):any_n(r,type,th?17:14); bool fail=r.chance(0.15); Op o=live?mk_setup(t,t,n):mk_create(t,t,type,n,be); if (fail) { o.fail=1+(int)r.below(4); o.fk=o.fail==3?(i64)(8*pow(2.0,r.unit()*16)):(i64)r.below(14); }
                p.ops.push_back(o); if (!fail) live=true;
                if (r.chance(0.15)) p.ops.push_back(mk_misc(t,OP_THREADS,(int)r.range(1,8)));
                for (int q=0;q<(int)r.below(4);q++) { Op x=mk_run(t,t,rnd_op(r,type),mk_in(r)); mis(x); p.ops.push_back(x); }
                if (live && r.chance(0.2)) { p.ops.push_back(mk_destroy(t,t)); live=false; }
            }
            if (r.chance(0.7)) p.ops.push_back(mk_destroy(t,t));
        }
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C15
static Plan gen_c15(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC15)); Plan p=base_plan("C15",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=1; p.env.nthreads=r.chance(0.5)?1:4; p.base_nt=0; p.grant=0;
    static const int fills[]={FILL_NAN,FILL_SNAN,FILL_INF,FILL_HUGE,FILL_DENORM,FILL_RANDOM,FILL_MIX,FILL_NAN}; p.env.fill=fills[(idx/3)%8]; p.env.ufill=fills[r.below(8)]; p.env.place=(int)(idx%3);
    std::vector<std::pair<int,int>> C;
    for (int type=0;type<4;type++) { for (int l=(type==3?0:1);l<=(type==0?(th?23:21):type==3?(th?18:16):(th?20:18));l++) C.push_back({type,1<<l}); for (int n : {6,10,12,14,18,22,26,30,34,50,60,98,100,242,360,1000,1024*3,5000,40960,49152,50000}) C.push_back({type,n}); if (type==3) for (int n : {3,5,7,9,17,33,127,1021,4095,4097,20011,40009}) C.push_back({type,n}); }
    std::stable_sort(C.begin(),C.end(),[](const std::pair<int,int>&a,const std::pair<int,int>&b){return a.second>b.second;});
    auto mis=[&](Op& o){ o.mx=(int)r.below(r.chance(0.6)?8:512); o.my=(int)r.below(r.chance(0.6)?8:512); };
    if (idx>=260 && idx<260+sweep_all(15)) { u64 q=idx-260; int type=0; while (q>=sweep_runs(15,type)) q-=sweep_runs(15,type++); sweep(p,r,15,type,q,mis); p.pol=mk_policy(r,plan_steps(p)); return p; }
    if (idx<C.size()*2) {
        p.tag="stratum"; auto c=C[idx/2]; int type=c.first,n=c.second; auto all=ops_of(type); add_object(p,r,0,0,type,n,be_fix(1+(int)((idx+idx/2+seed)%3)));
        int m=n>(1<<18)?1:n>(1<<16)?2:(int)all.size(); int off=(int)(r.below(all.size())); for (int i=0;i<m;i++) { Op o=mk_run(0,0,all[(off+i*(m==2?all.size()/2:1))%all.size()],n>1000?(int)r.below(3):mk_in(r)); mis(o); p.ops.push_back(o); }
        p.ops.push_back(mk_destroy(0,0));
    }
    else {
        p.tag="random"; int type=(int)r.below(4), be=be_pick(r); int n=any_n(r,type,th?18:15); p.env.fill=fills[r.below(8)]; p.env.place=(int)r.below(3);
        add_object(p,r,0,0,type,n,be); for (int i=0;i<(n>30000?2:6);i++) { Op o=mk_run(0,0,rnd_op(r,type),mk_in(r)); mis(o); p.ops.push_back(o); }
        if (r.chance(0.4)) { p.ops.push_back(mk_setup(0,0,any_n(r,type,12))); for (int i=0;i<3;i++) { Op o=mk_run(0,0,rnd_op(r,type),mk_in(r)); mis(o); p.ops.push_back(o); } }
        p.ops.push_back(mk_destroy(0,0));
    }
    p.pol=Policy(); p.pol.kind=POL_RTB; p.pol.total=(u64)plan_steps(p);
    return p;
}
// ------------------------------------------------------------------------------------------------ C16
struct CpuCase { CpuDesc c; };
static const std::vector<CpuDesc>& cpus()
{
    static std::vector<CpuDesc> v; if (!v.empty()) return v;
    for (u32 leaf : {0u,1u,6u,7u,13u}) for (int sse2=0;sse2<2;sse2++) for (int avx=0;avx<2;avx++) for (int xs=0;xs<3;xs++) for (int avx2=0;avx2<2;avx2++) for (u64 x : {1ull,3ull,5ull,7ull,0xE7ull}) {
        if (leaf<7 && avx2 && leaf!=6) continue;
        CpuDesc c; c.leaf0=leaf; c.edx1=(sse2?0x4000000u:0)|0x2000000u; c.ecx1=(avx?0x10000000u:0)|(xs>=1?0x4000000u:0)|(xs>=2?0x8000000u:0)|((avx&&avx2)?0x1000u:0)|1; c.ebx7=avx2?0x20:0; c.xcr0=x; v.push_back(c);
    }
    return v;
}
static const u64 C16_TRAP=24, C16_LEN=3*4*24;
static Plan gen_c16(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC16)); Plan p=base_plan("C16",seed,idx,r); (void)tier; p.tol=1; p.env.nthreads=1; p.env.fill=FILL_NAN;
    auto& V=cpus(); 
    auto small=[&](int type)->int { double u=r.unit(); if (u<0.5) return 1<<(1+r.below(8)); if (u<0.9) return mixed_n(r,200,type!=3); return type==3?1+(int)r.below(100):2*(1+(int)r.below(100)); };
    if (idx<C16_TRAP) {     // instruction by instruction
        p.tag="single-stepped"; p.env.step_trap=1; CpuDesc c=full_cpu(); int k=(int)(idx%6);
        switch (k) { case 0: break; case 1: c.ebx7=0; break; case 2: c.xcr0=3; break; case 3: c.ecx1&=~(0x10000000u|0x1000u); c.ebx7=0; break; case 4: c.ecx1=1; c.ebx7=0x20; break; default: c.leaf0=6; break; }
        if (k>=3) c.ecx1&=~(0x200u|0x80000u|0x100000u);
        p.env.cpu=c; int type=(int)(idx/6)%4;
        static const int tn[]={2,8,64,30,16,60,32,98}; int n=tn[idx%8];
        for (int be=0;be<4;be++) { if (!host_can(be)) continue; int t2=(type+be)%4; int m=be==0?n:2+2*(int)r.below(8); p.ops.push_back(mk_create(0,be,t2,m,be)); p.ops.push_back(mk_run(0,be,rnd_op(r,t2),0)); }
        for (int be=0;be<4;be++) p.ops.push_back(mk_destroy(0,be));
    }
    else {
        p.env.step_trap=2; u64 j=idx-C16_TRAP; int o=0;
        if (j<C16_LEN) {     // every length class under the least CPU its backend needs
            p.tag="length class"; int b=1+(int)(j%3), type=(int)(j/3)%4, l=(int)(j/12); CpuDesc c=full_cpu();
            if (b<3) { c.ebx7=0; c.ecx1&=~0x1000u; } if (b<2) { c.ecx1=1&~1; c.xcr0=3; c.leaf0=6; } if (r.chance(0.5)) c.ecx1&=~0x1000u;
            p.env.cpu=c; if (!host_can(b)) b=1; p.env.nthreads=(int)r.range(1,4);
            static const int mx[]={98,360,1000,5000,33020,40960,50000,49152,2310}; int top=type==0?20:type==3?16:18; int n= l<top ? 1<<(top-l) : mx[(l-top)%9]*(1);
            p.ops.push_back(mk_create(0,0,type,n,r.chance(0.5)?b:0)); int m=n>(1<<17)?2:n>(1<<14)?3:(int)ops_of(type).size(); auto all=ops_of(type); int off=(int)r.below(all.size());
            for (int i=0;i<m;i++) p.ops.push_back(mk_run(0,0,all[(off+i*(m==2?all.size()/2:1))%all.size()],0));
            p.ops.push_back(mk_setup(0,0,98)); p.ops.push_back(mk_run(0,0,rnd_op(r,type),0)); p.ops.push_back(mk_destroy(0,0));
        }
        else {
            j-=C16_LEN; p.tag="feature set"; CpuDesc c= j<V.size()?V[j]:V[r.below(V.size())]; bool big=false;
            if (j>=V.size()) { c.ecx1^=(u32)r.next()&0x00180201; c.edx1|=(u32)r.next()&~0x6000000u; c.ebx7|=(u32)r.next()&~0x20u; p.tag="random feature set"; big=true; p.env.nthreads=(int)r.range(1,4); p.grant=(int)r.below(5); }
            p.env.cpu=c;
            for (int be=0;be<4;be++) for (int type=0;type<4;type++) { int n=big&&r.chance(0.2)?any_n(r,type,tier=="thorough"?17:14):small(type); bool late=r.chance(0.15); p.ops.push_back(mk_create(0,o,type,late?0:n,be)); if (late) p.ops.push_back(mk_setup(0,o,n)); if (r.chance(0.6)) p.ops.push_back(mk_run(0,o,rnd_op(r,type),(int)r.below(3))); if (r.chance(0.5)) p.ops.push_back(mk_destroy(0,o)); o++; }
            if (r.chance(0.3)) for (int t=1;t<=2;t++) { int type=(int)r.below(4); p.ops.push_back(mk_create(t,20+t,type,small(type),(int)r.below(4))); p.ops.push_back(mk_run(t,20+t,rnd_op(r,type),0)); p.ops.push_back(mk_destroy(t,20+t)); }
        }
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C17
// Objects pass from thread to thread: each stage of their life runs on some thread, one after another.
static Plan gen_c17(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC17)); Plan p=base_plan("C17",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=1; p.env.race=1; p.env.memcheck=1; p.env.fill=r.chance(0.5)?FILL_NAN:FILL_STALE; p.grant=r.chance(0.7)?0:1; p.env.nthreads=(int)r.range(1,5); p.tag="handed over";
    int k=2+(int)r.below(4), nobj=1+(int)r.below(3), token=1; int gone=0;                 // gone: bit t set once caller t has ended
    struct O { int type,n,be,at; bool live; } ob[3]; std::vector<Op> seq; std::vector<int> last(10,-1);
    static const int Ls[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19};
    for (int i=0;i<nobj;i++) { ob[i].type=(int)r.below(4); ob[i].be=be_pick(r); ob[i].live=false; ob[i].at=0; int t=ob[i].type; ob[i].n= idx<76 && i==0 ? std::min(1<<Ls[(idx/4)%19],t==3?1<<15:1<<19) : r.chance(0.35)?par_n(r,t,th?17:15):any_n(r,t,13); if (idx<76&&i==0) { ob[i].type=t=(int)(idx%4); if (t==3) ob[i].n=std::min(ob[i].n,1<<15); p.tag="stratum"; } }
    std::vector<int> alive; for (int t=1;t<=k;t++) alive.push_back(t);
    auto emit=[&](Op o){ seq.push_back(o); };
    auto visit=[&](int i, int t) {          // make object i available to thread t
        if (ob[i].at==t) return;
        int from=ob[i].at;
        if (from>=1 && from<=8) {
            if (!(gone>>from&1) && alive.size()>2 && r.chance(0.3)) { for (int q=0;q<nobj;q++) if (q!=i && ob[q].at==from && ob[q].live) { emit(mk_misc(from,OP_GIVE,token)); emit(mk_misc(t,OP_WAIT,token)); token++; ob[q].at=t; } gone|=1<<from; alive.erase(std::find(alive.begin(),alive.end(),from)); }
            if (gone>>from&1) emit(mk_misc(t,OP_JOIN,from)); else { emit(mk_misc(from,OP_GIVE,token)); emit(mk_misc(t,OP_WAIT,token)); token++; }
        }
        ob[i].at=t;
    };
    int stages=6+(int)r.below(th?16:9);
    for (int i=0;i<nobj;i++) if (r.chance(0.25)) { emit(mk_create(0,i,ob[i].type,ob[i].n,ob[i].be)); ob[i].live=true; if (r.chance(0.5)) emit(mk_run(0,i,rnd_op(r,ob[i].type),(int)r.below(3))); }
    for (int sidx=0;sidx<stages;sidx++) {
        int i=(int)r.below(nobj); int t=alive[r.below(alive.size())]; visit(i,t); O& o=ob[i];
        if (r.chance(0.1)) emit(mk_misc(t,OP_THREADS,(int)r.range(1,5)));
        if (!o.live) { if (r.chance(0.15)) { emit(mk_create(t,i,o.type,0,o.be)); o.live=true; int t2=alive[r.below(alive.size())]; visit(i,t2); emit(mk_setup(t2,i,o.n)); } else { emit(mk_create(t,i,o.type,o.n,o.be)); o.live=true; } if (r.chance(0.4)) emit(mk_run(t=o.at,i,rnd_op(r,o.type),(int)r.below(3))); continue; }
        double u=r.unit();
        if (u<0.55) { int m=1+(int)r.below(2); for (int q=0;q<m;q++) emit(mk_run(t,i,rnd_op(r,o.type),(int)r.below(3))); }
        else if (u<0.85) { int n=r.chance(0.3)?o.n:any_n(r,o.type,12); emit(mk_setup(t,i,n)); if (r.chance(0.4)) emit(mk_run(t,i,rnd_op(r,o.type),(int)r.below(3))); }
        else { emit(mk_destroy(t,i)); o.live=false; o.at=t; }
        if (r.chance(0.15)) { int x=alive[r.below(alive.size())]; int ty=(int)r.below(4), ob2=10+x; emit(mk_create(x,ob2,ty,any_n(r,ty,9),be_pick(r))); emit(mk_run(x,ob2,rnd_op(r,ty),0)); if (r.chance(0.6)) emit(mk_destroy(x,ob2)); else { emit(mk_setup(x,ob2,any_n(r,ty,8))); emit(mk_destroy(x,ob2)); } }
    }
    // what is left goes to the main thread after every caller has ended
    for (int i=0;i<nobj;i++) if (ob[i].live) { if (r.chance(0.7)) emit(mk_run(9,i,rnd_op(r,ob[i].type),(int)r.below(3))); if (r.chance(0.3)) { emit(mk_setup(9,i,any_n(r,ob[i].type,10))); emit(mk_run(9,i,rnd_op(r,ob[i].type),0)); } emit(mk_destroy(9,i)); }
    p.ops=seq;
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
// ------------------------------------------------------------------------------------------------ C18
// Objects with the lifetime of the process: made before the library's own statics, used after its exit handlers.
static Plan gen_c18(const std::string& tier, u64 seed, u64 idx)
{
    Rng r(hmix(hmix(seed,idx),0xC18)); Plan p=base_plan("C18",seed,idx,r); bool th=tier=="thorough";
    p.bits=1; p.tol=1; p.env.memcheck=1; p.env.fill=r.chance(0.5)?FILL_NAN:FILL_STALE; p.grant=(int)r.below(5); p.env.nthreads=(int)r.range(1,5);
    int nobj=1+(int)r.below(4); int types[4], before[4]; std::vector<int> live;
    bool early=idx%4!=3, late=idx%4!=1; p.tag=early&&late?"start and exit":early?"before start":"after exit";
    auto size=[&](int type){ return r.chance(0.25)?par_n(r,type,th?17:15):any_n(r,type,r.chance(0.3)?13:11); };
    static const int L[]={1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18};
    for (int i=0;i<nobj;i++) {
        int type=types[i]=i==0?(int)((idx/4)%4):(int)r.below(4); before[i]=early && (i==0||r.chance(0.6)); int n=i==0&&idx<288?1<<L[(idx/16)%18]:size(type); if (type==3) n=std::min(n,1<<15);
        if (before[i]) { add_object(p,r,0,i,type,n,be_pick(r)); live.push_back(i); if (r.chance(0.6)) p.ops.push_back(mk_run(0,i,rnd_op(r,type),(int)r.below(3))); if (r.chance(0.2)) { p.ops.push_back(mk_setup(0,i,size(type))); p.ops.push_back(mk_run(0,i,rnd_op(r,type),(int)r.below(3))); } }
    }
    p.ops.push_back(mk_misc(0,OP_START,0));
    for (int i=0;i<nobj;i++) {
        if (!before[i]) { add_object(p,r,0,i,types[i],size(types[i]),be_pick(r)); live.push_back(i); }
        int m=(int)r.below(3); for (int q=0;q<m;q++) p.ops.push_back(mk_run(0,i,rnd_op(r,types[i]),(int)r.below(3)));
        if (r.chance(0.2)) { p.ops.push_back(mk_setup(0,i,size(types[i]))); p.ops.push_back(mk_run(0,i,rnd_op(r,types[i]),(int)r.below(3))); }
    }
    if (r.chance(0.3)) for (int t=1;t<=2;t++) { int type=(int)r.below(4); p.ops.push_back(mk_create(t,20+t,type,any_n(r,type,10),be_pick(r))); p.ops.push_back(mk_run(t,20+t,rnd_op(r,type),0)); p.ops.push_back(mk_destroy(t,20+t)); }
    if (late) p.ops.push_back(mk_misc(9,OP_EXIT,0));
    for (int i : live) {
        int m=(int)r.below(3); for (int q=0;q<m;q++) p.ops.push_back(mk_run(9,i,rnd_op(r,types[i]),(int)r.below(3)));
        if (r.chance(0.25)) { p.ops.push_back(mk_setup(9,i,size(types[i]))); p.ops.push_back(mk_run(9,i,rnd_op(r,types[i]),(int)r.below(3))); }
        p.ops.push_back(mk_destroy(9,i));
    }
    p.pol=mk_policy(r,plan_steps(p));
    return p;
}
static u64 sweep_all(int prop) { u64 k=0; for (int t=0;t<4;t++) k+=sweep_runs(prop,t); return k; }
static u64 mandatory(const std::string& prop, const std::string& tier)
{
    int i=atoi(prop.c_str()+1); u64 par=par_cases(tier).size();
    switch (i) { case 1: case 2: case 3: case 4: return strata(i-1,tier).size()+sweep_runs(i,i-1)+BIGTEAM; case 5: case 6: return par*3; case 7: return par*2+200; case 8: return par+100; case 9: return 120; case 10: return 400; case 11: return 4*12*3; case 12: return 120; case 13: return 160; case 14: return 300+sweep_all(14); case 15: return 260+sweep_all(15); case 16: return C16_TRAP+C16_LEN+cpus().size(); case 17: return 250; case 18: return 288; }
    return 0;
}
static Plan generate(const std::string& prop, const std::string& tier, u64 seed, u64 idx)
{
    int i=atoi(prop.c_str()+1);
    switch (i) {
    case 1: case 2: case 3: case 4: return gen_result(prop,tier,seed,idx,i-1);
    case 5: return gen_c05(tier,seed,idx); case 6: return gen_c06(tier,seed,idx); case 7: return gen_c07(tier,seed,idx); case 8: return gen_c08(tier,seed,idx);
    case 9: return gen_c09(tier,seed,idx); case 10: return gen_c10(tier,seed,idx); case 11: return gen_c11(tier,seed,idx); case 12: return gen_c12(tier,seed,idx);
    case 13: return gen_c13(tier,seed,idx); case 14: return gen_c14(tier,seed,idx); case 15: return gen_c15(tier,seed,idx); case 16: return gen_c16(tier,seed,idx); case 17: return gen_c17(tier,seed,idx); case 18: return gen_c18(tier,seed,idx);
    }
    return Plan();
}
