#include <omp.h>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <atomic>
#include <vector>
#include <future>
#include <memory>
#include <cstdlib>
#include <algorithm>
#include <cstdio>
#include <semaphore.h>
namespace probe {
static std::mutex m; static std::recursive_mutex rm; static std::once_flag of; 
static int once_n;
#define CK(c) do { if (!(c)) { fprintf(stderr,"PROBE %d: %s\n",__LINE__,#c); abort(); } } while (0)
static void omp_part(int n)
{
    std::vector<double> v(n*4,1.0); double* x=v.data(); double sum=0, mx=0; int cnt=0; bool ok=true; unsigned long long un=n;
#pragma omp parallel for reduction(+:sum) reduction(max:mx) reduction(+:cnt) reduction(&&:ok)
    for (int i=0;i<n;i++) { sum+=x[i]; mx=std::max(mx,x[i]*i); cnt++; ok=ok&&x[i]>0; }
    CK(sum==n && mx==n-1 && cnt==n && ok);
#pragma omp parallel for schedule(dynamic)
    for (int i=0;i<n;i++) x[i]++;
#pragma omp parallel for schedule(dynamic,4) num_threads(3)
    for (long i=0;i<n;i++) x[i]++;
#pragma omp parallel for schedule(guided)
    for (unsigned long long i=0;i<un;i++) x[i]++;
#pragma omp parallel for schedule(runtime)
    for (int i=0;i<n;i++) x[i]++;
#pragma omp parallel for schedule(runtime)
    for (unsigned long long i=0;i<un;i++) x[i]++;
#pragma omp parallel for schedule(static,3)
    for (int i=n-1;i>=0;i--) x[i]++;
#pragma omp parallel for schedule(dynamic,3)
    for (int i=n-1;i>=0;i-=1) x[i]++;
    for (int i=0;i<n;i++) CK(x[i]==8);
    std::vector<int> o;
#pragma omp parallel for ordered
    for (int i=0;i<n;i++) { x[i]++;
#pragma omp ordered
        o.push_back(i); }
#pragma omp parallel for ordered schedule(dynamic)
    for (int i=0;i<n;i++) { x[i]++;
#pragma omp ordered
        o.push_back(n+i); }
#pragma omp parallel for ordered schedule(dynamic,3)
    for (unsigned long long i=0;i<un;i++) { x[i]++;
#pragma omp ordered
        o.push_back(2*n+i); }
    CK((int)o.size()==3*n); for (int i=0;i<3*n;i++) CK(o[i]==i);
#pragma omp parallel for collapse(2) schedule(dynamic,2)
    for (int i=0;i<n;i++) for (int j=0;j<4;j++) x[i*4+j]=i*4+j;
    for (int i=0;i<4*n;i++) CK(x[i]==i);
    int last=-1;
#pragma omp parallel for lastprivate(last)
    for (int i=0;i<n;i++) last=i;
    CK(last==n-1);
    int sec=0, one=0, crit=0, at=0; std::fill(v.begin(),v.end(),0.0);
#pragma omp parallel
    {
#pragma omp for nowait
        for (int i=0;i<n;i++) x[i]++;
#pragma omp for schedule(dynamic,7) nowait
        for (int i=0;i<n;i++) x[n+i]++;
#pragma omp for schedule(static,7)
        for (int i=0;i<n;i++) x[2*n+i]++;
#pragma omp for schedule(monotonic:dynamic)
        for (int i=0;i<n;i++) x[i]+=x[n+i]+x[2*n+i];
#pragma omp single
        one++;
        double pv=0;
#pragma omp single copyprivate(pv)
        pv=3;
        CK(pv==3);
#pragma omp critical
        crit++;
#pragma omp critical(abc)
        crit+=0;
#pragma omp atomic
        at++;
#pragma omp sections
        {
#pragma omp section
#pragma omp atomic
            sec++;
#pragma omp section
#pragma omp atomic
            sec+=2;
        }
#pragma omp single
        {
            int a=0;
#pragma omp task shared(a)
            a=4;
#pragma omp taskwait
            CK(a==4);
#pragma omp taskloop
            for (int i=0;i<n;i++) x[i]++;
#pragma omp taskloop grainsize(3)
            for (unsigned long long i=0;i<un;i++) x[i]++;
#pragma omp taskgroup
            {
#pragma omp task
            x[3*n]=1;
            }
            CK(x[3*n]==1);
        }
    }
    CK(one==1 && sec==3 && crit==at && crit>=1); for (int i=0;i<n;i++) CK(x[i]==5);
}
static void cpp_part()
{
    std::call_once(of,[]{ once_n++; }); CK(once_n==1);
    static std::timed_mutex tm_; { std::unique_lock<std::timed_mutex> g(tm_,std::chrono::milliseconds(3)); CK(g.owns_lock()); }
    { std::lock_guard<std::mutex> g(m); std::lock_guard<std::recursive_mutex> a(rm), b(rm); }
    std::mutex lm; std::condition_variable cv; bool go=false; int y=0;
    std::thread t([&]{ std::lock_guard<std::mutex> g(lm); y=4; go=true; cv.notify_all(); });
    { std::unique_lock<std::mutex> g(lm); cv.wait(g,[&]{return go;}); CK(y==4); }
    t.join();
    std::thread t2([&]{ y=5; }); t2.join(); CK(y==5);
    auto fu=std::async(std::launch::async,[&]{ return 7; }); CK(fu.get()==7);
    std::thread t3([&]{ std::unique_lock<std::mutex> g(lm); cv.wait_for(g,std::chrono::milliseconds(1)); }); t3.join();
    std::shared_ptr<double> p=std::make_shared<double>(3); std::atomic_store(&p,std::make_shared<double>(4)); CK(*std::atomic_load(&p)==4);
    std::atomic<int> sp{0}; std::thread t4([&]{ sp.store(1,std::memory_order_release); }); while (!sp.load(std::memory_order_acquire)) ; t4.join();
    std::thread t5([&]{ sp=2; }); while (sp!=2) std::this_thread::yield(); t5.join();
    sem_t s; sem_init(&s,0,0); std::thread t6([&]{ sem_post(&s); }); sem_wait(&s); t6.join(); sem_destroy(&s);
    double w=omp_get_wtime(); std::this_thread::sleep_for(std::chrono::microseconds(1)); CK(omp_get_wtime()>=w);
}
struct R { ~R(){} };
static void run() { static std::atomic<int> c{0}; int k=c++; if (k%3==0) omp_part(5+k%40); else if (k%3==1) cpp_part(); }
}
