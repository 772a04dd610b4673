// Client shim: compiled into the simulated library image with the library's own flags and instrumentation.
// It plays the application: uses only the public header, and opens its own OpenMP region for "call from
// within a caller's team" scenarios.
#include "otfft.h"
#include <new>
#include <typeinfo>
#include <omp.h>

namespace {
struct Holder {
    int type;
    OTFFT::ComplexFFTPtr c;
    OTFFT::RealFFTPtr r;
    OTFFT::RealDCTPtr d;
};
OTFFT::OptimizationType opt(int b)
{
    switch (b) {
#ifdef OTFFT_WITH_SSE2
    case 1: return OTFFT::OptimizationType::OPTIMIZED_FFT_SSE2;
#endif
#ifdef OTFFT_WITH_AVX
    case 2: return OTFFT::OptimizationType::OPTIMIZED_FFT_AVX;
#endif
#ifdef OTFFT_WITH_AVX2
    case 3: return OTFFT::OptimizationType::OPTIMIZED_FFT_AVX2;
#endif
    default: return OTFFT::OptimizationType::OPTIMIZED_FFT_AUTO;
    }
}
}

#define EXP extern "C" __attribute__((visibility("default")))

// the static initialisers and finalisers of the library, which the simulator runs instead of the loader
#define BOUND(n) extern "C" __attribute__((weak, visibility("hidden"))) void* n[];
BOUND(__start_sim_initp) BOUND(__stop_sim_initp) BOUND(__start_sim_init) BOUND(__stop_sim_init) BOUND(__start_sim_fini) BOUND(__stop_sim_fini)
EXP void oc_statics(void*** r)
{
    r[0] = __start_sim_initp; r[1] = __stop_sim_initp; r[2] = __start_sim_init; r[3] = __stop_sim_init; r[4] = __start_sim_fini; r[5] = __stop_sim_fini;
}
EXP size_t oc_holder_size() { return sizeof(Holder); }
EXP int oc_has(int b)
{
    switch (b) {
    case 0: return 1;
#ifdef OTFFT_WITH_SSE2
    case 1: return 1;
#endif
#ifdef OTFFT_WITH_AVX
    case 2: return 1;
#endif
#ifdef OTFFT_WITH_AVX2
    case 3: return 1;
#endif
    }
    return 0;
}
EXP __attribute__((no_sanitize("thread"))) void oc_holder_init(void* h) { new (h) Holder(); }

EXP void oc_create(void* hv, int type, int n, int backend)
{
    Holder* h = static_cast<Holder*>(hv);
    h->type = type;
    switch (type) {
    case 0: { auto p = OTFFT::Factory::createComplexFFT(n, opt(backend)); h->c = std::move(p); break; }
    case 1: { auto p = OTFFT::Factory::createRealFFT(n, opt(backend)); h->r = std::move(p); break; }
    case 2: { auto p = OTFFT::Factory::createDCT(n, opt(backend)); h->d = std::move(p); break; }
    case 3: { auto p = OTFFT::Factory::createBluesteinFFT(n, opt(backend)); h->c = std::move(p); break; }
    }
}
EXP void oc_setup(void* hv, int n)
{
    Holder* h = static_cast<Holder*>(hv);
    switch (h->type) {
    case 0: case 3: h->c->setup(n); break;
    case 1: h->r->setup(n); break;
    case 2: h->d->setup(n); break;
    }
}
EXP void oc_run(void* hv, int op, void* x, void* y)
{
    Holder* h = static_cast<Holder*>(hv);
    if (h->type == 0 || h->type == 3) {
        OTFFT::complex_vector z = static_cast<OTFFT::complex_vector>(x);
        switch (op) {
        case 0: h->c->fwd(z); break;
        case 1: h->c->fwd0(z); break;
        case 2: h->c->fwdu(z); break;
        case 3: h->c->fwdn(z); break;
        case 4: h->c->inv(z); break;
        case 5: h->c->inv0(z); break;
        case 6: h->c->invu(z); break;
        case 7: h->c->invn(z); break;
        }
    }
    else if (h->type == 1) {
        if (op < 4) {
            const double* a = static_cast<const double*>(x);
            OTFFT::complex_vector b = static_cast<OTFFT::complex_vector>(y);
            switch (op) {
            case 0: h->r->fwd(a, b); break;
            case 1: h->r->fwd0(a, b); break;
            case 2: h->r->fwdu(a, b); break;
            case 3: h->r->fwdn(a, b); break;
            }
        }
        else {
            OTFFT::complex_vector a = static_cast<OTFFT::complex_vector>(x);
            double* b = static_cast<double*>(y);
            switch (op) {
            case 4: h->r->inv(a, b); break;
            case 5: h->r->inv0(a, b); break;
            case 6: h->r->invu(a, b); break;
            case 7: h->r->invn(a, b); break;
            }
        }
    }
    else {
        double* a = static_cast<double*>(x);
        switch (op) {
        case 0: h->d->fwd(a); break;
        case 1: h->d->fwd0(a); break;
        case 3: h->d->fwdn(a); break;
        case 4: h->d->inv(a); break;
        case 5: h->d->inv0(a); break;
        case 7: h->d->invn(a); break;
        }
    }
}
EXP void oc_destroy(void* hv)
{
    Holder* h = static_cast<Holder*>(hv);
    h->c.reset(); h->r.reset(); h->d.reset();
}
EXP const char* oc_kind(void* hv)
{
    Holder* h = static_cast<Holder*>(hv);
    if (h->c) { OTFFT::ComplexFFT& o = *h->c; return typeid(o).name(); }
    if (h->r) { OTFFT::RealFFT& o = *h->r; return typeid(o).name(); }
    if (h->d) { OTFFT::RealDCT& o = *h->d; return typeid(o).name(); }
    return "";
}

// libgcc's processor description, should the library ask for it (__builtin_cpu_supports)
extern "C" {
struct { unsigned v[16]; } sim_cpu_model __attribute__((visibility("hidden"))) = {};
unsigned sim_cpu_features2[16] __attribute__((visibility("hidden"))) = {};
int sim_cpu_indicator_init() __attribute__((visibility("hidden")));
int sim_cpu_indicator_init() { return 0; }
}
EXP unsigned* oc_cpu_model() { return sim_cpu_model.v; }

// The application's own parallel region.
//  cb(ctx, member, phase): phase 0 by every member, phase 1 by one member only (single / master / critical).
//  hist[i] counts how often iteration i of the application's own loops ran; log[] records barrier order.
EXP void oc_region(int nt, int mode, void (*cb)(void*, int, int), void* ctx, int niter, int* hist, int* log)
{
    #pragma omp parallel num_threads(nt)
    {
        const int me = omp_get_thread_num();
        #pragma omp for schedule(static)
        for (int i = 0; i < niter; i++) hist[i]++;
        cb(ctx, me, 0);
        log[me] = 1;
        #pragma omp barrier
        for (int i = 0; i < omp_get_num_threads(); i++) if (log[i] != 1) log[32] = 1;
        #pragma omp barrier
        if (mode == 1) {
            #pragma omp single
            cb(ctx, me, 1);
        }
        else if (mode == 2) {
            #pragma omp master
            cb(ctx, me, 1);
            #pragma omp barrier
        }
        else if (mode == 3) {
            #pragma omp critical
            cb(ctx, me, 2);
        }
        #pragma omp for schedule(dynamic, 3)
        for (int i = 0; i < niter; i++) hist[niter + i]++;
        log[me] = 2;
        if (mode == 4) {
            #pragma omp for schedule(static, 1)
            for (int i = 0; i < 4; i++) cb(ctx, i, 3);
        }
        #pragma omp barrier
        for (int i = 0; i < omp_get_num_threads(); i++) if (log[i] != 2) log[33] = 1;
    }
}
