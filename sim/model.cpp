#include "model.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <memory>

template<class T> struct Cx { T re, im; };
template<class T> static inline Cx<T> operator*(Cx<T> a, Cx<T> b) { return {a.re*b.re-a.im*b.im, a.re*b.im+a.im*b.re}; }
template<class T> static inline Cx<T> operator+(Cx<T> a, Cx<T> b) { return {a.re+b.re,a.im+b.im}; }
template<class T> static inline Cx<T> operator-(Cx<T> a, Cx<T> b) { return {a.re-b.re,a.im-b.im}; }

// exp(i*2*pi*k/n) with the angle reduced to the first octant in exact integer arithmetic
template<class T> static Cx<T> unit(u64 k, u64 n)
{
    k %= n;
    u64 k8 = k*8; unsigned oct = (unsigned)(k8/n);   // n < 2^40: no overflow
    static const long double tau = 6.283185307179586476925286766559005768L;
    auto ang=[&](u64 num){ return (T)(tau*(long double)num/(long double)(8*n)); };   // num/8n of a turn
    T c,s,a;
    switch (oct) {
    case 0: a=ang(k8);        c= std::cos(a); s= std::sin(a); break;
    case 1: a=ang(2*n-k8);    c= std::sin(a); s= std::cos(a); break;
    case 2: a=ang(k8-2*n);    c=-std::sin(a); s= std::cos(a); break;
    case 3: a=ang(4*n-k8);    c=-std::cos(a); s= std::sin(a); break;
    case 4: a=ang(k8-4*n);    c=-std::cos(a); s=-std::sin(a); break;
    case 5: a=ang(6*n-k8);    c=-std::sin(a); s=-std::cos(a); break;
    case 6: a=ang(k8-6*n);    c= std::sin(a); s=-std::cos(a); break;
    default:a=ang(8*n-k8);    c= std::cos(a); s=-std::sin(a); break;
    }
    return {c,s};
}
template<class T> static void table(std::vector<Cx<T>>& w, size_t n, int sign)
{
    w.resize(n);
    for (size_t k=0;k<n;k++) { w[k]=unit<T>(k,n); if (sign<0) w[k].im=-w[k].im; }
}
// power of two: iterative, in place; table w of n/2 or more entries with stride
template<class T> static void fft2(Cx<T>* x, size_t n, const std::vector<Cx<T>>& w, size_t wn)
{
    for (size_t i=1,j=0;i<n;i++) { size_t b=n>>1; for (;j&b;b>>=1) j^=b; j^=b; if (i<j) std::swap(x[i],x[j]); }
    // depth-first blocks for cache use
    for (size_t len=2;len<=n;len<<=1) {
        size_t h=len/2, st=wn/len;
        if (len<=4096 && n>4096) {
            if (len==2) { // do all small stages block by block
                for (size_t b=0;b<n;b+=4096) for (size_t l=2;l<=4096;l<<=1) { size_t hh=l/2, ss=wn/l; for (size_t i=b;i<b+4096;i+=l) for (size_t k=0;k<hh;k++) { Cx<T> u=x[i+k], v=x[i+k+hh]*w[k*ss]; x[i+k]=u+v; x[i+k+hh]=u-v; } }
            }
            continue;
        }
        for (size_t i=0;i<n;i+=len) for (size_t k=0;k<h;k++) { Cx<T> u=x[i+k], v=x[i+k+h]*w[k*st]; x[i+k]=u+v; x[i+k+h]=u-v; }
    }
}
static size_t small_factor(size_t n) { for (size_t p=2;p*p<=n;p++) if (n%p==0) return p; return n; }
static size_t big_prime(size_t n) { size_t b=1; while (n>1) { size_t p=small_factor(n); b=std::max(b,p); n/=p; } return b; }
// general: recursive decimation in time by the smallest factor
template<class T> static void ct(const Cx<T>* in, size_t stride, Cx<T>* out, size_t n, const std::vector<Cx<T>>& w, size_t wn, Cx<T>* tmp)
{
    if (n==1) { out[0]=in[0]; return; }
    size_t p=small_factor(n), m=n/p;
    for (size_t r=0;r<p;r++) ct(in+r*stride, stride*p, tmp+r*m, m, w, wn, out+r*m);
    size_t ws=wn/n;
    for (size_t k=0;k<m;k++) for (size_t q=0;q<p;q++) {
        Cx<T> s=tmp[k]; size_t kk=k+q*m;
        for (size_t r=1;r<p;r++) s = s + tmp[r*m+k]*w[(r*kk%n)*ws];
        out[kk]=s;
    }
}
template<class T> static void dft(const cd* in, cd* out, size_t n, int sign)
{
    std::vector<Cx<T>> x(n), w;
    for (size_t i=0;i<n;i++) x[i]={(T)in[i].real(),(T)in[i].imag()};
    if (!(n&(n-1))) {
        table(w,n,sign); fft2(x.data(),n,w,n);
        for (size_t i=0;i<n;i++) out[i]=cd((double)x[i].re,(double)x[i].im);
        return;
    }
    if (big_prime(n)<=64) {
        table(w,n,sign); std::vector<Cx<T>> y(n), t(n);
        ct(x.data(),1,y.data(),n,w,n,t.data());
        for (size_t i=0;i<n;i++) out[i]=cd((double)y[i].re,(double)y[i].im);
        return;
    }
    // chirp: pk = (p^2+k^2-(k-p)^2)/2
    size_t L=1; while (L<2*n) L*=2;
    std::vector<Cx<T>> a(L,Cx<T>{0,0}), b(L,Cx<T>{0,0}), c(n);
    for (size_t p=0;p<n;p++) { u64 q=(u64)((unsigned __int128)p*p%(2*n)); c[p]=unit<T>(q,2*n); if (sign<0) c[p].im=-c[p].im; }
    for (size_t p=0;p<n;p++) { a[p]=x[p]*c[p]; Cx<T> v{c[p].re,-c[p].im}; b[p]=v; if (p) b[L-p]=v; }
    table(w,L,-1); fft2(a.data(),L,w,L); fft2(b.data(),L,w,L);
    for (size_t i=0;i<L;i++) { a[i]=a[i]*b[i]; a[i].im=-a[i].im; }
    fft2(a.data(),L,w,L);
    for (size_t k=0;k<n;k++) { Cx<T> v{a[k].re/(T)L,-a[k].im/(T)L}; v=v*c[k]; out[k]=cd((double)v.re,(double)v.im); }
}
void ref_dft(const cd* in, cd* out, size_t n, int sign)
{
    // scale extreme inputs to the unit range first: the transform is linear, powers of two are exact
    double mx=0; for (size_t i=0;i<n;i++) mx=std::max(mx,std::max(std::fabs(in[i].real()),std::fabs(in[i].imag())));
    int e=0; std::vector<cd> tmp; const cd* src=in;
    if (mx>0 && (mx>1e60||mx<1e-60)) { e=std::ilogb(mx); tmp.resize(n); for (size_t i=0;i<n;i++) tmp[i]=cd(std::ldexp(in[i].real(),-e),std::ldexp(in[i].imag(),-e)); src=tmp.data(); }
    if (n<=(1u<<16)+8) dft<long double>(src,out,n,sign); else dft<double>(src,out,n,sign);
    if (e) for (size_t i=0;i<n;i++) out[i]=cd(std::ldexp(out[i].real(),e),std::ldexp(out[i].imag(),e));
}
void ref_dct2(const double* in, double* out, size_t n)
{
    // even extension of length 2n: sum_{j<2n} v[j] e^{-2 pi i jk/2n} = 2 e^{i pi k/2n} X[k]
    std::vector<cd> v(2*n), V(2*n);
    for (size_t p=0;p<n;p++) { v[p]=in[p]; v[2*n-1-p]=in[p]; }
    ref_dft(v.data(),V.data(),2*n,-1);
    for (size_t k=0;k<n;k++) { Cx<long double> u=unit<long double>(4*(u64)n-(u64)k, 4*(u64)n); out[k]=(double)((u.re*V[k].real()-u.im*V[k].imag())/2); }
}
void ref_dct3(const double* in, double* out, size_t n)
{
    // X0 + 2 sum X[k] cos(pi k (2p+1)/2n) = Re sum_{k<2n} Z[k] e^{2 pi i k p/2n},  Z[k]=X[k] e^{i pi k/2n}, Z[2n-k]=conj(Z[k]), Z[n]=0
    std::vector<cd> z(2*n,cd(0,0)), Z(2*n);
    z[0]=in[0];
    for (size_t k=1;k<n;k++) { Cx<long double> u=unit<long double>((u64)k,4*(u64)n); z[k]=cd((double)(u.re*in[k]),(double)(u.im*in[k])); z[2*n-k]=std::conj(z[k]); }
    ref_dft(z.data(),Z.data(),2*n,+1);
    for (size_t p=0;p<n;p++) out[p]=Z[p].real();
}
bool ref_selftest(std::string& why)
{
    Rng r(99);
    for (size_t n : {1,2,3,4,6,7,8,16,30,97,128,134,210,262,1000}) {
        std::vector<cd> x(n), y(n); for (auto& v:x) v=cd(r.unit()*2-1,r.unit()*2-1);
        for (int sg : {-1,1}) {
            ref_dft(x.data(),y.data(),n,sg);
            for (size_t k=0;k<n;k++) { long double a=0,b=0; for (size_t p=0;p<n;p++) { long double t=sg*6.283185307179586476925286766559L*(long double)(p*k%n)/n, c=cosl(t), s=sinl(t); a+=x[p].real()*c-x[p].imag()*s; b+=x[p].real()*s+x[p].imag()*c; } if (fabsl(a-y[k].real())+fabsl(b-y[k].imag())>1e-13*n) { why="dft "+std::to_string(n); return false; } }
        }
        std::vector<double> d(n), f(n), g(n); for (auto& v:d) v=r.unit()*2-1;
        ref_dct2(d.data(),f.data(),n);
        for (size_t k=0;k<n;k++) { long double a=0; for (size_t p=0;p<n;p++) a+=d[p]*cosl(3.14159265358979323846264338327950L*k*(2*p+1)/(2.0L*n)); if (fabsl(a-f[k])>1e-13*n) { why="dct2 "+std::to_string(n); return false; } }
        ref_dct3(f.data(),g.data(),n);
        for (size_t k=0;k<n;k++) if (std::fabs(g[k]-d[k]*n)>1e-12*n) { why="dct3 "+std::to_string(n); return false; }
    }
    // large double path against the long double path through linearity: an impulse at index q
    size_t n=1u<<18; std::vector<cd> x(n),y(n); x[12345]=cd(0.5,-2); ref_dft(x.data(),y.data(),n,-1);
    for (size_t k=0;k<n;k+=997) { Cx<long double> u=unit<long double>((u64)k*12345%n,n); double re=(double)(0.5*u.re-(-2)*(-u.im)), im=(double)(-2*u.re+0.5*(-u.im)); if (std::fabs(re-y[k].real())+std::fabs(im-y[k].imag())>1e-12) { why="large dft"; return false; } }
    return true;
}
