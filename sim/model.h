// Reference transforms: written from the definition, independent of the library.
#pragma once
#include "core.h"
#include <complex>
typedef std::complex<double> cd;
// out[k] = sum_p in[p] exp(sign*2*pi*i*p*k/n), unscaled
void ref_dft(const cd* in, cd* out, size_t n, int sign);
// DCT-II: out[k] = sum_p in[p] cos(pi k (2p+1) / 2n)
void ref_dct2(const double* in, double* out, size_t n);
// "inverse": out[p] = in[0] + 2 sum_{k>=1} in[k] cos(pi k (2p+1)/2n); applied to ref_dct2 output gives n*in
void ref_dct3(const double* in, double* out, size_t n);
bool ref_selftest(std::string& why);
