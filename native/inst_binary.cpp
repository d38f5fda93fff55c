// Instantiation of the member templates of the binary fields.
#include "all.hpp"
using namespace libff;
#define P(F, L) F vf_pow(const F &a, const bigint<L> &e) { F b = a; b ^= e; return a ^ e; }
#define Q(F) P(F, 1) P(F, 2) P(F, 3) P(F, 4) P(F, 6) \
  F vf_pow_ull(const F &a, unsigned long long e) { return power<F>(a, e); } F vf_pow_v(const F &a, const std::vector<unsigned long long> &e) { return power<F>(a, e); }
Q(gf32) Q(gf64) Q(gf128) Q(gf192) Q(gf256)
