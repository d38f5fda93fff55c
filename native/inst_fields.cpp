// Explicit instantiation of the real templates at the types the library uses;
// contains no logic of its own.
#include "all.hpp"
namespace libff {
#define FP(n,m) template class Fp_model<n, m>;
FP(alt_bn128_r_limbs, alt_bn128_modulus_r)
FP(alt_bn128_q_limbs, alt_bn128_modulus_q)
FP(bls12_381_r_limbs, bls12_381_modulus_r)
FP(bls12_381_q_limbs, bls12_381_modulus_q)
FP(edwards_r_limbs, edwards_modulus_r)
FP(edwards_q_limbs, edwards_modulus_q)
FP(mnt4_r_limbs, mnt4_modulus_r)
FP(mnt4_q_limbs, mnt4_modulus_q)
template class Fp2_model<alt_bn128_q_limbs, alt_bn128_modulus_q>;
template class Fp2_model<bls12_381_q_limbs, bls12_381_modulus_q>;
template class Fp2_model<mnt4_q_limbs, mnt4_modulus_q>;
template class Fp3_model<edwards_q_limbs, edwards_modulus_q>;
template class Fp3_model<mnt6_q_limbs, mnt6_modulus_q>;
template class Fp4_model<mnt4_q_limbs, mnt4_modulus_q>;
template class Fp6_2over3_model<edwards_q_limbs, edwards_modulus_q>;
template class Fp6_2over3_model<mnt6_q_limbs, mnt6_modulus_q>;
template class Fp6_3over2_model<alt_bn128_q_limbs, alt_bn128_modulus_q>;
template class Fp6_3over2_model<bls12_381_q_limbs, bls12_381_modulus_q>;
template class Fp12_2over3over2_model<alt_bn128_q_limbs, alt_bn128_modulus_q>;
template class Fp12_2over3over2_model<bls12_381_q_limbs, bls12_381_modulus_q>;
}
using namespace libff;
// scalar * extension-element operators are free friend templates
#define SC(A,B) B vf_scalar_mul(const A &a, const B &b) { return a * b; }
SC(alt_bn128_Fq, alt_bn128_Fq2) SC(alt_bn128_Fq, alt_bn128_Fq6) SC(alt_bn128_Fq2, alt_bn128_Fq6)
SC(alt_bn128_Fq, alt_bn128_Fq12) SC(alt_bn128_Fq2, alt_bn128_Fq12) SC(alt_bn128_Fq6, alt_bn128_Fq12)
SC(bls12_381_Fq, bls12_381_Fq2) SC(bls12_381_Fq, bls12_381_Fq6) SC(bls12_381_Fq2, bls12_381_Fq6)
SC(bls12_381_Fq, bls12_381_Fq12) SC(bls12_381_Fq2, bls12_381_Fq12) SC(bls12_381_Fq6, bls12_381_Fq12)
SC(mnt4_Fq, mnt4_Fq2) SC(mnt4_Fq, mnt4_Fq4) SC(mnt4_Fq2, mnt4_Fq4)
SC(edwards_Fq, edwards_Fq3) SC(edwards_Fq, edwards_Fq6)
SC(mnt6_Fq, mnt6_Fq3) SC(mnt6_Fq, mnt6_Fq6)
// member templates are instantiated only by use
#define EXP(F, L) F vf_pow(const F &a, const bigint<L> &e) { return a ^ e; } \
  F vf_pow_ul(const F &a, unsigned long e) { return a ^ e; } F vf_pow_ull(const F &a, unsigned long long e) { return power<F>(a, e); } \
  F vf_pow_v(const F &a, const std::vector<unsigned long long> &e) { return power<F>(a, e); }
#define EXPF(F, S) F vf_powf(const F &a, const S &e) { return a ^ e; }
EXP(alt_bn128_Fq2, 4) EXP(alt_bn128_Fq6, 4) EXP(alt_bn128_Fq12, 4) EXP(bls12_381_Fq2, 6) EXP(bls12_381_Fq6, 6) EXP(bls12_381_Fq12, 6)
EXP(mnt4_Fq2, 5) EXP(mnt4_Fq4, 5) EXP(edwards_Fq3, 3) EXP(edwards_Fq6, 3) EXP(mnt6_Fq3, 5) EXP(mnt6_Fq6, 5)
EXP(alt_bn128_Fr, 4) EXP(alt_bn128_Fq, 4) EXP(bls12_381_Fr, 4) EXP(bls12_381_Fq, 6) EXP(edwards_Fr, 3) EXP(edwards_Fq, 3) EXP(mnt4_Fr, 5) EXP(mnt4_Fq, 5)
EXPF(alt_bn128_Fq12, alt_bn128_Fr) EXPF(bls12_381_Fq12, bls12_381_Fr) EXPF(mnt4_Fq4, mnt4_Fr) EXPF(mnt6_Fq6, mnt6_Fr) EXPF(edwards_Fq6, edwards_Fr)
#define CYC(F, L) F vf_cyc(const F &a, const bigint<L> &e) { return a.cyclotomic_exp(e); }
CYC(alt_bn128_Fq12, 4) CYC(alt_bn128_Fq12, 1) CYC(bls12_381_Fq12, 6) CYC(bls12_381_Fq12, 1) CYC(mnt4_Fq4, 5) CYC(mnt6_Fq6, 5) CYC(edwards_Fq6, 3)
#define WN(L) std::vector<long> vf_wnaf(size_t w, const bigint<L> &e) { return find_wnaf(w, e); }
WN(1) WN(3) WN(4) WN(5) WN(6)
