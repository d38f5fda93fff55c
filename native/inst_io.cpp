// Instantiation of the stream operators at every serialisable type; contains no logic of its own.
#include "all.hpp"
using namespace libff;
#define IO1(T) void vf_w(std::ostream &o, const T &x) { o << x; } void vf_r(std::istream &i, T &x) { i >> x; }
#define IO(T) IO1(T) IO1(std::vector<T>) T vf_reser(const T &x) { return reserialize(x); }
#define IOG(T) IO1(std::vector<T>) T vf_reser(const T &x) { return reserialize(x); }
IO(bigint<1>) IO(bigint<2>) IO(bigint<3>) IO(bigint<4>) IO(bigint<5>) IO(bigint<6>)
IO(alt_bn128_Fr) IO(alt_bn128_Fq) IO(bls12_381_Fr) IO(bls12_381_Fq) IO(edwards_Fr) IO(edwards_Fq) IO(mnt4_Fr) IO(mnt4_Fq)
IO(alt_bn128_Fq2) IO(alt_bn128_Fq6) IO(alt_bn128_Fq12) IO(bls12_381_Fq2) IO(bls12_381_Fq6) IO(bls12_381_Fq12)
IO(edwards_Fq3) IO(edwards_Fq6) IO(mnt4_Fq2) IO(mnt4_Fq4) IO(mnt6_Fq3) IO(mnt6_Fq6)
IO(gf32) IO(gf64) IO(gf128) IO(gf192) IO(gf256)
IOG(alt_bn128_G1) IOG(alt_bn128_G2) IOG(bls12_381_G1) IOG(bls12_381_G2) IOG(edwards_G1) IOG(edwards_G2) IOG(mnt4_G1) IOG(mnt4_G2) IOG(mnt6_G1) IOG(mnt6_G2)
void vf_wb(std::ostream &o, bool b) { output_bool(o, b); } void vf_rb(std::istream &i, bool &b) { input_bool(i, b); }
void vf_wbv(std::ostream &o, const std::vector<bool> &v) { output_bool_vector(o, v); } void vf_rbv(std::istream &i, std::vector<bool> &v) { input_bool_vector(i, v); }
void vf_nl(std::ostream &o) { o << OUTPUT_NEWLINE; } void vf_rnl(std::istream &i) { consume_OUTPUT_NEWLINE(i); }
