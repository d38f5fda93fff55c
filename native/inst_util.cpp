// Explicit instantiation of the integer, conversion and helper templates;
// contains no logic of its own.
#include "all.hpp"
namespace libff {
#define BI(n) template class bigint<n>;
BI(1) BI(2) BI(3) BI(4) BI(5) BI(6)
#define FU(F) \
  template std::vector<F> pack_int_vector_into_field_element_vector<F>(const std::vector<std::size_t> &, const std::size_t); \
  template std::vector<F> pack_bit_vector_into_field_element_vector<F>(const bit_vector &, const std::size_t); \
  template std::vector<F> pack_bit_vector_into_field_element_vector<F>(const bit_vector &); \
  template std::vector<F> convert_bit_vector_to_field_element_vector<F>(const bit_vector &); \
  template bit_vector convert_field_element_vector_to_bit_vector<F>(const std::vector<F> &); \
  template bit_vector convert_field_element_to_bit_vector<F>(const F &); \
  template bit_vector convert_field_element_to_bit_vector<F>(const F &, const std::size_t); \
  template F convert_bit_vector_to_field_element<F>(const bit_vector &);
FU(alt_bn128_Fr) FU(alt_bn128_Fq) FU(bls12_381_Fr) FU(bls12_381_Fq) FU(edwards_Fr) FU(edwards_Fq) FU(mnt4_Fr) FU(mnt4_Fq)
}
using namespace libff;
#define HELP(F) field_type vf_type(const F &e) { return get_field_type<F>(e); } std::size_t vf_log(const F &e) { return log_of_field_size_helper<F>(e); } \
  std::size_t vf_slog(const F &e) { return soundness_log_of_field_size_helper<F>(e); } std::size_t vf_word(const F &e, std::size_t i) { return get_word_of_field_elem<F>(e, i); } \
  void vf_shift(F &o) { o = coset_shift<F>(); } void vf_batch(std::vector<F> &v) { batch_invert<F>(v); }
HELP(alt_bn128_Fr) HELP(alt_bn128_Fq) HELP(bls12_381_Fr) HELP(bls12_381_Fq) HELP(edwards_Fr) HELP(edwards_Fq) HELP(mnt4_Fr) HELP(mnt4_Fq)
HELP(gf64) HELP(gf128) HELP(gf192) HELP(gf256)
#define EXT(F) void vf_batch(std::vector<F> &v) { batch_invert<F>(v); }
EXT(alt_bn128_Fq2) EXT(bls12_381_Fq2) EXT(mnt4_Fq2) EXT(edwards_Fq3) EXT(mnt6_Fq3) EXT(mnt4_Fq4) EXT(alt_bn128_Fq6) EXT(bls12_381_Fq6) EXT(edwards_Fq6) EXT(mnt6_Fq6)
EXT(alt_bn128_Fq12) EXT(bls12_381_Fq12) EXT(gf32)
#define ROOT(F) void vf_root(F &o, std::size_t n) { o = get_root_of_unity<F>(n); }
ROOT(alt_bn128_Fr) ROOT(alt_bn128_Fq) ROOT(bls12_381_Fr) ROOT(bls12_381_Fq) ROOT(edwards_Fr) ROOT(edwards_Fq) ROOT(mnt4_Fr) ROOT(mnt4_Fq)
#define RND(F) void vf_rng(F &o, std::uint64_t i) { o = SHA512_rng<F>(i); }
RND(alt_bn128_Fr) RND(alt_bn128_Fq) RND(bls12_381_Fr) RND(bls12_381_Fq) RND(edwards_Fr) RND(edwards_Fq) RND(mnt4_Fr) RND(mnt4_Fq)
#define RNZ(T) void vf_rnz(T &o, const T &y) { o = random_element_non_zero_one<T>(); o = random_element_non_zero<T>(); o = random_element_exclude<T>(y); }
RNZ(alt_bn128_Fr) RNZ(bls12_381_Fq) RNZ(edwards_Fq) RNZ(mnt4_Fr) RNZ(alt_bn128_Fq2) RNZ(gf64) RNZ(gf256)
RNZ(alt_bn128_G1) RNZ(alt_bn128_G2) RNZ(bls12_381_G1) RNZ(bls12_381_G2) RNZ(edwards_G1) RNZ(edwards_G2) RNZ(mnt4_G1) RNZ(mnt4_G2) RNZ(mnt6_G1) RNZ(mnt6_G2)
