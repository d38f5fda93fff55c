// Explicit instantiation of scalar multiplication, window tables and
// multi-exponentiation at every group; contains no logic of its own.
#include "all.hpp"
using namespace libff;
#define GRP(G, S, L) \
  G vf_mul_1(const G &g, const bigint<1> &k) { return k * g; } G vf_mul_n(const G &g, const bigint<L> &k) { return k * g; } \
  G vf_mul_2n(const G &g, const bigint<2*L> &k) { return k * g; } G vf_mul_f(const G &g, const S &k) { return k * g; } \
  G vf_fix_1(size_t w, const G &g, const bigint<1> &k) { return fixed_window_wnaf_exp(w, g, k); } \
  G vf_fix_n(size_t w, const G &g, const bigint<L> &k) { return fixed_window_wnaf_exp(w, g, k); } \
  G vf_opt_1(const G &g, const bigint<1> &k, size_t b) { return opt_window_wnaf_exp(g, k, b); } \
  G vf_opt_n(const G &g, const bigint<L> &k, size_t b) { return opt_window_wnaf_exp(g, k, b); } \
  window_table<G> vf_tab(size_t s, size_t w, const G &g) { return get_window_table(s, w, g); } \
  size_t vf_win(size_t n, const G *) { return get_exp_window_size<G>(n); } \
  G vf_wexp(size_t s, size_t w, const window_table<G> &t, const S &e) { return windowed_exp(s, w, t, e); } \
  std::vector<G> vf_bexp(size_t s, size_t w, const window_table<G> &t, const std::vector<S> &v) { return batch_exp<G, S>(s, w, t, v); } \
  std::vector<G> vf_bexpc(size_t s, size_t w, const window_table<G> &t, const S &c, const std::vector<S> &v) { return batch_exp_with_coeff<G, S>(s, w, t, c, v); } \
  void vf_special(std::vector<G> &v, const G*) { batch_to_special(v); } \
  template G libff::multi_exp<G, S, multi_exp_method_naive>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp<G, S, multi_exp_method_naive_plain>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp<G, S, multi_exp_method_bos_coster>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp<G, S, multi_exp_method_BDLO12>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp_with_mixed_addition<G, S, multi_exp_method_naive>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp_with_mixed_addition<G, S, multi_exp_method_bos_coster>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t); \
  template G libff::multi_exp_with_mixed_addition<G, S, multi_exp_method_BDLO12>(std::vector<G>::const_iterator, std::vector<G>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, size_t);
GRP(alt_bn128_G1, alt_bn128_Fr, 4) GRP(alt_bn128_G2, alt_bn128_Fr, 4) GRP(bls12_381_G1, bls12_381_Fr, 4) GRP(bls12_381_G2, bls12_381_Fr, 4)
GRP(edwards_G1, edwards_Fr, 3) GRP(edwards_G2, edwards_Fr, 3) GRP(mnt4_G1, mnt4_Fr, 5) GRP(mnt4_G2, mnt4_Fr, 5) GRP(mnt6_G1, mnt6_Fr, 5) GRP(mnt6_G2, mnt6_Fr, 5)
#define IP(S) template S libff::inner_product<S>(std::vector<S>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator, std::vector<S>::const_iterator);
IP(alt_bn128_Fr) IP(bls12_381_Fr) IP(edwards_Fr) IP(mnt4_Fr) IP(mnt6_Fr)
#define WN(L) std::vector<long> vf_wnaf(size_t w, const bigint<L> &e) { return find_wnaf(w, e); }
WN(1) WN(2) WN(3) WN(4) WN(5) WN(6) WN(8) WN(10) WN(13)
