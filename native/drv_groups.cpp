// Line protocol over the ten curve groups (points as raw X|Y|Z bytes).
#include "drv_common.hpp"
template<typename G> bool grp(const string &op, IS &in, string &out)
{
    if (op == "add") { G a = rd<G>(in), b = rd<G>(in); out = wr(a + b) + wr(a) + wr(b); }
    else if (op == "addm") { G a = rd<G>(in), b = rd<G>(in); out = wr(a.add(b)); }
    else if (op == "mixed") { G a = rd<G>(in), b = rd<G>(in); out = wr(a.mixed_add(b)); }
    else if (op == "sub") { G a = rd<G>(in), b = rd<G>(in); out = wr(a - b); }
    else if (op == "self") { G a = rd<G>(in); out = wr(a + a) + wr(a - a) + wr<bool>(a == a); }
    else if (op == "dbl") { G a = rd<G>(in); out = wr(a.dbl()) + wr(-a); }
    else if (op == "eq") { G a = rd<G>(in), b = rd<G>(in); out = wr<bool>(a == b) + wr<bool>(a != b) + wr<bool>(b == a); }
    else if (op == "pred") { G a = rd<G>(in); out = wr<bool>(a.is_zero()) + wr<bool>(a.is_well_formed()) + wr<bool>(a.is_special()); }
    else if (op == "affine") { G a = rd<G>(in); a.to_affine_coordinates(); out = wr(a); }
    else if (op == "special") { G a = rd<G>(in); a.to_special(); out = wr(a) + wr<bool>(a.is_special()); }
    else if (op == "batch") { auto v = rdv<G>(in); G::batch_to_special_all_non_zeros(v); out = vec(v); }
    else if (op == "batch0") { auto v = rdv<G>(in); batch_to_special<G>(v); out = vec(v); }
    else if (op == "const") { G d; out = wr(G::zero()) + wr(G::one()) + wr(d) + std::to_string(G::size_in_bits()) + " " + wr(G::order()) + wr(G::field_char()); }
    else if (op == "rand") { size_t k; in >> k; for (size_t i = 0; i < k; ++i) out += wr(G::random_element()); }
    else if (op == "io") { auto v = rdv<G>(in); std::stringstream ss; for (auto &x : v) { ss << x; ss << OUTPUT_NEWLINE; }
        string raw = ss.str(); std::vector<G> w; for (size_t i = 0; i < v.size(); ++i) { G x; ss >> x; consume_OUTPUT_NEWLINE(ss); w.push_back(x); }
        bool ok = (bool)ss; size_t left = raw.size() - (size_t)ss.tellg(); out = vec(w) + wr<bool>(ok) + std::to_string(left) + " "; }
    else if (op == "iov") { auto v = rdv<G>(in); std::stringstream ss; ss << v; string raw = ss.str(); std::vector<G> w; ss >> w; bool ok = (bool)ss; size_t left = raw.size() - (size_t)ss.tellg(); out = vec(w) + wr<bool>(ok) + std::to_string(left) + " "; }
    else if (op == "reser") { G a = rd<G>(in); out = wr(reserialize<G>(a)); }
    else return false;
    return true;
}
template<typename G> bool cof(const string &op, IS &in, string &out) { if (op == "cof") { G a = rd<G>(in); out = wr(a.mul_by_cofactor()); return true; } return false; }
template<typename G> bool mulq(const string &op, IS &in, string &out) { if (op == "mulq") { G a = rd<G>(in); out = wr(a.mul_by_q()); return true; } return false; }
template<typename G, typename F> bool coefs(const string &op, IS &in, string &out, F (*a)(const F&), F (*b)(const F&))
{ if (op == "coef") { F e = rd<F>(in); out = (a ? wr(a(e)) : "- ") + (b ? wr(b(e)) : "- "); return true; } return false; }
int main()
{
    init_all();
    std::map<string, std::vector<H>> M;
#define GR(n) M[#n] = { grp<n> };
    GR(alt_bn128_G1) GR(alt_bn128_G2) GR(bls12_381_G1) GR(bls12_381_G2) GR(edwards_G1) GR(edwards_G2) GR(mnt4_G1) GR(mnt4_G2) GR(mnt6_G1) GR(mnt6_G2)
#define C(n) M[#n].push_back(cof<n>);
    C(alt_bn128_G1) C(alt_bn128_G2) C(bls12_381_G1) C(bls12_381_G2) C(mnt4_G1) C(mnt4_G2) C(mnt6_G1) C(mnt6_G2)
#define Q(n) M[#n].push_back(mulq<n>);
    Q(alt_bn128_G2) Q(bls12_381_G2) Q(edwards_G2) Q(mnt4_G2) Q(mnt6_G2)
#define K(n, F, a, b) M[#n].push_back([](const string &op, IS &in, string &out) { return coefs<n, F>(op, in, out, a, b); });
    K(alt_bn128_G2, alt_bn128_Fq2, nullptr, alt_bn128_G2::mul_by_b) K(bls12_381_G2, bls12_381_Fq2, nullptr, bls12_381_G2::mul_by_b)
    K(edwards_G2, edwards_Fq3, edwards_G2::mul_by_a, edwards_G2::mul_by_d) K(mnt4_G2, mnt4_Fq2, mnt4_G2::mul_by_a, mnt4_G2::mul_by_b) K(mnt6_G2, mnt6_Fq3, mnt6_G2::mul_by_a, mnt6_G2::mul_by_b)
    return serve(M);
}
