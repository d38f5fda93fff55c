// Line protocol over the real field classes: "<type> <op> <args...>" -> one
// line with the raw bytes (hex) of the result(s).  No expected values in here.
#include "all.hpp"
#include <cstring>
#include <cstdio>
#include <string>
#include <sstream>
#include <iostream>
#include <map>
#include <functional>
#include <unistd.h>
using namespace libff;
using std::string;
typedef std::istringstream IS;
template<typename T> T rd(IS &in)
{
    string h; in >> h; T x; unsigned char *p = (unsigned char*)&x;
    for (size_t i = 0; i < sizeof(T); ++i) { unsigned v = 0; if (2*i+1 < h.size()) sscanf(h.c_str()+2*i, "%2x", &v); p[i] = v; }
    return x;
}
template<typename T> string wr(const T &x)
{
    const unsigned char *p = (const unsigned char*)&x; string s; char b[3];
    for (size_t i = 0; i < sizeof(T); ++i) { sprintf(b, "%02x", p[i]); s += b; }
    return s + " ";
}
template<> string wr<bool>(const bool &b) { return b ? "1 " : "0 "; }
template<typename F> string vec(const std::vector<F> &v) { string s = std::to_string(v.size()) + " "; for (auto &x : v) s += wr(x); return s; }

template<typename F, typename N> string pow_big(const F &a, IS &in, const string &op)
{
    auto e = rd<N>(in); F b = a; b ^= e; return wr(a ^ e) + wr(b) + wr(power(a, e));
}
// operations every field has
template<typename F> bool common(const string &op, IS &in, string &out)
{
    if (op == "add") { F a = rd<F>(in), b = rd<F>(in); F c = a; F &r = (c += b); out = wr(a + b) + wr(c) + wr(r) + wr(a) + wr(b); }
    else if (op == "sub") { F a = rd<F>(in), b = rd<F>(in); F c = a; F &r = (c -= b); out = wr(a - b) + wr(c) + wr(r) + wr(a) + wr(b); }
    else if (op == "mul") { F a = rd<F>(in), b = rd<F>(in); F c = a; F &r = (c *= b); out = wr(a * b) + wr(c) + wr(r) + wr(a) + wr(b); }
    else if (op == "alias") { F a = rd<F>(in); F x = a, y = a, z = a; x += x; y -= y; z *= z; out = wr(x) + wr(y) + wr(z) + wr(a + a) + wr(a - a) + wr(a * a); }
    else if (op == "neg") { F a = rd<F>(in); out = wr(-a) + wr(a); }
    else if (op == "sqr") { F a = rd<F>(in); F b = a; F &r = b.square(); out = wr(a.squared()) + wr(b) + wr(r) + wr(a); }
    else if (op == "inv") { F a = rd<F>(in); F b = a; F &r = b.invert(); out = wr(a.inverse()) + wr(b) + wr(r) + wr(a); }
    else if (op == "eq") { F a = rd<F>(in), b = rd<F>(in); out = wr<bool>(a == b) + wr<bool>(a != b) + wr<bool>(b == a) + wr<bool>(a.is_zero()) + wr<bool>(b.is_zero()); }
    else if (op == "const") { F a = rd<F>(in); F b = a; b.clear(); out = wr(F::zero()) + wr(F::one()) + wr(b); }
    else if (op == "powu") { F a = rd<F>(in); unsigned long e; in >> e; F b = a; b ^= e; out = wr(a ^ e) + wr(b) + wr(power(a, e)); }
    else if (op == "pow1") { F a = rd<F>(in); out = pow_big<F, bigint<1>>(a, in, op); }
    else if (op == "pow4") { F a = rd<F>(in); out = pow_big<F, bigint<4>>(a, in, op); }
    else if (op == "pow6") { F a = rd<F>(in); out = pow_big<F, bigint<6>>(a, in, op); }
    else if (op == "sqrt") { F a = rd<F>(in); out = wr(a.sqrt()); }
    else if (op == "words") { F a = rd<F>(in); auto w = a.to_words(); F b; bool ok = b.from_words(w); out = vec(w) + wr(b) + wr(ok); }
    else if (op == "from_words") { size_t k; in >> k; std::vector<uint64_t> w; for (size_t i = 0; i < k; ++i) { uint64_t x; in >> x; w.push_back(x); } F b = F::zero(); bool ok = b.from_words(w); out = wr(b) + wr(ok); }
    else if (op == "io") { size_t k; in >> k; std::vector<F> v; for (size_t i = 0; i < k; ++i) v.push_back(rd<F>(in));
        std::stringstream ss; for (auto &x : v) { ss << x; ss << OUTPUT_NEWLINE; }
        string raw = ss.str(); std::vector<F> w; for (size_t i = 0; i < k; ++i) { F x = F::one(); ss >> x; consume_OUTPUT_NEWLINE(ss); w.push_back(x); }
        bool ok = (bool)ss; size_t left = raw.size() - (size_t)ss.tellg(); out = vec(w) + wr<bool>(ok) + std::to_string(left) + " "; }
    else if (op == "rand") { size_t k; in >> k; for (size_t i = 0; i < k; ++i) { F x = F::random_element(); out += wr(x); F y = F::zero(); y.randomize(); out += wr(y); } }
    else if (op == "binv") { size_t k; in >> k; std::vector<F> v; for (size_t i = 0; i < k; ++i) v.push_back(rd<F>(in)); batch_invert(v); out = vec(v); }
    else return false;
    return true;
}
template<typename F> bool prime_ops(const string &op, IS &in, string &out)
{
    typedef bigint<F::num_limbs> B;
    if (op == "frombig") { B b = rd<B>(in); F a(b); out = wr(a); }
    else if (op == "asbig") { F a = rd<F>(in); out = wr(a.as_bigint()) + wr(a.as_ulong()); }
    else if (op == "fromlong") { long x; in >> x; F a(x); out = wr(a); }
    else if (op == "fromulong") { unsigned long x; in >> x; F a((long)x, true); F b; b.set_ulong(x); out = wr(a) + wr(b); }
    else if (op == "frob") { F a = rd<F>(in); unsigned long k; in >> k; out = wr(a.Frobenius_map(k)); }
    else if (op == "root") { unsigned long n; in >> n; try { F r = get_root_of_unity<F>(n); out = "1 " + wr(r); } catch (std::invalid_argument &) { out = "0 "; } }
    else if (op == "coset") { out = wr(coset_shift<F>()); }
    else if (op == "sizes") { out = std::to_string(F::ceil_size_in_bits()) + " " + std::to_string(F::floor_size_in_bits()) + " " + std::to_string(F::extension_degree()) + " " + wr(F::field_char()) + wr(F::geometric_generator()) + wr(F::arithmetic_generator()); }
    else if (op == "mulred") { F a = rd<F>(in); B b = rd<B>(in); a.mul_reduce(b); out = wr(a); }
    else if (op == "powv") { F a = rd<F>(in); size_t k; in >> k; std::vector<unsigned long long> v(k); for (auto &x : v) in >> x; out = wr(power(a, v)); }
    else if (op == "powull") { F a = rd<F>(in); unsigned long long e; in >> e; out = wr(power(a, e)); }
    else if (op == "rng") { uint64_t i; in >> i; out = wr(SHA512_rng<F>(i)) + wr(SHA512_rng<F>(i)); }
    else if (op == "packbits") { string bits; in >> bits; if (bits == "-") bits = ""; size_t c; in >> c; bit_vector v; for (char ch : bits) v.push_back(ch == '1');
        std::vector<F> r = c ? pack_bit_vector_into_field_element_vector<F>(v, c) : pack_bit_vector_into_field_element_vector<F>(v); out = vec(r); }
    else if (op == "packint") { size_t w, k; in >> w >> k; std::vector<size_t> v(k); for (auto &x : v) in >> x; out = vec(pack_int_vector_into_field_element_vector<F>(v, w)); }
    else if (op == "bits2vec") { string bits; in >> bits; if (bits == "-") bits = ""; bit_vector v; for (char ch : bits) v.push_back(ch == '1');
        auto r = convert_bit_vector_to_field_element_vector<F>(v); out = vec(r); }
    else if (op == "tobits") { F a = rd<F>(in); size_t k; in >> k; bit_vector v = convert_field_element_to_bit_vector(a), w = k <= v.size() ? convert_field_element_to_bit_vector(a, k) : bit_vector();
        for (bool b : v) out += b ? '1' : '0'; out += " "; for (bool b : w) out += b ? '1' : '0'; if (w.empty()) out += '-'; out += " " + wr(convert_bit_vector_to_field_element<F>(v));
        bit_vector z = convert_field_element_vector_to_bit_vector(std::vector<F>{a, a}); for (bool b : z) out += b ? '1' : '0'; out += " "; }
    else if (op == "frombits") { string bits; in >> bits; if (bits == "-") bits = ""; bit_vector v; for (char ch : bits) v.push_back(ch == '1'); out = wr(convert_bit_vector_to_field_element<F>(v)); }
    else if (op == "logsize") { out = std::to_string(log_of_field_size_helper<F>(F::one())) + " " + std::to_string(soundness_log_of_field_size_helper<F>(F::one())) + " "; }
    else if (op == "getword") { F a = rd<F>(in); size_t i; in >> i; out = std::to_string(get_word_of_field_elem<F>(a, i)) + " "; }
    else return common<F>(op, in, out);
    return true;
}
template<typename F> bool ext_ops(const string &op, IS &in, string &out)
{
    if (op == "frob") { F a = rd<F>(in); unsigned long k; in >> k; out = wr(a.Frobenius_map(k)); return true; }
    if (op == "sizes") { out = std::to_string(F::ceil_size_in_bits()) + " " + std::to_string(F::floor_size_in_bits()) + " " + std::to_string(F::extension_degree()) + " " + wr(F::field_char()); return true; }
    return common<F>(op, in, out);
}
template<typename F> bool cyc_ops(const string &op, IS &in, string &out)
{
    if (op == "uninv") { F a = rd<F>(in); out = wr(a.unitary_inverse()); return true; }
    if (op == "cycsq") { F a = rd<F>(in); out = wr(a.cyclotomic_squared()); return true; }
    if (op == "cycexp1") { F a = rd<F>(in); auto e = rd<bigint<1>>(in); out = wr(a.cyclotomic_exp(e)); return true; }
    if (op == "cycexp4") { F a = rd<F>(in); auto e = rd<bigint<4>>(in); out = wr(a.cyclotomic_exp(e)); return true; }
    return ext_ops<F>(op, in, out);
}
template<typename F> bool sqv(const string &op, IS &in, string &out)
{
    if (op == "sqv") { F a = rd<F>(in); out = wr(a.squared_karatsuba()) + wr(a.squared_complex()); return true; }
    return false;
}
template<typename S, typename F> bool scal(const string &op, const char *nm, IS &in, string &out)
{
    if (op == nm) { S a = rd<S>(in); F b = rd<F>(in); out = wr(a * b); return true; }
    return false;
}
template<typename F> bool sub_nr(const string &op, IS &in, string &out)
{
    typedef typename std::remove_reference<decltype(F::one().c0)>::type S;
    if (op == "nr") { S a = rd<S>(in); out = wr(F::mul_by_non_residue(a)); return true; }
    return false;
}
template<typename Fq, typename Fq2> bool f12(const string &op, IS &in, string &out, int kind);
template<typename F> bool bin_ops(const string &op, IS &in, string &out)
{
    if (op == "sizes") { out = std::to_string(F::ceil_size_in_bits()) + " " + std::to_string(F::floor_size_in_bits()) + " " + std::to_string(F::extension_degree()) + " " + wr(F::multiplicative_generator); return true; }
    return common<F>(op, in, out);
}
template<typename F> bool bin_ops2(const string &op, IS &in, string &out)
{
    if (op == "coset") { out = wr(coset_shift<F>()); return true; }
    if (op == "logsize") { out = std::to_string(log_of_field_size_helper<F>(F::one())) + " " + std::to_string(soundness_log_of_field_size_helper<F>(F::one())) + " "; return true; }
    if (op == "getword") { F a = rd<F>(in); size_t i; in >> i; out = std::to_string(get_word_of_field_elem<F>(a, i)) + " "; return true; }
    return bin_ops<F>(op, in, out);
}
typedef std::function<bool(const string&, IS&, string&)> H;
int main()
{
    inhibit_profiling_info = true; inhibit_profiling_counters = true;
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
    std::map<string, std::vector<H>> M;
#define PRIME(n, T) M[n] = { prime_ops<T> };
    PRIME("alt_bn128_modulus_r", alt_bn128_Fr) PRIME("alt_bn128_modulus_q", alt_bn128_Fq) PRIME("bls12_381_modulus_r", bls12_381_Fr) PRIME("bls12_381_modulus_q", bls12_381_Fq)
    PRIME("edwards_modulus_r", edwards_Fr) PRIME("edwards_modulus_q", edwards_Fq) PRIME("mnt46_modulus_A", mnt4_Fr) PRIME("mnt46_modulus_B", mnt4_Fq)
#define E(n, T) M[n] = { ext_ops<T> };
#define C(n, T) M[n] = { cyc_ops<T>, sub_nr<T> };
    E("alt_bn128_modulus_q:Fp2_model", alt_bn128_Fq2) E("alt_bn128_modulus_q:Fp6_3over2_model", alt_bn128_Fq6) C("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12)
    E("bls12_381_modulus_q:Fp2_model", bls12_381_Fq2) E("bls12_381_modulus_q:Fp6_3over2_model", bls12_381_Fq6) C("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12)
    E("mnt46_modulus_B:Fp2_model", mnt4_Fq2) C("mnt46_modulus_B:Fp4_model", mnt4_Fq4)
    E("mnt46_modulus_A:Fp3_model", mnt6_Fq3) C("mnt46_modulus_A:Fp6_2over3_model", mnt6_Fq6)
    E("edwards_modulus_q:Fp3_model", edwards_Fq3) C("edwards_modulus_q:Fp6_2over3_model", edwards_Fq6)
#define A(n, ...) M[n].push_back([](const string &op, IS &in, string &out) { return __VA_ARGS__; });
    A("alt_bn128_modulus_q:Fp2_model", sqv<alt_bn128_Fq2>(op, in, out) || scal<alt_bn128_Fq, alt_bn128_Fq2>(op, "s:Fp_model", in, out))
    A("bls12_381_modulus_q:Fp2_model", sqv<bls12_381_Fq2>(op, in, out) || scal<bls12_381_Fq, bls12_381_Fq2>(op, "s:Fp_model", in, out))
    A("mnt46_modulus_B:Fp2_model", sqv<mnt4_Fq2>(op, in, out) || scal<mnt4_Fq, mnt4_Fq2>(op, "s:Fp_model", in, out))
    A("alt_bn128_modulus_q:Fp6_3over2_model", sub_nr<alt_bn128_Fq6>(op, in, out) || scal<alt_bn128_Fq, alt_bn128_Fq6>(op, "s:Fp_model", in, out) || scal<alt_bn128_Fq2, alt_bn128_Fq6>(op, "s:Fp2_model", in, out))
    A("bls12_381_modulus_q:Fp6_3over2_model", sub_nr<bls12_381_Fq6>(op, in, out) || scal<bls12_381_Fq, bls12_381_Fq6>(op, "s:Fp_model", in, out) || scal<bls12_381_Fq2, bls12_381_Fq6>(op, "s:Fp2_model", in, out))
    A("alt_bn128_modulus_q:Fp12_2over3over2_model", sqv<alt_bn128_Fq12>(op, in, out) || scal<alt_bn128_Fq, alt_bn128_Fq12>(op, "s:Fp_model", in, out) || scal<alt_bn128_Fq2, alt_bn128_Fq12>(op, "s:Fp2_model", in, out) || scal<alt_bn128_Fq6, alt_bn128_Fq12>(op, "s:Fp6_3over2_model", in, out))
    A("bls12_381_modulus_q:Fp12_2over3over2_model", sqv<bls12_381_Fq12>(op, in, out) || scal<bls12_381_Fq, bls12_381_Fq12>(op, "s:Fp_model", in, out) || scal<bls12_381_Fq2, bls12_381_Fq12>(op, "s:Fp2_model", in, out) || scal<bls12_381_Fq6, bls12_381_Fq12>(op, "s:Fp6_3over2_model", in, out))
    A("mnt46_modulus_B:Fp4_model", scal<mnt4_Fq, mnt4_Fq4>(op, "s:Fp_model", in, out) || scal<mnt4_Fq2, mnt4_Fq4>(op, "s:Fp2_model", in, out))
    A("mnt46_modulus_A:Fp3_model", scal<mnt6_Fq, mnt6_Fq3>(op, "s:Fp_model", in, out))
    A("edwards_modulus_q:Fp3_model", scal<edwards_Fq, edwards_Fq3>(op, "s:Fp_model", in, out))
    A("mnt46_modulus_A:Fp6_2over3_model", scal<mnt6_Fq, mnt6_Fq6>(op, "s:Fp_model", in, out))
    A("edwards_modulus_q:Fp6_2over3_model", scal<edwards_Fq, edwards_Fq6>(op, "s:Fp_model", in, out))
#define SP3(n, F12, F2, meth) M[n].push_back([](const string &op, IS &in, string &out) { if (op == #meth) { F12 a = rd<F12>(in); F2 x = rd<F2>(in), y = rd<F2>(in), z = rd<F2>(in); out = wr(a.meth(x, y, z)); return true; } return false; });
    SP3("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12, alt_bn128_Fq2, mul_by_024) SP3("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12, alt_bn128_Fq2, mul_by_045)
    SP3("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12, bls12_381_Fq2, mul_by_024) SP3("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12, bls12_381_Fq2, mul_by_045)
#define SP1(n, F, meth) M[n].push_back([](const string &op, IS &in, string &out) { if (op == #meth) { F a = rd<F>(in); F b = rd<F>(in); out = wr(a.meth(b)); return true; } return false; });
    SP1("mnt46_modulus_B:Fp4_model", mnt4_Fq4, mul_by_023)
    SP1("mnt46_modulus_A:Fp6_2over3_model", mnt6_Fq6, mul_by_2345) SP1("edwards_modulus_q:Fp6_2over3_model", edwards_Fq6, mul_by_2345)
#define POWF(n, F, S) M[n].push_back([](const string &op, IS &in, string &out) { if (op == "powf") { F a = rd<F>(in); S e = rd<S>(in); out = wr(a ^ e); return true; } return false; });
    POWF("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12, alt_bn128_Fr) POWF("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12, bls12_381_Fr)
    POWF("mnt46_modulus_B:Fp4_model", mnt4_Fq4, mnt4_Fr) POWF("mnt46_modulus_A:Fp6_2over3_model", mnt6_Fq6, mnt6_Fr) POWF("edwards_modulus_q:Fp6_2over3_model", edwards_Fq6, edwards_Fr)
    M["gf32"] = { bin_ops<gf32> }; M["gf64"] = { bin_ops2<gf64> }; M["gf128"] = { bin_ops2<gf128> }; M["gf192"] = { bin_ops2<gf192> }; M["gf256"] = { bin_ops2<gf256> };
    string line;
    while (std::getline(std::cin, line))
    {
        IS in(line); string ty, op, out; in >> ty >> op;
        bool done = false;
        auto it = M.find(ty);
        if (it != M.end()) for (auto &h : it->second) { in.clear(); in.seekg(0); string d; in >> d >> d; if (h(op, in, out)) { done = true; break; } }
        printf("%s\n", done ? out.c_str() : "?"); fflush(stdout);
    }
}
