// Line protocol over the random draws; the random sources of the library are replaced by a given word sequence.
#include "drv_common.hpp"
#include <libff/common/rng.hpp>
#include <random>
static std::vector<uint32_t> W; static size_t wi; static uint64_t ls;
static uint32_t nextw() { if (wi < W.size()) return W[wi++]; ls = ls * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)(ls >> 32); }
unsigned int std::random_device::_M_getval() { return nextw(); }
extern "C" void randombytes_buf(void *p, const size_t n) { unsigned char *b = (unsigned char*)p; for (size_t i = 0; i < n; i += 4) { uint32_t w = nextw(); for (size_t j = i; j < n && j < i + 4; ++j) b[j] = w >> (8 * (j - i)); } }
static void again() { wi = 0; ls = 12345; }
static void words(IS &in) { size_t k; in >> k; W.clear(); for (size_t i = 0; i < k; ++i) { uint32_t x; in >> x; W.push_back(x); } again(); }
typedef std::function<bool(const string&, IS&, string&)> H;
template<typename F> bool draw(const string &op, IS &in, string &out)
{
    if (op != "draw") return false;
    words(in); for (int i = 0; i < 3; ++i) { F x = F::random_element(); out += wr(x); } again(); F y = F::one(); y.randomize(); out += wr(y);
    return true;
}
template<typename F> bool drawg(const string &op, IS &in, string &out) { if (op != "draw") return false; words(in); for (int i = 0; i < 2; ++i) { F x = F::random_element(); out += wr(x); } return true; }
template<typename F> bool rng(const string &op, IS &in, string &out)
{
    if (op != "rng") return false;
    size_t k; in >> k; for (size_t i = 0; i < k; ++i) { uint64_t x; in >> x; F v = SHA512_rng<F>(x); out += wr(v); }
    return true;
}
template<typename T> bool excl(const string &op, IS &in, string &out)
{
    if (op != "excl") return false;
    words(in); size_t n, j; in >> n >> j; std::vector<T> v; for (size_t i = 0; i < n; ++i) { T x = T::random_element(); v.push_back(x); }
    auto first = [&](std::function<bool(const T&)> ok) { for (size_t i = 0; i < n; ++i) if (ok(v[i])) return i; return n; };
    T y = v[j];
    size_t a = first([](const T &x) { return !(x == T::zero()) && !(x == T::one()); }), b = first([](const T &x) { return !(x == T::zero()); }), c = first([&](const T &x) { return !(x == y); });
    again(); T r = random_element_non_zero_one<T>(); again(); T s = random_element_non_zero<T>(); again(); T t = random_element_exclude<T>(y);
    out += wr<bool>(a == n || r == v[a]) + wr<bool>(!(r == T::zero()) && !(r == T::one())) + wr<bool>(b == n || s == v[b]) + wr<bool>(!(s == T::zero())) + wr<bool>(c == n || t == v[c]) + wr<bool>(!(t == y));
    return true;
}
int main()
{
    init_all();
    std::map<string, std::vector<H>> M;
#define P(n, T) M[n] = { draw<T>, rng<T>, excl<T> };
    P("alt_bn128_modulus_r", alt_bn128_Fr) P("alt_bn128_modulus_q", alt_bn128_Fq) P("bls12_381_modulus_r", bls12_381_Fr) P("bls12_381_modulus_q", bls12_381_Fq)
    P("edwards_modulus_r", edwards_Fr) P("edwards_modulus_q", edwards_Fq) P("mnt46_modulus_A", mnt4_Fr) P("mnt46_modulus_B", mnt4_Fq)
#define R(n, T) M[n] = { draw<T>, excl<T> };
    R("alt_bn128_modulus_q:Fp2_model", alt_bn128_Fq2) R("alt_bn128_modulus_q:Fp6_3over2_model", alt_bn128_Fq6) R("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12)
    R("bls12_381_modulus_q:Fp2_model", bls12_381_Fq2) R("bls12_381_modulus_q:Fp6_3over2_model", bls12_381_Fq6) R("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12)
    R("mnt46_modulus_B:Fp2_model", mnt4_Fq2) R("mnt46_modulus_B:Fp4_model", mnt4_Fq4) R("mnt46_modulus_A:Fp3_model", mnt6_Fq3) R("mnt46_modulus_A:Fp6_2over3_model", mnt6_Fq6)
    R("edwards_modulus_q:Fp3_model", edwards_Fq3) R("edwards_modulus_q:Fp6_2over3_model", edwards_Fq6)
    R("gf32", gf32) R("gf64", gf64) R("gf128", gf128) R("gf192", gf192) R("gf256", gf256)
#define G(n) M[#n] = { drawg<n>, excl<n> };
    G(alt_bn128_G1) G(alt_bn128_G2) G(bls12_381_G1) G(bls12_381_G2) G(edwards_G1) G(edwards_G2) G(mnt4_G1) G(mnt4_G2) G(mnt6_G1) G(mnt6_G2)
    string line;
    while (std::getline(std::cin, line))
    {
        IS in(line); string ty, op, out; in >> ty >> op;
        bool done = false;
        auto it = M.find(ty);
        if (it != M.end()) for (auto &h : it->second) { in.clear(); in.seekg(0); string d; in >> d >> d; if (h(op, in, out)) { done = true; break; } }
        printf("%s\n", done ? out.c_str() : "?"); fflush(stdout);
    }
}
