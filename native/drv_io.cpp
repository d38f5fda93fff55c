// Line protocol over the stream operators: TYPE io k {n elems}*k m {elems}
#include "drv_common.hpp"
typedef std::function<bool(const string&, IS&, string&)> H;
template<typename T> std::vector<T> many(IS &in) { size_t n; in >> n; std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(rd<T>(in)); return v; }
static string fin(std::stringstream &ss) { bool ok = (bool)ss; long at = ss.tellg(); return wr<bool>(ok) + std::to_string((long)ss.str().size() - at) + " "; }
template<typename T> bool ser(const string &op, IS &in, string &out)
{
    if (op == "len")
    {
        // a long vector of two alternating elements, twice in one stream
        size_t n; in >> n; T a = rd<T>(in), b = rd<T>(in); std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(i % 3 ? b : a);
        std::stringstream ss; long ends[2];
        for (long &e : ends) { ss << v; e = (long)ss.tellp(); ss << OUTPUT_NEWLINE; }
        ss << "7x";
        for (long e : ends)
        {
            std::vector<T> w(2, b); ss >> w; bool at = (long)ss.tellg() == e; consume_OUTPUT_NEWLINE(ss);
            out += std::to_string(w.size()) + " " + wr<bool>(w == v) + wr<bool>(at);
        }
        out += fin(ss);
        return true;
    }
    if (op != "io") return false;
    size_t k; in >> k; std::vector<std::vector<T>> vs; for (size_t i = 0; i < k; ++i) vs.push_back(many<T>(in));
    std::vector<T> es = many<T>(in);
    std::stringstream ss;
    std::vector<long> ends; size_t off = 0, j = 0; // where each value ends, and whether reading stops there
    auto wend = [&]() { ends.push_back((long)ss.tellp()); ss << OUTPUT_NEWLINE; };
    auto rend = [&]() { off += j >= ends.size() || (long)ss.tellg() != ends[j]; ++j; consume_OUTPUT_NEWLINE(ss); };
    for (auto &v : vs) { ss << v; wend(); }
    for (auto &e : es) { ss << e; wend(); }
    ss << "7x";
    for (auto &v : vs) { std::vector<T> w(3, es.empty() ? T() : es[0]); ss >> w; rend(); out += vec(w); }
    for (auto &e : es) { (void)e; T x = es[0]; ss >> x; rend(); out += wr(x); }
    out += off ? "0 0 " : fin(ss);
    for (auto &e : es) out += wr(reserialize<T>(e));
    for (auto &v : vs) out += vec(v);
    for (auto &e : es) out += wr(e);
    return true;
}
static std::vector<bool> bv(const string &s) { std::vector<bool> v; if (s != "-") for (char c : s) v.push_back(c == '1'); return v; }
static string bs(const std::vector<bool> &v) { string s; for (bool b : v) s += b ? '1' : '0'; return (s.empty() ? "-" : s) + " "; }
static bool bools(const string &op, IS &in, string &out)
{
    if (op != "io") return false;
    string a, b; in >> a >> b; auto x = bv(a), y = bv(b);
    std::stringstream ss;
    output_bool_vector(ss, x); output_bool_vector(ss, y); for (bool c : x) output_bool(ss, c);
    ss << "7x";
    std::vector<bool> w(5, true), z(2, true); input_bool_vector(ss, w); input_bool_vector(ss, z); out += bs(w) + bs(z);
    std::vector<bool> e; for (size_t i = 0; i < x.size(); ++i) { bool t; input_bool(ss, t); e.push_back(t); } out += bs(e) + fin(ss);
    return true;
}
int main()
{
    init_all();
    std::map<string, H> M;
#define R(n, T) M[n] = ser<T>;
    R("alt_bn128_modulus_r", alt_bn128_Fr) R("alt_bn128_modulus_q", alt_bn128_Fq) R("bls12_381_modulus_r", bls12_381_Fr) R("bls12_381_modulus_q", bls12_381_Fq)
    R("edwards_modulus_r", edwards_Fr) R("edwards_modulus_q", edwards_Fq) R("mnt46_modulus_A", mnt4_Fr) R("mnt46_modulus_B", mnt4_Fq)
    R("alt_bn128_modulus_q:Fp2_model", alt_bn128_Fq2) R("alt_bn128_modulus_q:Fp6_3over2_model", alt_bn128_Fq6) R("alt_bn128_modulus_q:Fp12_2over3over2_model", alt_bn128_Fq12)
    R("bls12_381_modulus_q:Fp2_model", bls12_381_Fq2) R("bls12_381_modulus_q:Fp6_3over2_model", bls12_381_Fq6) R("bls12_381_modulus_q:Fp12_2over3over2_model", bls12_381_Fq12)
    R("mnt46_modulus_B:Fp2_model", mnt4_Fq2) R("mnt46_modulus_B:Fp4_model", mnt4_Fq4) R("mnt46_modulus_A:Fp3_model", mnt6_Fq3) R("mnt46_modulus_A:Fp6_2over3_model", mnt6_Fq6)
    R("edwards_modulus_q:Fp3_model", edwards_Fq3) R("edwards_modulus_q:Fp6_2over3_model", edwards_Fq6)
    R("gf32", gf32) R("gf64", gf64) R("gf128", gf128) R("gf192", gf192) R("gf256", gf256)
#define B(n) R("big" #n, bigint<n>)
    B(1) B(2) B(3) B(4) B(5) B(6)
#define G(n) R(#n, n)
    G(alt_bn128_G1) G(alt_bn128_G2) G(bls12_381_G1) G(bls12_381_G2) G(edwards_G1) G(edwards_G2) G(mnt4_G1) G(mnt4_G2) G(mnt6_G1) G(mnt6_G2)
    M["bool"] = bools;
    string line;
    while (std::getline(std::cin, line))
    {
        IS in(line); string ty, op, out; in >> ty >> op;
        auto it = M.find(ty);
        bool done = it != M.end() && it->second(op, in, out);
        printf("%s\n", done ? out.c_str() : "?"); fflush(stdout);
    }
}
