// Line protocol over scalar multiplication, window tables and multi-exponentiation.
#include "drv_common.hpp"
template<typename G, typename S, multi_exp_method X> G run(bool mixed, const std::vector<G> &g, const std::vector<S> &s, size_t chunks)
{ return mixed ? multi_exp_with_mixed_addition<G, S, X>(g.begin(), g.end(), s.begin(), s.end(), chunks) : multi_exp<G, S, X>(g.begin(), g.end(), s.begin(), s.end(), chunks); }
template<typename G, typename S> G run(int x, bool mixed, const std::vector<G> &g, const std::vector<S> &s, size_t chunks)
{
    switch (x) { case 0: return run<G, S, multi_exp_method_naive>(mixed, g, s, chunks); case 1: return run<G, S, multi_exp_method_naive_plain>(mixed, g, s, chunks);
        case 2: return run<G, S, multi_exp_method_bos_coster>(mixed, g, s, chunks); default: return run<G, S, multi_exp_method_BDLO12>(mixed, g, s, chunks); }
}
template<typename G, mp_size_t n> bool mulop(const string &op, IS &in, string &out)
{
    if (op == "mul") { G g = rd<G>(in); bigint<n> k = rd<bigint<n>>(in); out = wr(k * g) + wr(scalar_mul(g, k)) + wr(g) + wr(k); }
    else if (op == "fix") { size_t w; in >> w; G g = rd<G>(in); bigint<n> k = rd<bigint<n>>(in); out = wr(fixed_window_wnaf_exp(w, g, k)) + wr(g) + wr(k); }
    else if (op == "opt") { size_t b; in >> b; G g = rd<G>(in); bigint<n> k = rd<bigint<n>>(in); out = wr(opt_window_wnaf_exp(g, k, b)) + wr(opt_window_wnaf_exp(g, k, k.num_bits())) + wr(g) + wr(k); }
    else return false;
    return true;
}
template<typename G, typename S, mp_size_t L> bool grp(const string &op, IS &in, string &out)
{
    if (op.size() > 3 && op[3] == '1') return mulop<G, 1>(op.substr(0, 3), in, out);
    if (op.size() > 3 && op[3] == 'n') return mulop<G, L>(op.substr(0, 3), in, out);
    if (op.size() > 3 && op[3] == '2') { if (op.substr(0, 3) == "mul") return mulop<G, 2*L>("mul", in, out); return false; }
    if (op == "mulf") { G g = rd<G>(in); S k = rd<S>(in); out = wr(k * g) + wr(g) + wr(k); }
    else if (op == "tab") { size_t s, w; in >> s >> w; G g = rd<G>(in); auto t = get_window_table(s, w, g); out = std::to_string(t.size()) + " "; for (auto &r : t) out += vec(r); }
    else if (op == "wexp") { size_t s, w; in >> s >> w; G g = rd<G>(in); auto v = rdv<S>(in); S c = rd<S>(in); auto t = get_window_table(s, w, g);
        out = vec(batch_exp<G, S>(s, w, t, v)) + vec(batch_exp_with_coeff<G, S>(s, w, t, c, v)); for (auto &e : v) out += wr(windowed_exp(s, w, t, e)); out += vec(v) + wr(c); }
    else if (op == "win") { size_t n; in >> n; out = std::to_string(get_exp_window_size<G>(n)) + " "; }
    else if (op == "mexp" || op == "mexpm") { int x; size_t ch; in >> x >> ch; auto g = rdv<G>(in); auto s = rdv<S>(in); auto g0 = vec(g), s0 = vec(s); G r = run<G, S>(x, op == "mexpm", g, s, ch); out = wr(r) + wr<bool>(g0 == vec(g) && s0 == vec(s)); }
    else if (op == "ip") { auto a = rdv<S>(in); auto b = rdv<S>(in); out = wr(inner_product<S>(a.begin(), a.end(), b.begin(), b.end())); }
    else return false;
    return true;
}
template<mp_size_t n> bool naf(const string &op, IS &in, string &out)
{ if (op != "naf") return false; size_t w; in >> w; bigint<n> k = rd<bigint<n>>(in); auto v = find_wnaf(w, k); out = std::to_string(v.size()) + " "; for (long d : v) out += std::to_string(d) + " "; return true; }
int main()
{
    init_all();
    std::map<string, std::vector<H>> M;
#define GR(n, S, L) M[#n] = { grp<n, S, L> };
    GR(alt_bn128_G1, alt_bn128_Fr, 4) GR(alt_bn128_G2, alt_bn128_Fr, 4) GR(bls12_381_G1, bls12_381_Fr, 4) GR(bls12_381_G2, bls12_381_Fr, 4) GR(edwards_G1, edwards_Fr, 3) GR(edwards_G2, edwards_Fr, 3)
    GR(mnt4_G1, mnt4_Fr, 5) GR(mnt4_G2, mnt4_Fr, 5) GR(mnt6_G1, mnt6_Fr, 5) GR(mnt6_G2, mnt6_Fr, 5)
#define N(n) M["n" #n] = { naf<n> };
    N(1) N(2) N(3) N(4) N(5) N(6) N(8) N(10) N(13)
    return serve(M);
}
