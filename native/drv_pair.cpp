// Line protocol over the five pairings (points and target elements as raw bytes).
#include "drv_common.hpp"
#define CURVE(n, FK) \
static bool n##_h(const string &op, IS &in, string &out) \
{ \
    typedef n##_G1 G1t; typedef n##_G2 G2t; typedef FK K; \
    if (op == "pair") { G1t P = rd<G1t>(in); G2t Q = rd<G2t>(in); \
        out += wr(n##_pp::reduced_pairing(n##_G1::one(), n##_G2::one())); \
        out += wr(n##_pp::reduced_pairing(P, Q)); \
        out += wr(n##_reduced_pairing(P, Q)); \
        out += wr(n##_ate_reduced_pairing(P, Q)); \
        out += wr(n##_pp::final_exponentiation(n##_pp::pairing(P, Q))); \
        out += wr(n##_final_exponentiation(n##_ate_pairing(P, Q))); \
        out += wr(n##_final_exponentiation(n##_pairing(P, Q))); \
        auto p = n##_pp::precompute_G1(P); auto q = n##_pp::precompute_G2(Q); \
        out += wr(n##_pp::final_exponentiation(n##_pp::miller_loop(p, q))); \
        out += wr(n##_final_exponentiation(n##_ate_miller_loop(n##_ate_precompute_G1(P), n##_ate_precompute_G2(Q)))); \
        out += wr(n##_final_exponentiation(n##_miller_loop(n##_precompute_G1(P), n##_precompute_G2(Q)))); } \
    else if (op == "dbl") { G1t P1 = rd<G1t>(in); G2t Q1 = rd<G2t>(in); G1t P2 = rd<G1t>(in); G2t Q2 = rd<G2t>(in); \
        auto p1 = n##_pp::precompute_G1(P1); auto q1 = n##_pp::precompute_G2(Q1); auto p2 = n##_pp::precompute_G1(P2); auto q2 = n##_pp::precompute_G2(Q2); \
        K m1 = n##_pp::miller_loop(p1, q1), m2 = n##_pp::miller_loop(p2, q2); \
        out += wr<bool>(n##_pp::double_miller_loop(p1, q1, p2, q2) == m1 * m2); \
        out += wr<bool>(n##_ate_double_miller_loop(p1, q1, p2, q2) == m1 * m2); \
        out += wr<bool>(n##_double_miller_loop(p1, q1, p2, q2) == m1 * m2); \
        out += wr<bool>(n##_final_exponentiation(n##_double_miller_loop(p1, q1, p2, q2)) == n##_reduced_pairing(P1, Q1) * n##_reduced_pairing(P2, Q2)); } \
    else if (op == "bil") { G1t P = rd<G1t>(in), P2 = rd<G1t>(in), P3 = rd<G1t>(in); G2t Q = rd<G2t>(in); \
        out += wr(n##_reduced_pairing(P, Q)) + wr(n##_reduced_pairing(P2, Q)) + wr(n##_reduced_pairing(P3, Q)); } \
    else if (op == "fe") { K a = rd<K>(in); out += wr(n##_final_exponentiation(a)) + wr(n##_pp::final_exponentiation(a)); } \
    else if (op == "prec") { G1t P = rd<G1t>(in); G2t Q = rd<G2t>(in); \
        auto p = n##_precompute_G1(P); auto q = n##_precompute_G2(Q); \
        std::stringstream s1, s2; s1 << p << OUTPUT_NEWLINE << "7x"; s2 << q << OUTPUT_NEWLINE << "7x"; decltype(p) p2; decltype(q) q2; s1 >> p2; s2 >> q2; consume_OUTPUT_NEWLINE(s1); consume_OUTPUT_NEWLINE(s2); \
        bool r1 = (bool)s1 && (size_t)s1.tellg() + 2 == s1.str().size(), r2 = (bool)s2 && (size_t)s2.tellg() + 2 == s2.str().size(); \
        out += wr<bool>(p == p2) + wr<bool>(q == q2) + wr<bool>(r1) + wr<bool>(r2) + wr<bool>(n##_pp::miller_loop(p2, q2) == n##_pp::miller_loop(p, q)); } \
    else return false; \
    return true; \
}
CURVE(alt_bn128, alt_bn128_Fq12) CURVE(bls12_381, bls12_381_Fq12) CURVE(edwards, edwards_Fq6) CURVE(mnt4, mnt4_Fq4) CURVE(mnt6, mnt6_Fq6)
#define AFF(n, FK) \
static bool n##_aff(const string &op, IS &in, string &out) \
{ \
    typedef n##_G1 G1t; typedef n##_G2 G2t; typedef FK K; \
    if (op == "aff") { G1t P = rd<G1t>(in); G2t Q = rd<G2t>(in); \
        out += wr(n##_reduced_pairing(P, Q)); \
        out += wr(n##_affine_reduced_pairing(P, Q)); \
        out += wr(n##_pp::affine_reduced_pairing(P, Q)); } \
    else if (op == "affm") { G1t P = rd<G1t>(in); G2t Q = rd<G2t>(in); \
        out += wr(n##_reduced_pairing(P, Q)) + wr(n##_reduced_pairing(P, Q).inverse()); \
        out += wr(n##_final_exponentiation(n##_affine_ate_miller_loop(n##_affine_ate_precompute_G1(P), n##_affine_ate_precompute_G2(Q)))); \
        out += wr(n##_final_exponentiation(n##_pp::affine_ate_miller_loop(n##_pp::affine_ate_precompute_G1(P), n##_pp::affine_ate_precompute_G2(Q)))); } \
    else if (op == "over") { G1t P[3]; G2t Q[3]; for (int i = 0; i < 3; ++i) { P[i] = rd<G1t>(in); Q[i] = rd<G2t>(in); } \
        decltype(n##_pp::affine_ate_precompute_G1(P[0])) p[3]; decltype(n##_pp::affine_ate_precompute_G2(Q[0])) q[3]; K e[3]; \
        for (int i = 0; i < 3; ++i) { p[i] = n##_pp::affine_ate_precompute_G1(P[i]); q[i] = n##_pp::affine_ate_precompute_G2(Q[i]); e[i] = n##_reduced_pairing(P[i], Q[i]); } \
        out += wr(e[0] * e[1].inverse()) + wr(e[1] * e[0].inverse()) + wr(n##_final_exponentiation(n##_pp::affine_ate_e_over_e_miller_loop(p[0], q[0], p[1], q[1]))); \
        out += wr(e[0] * e[1] * e[2].inverse()) + wr(e[2] * e[0].inverse() * e[1].inverse()) + wr(n##_final_exponentiation(n##_pp::affine_ate_e_times_e_over_e_miller_loop(p[0], q[0], p[1], q[1], p[2], q[2]))); } \
    else return false; \
    return true; \
}
AFF(mnt4, mnt4_Fq4) AFF(mnt6, mnt6_Fq6)
static bool tate_h(const string &op, IS &in, string &out)
{
    if (op != "tate") return false;
    edwards_G1 P = rd<edwards_G1>(in); edwards_G2 Q = rd<edwards_G2>(in);
    out += wr(edwards_tate_reduced_pairing(edwards_G1::one(), edwards_G2::one()));
    out += wr(edwards_tate_reduced_pairing(P, Q));
    out += wr(edwards_final_exponentiation(edwards_tate_pairing(P, Q)));
    auto p = edwards_tate_precompute_G1(P); auto q = edwards_tate_precompute_G2(Q);
    out += wr(edwards_final_exponentiation(edwards_tate_miller_loop(p, q)));
    return true;
}
static bool tprec_h(const string &op, IS &in, string &out)
{
    if (op != "tprec") return false;
    edwards_G1 P = rd<edwards_G1>(in); edwards_G2 Q = rd<edwards_G2>(in);
    auto p = edwards_tate_precompute_G1(P); auto q = edwards_tate_precompute_G2(Q);
    std::stringstream s1, s2; s1 << p << OUTPUT_NEWLINE << "7x"; s2 << q << OUTPUT_NEWLINE << "7x"; decltype(p) p2; decltype(q) q2; s1 >> p2; s2 >> q2; consume_OUTPUT_NEWLINE(s1); consume_OUTPUT_NEWLINE(s2);
    bool r1 = (bool)s1 && (size_t)s1.tellg() + 2 == s1.str().size(), r2 = (bool)s2 && (size_t)s2.tellg() + 2 == s2.str().size();
    out += wr<bool>(p == p2) + wr<bool>(q == q2) + wr<bool>(r1) + wr<bool>(r2);
    return true;
}
int main()
{
    init_all();
    std::map<string, std::vector<H>> M;
    M["alt_bn128"] = { alt_bn128_h }; M["bls12_381"] = { bls12_381_h }; M["edwards"] = { edwards_h, tate_h, tprec_h };
    M["mnt4"] = { mnt4_h, mnt4_aff }; M["mnt6"] = { mnt6_h, mnt6_aff };
    return serve(M);
}
