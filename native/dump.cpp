// Runs the real parameter initialisation and dumps the bytes of the library's
// own global objects (addresses supplied on stdin by build.py, from nm).
// argv[1]: the initialisers to run, in that order (letters a b e 4 6).
#include "all.hpp"
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
using namespace libff;
template<typename G> void tables(const char *n)
{
    printf("T %s wnaf", n);
    for (size_t x : G::wnaf_window_table) printf(" %zu", x);
    printf("\nT %s fixed", n);
    for (size_t x : G::fixed_base_exp_window_table) printf(" %zu", x);
    printf("\n");
}
static void hex(const void *v, size_t s)
{
    const unsigned char *p = (const unsigned char*)v;
    for (size_t i = 0; i < s; ++i) printf("%02x", p[i]);
    printf("\n");
}
template<typename T> void val(const char *n, const char *k, T v) { printf("S %s.%s ", n, k); hex(&v, sizeof(T)); }
template<typename T> void num(const char *n, const char *k, T v) { unsigned long long x = v; printf("S %s.%s ", n, k); hex(&x, 8); }
template<typename F> void field(const char *n)
{
    num(n, "ceil_size_in_bits", F::ceil_size_in_bits());
    num(n, "floor_size_in_bits", F::floor_size_in_bits());
    num(n, "extension_degree", F::extension_degree());
    val(n, "zero", F::zero());
    val(n, "one", F::one());
}
template<typename F> void efield(const char *n)
{
    field<F>(n);
    val(n, "field_char", F::field_char());
}
template<typename F> void pfield(const char *n)
{
    efield<F>(n);
    num(n, "num_limbs", F::num_limbs);
    num(n, "modulus_is_valid", F::modulus_is_valid());
    val(n, "arithmetic_generator", F::arithmetic_generator());
    val(n, "geometric_generator", F::geometric_generator());
}
template<typename F> void bfield(const char *n)
{
    field<F>(n);
    val(n, "field_char", F::template field_char<2>());
    val(n, "modulus", (uint64_t)(decltype(F::modulus_))F::modulus_);
    val(n, "multiplicative_generator", F::multiplicative_generator);
}
template<typename G> void group(const char *n)
{
    num(n, "size_in_bits", G::size_in_bits());
    val(n, "field_char", G::field_char());
    val(n, "order", G::order());
    val(n, "zero", G::zero());
    val(n, "one", G::one());
    tables<G>(n);
}
template<typename PP> void pp(const char *n)
{
    // the aggregate type of a curve exposes the same groups and fields
    val(n, "Fp.field_char", Fr<PP>::field_char());
    val(n, "Fq.field_char", Fq<PP>::field_char());
    num(n, "Fqe.degree", Fqe<PP>::extension_degree());
    num(n, "Fqk.degree", Fqk<PP>::extension_degree());
    val(n, "G1.one", G1<PP>::one());
    val(n, "G2.one", G2<PP>::one());
}
int main(int argc, char **argv)
{
    inhibit_profiling_info = true;
    inhibit_profiling_counters = true;
    const char *ord = argc > 1 ? argv[1] : "abe46";
    for (const char *c = ord; *c; ++c) switch (*c)
    {
        case 'a': alt_bn128_pp::init_public_params(); break;
        case 'b': bls12_381_pp::init_public_params(); break;
        case 'e': edwards_pp::init_public_params(); break;
        case '4': mnt4_pp::init_public_params(); break;
        case '6': mnt6_pp::init_public_params(); break;
    }
    unsigned long a, s; char nm[4096];
    while (scanf("%lx %lx %4095s", &a, &s, nm) == 3)
    {
        printf("G %s ", nm);
        hex((const void*)a, s);
    }
    auto has = [&](const char *l) { return strpbrk(ord, l) != nullptr; };
    if (has("a"))
    {
        pfield<alt_bn128_Fr>("alt_bn128_modulus_r/Fp_model"); pfield<alt_bn128_Fq>("alt_bn128_modulus_q/Fp_model");
        efield<alt_bn128_Fq2>("alt_bn128_modulus_q/Fp2_model"); efield<alt_bn128_Fq6>("alt_bn128_modulus_q/Fp6_3over2_model"); efield<alt_bn128_Fq12>("alt_bn128_modulus_q/Fp12_2over3over2_model");
        group<alt_bn128_G1>("alt_bn128_G1"); group<alt_bn128_G2>("alt_bn128_G2"); pp<alt_bn128_pp>("alt_bn128");
        val("alt_bn128", "GT.one", alt_bn128_GT::one());
    }
    if (has("b"))
    {
        pfield<bls12_381_Fr>("bls12_381_modulus_r/Fp_model"); pfield<bls12_381_Fq>("bls12_381_modulus_q/Fp_model");
        efield<bls12_381_Fq2>("bls12_381_modulus_q/Fp2_model"); efield<bls12_381_Fq6>("bls12_381_modulus_q/Fp6_3over2_model"); efield<bls12_381_Fq12>("bls12_381_modulus_q/Fp12_2over3over2_model");
        group<bls12_381_G1>("bls12_381_G1"); group<bls12_381_G2>("bls12_381_G2"); pp<bls12_381_pp>("bls12_381");
        val("bls12_381", "GT.one", bls12_381_GT::one());
    }
    if (has("e"))
    {
        pfield<edwards_Fr>("edwards_modulus_r/Fp_model"); pfield<edwards_Fq>("edwards_modulus_q/Fp_model");
        efield<edwards_Fq3>("edwards_modulus_q/Fp3_model"); efield<edwards_Fq6>("edwards_modulus_q/Fp6_2over3_model");
        group<edwards_G1>("edwards_G1"); group<edwards_G2>("edwards_G2"); pp<edwards_pp>("edwards");
        val("edwards", "GT.one", edwards_GT::one());
    }
    if (has("4"))
    {
        pfield<mnt4_Fr>("mnt46_modulus_A/Fp_model"); pfield<mnt4_Fq>("mnt46_modulus_B/Fp_model");
        efield<mnt4_Fq2>("mnt46_modulus_B/Fp2_model"); efield<mnt4_Fq4>("mnt46_modulus_B/Fp4_model");
        group<mnt4_G1>("mnt4_G1"); group<mnt4_G2>("mnt4_G2"); pp<mnt4_pp>("mnt4");
        val("mnt4", "GT.one", mnt4_GT::one());
    }
    if (has("6"))
    {
        pfield<mnt6_Fr>("mnt46_modulus_B/Fp_model"); pfield<mnt6_Fq>("mnt46_modulus_A/Fp_model");
        efield<mnt6_Fq3>("mnt46_modulus_A/Fp3_model"); efield<mnt6_Fq6>("mnt46_modulus_A/Fp6_2over3_model");
        group<mnt6_G1>("mnt6_G1"); group<mnt6_G2>("mnt6_G2"); pp<mnt6_pp>("mnt6");
        val("mnt6", "GT.one", mnt6_GT::one());
    }
    bfield<gf32>("gf32"); bfield<gf64>("gf64"); bfield<gf128>("gf128"); bfield<gf192>("gf192"); bfield<gf256>("gf256");
    return 0;
}
