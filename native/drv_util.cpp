// Line protocol over the integer helpers and multi-limb integers.
#include "drv_common.hpp"
static string bits(const bit_vector &v) { string s; for (bool b : v) s += b ? '1' : '0'; return (s.empty() ? "-" : s) + " "; }
static bool ints(const string &op, IS &in, string &out)
{
    if (op == "pow2") { size_t n; in >> n; out = wr(get_power_of_two(n)); }
    else if (op == "rnd2") { size_t n; in >> n; out = wr(round_to_next_power_of_2(n)); }
    else if (op == "ispow2") { size_t n; in >> n; out = wr<bool>(is_power_of_2(n)); }
    else if (op == "log2") { size_t n; in >> n; out = wr(libff::log2(n)); }
    else if (op == "exp2") { size_t n; in >> n; out = wr(libff::exp2(n)); }
    else if (op == "totc") { int i; size_t w; in >> i >> w; out = wr(to_twos_complement(i, w)); }
    else if (op == "fromtc") { size_t i, w; in >> i >> w; out = std::to_string(from_twos_complement(i, w)); }
    else if (op == "rev") { size_t n, l; in >> n >> l; out = wr(bitreverse(n, l)); }
    else if (op == "divceil") { long long x, y; in >> x >> y; try { out = std::to_string(div_ceil(x, y)); } catch (std::invalid_argument &) { out = "throw"; } }
    else if (op == "i2b") { size_t w, k; in >> w >> k; unsigned long a = 0, b = 0, c = 0; if (k > 0) in >> a; if (k > 1) in >> b; if (k > 2) in >> c;
        out = bits(k == 0 ? int_list_to_bits({}, w) : k == 1 ? int_list_to_bits({a}, w) : k == 2 ? int_list_to_bits({a, b}, w) : int_list_to_bits({a, b, c}, w)); }
    else if (op == "little") { out = wr<bool>(is_little_endian()); }
    else if (op == "bitio") { string s; size_t k; in >> s >> k; bit_vector v; if (s != "-") for (char ch : s) v.push_back(ch == '1');
        std::stringstream ss; for (size_t i = 0; i < k; ++i) serialize_bit_vector(ss, v); string raw = ss.str();
        for (size_t i = 0; i < k; ++i) { bit_vector w(i * 7, true); deserialize_bit_vector(ss, w); out += bits(w); } out += wr<bool>((bool)ss); ss >> std::ws; out += wr<bool>(ss.eof()); }
    else return false;
    return true;
}
template<mp_size_t n> bool big(const string &op, IS &in, string &out)
{
    typedef bigint<n> B;
    if (op == "ctor") { unsigned long x; in >> x; B b(x); out = wr(b) + wr(B::one()); B z; out += wr(z); }
    else if (op == "str") { string s; in >> s; B b(s.c_str()); out = wr(b); }
    else if (op == "cmp") { B a = rd<B>(in), b = rd<B>(in); out = wr<bool>(a == b) + wr<bool>(a != b) + wr<bool>(a < b) + wr<bool>(b < a) + wr<bool>(a < a) + wr(a) + wr(b); }
    else if (op == "info") { B a = rd<B>(in); out = wr<bool>(a.is_zero()) + wr<bool>(a.is_even()) + std::to_string(a.num_bits()) + " " + std::to_string(a.max_bits()) + " " + wr(a.as_ulong());
        mpz_t z; mpz_init(z); mpz_set_si(z, -5); a.to_mpz(z); B b(z); char *s = mpz_get_str(NULL, 10, z); out += string(s) + " " + wr(b) + wr(a); free(s); mpz_clear(z); b.clear(); out += wr(b); }
    else if (op == "bits") { B a = rd<B>(in); for (size_t i = 0; i < 64 * n + 3; ++i) out += a.test_bit(i) ? '1' : '0'; out += " "; out += wr<bool>(a.test_bit((size_t)-1)) + wr<bool>(a.test_bit((size_t)1 << 32)); }
    else if (op == "rand") { size_t k; in >> k; for (size_t i = 0; i < k; ++i) { B a; B &r = a.randomize(); out += wr(a) + wr<bool>(&r == &a); } }
    else return false;
    return true;
}
int main()
{
    init_all();
    std::map<string, std::vector<H>> M;
    M["int"] = { ints };
#define N(n) M["b" #n] = { big<n> };
    N(1) N(2) N(3) N(4) N(5) N(6)
    return serve(M);
}
