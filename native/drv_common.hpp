// Line-protocol helpers shared by the native drivers.
#pragma once
#include "all.hpp"
#include <cstring>
#include <cstdio>
#include <string>
#include <sstream>
#include <iostream>
#include <map>
#include <functional>
#include <unistd.h>
using namespace libff;
using std::string;
typedef std::istringstream IS;
template<typename T> T rd(IS &in)
{
    string h; in >> h; T x; unsigned char *p = (unsigned char*)&x;
    for (size_t i = 0; i < sizeof(T); ++i) { unsigned v = 0; if (2*i+1 < h.size()) sscanf(h.c_str()+2*i, "%2x", &v); p[i] = v; }
    return x;
}
template<typename T> string wr(const T &x)
{
    const unsigned char *p = (const unsigned char*)&x; string s; char b[3];
    for (size_t i = 0; i < sizeof(T); ++i) { sprintf(b, "%02x", p[i]); s += b; }
    return s + " ";
}
template<> inline string wr<bool>(const bool &b) { return b ? "1 " : "0 "; }
template<typename F> string vec(const std::vector<F> &v) { string s = std::to_string(v.size()) + " "; for (auto &x : v) s += wr(x); return s; }
template<typename F> std::vector<F> rdv(IS &in) { size_t k; in >> k; std::vector<F> v; for (size_t i = 0; i < k; ++i) v.push_back(rd<F>(in)); return v; }
typedef std::function<bool(const string&, IS&, string&)> H;
inline void init_all()
{
    inhibit_profiling_info = true; inhibit_profiling_counters = true;
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
}
inline int serve(std::map<string, std::vector<H>> &M)
{
    string line;
    while (std::getline(std::cin, line))
    {
        IS in(line); string ty, op, out; in >> ty >> op;
        bool done = false;
        auto it = M.find(ty);
        if (it != M.end()) for (auto &h : it->second) { in.clear(); in.seekg(0); string d; in >> d >> d; if (h(op, in, out)) { done = true; break; } }
        printf("%s\n", done ? out.c_str() : "?"); fflush(stdout);
    }
    return 0;
}
