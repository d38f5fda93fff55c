"""usage in-process: seed(id, prop, file, old, new, needs, breaks, demo_cpp_body)"""
import subprocess,os,json
DEMO='''#!/bin/bash
# exit 0 iff the behaviour is right; run with cwd /repo after the build
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -DBINARY_OUTPUT -DCURVE_ALT_BN128 -DMONTGOMERY_OUTPUT -DNO_PROCPS -DUSE_ASM -DNDEBUG -mpclmul -msse4.1 -std=gnu++14 -w -O1 -I"$PWD" "$here/demo.cpp" "$PWD/_build/libff/libff.a" -lgmp -lgmpxx -lsodium -lcrypto -o "$out/demo"
timeout 200 "$out/demo"
'''
HDR='''#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <vector>
#include "libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp"
#include "libff/algebra/curves/bls12_381/bls12_381_pp.hpp"
#include "libff/algebra/curves/edwards/edwards_pp.hpp"
#include "libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp"
#include "libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp"
#include "libff/algebra/fields/binary/gf32.hpp"
#include "libff/algebra/fields/binary/gf64.hpp"
#include "libff/algebra/fields/binary/gf128.hpp"
#include "libff/algebra/fields/binary/gf192.hpp"
#include "libff/algebra/fields/binary/gf256.hpp"
#include "libff/algebra/scalar_multiplication/multiexp.hpp"
#include "libff/algebra/scalar_multiplication/wnaf.hpp"
#include "libff/algebra/field_utils/field_utils.hpp"
#include "libff/algebra/curves/curve_utils.hpp"
#include "libff/common/utils.hpp"
#include "libff/common/rng.hpp"
using namespace libff;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\\n", #x); exit(1); } } while (0)
static void init() { inhibit_profiling_info = true; inhibit_profiling_counters = true;
  alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params(); }
'''
def seed(id, prop, edits, needs, breaks, body):
    D='/verif/seeded/'+id
    os.makedirs(D,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
    for f,old,new in edits:
        p='/repo/libff/'+f; s=open(p).read()
        assert s.count(old)>=1,(f,old)
        s=s.replace(old,new,1); open(p,'w').write(s)
    d=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','--','.'])
    open(D+'/patch.diff','w').write(d)
    open(D+'/demo.sh','w').write(DEMO)
    open(D+'/demo.cpp','w').write(HDR+body)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(D+'/meta.json','w'),indent=1)
