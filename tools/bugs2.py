from mkbug import *
VDF = HDR + '''#include "vdf.h"
#include "verifier.h"
int gcd_base_bits = 50, gcd_128_max_iter = 3;
int segments = 7, thread_count = 3;
static void cpu() { init_gmp(); set_rounding_mode(); bAVX2.store(hasAVX2()); enable_avx512_ifma.store(false); gcd_base_bits = bAVX2 ? 63 : 50; gcd_128_max_iter = bAVX2 ? 2 : 3; }
'''
bug("c07-b0", "C07", [("src/bqfc.c", "    mpz_import(out_c->b0, bytes, -1, 1, 0, 0, &str[offset]);", "    mpz_import(out_c->b0, bytes > 2 ? 2 : bytes, -1, 1, 0, 0, &str[offset]);")],
    "an element whose a and t share a factor of more than 16 bits", "only two bytes of the quotient are read back: such an element does not decode to itself",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
// a = P * Q with P about 2^30 dividing t: choose b so that the partial gcd meets a multiple of P
int main() {
    int bad = 0, tried = 0; gmp_randstate_t st; gmp_randinit_default(st); gmp_randseed_ui(st, 7);
    for (int it = 0; it < 400 && tried < 200; it++) {
        // pick t = P*t1, a = P*a1 and the remainder s = a*x + b*t ; b*t = s mod a with small s divisible by P
        integer P, a1, t1, s1, a, b, c, D; mpz_urandomb(P.impl, st, 30); mpz_nextprime(P.impl, P.impl); mpz_urandomb(a1.impl, st, 60); mpz_nextprime(a1.impl, a1.impl); mpz_urandomb(t1.impl, st, 8); mpz_add_ui(t1.impl, t1.impl, 1); mpz_urandomb(s1.impl, st, 10); mpz_add_ui(s1.impl, s1.impl, 1);
        integer iv; if (!mpz_invert(iv.impl, t1.impl, a1.impl)) continue; b = s1 * iv; mpz_fdiv_r(b.impl, b.impl, a1.impl);   // b * t1 = s1 mod a1
        integer k; mpz_urandomm(k.impl, st, P.impl); b = b + a1 * k; a = a1 * P; if (mpz_even_p(b.impl)) continue;
        mpz_urandomb(c.impl, st, 92); mpz_add(c.impl, c.impl, a.impl); D = b * b - integer(4) * a * c; if (mpz_fdiv_ui(D.impl, 8) != 1) continue; integer gg; mpz_gcd(gg.impl, a.impl, b.impl); mpz_gcd(gg.impl, gg.impl, c.impl); if (gg != integer(1)) continue;
        form f = form::from_abd(a, b, D); tried++; int n = D.num_bits(); auto s = SerializeForm(f, n); bool same = false; try { form g = DeserializeForm(D, s.data(), s.size()); same = g == f; } catch (...) {}
        if (!same) { if (!bad) printf("element with g_size %d does not decode to itself\\n", s[1] + 1); bad = 1; }
    }
    printf("%d elements\\n", tried); return bad || tried < 20 ? 1 : 0;
}
'''})
bug("c24-shift", "C24", [("src/uint128_t/uint128_t.cpp", "uint128_t uint128_t::operator>>(const uint128_t & rhs) const{\n    const uint64_t shift = rhs.LOWER;\n    if (((bool) rhs.UPPER) || (shift >= 128)){", "uint128_t uint128_t::operator>>(const uint128_t & rhs) const{\n    const uint64_t shift = rhs.LOWER;\n    if (shift >= 128){")],
    "a shift count of 2^64 or more whose low word is small", "the shift uses the low word of its count only",
    {"demo.sh": '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT; cd "$d"
g++ -std=c++17 -O1 -w -I/repo/src/uint128_t "$here/demo.cpp" /repo/src/uint128_t/uint128_t.cpp -o demo || exit 2
timeout 60 ./demo
''', "demo.cpp": '''#include "uint128_t.h"
#include <cstdio>
int main() { int bad = 0; for (uint64_t hi : {0ull, 1ull, 1ull << 40}) for (uint64_t lo : {0ull, 3ull, 64ull, 127ull, 128ull}) { uint128_t v(0x8000000000000001ull, 5), s(hi, lo), l = v << s, r = v >> s; if (hi || lo >= 128) { if (l.upper() || l.lower() || r.upper() || r.lower()) { printf("shift by %llu*2^64+%llu is not zero\\n", (unsigned long long)hi, (unsigned long long)lo); bad = 1; } } } return bad; }
'''})
bug("c10-early", "C10", [("src/vdf.h", "repeated_square_original(*weso->vdfo, f, D, L, num_iterations+actual_iterations, 1, weso);", "repeated_square_original(*weso->vdfo, f, D, L, num_iterations, 1, weso);")],
    "an element for which the accelerated kernel gives up in the middle of a batch", "the squaring done in its place is stored under the number of the batch's first one",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''
int main() {
    cpu(); int bad = 0, n = 0;
    for (int bits : {240, 264}) for (int sd = 1; sd <= 6; sd++) {
        std::vector<uint8_t> seed = {(uint8_t)sd, 77, 5}; integer D = CreateDiscriminant(seed, bits), L = root(-D, 4); form x = form::generator(D), y = x; uint64_t T = 30000; int wrong = 0;
        OneWesolowskiCallback cb(D, x, T); std::atomic<bool> stop{false}; fast_algorithm = two_weso = false; repeated_square(T, x, D, L, &cb, NULL, stop); n++;
        for (uint64_t i = 0; i <= T; i++) { if (i % 10 == 0 && i) { form s = cb.forms[i / 10]; s.reduce(); if (!(s == y)) wrong++; } if (i == T) { form s = cb.result; s.reduce(); if (!(s == y)) wrong++; } y = y * y; }
        if (wrong) { printf("%d bits: %d wrong stored forms\\n", bits, wrong); bad = 1; }
    }
    printf("%d runs\\n", n); return bad;
}
'''})
bug("c12-64k", "C12", [("src/provers.h", "if (num_iterations >= (1 << 16)) {", "if (num_iterations > (1 << 16)) {")],
    "a request for exactly 65536 iterations", "the prover reads the checkpoints with another spacing than they were stored with",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 256), L = root(-D, 4); int bad = 0;
    for (uint64_t T : {65535, 65536, 65537}) {
        form x = form::generator(D); OneWesolowskiCallback cb(D, x, T); std::atomic<bool> stop{false}; fast_algorithm = two_weso = false; repeated_square(T, x, D, L, &cb, NULL, stop); stop = false;
        Proof p = ProveOneWesolowski(T, D, x, &cb, stop); std::vector<uint8_t> blob(p.y); blob.insert(blob.end(), p.proof.begin(), p.proof.end()); auto xs = SerializeForm(x, 256);
        bool ok = CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T, 256, 0); printf("%d %d\\n", (int)T, ok); bad |= !ok;
    }
    return bad;
}
'''})
bug("c15-overlap", "C15", [("src/callback.h", "position += ((exponent / power_2) % window_size) * size;", "position += ((exponent / power_2) % (window_size - 1)) * size;")],
    "segments that are window_size - 1 segments apart, both still to be read", "the forms of a segment are overwritten by those of a later one inside the documented window",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''#include <map>
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 64); form x = form::generator(D); FastAlgorithmCallback cb(4, D, x, true); int bad = 0;
    for (int b = 0; b < 4; b++) { uint64_t p2 = 1ull << (16 + 2 * b), kl = b == 0 ? 10 : 12 * (p2 >> 18); std::map<form *, uint64_t> seen; for (uint64_t s = 3; s < 3 + (uint64_t)cb.window_size; s++) for (uint64_t i : {(uint64_t)0, kl, p2 / kl * kl}) { form *f = cb.GetForm(s * p2 + i, b); if (f < cb.forms.get() || f >= cb.forms.get() + cb.forms_capacity || seen.count(f)) { if (!bad) printf("segment size %d: slot of %llu is taken\\n", b, (unsigned long long)(s * p2 + i)); bad = 1; } seen[f] = s; } }
    return bad;
}
'''})
bug("c16-depth", "C16", [("src/vdf.h", "        while (!stop_signal && weso->iterations < done_iterations + iters) {\n            std::this_thread::sleep_for (std::chrono::milliseconds(200));", "        while (weso->iterations < done_iterations + iters) {\n            std::this_thread::sleep_for (std::chrono::milliseconds(200));")],
    "a stop while the innermost level of a two-part proof waits for its last iterations", "the proving thread waits for iterations that never come",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 256), L = root(-D, 4); form x = form::generator(D); two_weso = true; fast_algorithm = false; int bad = 0; uint64_t T = 30000;
    for (uint64_t upto : {10000, 21000, 27000, 29000}) {
        auto *cb = new TwoWesolowskiCallback(D, x); form y = x; PulmarkReducer red; vdf_original::form v; for (uint64_t i = 0; i < upto; i++) { nudupl_form(y, y, D, L); red.reduce(y); v.a[0] = y.a.impl[0]; v.b[0] = y.b.impl[0]; v.c[0] = y.c.impl[0]; cb->OnIteration(NL_FORM, &v, i); } cb->iterations = upto;
        auto *stop = new std::atomic<bool>(false); static std::atomic<int> done; done = 0; std::thread([&, cb, stop] { Proof p = ProveTwoWeso(D, x, T, 0, cb, 0, *stop); done = p.proof.empty() ? 1 : 2; }).detach();
        usleep(2500000); *stop = true; for (int i = 0; i < 100 && !done; i++) usleep(100000); printf("stopped at %d: %s\\n", (int)upto, done == 1 ? "ended" : done ? "a proof" : "still waiting"); if (done != 1) bad = 1;
    }
    fflush(stdout); _exit(bad);
}
'''})
