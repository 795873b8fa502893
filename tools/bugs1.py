from mkbug import *
bug("c02-t32", "C02", [("src/proof_common.h", "mpz_powm_ui(res.impl, a1.impl, b, c.impl);", "mpz_powm_ui(res.impl, a1.impl, static_cast<unsigned int>(b), c.impl);")],
    "an iteration count of 2^32 or more", "only the low 32 bits of T enter the equation: a proof of 100 squarings is accepted as a proof of 2^32+100",
    {"demo.sh": PY, "demo.py": '''import chiavdf
D = str(chiavdf.create_discriminant(b"demo", 256)); x = b"\\x08" + b"\\0" * 99
r = chiavdf.prove(b"demo", x, 256, 1000, "")
assert chiavdf.verify_wesolowski(D, x, r[:100], r[100:200], 1000)
bad = chiavdf.verify_wesolowski(D, x, r[:100], r[100:200], 1000 + 2**32)
print("accepted for 2^32+1000:", bad); raise SystemExit(1 if bad else 0)
'''})
bug("c03-signed", "C03", [("src/verifier.h", "        x = xnew;\n        if (segment_iters > iterations) {\n            return false;\n        }\n        iterations -= segment_iters;\n    }\n\n    // Final forms", "        x = xnew;\n        if (static_cast<int64_t>(segment_iters - iterations) > 0) {\n            return false;\n        }\n        iterations -= segment_iters;\n    }\n\n    // Final forms")],
    "a part whose count is at least 2^63 above what is left", "the counts of the parts may wrap: a chain whose counts do not add up to the claimed total is accepted",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
static form pw(form x, integer e, integer &D) { integer L = root(-D, 4); PulmarkReducer r; return FastPowFormNucomp(x, D, e, L, r); }
static uint64_t ord;
static form proof(form x, form y, uint64_t T, integer &D, integer &B) {   // x^floor(2^T/B) using the order of x
    B = GetB(D, x, y); integer m, p, two(2), r, q; mpz_mul_ui(m.impl, B.impl, ord); mpz_powm_ui(p.impl, two.impl, T, m.impl); mpz_fdiv_q(q.impl, p.impl, B.impl); return pw(x, q, D); }
static form sq(form x, uint64_t T, integer &D) { integer m((uint64_t)ord), p, two(2); mpz_powm_ui(p.impl, two.impl, T, m.impl); return pw(x, p, D); }
static void put(std::vector<uint8_t> &v, form f, int bits) { auto b = SerializeForm(f, bits); v.insert(v.end(), b.begin(), b.end()); }
int main() {
    integer D("-1000000087"); while (true) { integer m = -D; if (m.prime() && mpz_fdiv_ui(m.impl, 8) == 7) break; D = D - integer(2); }
    int n = D.num_bits(); form x = form::generator(D), id = form::identity(D), t = x; ord = 1; while (!(t == id)) { t = t * x; ord++; }
    uint64_t T = 10; int bad = 0;
    for (uint64_t s1 : {(uint64_t)1 << 63, ((uint64_t)1 << 63) + 50, ~(uint64_t)0 - 5}) {
        uint64_t s2 = T - s1; form m = sq(x, s1, D), y = sq(m, s2, D); integer B1, B2; form p1 = proof(x, m, s1, D, B1), p2 = proof(m, y, s2, D, B2);
        std::vector<uint8_t> blob, xs; put(blob, y, n); put(blob, p2, n); for (int i = 7; i >= 0; i--) blob.push_back(s1 >> (8 * i)); std::vector<uint8_t> b33(33, 0); for (int i = 0; i < 33; i++) { integer q; mpz_fdiv_q_2exp(q.impl, B1.impl, 8 * (32 - i)); b33[i] = mpz_fdiv_ui(q.impl, 256); } blob.insert(blob.end(), b33.begin(), b33.end()); put(blob, p1, n); put(xs, x, n);
        bool ok = CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T, n, 1); printf("parts %llu + %llu claimed as %llu: accepted=%d\\n", (unsigned long long)s1, (unsigned long long)s2, (unsigned long long)T, ok); bad |= ok;
    }
    return bad;
}
'''})

bug("c05-carry", "C05", [("src/proof_common.h", "for (int i = (int) sprout.size() - 1; i >= 0; --i) {", "for (int i = (int) sprout.size() - 1; i >= 0 && i + 4 >= (int) sprout.size(); --i) {")],
    "a seed whose last four bytes are close to wrapping", "the counter's carry stops after four bytes, so the discriminant (and any challenge) differs from the first prime of the expansion",
    {"demo.sh": PY, "demo.py": """import hashlib, chiavdf
def expand(seed, bits):
    n = int.from_bytes(seed, "big"); L = len(seed)
    while True:
        blob = b""
        while len(blob) * 8 < bits:
            n = (n + 1) % 256**L; blob += hashlib.sha256(n.to_bytes(L, "big")).digest()[: bits // 8 - len(blob)]
        p = int.from_bytes(blob, "big") | 7 | 1 << bits - 1
        if all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7, 11, 13)): return -p
bad = 0
for seed in (b"seed one", bytes([9, 1, 2, 255, 255, 255, 253]), bytes([7] * 20) + b"\\xff" * 8):
    for bits in (64, 256, 512):
        ok = int(chiavdf.create_discriminant(seed, bits), 16) == expand(seed, bits); bad += not ok; print(seed.hex(), bits, ok)
raise SystemExit(1 if bad else 0)
"""})
bug("c06-limb", "C06", [("src/primetest.h", "ret = miller_rabin(n, b, d) && is_vprp(n, b, d);", "ret = miller_rabin(n, b, d) && (n->_mp_size < 2 || is_vprp(n, b, d));")],
    "a composite below 2^64 that is a strong pseudoprime to base 2 without small factors", "such a composite is declared prime",
    {"demo.sh": CPP % "", "demo.cpp": HDR + """#include "verifier.h"
int main() { int bad = 0; for (const char *s : {"4759123141", "341550071728321", "3825123056546413051"}) { integer n(s); bool p = n.prime(); printf("%s prime=%d\\n", s, p); bad |= p; } return bad; }
"""})
bug("c09-gcd", "C09", [("src/nucomp.h", "      if (mpz_cmp_ui(s, 1))\n      {", "      if (mpz_cmp_ui(s, 1) && mpz_size(s) < 2)\n      {")],
    "two large forms whose first coefficients share a factor of more than one machine word, such as a form and the inverse of a near power", "the common factor is not removed and their composition is not the product",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + """#include "verifier.h"
int main() {
    std::vector<uint8_t> seed = {1, 2, 3}; int bad = 0;
    for (int bits : {64, 256, 512, 1024}) {
        integer D = CreateDiscriminant(seed, bits), L = root(-D, 4); PulmarkReducer r; form g = form::generator(D);
        for (int e : {5, 40, 77, 300, 5000}) for (int k : {0, 1, 3, 7}) {
            form a = FastPowFormNucomp(g, D, integer(e), L, r), b = FastPowFormNucomp(g, D, integer(e + k), L, r); form ai = a.inverse(); ai.reduce(); form c; nucomp_form(c, b, ai, D, L); c.reduce();
            form w = FastPowFormNucomp(g, D, integer(k), L, r); w.reduce(); bool ok = c == w && c.check_valid(D); if (!ok) { printf("%d bits, g^%d * g^-%d differs\\n", bits, e + k, e); bad = 1; }
        }
    }
    return bad;
}
"""})
bug("c21-enotdir", "C21", [("src/prover_slow.h", "if ((statrst != 0) && (errno != EINTR)) {", "if ((statrst != 0) && (errno == ENOENT)) {")],
    "the watched file becomes unreachable for another reason than a missing directory entry (its folder was replaced by a file)", "the cancellation is not noticed and the prover runs to the end",
    {"demo.sh": PY, "demo.py": """import chiavdf, os, tempfile
d = tempfile.mkdtemp(); p = os.path.join(d, "plain"); open(p, "w").close(); x = b"\\x08" + b"\\0" * 99
r1 = chiavdf.prove(b"demo", x, 256, 70000, p)
r2 = chiavdf.prove(b"demo", x, 256, 70000, os.path.join(p, "child"))     # not a directory
os.remove(p); os.rmdir(d)
print(len(r1), len(r2)); raise SystemExit(0 if len(r1) == 200 and len(r2) == 0 else 1)
"""})
