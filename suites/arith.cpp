// C06 (primality) and C24 (128-bit fallback, checked narrowing, byte order).
#include <cfenv>
#include <cstdint>
#include <ostream>
#include <iostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <algorithm>
#include <sstream>
#include <iomanip>
namespace soft {   // the portable class, next to the native type used by the rest of the library
#include "uint128_t/uint128_t.cpp"
}
#include "repo.h"
#include "gen.h"
using namespace model; using pbt::Ctx; typedef unsigned __int128 N; typedef soft::uint128_t U;

static bool spsp2(const Z &n) { if (n < 3 || n % 2 == 0) return false; Z d = n - 1, x, two = 2; int s = 0; while (d % 2 == 0) { d >>= 1; s++; } mpz_powm(x.get_mpz_t(), two.get_mpz_t(), d.get_mpz_t(), n.get_mpz_t()); if (x == 1 || x == n - 1) return true; for (int i = 1; i < s; i++) { x = x * x % n; if (x == n - 1) return true; } return false; }
static Z next_prime(const Z &z) { Z r; mpz_nextprime(r.get_mpz_t(), z.get_mpz_t()); return r; }
static Z rnd_bits(pbt::Src &s, size_t n) { Bytes b = s.bytes((n + 7) / 8); Z r = from_be(b) % (Z(1) << n); mpz_setbit(r.get_mpz_t(), n - 1); return r; }
static bool repo_prime(const Z &n) { return rp::I(n).prime(); }
static void expect(Ctx &c, const Z &n, bool want, const char *k) { c.note("%s n=%s", k, n.get_str().substr(0, 320).c_str()); c.label(k); PBT_CHECK(repo_prime(n) == want, "%s reported as %s", want ? "a prime was" : "a composite was", want ? "composite" : "prime"); }

static void c06_block(Ctx &c) {   // consecutive integers, settled by trial division / GMP below 2^64
    auto &s = c.s; uint64_t k; switch (s.raw(5)) { case 0: k = s.raw(70000); break; case 1: k = s.raw(1 << 24); break; case 2: k = s.raw(1ULL << 32); break; case 3: k = (1ULL << s.range(8, 63)) - 100 + s.raw(50); break; default: k = s.u64() >> s.raw(40); }
    if (k > ~0ULL - 600) k -= 600; c.note("block %llu..+200", (unsigned long long)k); c.label(k < 70000 ? "<70000" : k < (1ULL << 32) ? "<2^32" : "<2^64"); int primes = 0;
    for (uint64_t i = k; i < k + 200; i++) { Z n = u64z(i); bool w = i < (1ULL << 32) ? small_prime(i) : mpz_probab_prime_p(n.get_mpz_t(), 30) != 0; primes += w; PBT_CHECK(repo_prime(n) == w, "%llu reported as %s", (unsigned long long)i, w ? "composite" : "prime"); }
    c.nontrivial(primes > 0);
}
static void c06_composite(Ctx &c) {
    auto &s = c.s; size_t nb = s.range(5, s.raw(3) ? 64 : 512);
    switch (s.raw(9)) {
    case 0: { // base-2 strong pseudoprimes (k+1)(2k+1), (k+1)(rk+1)
        for (int t = 0; t < 4000; t++) { Z k = s.raw(1) + rnd_bits(s, std::min<size_t>(nb, 40)); k -= k % 2; long r = 2 + (long)s.raw(4); Z p = k + 1, q = r * k + 1; if (!probab_prime(p) || !probab_prime(q)) continue; Z n = p * q; if (!spsp2(n)) continue; c.nontrivial(); expect(c, n, false, "strong pseudoprime to base 2"); return; } c.discard(); }
    case 1: { // large ones: search by stepping from a random start
        Z k = rnd_bits(s, std::max<size_t>(nb, 40)); k -= k % 2; for (int t = 0; t < 4000; t++, k += 2) { if (mpz_probab_prime_p(Z(k + 1).get_mpz_t(), 1) == 0) continue; Z n = (k + 1) * (2 * k + 1); if (!mpz_probab_prime_p(Z(2 * k + 1).get_mpz_t(), 1) || !spsp2(n)) continue; c.nontrivial(); expect(c, n, false, "large strong pseudoprime"); return; } c.discard(); }
    case 2: { Z k = rnd_bits(s, std::min<size_t>(nb, 60)); for (int t = 0; t < 20000; t++, k++) { if (!mpz_probab_prime_p(Z(6 * k + 1).get_mpz_t(), 1) || !mpz_probab_prime_p(Z(12 * k + 1).get_mpz_t(), 1) || !mpz_probab_prime_p(Z(18 * k + 1).get_mpz_t(), 1)) continue; c.nontrivial(); expect(c, (6 * k + 1) * (12 * k + 1) * (18 * k + 1), false, "Carmichael number"); return; } c.discard(); }
    case 3: { static const char *t[] = {"913", "150267335403", "430558874533", "14760229232131", "936916995253453", "2047", "3277", "4033", "3215031751", "3825123056546413051", "318665857834031151167461", "3317044064679887385961981", "1194649", "12327121", "5459", "5777", "10877", "16109", "18971", "323", "377", "1159", "1829", "3827", "989", "3239", "5249"}; c.nontrivial(); expect(c, Z(t[s.raw(sizeof t / sizeof *t)]), false, "listed pseudoprime"); return; }
    case 4: { Z p = next_prime(rnd_bits(s, nb)); c.nontrivial(); expect(c, p * p, false, "square of a prime"); return; }
    case 5: { Z p = next_prime(rnd_bits(s, nb)), q = next_prime(p); for (uint64_t i = s.raw(3); i > 0; i--) q = next_prime(q); c.nontrivial(); expect(c, p * q, false, "close primes"); return; }
    case 6: { Z p = next_prime(rnd_bits(s, nb)), q = next_prime(Z((unsigned long)s.range(2, 60000))); c.nontrivial(); expect(c, p * q, false, "one small factor"); return; }
    case 7: { // products q = m(p+1)-1, p-1|n-1 style: Lucas pseudoprimes for the parameters the test selects
        Z p = next_prime(rnd_bits(s, std::min<size_t>(nb, 200))); for (int t = 0; t < 2000; t++) { Z q = 2 * p + 1; if (probab_prime(q)) { c.nontrivial(); expect(c, p * q, false, "p(2p+1)"); return; } p = next_prime(p); } c.discard(); }
    default: { Z n = rnd_bits(s, s.range(20, 1024)); mpz_setbit(n.get_mpz_t(), 0); bool w = mpz_probab_prime_p(n.get_mpz_t(), 30); c.nontrivial(); expect(c, n, w, w ? "random odd (prime)" : "random odd"); return; } }
}
static void c06_prime(Ctx &c) {
    auto &s = c.s; size_t nb; switch (s.raw(6)) { case 0: nb = 264; break; case 1: nb = 512; break; case 2: nb = 1024; break; case 3: nb = 64 * s.range(1, 15) + s.irange(-1, 1); break; default: nb = s.range(2, 1000); }
    switch (s.raw(3)) {
    case 0: { // quadratic residue everywhere: the Lucas step has to search far for its parameter
        static const unsigned pr[] = {3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229,233,239,241,251,257,263,269,271,277,281,283,293,307,311,313,317,331,337,347,349,353,359,367,373,379,383,389,397,401,409,419,421,431,433,439,443,449,457,461,463,467,479,487,491,499};
        Z m = 8; unsigned k = (unsigned)s.range(1, sizeof pr / sizeof *pr); unsigned i = 0; for (; i < k && bits(m) + 30 < 1024; i++) m *= pr[i]; Z n = m * (rnd_bits(s, s.range(2, 20))) + 1; for (int t = 0; t < 200000 && !mpz_probab_prime_p(n.get_mpz_t(), 5); t++) n += m; if (bits(n) > 1024 || !probab_prime(n)) c.discard();
        c.labelf("residue for all primes <= %s", pr[i - 1] < 50 ? "50" : pr[i - 1] < 200 ? "200" : "500"); c.nontrivial(); expect(c, n, true, "residue prime"); return; }
    case 1: { Z n = rnd_bits(s, std::max<size_t>(nb, 4)); n -= n % 8; n += 7; for (int t = 0; t < 200000 && !mpz_probab_prime_p(n.get_mpz_t(), 5); t++) n += 8; c.nontrivial(); c.labelf("limbs %s", bits(n) <= 64 ? "1" : bits(n) <= 256 ? "<=4" : bits(n) <= 512 ? "<=8" : bits(n) <= 960 ? "<=15" : "16"); expect(c, n, true, "prime = 7 mod 8"); return; }
    default: { Z n = next_prime(rnd_bits(s, nb)); c.nontrivial(); expect(c, n, true, "random prime"); } }
}

// ------------------------------------------------------------------ C24
static U mk(N v) { return U((uint64_t)(v >> 64), (uint64_t)v); }
static N un(const U &u) { return ((N)u.upper() << 64) | u.lower(); }
static std::string hx(N v) { char b[40]; snprintf(b, 40, "%016llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); return b; }
static N gen128(pbt::Src &s) {
    switch (s.raw(8)) { case 0: return s.raw(17); case 1: return ~(N)0 - s.raw(17); case 2: return (N)1 << s.raw(128); case 3: return ((N)1 << s.raw(128)) - 1; case 4: return s.u64(); case 5: return (N)s.u64() << 64; case 6: return (((N)s.u64() << 64) | s.u64()) >> s.raw(128); default: return ((N)s.u64() << 64) | s.u64(); }
}
static std::string nstr(N v, int base) { if (!v) return "0"; std::string r; while (v) { int d = (int)(v % base); r.insert(r.begin(), (char)(d < 10 ? '0' + d : 'a' + d - 10)); v /= base; } return r; }
#define EQ(e, w) do { N g_ = (N)(e), w_ = (N)(w); PBT_CHECK(g_ == w_, "%s: got %s want %s", #e, hx(g_).c_str(), hx(w_).c_str()); } while (0)
#define EQU(e, w) EQ(un(e), w)
#define EQB(e, w) PBT_CHECK((bool)(e) == (bool)(w), "%s is wrong", #e)
template <class T> static void mixed(N a, uint64_t raw) {   // builtin operand on either side
    T t = (T)raw; if (t < 0) t = (T)(~(uint64_t)t); U A = mk(a); const U CA = A; N n = (N)t;
    EQU(CA + t, a + n); EQU(CA - t, a - n); EQU(CA * t, a * n); EQU(CA & t, a & n); EQU(CA | t, a | n); EQU(CA ^ t, a ^ n); if (n) { EQU(CA / t, a / n); EQU(CA % t, a % n); }
    EQU(t + CA, n + a); EQU(t - CA, n - a); EQU(t * CA, n * a); EQU(t & CA, n & a); EQU(t | CA, n | a); EQU(t ^ CA, n ^ a); if (a) { EQU(t / CA, n / a); EQU(t % CA, n % a); }
    EQB(CA == t, a == n); EQB(CA != t, a != n); EQB(CA < t, a < n); EQB(CA > t, a > n); EQB(CA <= t, a <= n); EQB(CA >= t, a >= n);
    EQB(t == CA, n == a); EQB(t != CA, n != a); EQB(t < CA, n < a); EQB(t > CA, n > a); EQB(t <= CA, n <= a); EQB(t >= CA, n >= a);
    { U B = A; B += t; EQU(B, a + n); B = A; B -= t; EQU(B, a - n); B = A; B *= t; EQU(B, a * n); B = A; B &= t; EQU(B, a & n); B = A; B |= t; EQU(B, a | n); B = A; B ^= t; EQU(B, a ^ n); if (n) { B = A; B /= t; EQU(B, a / n); B = A; B %= t; EQU(B, a % n); } B = t; EQU(B, n); U D(t); EQU(D, n); }
    T sh = (T)(raw % 128); if (sh >= 0) { EQU(CA << sh, a << (int)sh); EQU(CA >> sh, a >> (int)sh); U B = A; B <<= sh; EQU(B, a << (int)sh); B = A; B >>= sh; EQU(B, a >> (int)sh); }
}
static void c24_ops(Ctx &c) {
    auto &s = c.s; N a = gen128(s), b = s.raw(4) == 0 ? a + (N)s.irange(-1, 1) : gen128(s); c.note("a=%s b=%s", hx(a).c_str(), hx(b).c_str()); U A = mk(a), B = mk(b); c.nontrivial(a > 1 && b > 1);
    c.labelf("a %s b", a < b ? "<" : a == b ? "=" : ">"); if (a >> 64 && b >> 64) c.label("both above 2^64");
    EQU(A + B, a + b); EQU(A - B, a - b); EQU(A * B, a * b); EQU(A & B, a & b); EQU(A | B, a | b); EQU(A ^ B, a ^ b); EQU(~A, ~a); EQU(-A, -a); EQU(+A, a); EQB(!A, !a); EQB(A && B, a && b); EQB(A || B, a || b);
    if (b) { EQU(A / B, a / b); EQU(A % B, a % b); } else { int thrown = 0; try { (void)(A / B); } catch (std::exception &) { thrown++; } try { (void)(A % B); } catch (std::exception &) { thrown++; } PBT_CHECK(thrown == 2, "division by zero was not refused"); }
    EQB(A == B, a == b); EQB(A != B, a != b); EQB(A < B, a < b); EQB(A > B, a > b); EQB(A <= B, a <= b); EQB(A >= B, a >= b);
    { U x = A; EQU(++x, a + 1); EQU(x, a + 1); x = A; EQU(x++, a); EQU(x, a + 1); x = A; EQU(--x, a - 1); x = A; EQU(x--, a); EQU(x, a - 1); }
    { U x = A; x += B; EQU(x, a + b); x = A; x -= B; EQU(x, a - b); x = A; x *= B; EQU(x, a * b); x = A; x &= B; EQU(x, a & b); x = A; x |= B; EQU(x, a | b); x = A; x ^= B; EQU(x, a ^ b); if (b) { x = A; x /= B; EQU(x, a / b); x = A; x %= B; EQU(x, a % b); } x = A; x += x; EQU(x, a + a); x = A; x *= x; EQU(x, a * a); x = A; x -= x; EQU(x, 0); if (a) { x = A; x /= x; EQU(x, 1); } }
    unsigned k = (unsigned)s.raw(160); N l = k < 128 ? a << k : 0, r = k < 128 ? a >> k : 0; EQU(A << U(k), l); EQU(A >> U(k), r); { U x = A; x <<= U(k); EQU(x, l); x = A; x >>= U(k); EQU(x, r); } EQU(A << mk(b | (N)1 << 100), 0); EQU(A >> mk(b | (N)1 << 100), 0);
    EQ((uint64_t)A, (uint64_t)a); EQ((uint32_t)A, (uint32_t)a); EQ((uint16_t)A, (uint16_t)a); EQ((uint8_t)A, (uint8_t)a); EQB((bool)A, a != 0); int nb = 0; while (nb < 128 && a >> nb) nb++; EQ(A.bits(), nb);
    uint64_t raw = s.raw(3) ? s.u64() >> s.raw(64) : s.raw(3); switch (s.raw(9)) { case 0: mixed<uint8_t>(a, raw); break; case 1: mixed<uint16_t>(a, raw); break; case 2: mixed<uint32_t>(a, raw); break; case 3: mixed<uint64_t>(a, raw); break; case 4: mixed<int8_t>(a, raw); break; case 5: mixed<int16_t>(a, raw); break; case 6: mixed<int32_t>(a, raw); break; case 7: mixed<int64_t>(a, raw); break; default: mixed<unsigned long long>(a, raw); }
    { U x(A); U y(std::move(x)); EQU(y, a); U z; z = A; EQU(z, a); U w; w = std::move(z); EQU(w, a); }
    { std::vector<uint8_t> v; A.export_bits(v); PBT_CHECK(from_be(v) == Z(u64z((uint64_t)(a >> 64)) << 64) + u64z((uint64_t)a), "exported bytes are not the value"); }
}
static void c24_text(Ctx &c) {
    auto &s = c.s; N a = gen128(s); int base = (int)s.range(2, 16); unsigned len = (unsigned)s.raw(3) ? 0 : (unsigned)s.raw(140); c.note("a=%s base=%d len=%u", hx(a).c_str(), base, len); c.nontrivial(a > 1); c.labelf("base %d", base);
    std::string w = nstr(a, base); if (w.size() < len) w = std::string(len - w.size(), '0') + w; PBT_CHECK(mk(a).str((uint8_t)base, len) == w, "text form: got %s want %s", mk(a).str((uint8_t)base, len).c_str(), w.c_str());
    { std::ostringstream o; o << std::hex << mk(a); PBT_CHECK(o.str() == nstr(a, 16), "hex stream"); std::ostringstream d; d << mk(a); PBT_CHECK(d.str() == nstr(a, 10), "decimal stream"); std::ostringstream q; q << std::oct << mk(a); PBT_CHECK(q.str() == nstr(a, 8), "octal stream"); }
    { std::string h = hx(a), u = h; if (s.raw(2)) for (auto &ch : u) ch = (char)toupper(ch); int pre = (int)s.raw(3); u = (pre == 0 ? "" : pre == 1 ? "0x" : "x") + u; EQU(U(u.c_str()), a); EQU(U(u), a); }
    for (int bad : {0, 1, 17, 37}) { bool t = false; try { mk(a).str((uint8_t)bad); } catch (std::exception &) { t = true; } PBT_CHECK(t, "base %d was accepted", bad); }
}
template <class To, class From> static void cast1(Ctx &c, From v, __int128 wide) {
    bool fits = wide >= (__int128)std::numeric_limits<To>::min() && wide <= (__int128)std::numeric_limits<To>::max(); bool threw = false; To r = 0;
    try { r = checked_cast<To>(v); } catch (std::overflow_error &) { threw = true; }
    PBT_CHECK(threw == !fits, "narrowing %s to %zu bytes %s", hx((N)wide).c_str(), sizeof(To), threw ? "was refused" : "lost the value"); if (fits) PBT_CHECK((__int128)r == wide, "narrowing changed the value"); c.label(fits ? "fits" : "does not fit");
}
template <class From> static void castall(Ctx &c, From v) { __int128 w = (__int128)v; cast1<int8_t>(c, v, w); cast1<uint8_t>(c, v, w); cast1<int16_t>(c, v, w); cast1<uint16_t>(c, v, w); cast1<int32_t>(c, v, w); cast1<uint32_t>(c, v, w); cast1<int64_t>(c, v, w); cast1<uint64_t>(c, v, w); cast1<long long>(c, v, w); cast1<unsigned long long>(c, v, w); cast1<char>(c, v, w); }
static void c24_cast(Ctx &c) {
    auto &s = c.s; uint64_t x; switch (s.raw(5)) { case 0: x = (1ULL << s.raw(64)) + (uint64_t)s.irange(-2, 2); break; case 1: x = -(uint64_t)((1ULL << s.raw(64)) + (uint64_t)s.irange(-2, 2)); break; case 2: x = s.raw(300); break; case 3: x = -(uint64_t)s.raw(300); break; default: x = s.u64() >> s.raw(64); }
    c.note("v=%llx", (unsigned long long)x); c.nontrivial(x > 127); castall<int8_t>(c, (int8_t)x); castall<uint8_t>(c, (uint8_t)x); castall<int16_t>(c, (int16_t)x); castall<uint16_t>(c, (uint16_t)x); castall<int32_t>(c, (int32_t)x); castall<uint32_t>(c, (uint32_t)x); castall<int64_t>(c, (int64_t)x); castall<uint64_t>(c, x);
    uint8_t b[9] = {0}; b[8] = 0x5a; Int64ToBytes(b, x); for (int i = 0; i < 8; i++) PBT_CHECK(b[i] == (uint8_t)(x >> (56 - 8 * i)), "64-bit byte order"); PBT_CHECK(b[8] == 0x5a, "wrote past the end"); PBT_CHECK(BytesToInt64(b) == x, "64-bit read back"); uint8_t q[5]; q[4] = 0x5a; Int32ToBytes(q, (uint32_t)x); for (int i = 0; i < 4; i++) PBT_CHECK(q[i] == (uint8_t)((uint32_t)x >> (24 - 8 * i)), "32-bit byte order"); PBT_CHECK(q[4] == 0x5a, "wrote past the end");
    Bytes v = s.bytes(s.raw(40)); std::string h; for (auto y : v) { char t[3]; snprintf(t, 3, "%02x", y); h += t; } PBT_CHECK(BytesToStr(v) == h, "hex text");
}
// big integers: construction from bytes and text, and back
static void c24_integer(Ctx &c) {
    auto &s = c.s; Z z = gen::num(s, 1100); if (s.raw(3) == 0) z = -z; c.note("z=%s", hex(z).substr(0, 290).c_str()); c.nontrivial(bits(z) > 64); integer i = rp::I(z);
    PBT_CHECK((size_t)i.num_bits() == std::max<size_t>(bits(z), 1), "bit count: got %d want %zu", i.num_bits(), bits(z));
    PBT_CHECK(rp::fromI(integer(i.to_string())) == z, "text round trip"); PBT_CHECK(rp::fromI(integer(z.get_str())) == z, "decimal text");
    { size_t n = (bits(z) + 7) / 8 + s.raw(3); Bytes b = to_be(abs(z), n); PBT_CHECK(rp::fromI(integer(b)) == abs(z), "big-endian bytes"); if (n) PBT_CHECK(rp::fromI(integer(b.data(), n)) == abs(z), "big-endian byte array"); }
    { uint64_t k = s.u64() >> s.raw(64); PBT_CHECK(rp::fromI(integer((int64_t)k)) == Z((long)(int64_t)k), "from 64-bit"); }
    { Z y = gen::num(s, 600); if (s.raw(2)) y = -y; integer j = rp::I(y); PBT_CHECK(rp::fromI(i + j) == z + y && rp::fromI(i - j) == z - y && rp::fromI(i * j) == z * y, "add/sub/mul"); if (y != 0) { PBT_CHECK(rp::fromI(i / j) == fdiv(z, y), "division rounds down"); Z m; mpz_mod(m.get_mpz_t(), z.get_mpz_t(), y.get_mpz_t()); Z f = fmod(z, y), g = rp::fromI(i % j); PBT_CHECK(g == m || g == f, "remainder"); }
      PBT_CHECK((i < j) == (z < y) && (i > j) == (z > y) && (i == j) == (z == y) && (i <= j) == (z <= y) && (i >= j) == (z >= y) && (i != j) == (z != y), "comparison"); PBT_CHECK(rp::fromI(-i) == -z, "negation"); }
    { unsigned k = (unsigned)s.raw(200); PBT_CHECK(rp::fromI(i << (int)k) == z << k, "left shift"); if (z >= 0) PBT_CHECK(rp::fromI(i >> (int)k) == z >> k, "right shift"); }
    { Z a = abs(z); unsigned e = (unsigned)s.range(2, 5); Z r; mpz_root(r.get_mpz_t(), a.get_mpz_t(), e); PBT_CHECK(rp::fromI(root(rp::I(a), (int)e)) == r, "integer root"); }
    { unsigned k = (unsigned)s.raw(1200); bool v = s.raw(2); integer q = rp::I(abs(z)); q.set_bit((int)k, v); Z w = abs(z); if (v) mpz_setbit(w.get_mpz_t(), k); else mpz_clrbit(w.get_mpz_t(), k); PBT_CHECK(rp::fromI(q) == w, "set_bit"); PBT_CHECK(q.get_bit((int)k) == v, "get_bit"); }
}
int main(int argc, char **argv) {
    std::vector<pbt::Suite> S = {
        {"C06.blocks", c06_block, 60000, 1500000, "the block of 200 consecutive integers holds a prime"},
        {"C06.composites", c06_composite, 40000, 1200000, "a composite of a kind built to fool one of the three steps, or a random odd number"},
        {"C06.primes", c06_prime, 20000, 500000, "every case is a prime"},
        {"C24.ops", c24_ops, 4000000, 80000000, "both operands above 1"},
        {"C24.text", c24_text, 400000, 9000000, "value above 1"},
        {"C24.cast", c24_cast, 300000, 6000000, "value above 127"},
        {"C24.integer", c24_integer, 2000000, 40000000, "more than 64 bits"},
    };
    return pbt::main_(argc, argv, S);
}
