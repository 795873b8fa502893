// C08: untrusted bytes at every verification and decoding entry point, under AddressSanitizer.
#include "c_bindings/c_wrapper.cpp"
#define HAVE_PROVER_SLOW
#include "repo.h"
#include "gen.h"
#include "vcases.h"
using namespace model; using pbt::Ctx;
#include <malloc.h>

struct Exact { uint8_t *p; size_t n; explicit Exact(const Bytes &b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Exact() { delete[] p; } Exact(const Exact &) = delete; };

static Z hostile_disc(Ctx &c, const char *&k) {
    auto &s = c.s; Z D;
    switch (s.raw(9)) {
    case 0: D = gen::disc(c, 16, 1024); k = "prime"; break;
    case 1: { D = gen::num(s, 1024); D -= D % 8; D = -(D + 7); k = "1 mod 8, any factorisation"; break; }
    case 2: D = -Z((unsigned long)s.range(0, 64)); k = "tiny"; break;
    case 3: D = Z((unsigned long)s.range(0, 64)); k = "tiny positive"; break;
    case 4: D = gen::num(s, 1030); k = "positive"; break;
    case 5: { Z q = gen::num(s, 300); D = s.raw(2) ? Z(q * q) : Z(-q * q); k = "square"; break; }
    case 6: D = -(Z(1) << s.range(0, 1026)) + Z((long)s.irange(-2, 2)); k = "near power of two"; break;
    case 7: { Z q = gen::num(s, 40); D = -(gen::num(s, 200) * q * q); k = "square factor"; break; }
    default: D = -gen::num(s, 1040); k = "any negative"; }
    return D;
}
// forms (a,b) with b^2 = D mod 4a for small a: exist for arbitrary discriminants, encoded canonically
static bool odd_form(Ctx &c, const Z &D, Bytes &out) {
    auto &s = c.s; long a = (long)s.range(1, s.raw(2) ? 12 : 300), sg = s.chance(1, 8) ? -1 : 1; Z m = Z(4 * a), d = model::fmod(D, m); std::vector<long> roots;
    for (long b = 0; b < 2 * a; b++) if (Z(Z(b) * b - d) % m == 0) roots.push_back(b);
    if (roots.empty()) return false;
    Z b = roots[s.raw(roots.size())]; if (s.raw(2)) b -= 2 * a * (long)s.irange(-2, 2); F f; f.a = sg * a; f.b = b;
    if (f.a <= 0) return false;
    size_t n = bits(D); if (n == 0 || n > 1024) return false;
    try { out = encode(f, n); } catch (std::exception &) { return false; }
    return true;
}
static bool g_good = false;   // this case mostly uses forms that do decode
static Bytes hostile_form(Ctx &c, const Z &D, bool proper) {
    auto &s = c.s; Bytes b(100, 0); size_t n = std::min<size_t>(bits(D), 1024); size_t db = (n + 31) / 32 * 32;
    if (g_good && s.raw(8)) { try { if (proper && s.raw(2)) { b = encode(gen::element(c, D), n); return b; } if (odd_form(c, D, b)) return b; } catch (std::exception &) {} b = Bytes(100, 0); b[0] = (uint8_t)(model::fmod(D, 8) == 1 ? 8 : 4); return b; }
    switch (s.raw(8)) {
    case 0: b[0] = 8; break; case 1: b[0] = 4; break;
    case 2: b = s.bytes(100); b[0] &= 3; b[1] = (uint8_t)s.raw(db / 32 + 2); break;
    case 3: b = s.bytes(100); break;
    case 4: b[1 + s.raw(99)] = (uint8_t)s.u64(); b[1] = (uint8_t)s.raw(db / 32 + 2); break;
    case 5: { // small fields with a large g
        b[0] = (uint8_t)s.raw(4); b[1] = (uint8_t)(s.raw(db / 32 + 1)); size_t gs = b[1], o = 2; size_t w[4] = {db / 16 - std::min(gs, db / 16), db / 32 - std::min(gs, db / 32), gs + 1, gs + 1};
        for (int i = 0; i < 4; i++) { size_t k = s.raw(4); for (size_t j = 0; j < w[i] && o + j < 100; j++) b[o + j] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (j == 0) * (uint8_t)s.range(1, 9) : (uint8_t)s.u64(); o += w[i]; } break; }
    case 6: if (odd_form(c, D, b)) break; [[fallthrough]];
    default: if (proper) { try { b = encode(gen::element(c, D), n); } catch (std::exception &) {} } else odd_form(c, D, b);
        if (b.size() == 100 && s.raw(2)) b = vc::jitter(c, b, 0, 3 * db / 32 + 6); }
    if (b.size() != 100) b.resize(100);
    return b;
}
static Bytes hostile_blob(Ctx &c, const Z &D, bool proper, bool full, uint64_t &depth) {
    auto &s = c.s; depth = s.raw(4); Bytes b = hostile_form(c, D, proper); if (full) vc::put(b, hostile_form(c, D, proper));
    for (uint64_t i = 0; i < depth; i++) { vc::put64(b, s.raw(3) ? s.raw(100) : s.u64()); vc::put(b, s.raw(4) == 0 ? Bytes(33, 0) : s.raw(3) == 0 ? to_be(Z((unsigned long)s.raw(9)), 33) : s.bytes(33)); vc::put(b, hostile_form(c, D, proper)); }
    switch (s.raw(12)) { case 0: { size_t k = s.raw(b.size() + 1); b.resize(k); break; } case 1: b.resize(b.size() + s.range(1, 142)); break; case 2: depth = s.u64(); break;
        case 3: { // depth * 141 + base wraps 2^64
            if (s.raw(3)) b.resize(b.size() + s.range(1, 140)); uint64_t inv = 1; for (int i = 0; i < 7; i++) inv *= 2 - 141 * inv; depth = ((uint64_t)b.size() - (full ? 200 : 100)) * inv + (s.raw(2) ? 0 : inv * s.raw(300)); break; } case 4: b.clear(); break; default: break; }
    return b;
}
template <class Fn> static int guarded(Fn f) { try { return f() ? 1 : 0; } catch (std::exception &) { return 2; } }

static void c08_api(Ctx &c) {
    auto &s = c.s; const char *k = ""; Z D = hostile_disc(c, k); bool proper = !strcmp(k, "prime"); c.note("D=%s", hex(D).substr(0, 280).c_str()); c.label(k);
    g_good = s.raw(2); uint64_t depth, T = s.raw(2) ? s.raw(1000) : s.u64(); int entry = (int)s.raw(7); bool full = entry != 2 && entry != 4;
    Bytes xs = hostile_form(c, D, proper), bl = hostile_blob(c, D, proper, full, depth);
    c.note("entry=%d T=%llu depth=%llu", entry, (unsigned long long)T, (unsigned long long)depth); c.hex("x", xs, 100); c.hex("blob", bl, 400);
    Exact X(xs), B(bl); int r = -1; integer d = rp::I(D);
    switch (entry) {
    case 0: r = guarded([&] { return CheckProofOfTimeNWesolowski(d, X.p, B.p, B.n, T, s.raw(3) ? bits(D) : s.u64(), depth); }); break;
    case 1: r = guarded([&] { GetBFromProof(d, X.p, B.p, B.n, T, depth); return true; }); break;
    case 2: { Z C = s.raw(5) == 0 ? Z(0) : s.raw(5) == 1 ? Z(-gen::num(s, 300)) : gen::num(s, 300); c.note("B=%s", hex(C).c_str()); r = guarded([&] { return CheckProofOfTimeNWesolowskiWithB(d, rp::I(C), X.p, B.p, B.n, T, depth).first; }); break; }
    case 3: { Bytes e = abs(D) == 0 ? Bytes() : to_be(abs(D), (bits(D) + 7) / 8 + s.raw(3)); if (s.raw(6) == 0) e = Bytes(s.raw(140), (uint8_t)(s.raw(2) * 0xff)); Exact E(e); r = verify_n_wesolowski_wrapper(E.p, E.n, X.p, B.p, B.n, T, depth); D = -from_be(e); break; }
    case 4: { Bytes y = hostile_form(c, D, proper), p = hostile_form(c, D, proper); if (s.raw(4) == 0) y.resize(s.raw(101)); if (s.raw(4) == 0) p.resize(s.raw(101)); Exact Y(y), P(p);
        r = guarded([&] { form x = DeserializeForm(d, X.p, X.n), fy = DeserializeForm(d, Y.p, Y.n), fp = DeserializeForm(d, P.p, P.n); bool ok = false; VerifyWesolowskiProof(d, x, fy, fp, T, ok); return ok; }); break; }
    case 5: { int strict = (int)s.raw(2); r = guarded([&] { form f = DeserializeForm(d, X.p, X.n, strict); Z a = rp::fromI(f.a), b = rp::fromI(f.b), cc = rp::fromI(f.c);
            PBT_CHECK(b * b - 4 * a * cc == D && a > 0, "decoded form does not have the discriminant it was decoded for"); return true; }); break; }
    default: { Bytes sd = gen::seed(c); while (sd.size() < 2) sd.push_back(1); int n = gen::dbits(c); r = guarded([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(sd, s.raw(4) ? n : (uint32_t)s.u64(), X.p, B.p, B.n, T, depth); }); } }
    c.labelf("entry %d: %s", entry, r == 1 ? "accepted" : r == 2 ? "threw" : "refused");
    if (entry <= 4 && r == 1) PBT_CHECK(D < 0, "something was accepted for a discriminant that is not negative");
    c.nontrivial(r != 0 || proper);
}
static void c08_deep(Ctx &c) {   // honest chains with a few bytes changed: everything behind the first checks
    auto &s = c.s; vc::Base b = vc::base(c, s.raw(2)); int depth = (int)s.raw(4); auto ts = vc::split(c, b, depth); vc::Chain ch = vc::chain(b, ts); uint64_t T = 0; bool wraps = false; for (auto t : ts) { T += t; if (T < t) wraps = true; }
    Bytes xs = encode(b.x, b.n), full = vc::blob(ch, b.n, true); Z D = b.D, B0 = ch.p.back().B; uint64_t dep = depth; int ne = (int)s.raw(4); size_t w = 3 * ((b.n + 31) / 32 * 32) / 32 + 6;
    for (int i = 0; i < ne; i++) switch (s.raw(6)) {
        case 0: full = vc::jitter(c, full, 0, full.size()); break;
        case 1: { size_t o = s.raw(2) * 100; full = vc::jitter(c, full, o, o + w); break; }
        case 2: if (depth) { size_t o = 200 + 141 * s.raw(depth); size_t q = s.raw(3); full = q == 0 ? vc::jitter(c, full, o, o + 8) : q == 1 ? vc::jitter(c, full, o + 8, o + 41) : vc::jitter(c, full, o + 41, o + 41 + w); } break;
        case 3: xs = vc::jitter(c, xs, 0, w); break;
        case 4: T = vc::related_t(c, T); break;
        default: D += 8 * (long)s.irange(-3, 3); }
    c.note("depth=%d T=%llu D'=%s edits=%d", depth, (unsigned long long)T, hex(D).substr(0, 40).c_str(), ne); c.hex("x", xs, 100); c.hex("blob", full, 200);
    Bytes comp(full.begin() + 100, full.end()); Exact X(xs), Fb(full), Cb(comp), E(to_be(abs(D), (bits(D) + 7) / 8)); integer d = rp::I(D), Bi = rp::I(B0);
    int r0 = guarded([&] { return CheckProofOfTimeNWesolowski(d, X.p, Fb.p, Fb.n, T, bits(D), dep); }), r1 = guarded([&] { GetBFromProof(d, X.p, Fb.p, Fb.n, T, dep); return true; }), r2 = guarded([&] { return CheckProofOfTimeNWesolowskiWithB(d, Bi, X.p, Cb.p, Cb.n, T, dep).first; });
    bool r3 = verify_n_wesolowski_wrapper(E.p, E.n, X.p, Fb.p, Fb.n, T, dep);
    PBT_CHECK(r3 == (r0 == 1), "C entry point and verifier disagree"); if (ne == 0 && !wraps) PBT_CHECK(r0 == 1 && r1 == 1 && r2 == 1, "honest chain refused");
    c.labelf("verify %s", r0 == 1 ? "accepted" : r0 == 2 ? "threw" : "refused"); c.labelf("challenge %s", r1 == 1 ? "found" : "threw"); c.labelf("compressed %s", r2 == 1 ? "accepted" : r2 == 2 ? "threw" : "refused"); c.nontrivial(r0 != 2 || r1 == 1);
}
static void c08_len(Ctx &c) {   // every length of every buffer
    auto &s = c.s; Z D = gen::disc(c, 16, 256); uint64_t depth; Bytes bl = hostile_blob(c, D, true, true, depth); bl.resize(s.raw(700)); depth = s.raw(6);
    Bytes xs = encode(gen::element(c, D), bits(D)); c.note("len=%zu depth=%llu", bl.size(), (unsigned long long)depth); c.labelf("len class %d", bl.size() < 100 ? 0 : bl.size() < 200 ? 1 : (bl.size() - 200) % 141 == 0 || (bl.size() - 100) % 141 == 0 ? 2 : 3); c.nontrivial();
    Exact X(xs), B(bl); integer d = rp::I(D);
    bool okn = bl.size() >= 200 && (bl.size() - 200) % 141 == 0 && (bl.size() - 200) / 141 == depth, okb = bl.size() >= 100 && (bl.size() - 100) % 141 == 0 && (bl.size() - 100) / 141 == depth;
    int a = guarded([&] { return CheckProofOfTimeNWesolowski(d, X.p, B.p, B.n, 10, bits(D), depth); }), b = guarded([&] { GetBFromProof(d, X.p, B.p, B.n, 10, depth); return true; }), e = guarded([&] { return CheckProofOfTimeNWesolowskiWithB(d, integer(3), X.p, B.p, B.n, 10, depth).first; });
    PBT_CHECK(okn || (a != 1 && b != 1), "a blob of the wrong length was accepted"); PBT_CHECK(okb || e != 1, "a compressed blob of the wrong length was accepted");
    // short forms
    size_t n = s.raw(140); Bytes f = xs; f.resize(n); Exact FF(f); for (int strict = 0; strict < 2; strict++) { int r = guarded([&] { DeserializeForm(d, FF.p, FF.n, strict); return true; }); PBT_CHECK(n == 100 ? r == 1 : r == 2, "a form of %zu bytes was %s", n, r == 1 ? "accepted" : "refused"); }
}
static void c08_capi(Ctx &c) {  // the other C entry points
    auto &s = c.s; Bytes sd = s.raw(8) ? gen::seed(c) : Bytes(); c.hex("seed", sd); size_t n; switch (s.raw(8)) { case 0: n = s.u64(); break; case 1: n = s.raw(1200); break; case 2: n = (size_t)-1 - s.raw(16); break; case 3: n = (1ULL << 32) + 8 * s.raw(130); break; case 4: n = 1024 + s.raw(64); break; default: n = 8 * s.range(2, 128); }
    c.note("bits=%zu", n); bool valid = !sd.empty() && n > 0 && n <= 1024 && n % 8 == 0; if (valid) { discriminant(sd, (int)n, &valid); if (!valid) c.label("seed without a prime"); } Exact Sd(sd);
    { Bytes out(valid ? n / 8 : 4096, 0xaa); Exact O(out); bool r = create_discriminant_wrapper(Sd.p, Sd.n, n, O.p); PBT_CHECK(r == valid, "create_discriminant said %d for %s parameters", r, valid ? "valid" : "invalid");
      if (r) { Z w = discriminant(sd, (int)n); PBT_CHECK(from_be(O.p, n / 8) == -w, "wrong discriminant"); } }
    if (n <= 512 || !valid) { Z D = valid ? discriminant(sd, (int)n) : Z(-23); Bytes xs = hostile_form(c, D, valid); if (s.raw(4) == 0) xs.resize(s.raw(130)); c.hex("x", xs); Exact X(xs); uint64_t T = s.raw(60); c.note("T=%llu", (unsigned long long)T); ByteArray r = prove_wrapper(Sd.p, Sd.n, X.p, X.n, n, T); F f; bool dec = valid && xs.size() == 100 && decode(f, D, xs);
        PBT_CHECK((r.data != nullptr) == dec && (dec ? r.length == 200 : r.length == 0), "prove returned %zu bytes for %s start", (size_t)r.length, dec ? "a valid" : "an invalid");
        if (dec) { F y = repeated_square(f, T, D), pi = honest_proof(D, f, y, T); Bytes w = encode(y, n); vc::put(w, encode(pi, n)); PBT_CHECK(Bytes(r.data, r.data + 200) == w, "prove's result is wrong"); c.label("proved"); }
        delete_byte_array(r); }
    c.label(valid ? "valid parameters" : "invalid parameters"); c.nontrivial();
}
int main(int argc, char **argv) {
    std::vector<pbt::Suite> S = {
        {"C08.api", c08_api, 60000, 900000, "some check past the length tests was reached: prime discriminant, or the call did not simply return false"},
        {"C08.deep", c08_deep, 4000, 80000, "the first form decoded, so the call got past the entry tests"},
        {"C08.lengths", c08_len, 3000, 50000, "every case"},
        {"C08.capi", c08_capi, 2500, 40000, "every case"},
    };
    return pbt::main_(argc, argv, S);
}
