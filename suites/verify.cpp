// C01-C05, C07, C09, C21: stand-alone prover, verifiers, discriminants, encoding, group operations, cancellation.
#include "repo.h"
#include "gen.h"
#include "vcases.h"
#include <sys/syscall.h>
#include <sys/stat.h>
using namespace model; using pbt::Ctx;

// ------------------------------------------------------------------ adapters
enum V { NO = 0, YES = 1 };
template <class Fn> static V verdict(Fn f) { try { return f() ? YES : NO; } catch (std::exception &) { return NO; } }
static V repo_verify_n(const Z &D, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth, uint64_t bits_arg) {
    Bytes x = xs, p = blob;
    return verdict([&] { return CheckProofOfTimeNWesolowski(rp::I(D), x.data(), p.data(), p.size(), T, bits_arg, depth); });
}
static V repo_verify1(const Z &D, const Bytes &xs, const Bytes &ys, const Bytes &ps, uint64_t T) {   // as the Python entry point does
    return verdict([&] { integer d = rp::I(D); form x = DeserializeForm(d, xs.data(), xs.size()), y = DeserializeForm(d, ys.data(), ys.size()), p = DeserializeForm(d, ps.data(), ps.size());
        bool ok = false; VerifyWesolowskiProof(d, x, y, p, T, ok); return ok; });
}
struct WithB { bool ok; Bytes y; };
static WithB repo_with_b(const Z &D, const Z &B, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth) {
    try { auto r = CheckProofOfTimeNWesolowskiWithB(rp::I(D), rp::I(B), xs.data(), blob.data(), blob.size(), T, depth); return {r.first, r.second}; } catch (std::exception &) { return {false, {}}; }
}
static WithB model_with_b(const Z &D, const Z &B, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth) {
    WithB no{false, {}}; F x; if (!decode(x, D, xs)) return no;
    if (blob.size() < 100 || (blob.size() - 100) % SEG || (blob.size() - 100) / SEG != depth) return no;
    for (size_t i = blob.size(); i > 100;) { i -= SEG; uint64_t st = be64(&blob[i]); Z b = from_be(&blob[i + 8], B_BYTES); F pi, y;
        if (!decode(pi, D, Bytes(blob.begin() + i + 41, blob.begin() + i + SEG)) || !segment(D, x, pi, b, st, y) || st > T) return no; T -= st; x = y; }
    F pi, y; if (!decode(pi, D, Bytes(blob.begin(), blob.begin() + 100))) return no;
    if (B <= 0 || bits(B) > 264 || !segment(D, x, pi, B, T, y)) return no;
    return {true, encode(y, bits(D))};
}
// Challenge extraction follows the embedded challenges without checking them (the full verification does that).
static bool model_get_b(Z &out, const Z &D, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth) {
    F x; if (!decode(x, D, xs)) return false;
    if (blob.size() < 200 || (blob.size() - 200) % SEG || (blob.size() - 200) / SEG != depth) return false;
    for (size_t i = blob.size(); i > 200;) { i -= SEG; uint64_t st = be64(&blob[i]); Z b = from_be(&blob[i + 8], B_BYTES); F pi;
        if (!decode(pi, D, Bytes(blob.begin() + i + 41, blob.begin() + i + SEG)) || b == 0) return false;
        x = compose(power(pi, b, D), power(x, pow2mod(u64z(st), b), D), D); if (st > T) return false; T -= st; }
    F y; if (!decode(y, D, Bytes(blob.begin(), blob.begin() + 100))) return false;
    out = get_b(D, x, y); return true;
}
static bool repo_get_b(Z &out, const Z &D, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth) {
    try { out = rp::fromI(GetBFromProof(rp::I(D), xs.data(), blob.data(), blob.size(), T, depth)); return true; } catch (std::exception &) { return false; }
}
static Bytes prove_repo(const Z &D, const F &x, uint64_t T, const std::string &path = "") { integer d = rp::I(D); form f = rp::toForm(x); return ProveSlow(d, f, T, path); }
static Bytes cat(const Bytes &a, const Bytes &b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static const char *tbucket(uint64_t T) { return T == 0 ? "T=0" : T < 8 ? "T<8" : T < 100 ? "T<100" : T < 4096 ? "T<4096" : T < 65536 ? "T<65536" : "T>=65536"; }

// ------------------------------------------------------------------ C01
static void check_honest(Ctx &c, const Z &D, int n, const Bytes *seed, const F &x, const F &y, const F &pi, uint64_t T) {
    Bytes got = prove_repo(D, x, T), want = cat(encode(y, n), encode(pi, n));
    PBT_CHECK(got.size() == 200, "prover returned %zu bytes", got.size());
    PBT_CHECK(std::equal(got.begin(), got.begin() + 100, want.begin()), "proof's result element is not start^(2^%llu)", (unsigned long long)T);
    PBT_CHECK(got == want, "proof element differs from start^(floor(2^T/B)) for T=%llu", (unsigned long long)T);
    Bytes xs = encode(x, n);
    PBT_CHECK(repo_verify_n(D, xs, got, T, 0, n) == YES, "honest proof rejected by the n-wesolowski verifier");
    PBT_CHECK(repo_verify1(D, xs, Bytes(got.begin(), got.begin() + 100), Bytes(got.begin() + 100, got.end()), T) == YES, "honest proof rejected by the single-part verifier");
    Z B; PBT_CHECK(repo_get_b(B, D, xs, got, T, 0), "challenge extraction refused an honest proof");
    WithB w = repo_with_b(D, B, xs, Bytes(got.begin() + 100, got.end()), T, 0);
    PBT_CHECK(w.ok && w.y == Bytes(got.begin(), got.begin() + 100), "honest proof rejected by the challenge-compressed verifier");
    if (seed) { Bytes sd = *seed; PBT_CHECK(verdict([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(sd, (uint32_t)n, xs.data(), got.data(), got.size(), T, 0); }) == YES, "honest proof rejected when the discriminant is derived by the verifier"); }
    if (c.s.chance(1, 4)) PBT_CHECK(prove_repo(D, x, T) == got, "proving again gave different bytes");
}
static void c01_prove(Ctx &c) {
    int n; Bytes sd; Z D = gen::disc(c, 16, 1024, &sd, &n); F x = gen::element(c, D);
    uint64_t T = c.s.logrange(0, n > 300 ? 1500 : 3000); c.note("T=%llu", (unsigned long long)T);
    F y = repeated_square(x, T, D), pi = honest_proof(D, x, y, T);
    c.label(tbucket(T)); c.labelf("bits<=%d", n <= 64 ? 64 : n <= 256 ? 256 : n <= 512 ? 512 : 1024); if (n % 32) c.label("size not multiple of 32");
    c.nontrivial(T > 0 && x != identity(D));
    check_honest(c, D, n, &sd, x, y, pi, T);
}
static void c01_blocks(Ctx &c) {   // larger counts: every block width the prover can choose, and the remainders
    vc::Base b; Bytes sd; b.D = gen::disc(c, 16, 24, &sd, &b.n); b.x = gen::element(c, b.D); b.ord = gen::order(b.x, b.D, 1 << 14);
    uint64_t T = c.s.raw(2) ? c.s.range(3000, 150000) : c.s.logrange(3, 150000); c.note("T=%llu", (unsigned long long)T);
    F y = vc::evolve(b, b.x, T), pi = vc::prove(b, b.x, y, T);
    c.label(tbucket(T)); c.nontrivial(b.ord > 1);
    check_honest(c, b.D, b.n, &sd, b.x, y, pi, T);
}
static void c01_tables(Ctx &c) {   // past the memory threshold the prover uses several tables
    vc::Base b; Bytes sd; b.D = gen::disc(c, 16, 24, &sd, &b.n); b.x = gen::element(c, b.D); b.ord = gen::order(b.x, b.D, 1 << 14);
    uint64_t T = 9990000 + c.s.range(0, 40000); c.note("T=%llu", (unsigned long long)T);
    F y = vc::evolve(b, b.x, T), pi = vc::prove(b, b.x, y, T);
    c.label(T > 10000000 ? "several tables" : "one table"); c.nontrivial(b.ord > 1);
    Bytes got = prove_repo(b.D, b.x, T), want = cat(encode(y, b.n), encode(pi, b.n));
    PBT_CHECK(got == want, "proof for T=%llu differs from the defining formula", (unsigned long long)T);
    PBT_CHECK(repo_verify_n(b.D, encode(b.x, b.n), got, T, 0, b.n) == YES, "honest proof rejected");
}

// ------------------------------------------------------------------ C02
static void c02(Ctx &c, bool small) {
    vc::Base b = vc::base(c, small); uint64_t T = vc::iters(c, b); c.note("T=%llu", (unsigned long long)T);
    F x = b.x, y = vc::evolve(b, x, T), pi = vc::prove(b, x, y, T); Z D = b.D; int n = b.n;
    int nm = c.s.chance(1, 4) ? 0 : 1 + (int)c.s.raw(2); std::string what = nm ? "" : "honest";
    for (int i = 0; i < nm; i++) switch (c.s.raw(8)) {
        case 0: T = vc::related_t(c, T); what += "T;"; break;
        case 1: y = vc::related(c, b, y); what += "y;"; break;
        case 2: pi = vc::related(c, b, pi); what += "pi;"; break;
        case 3: x = vc::related(c, b, x); what += "x;"; break;
        case 4: std::swap(y, pi); what += "swap y,pi;"; break;
        case 5: { F e = gen::element(c, D, "e"); y = compose(y, e, D); if (c.s.raw(2)) pi = compose(pi, c.s.raw(2) ? e : inverse(e), D); what += "twist;"; break; }
        case 6: { // claim for another challenge: solve for pi with a wrong y cannot work unless the equation holds
            y = gen::element(c, D, "y'"); pi = vc::prove(b, x, y, T); what += "forged y;"; break; }
        default: { what += "other D;"; Z D2 = gen::disc(c, 16, n); F t; if (make(t, x.a, x.b, D2) && make(t, y.a, y.b, D2) && make(t, pi.a, pi.b, D2)) D = D2; break; } }
    Bytes xs = encode(x, bits(b.D)), ys = encode(y, bits(b.D)), ps = encode(pi, bits(b.D));
    if (c.s.chance(1, 4)) { Bytes *t[3] = {&xs, &ys, &ps}; Bytes &q = *t[c.s.raw(3)]; q = vc::jitter(c, q, 0, 3 * n / 32 + 6); what += "bytes;"; }
    c.note("edits=%s T'=%llu", what.c_str(), (unsigned long long)T);
    bool want = false; F fx, fy, fp; bool dec = decode(fx, D, xs) && decode(fy, D, ys) && decode(fp, D, ps);
    if (dec) want = verify1(D, fx, fy, fp, T);
    V a = repo_verify1(D, xs, ys, ps, T), d = repo_verify_n(D, xs, cat(ys, ps), T, 0, bits(D));
    c.label(want ? (nm ? "accepted after edit" : "honest accepted") : dec ? "equation fails" : "does not decode"); if (T >= 1ULL << 32) c.label("T>=2^32");
    c.nontrivial(dec);
    PBT_CHECK(a == (want ? YES : NO), "single-part verifier said %d, the equation says %d (edits: %s)", a, want, what.c_str());
    PBT_CHECK(d == (want ? YES : NO), "n-wesolowski verifier at depth 0 said %d, the equation says %d (edits: %s)", d, want, what.c_str());
}

// ------------------------------------------------------------------ C03 / C04
struct Multi { vc::Base b; vc::Chain ch; std::vector<uint64_t> ts; uint64_t T; uint64_t depth; Bytes xs; std::string what; };
static Multi multi(Ctx &c, bool small) {
    Multi m; m.b = vc::base(c, small); m.depth = c.s.chance(1, 12) ? c.s.range(4, small ? 40 : 8) : c.s.range(0, 4);
    m.ts = vc::split(c, m.b, (int)m.depth); m.ch = vc::chain(m.b, m.ts); m.T = 0; unsigned __int128 real = 0; for (auto t : m.ts) { m.T += t; real += t; }
    m.xs = encode(m.b.x, m.b.n);
    std::string s; for (auto t : m.ts) s += std::to_string(t) + ","; c.note("parts=%s sum=%llu%s", s.substr(0, 200).c_str(), (unsigned long long)m.T, real >> 64 ? " (wraps)" : "");
    if (real >> 64) { m.what += "wrapping sum;"; c.label("iterations wrap 2^64"); }
    return m;
}
static void edit_chain(Ctx &c, Multi &m) {   // semantic edits that keep the blob well-formed
    auto &p = m.ch.p; size_t k = c.s.raw(p.size());
    switch (c.s.raw(10)) {
    case 0: m.T = vc::related_t(c, m.T); m.what += "total;"; break;
    case 1: p[k].T = vc::related_t(c, p[k].T); m.what += "part count;"; break;
    case 2: if (p.size() > 1) { size_t j = c.s.raw(p.size()); uint64_t d = c.s.range(1, 5); p[k].T += d; p[j].T -= d; m.what += "shift iters;"; } else { m.T++; m.what += "total;"; } break;
    case 3: p[k].pi = vc::related(c, m.b, p[k].pi); m.what += "part proof;"; break;
    case 4: p[k].B = c.s.raw(2) ? Z(p[k].B + 2) : c.s.raw(2) ? Z(0) : c.s.raw(2) ? Z(1) : get_b(m.b.D, m.b.x, m.ch.y); m.what += "challenge;"; break;
    case 5: { size_t j = c.s.raw(p.size()); std::swap(p[k], p[j]); m.what += "reorder;"; break; }
    case 6: if (p.size() > 1) { bool fix = c.s.raw(2); if (fix) m.T -= p[k].T; p.erase(p.begin() + k); if (c.s.raw(2)) m.depth--; m.what += fix ? "drop part and its count;" : "drop part;"; } break;
    case 7: { bool fix = c.s.raw(2); if (fix) m.T += p[k].T; p.insert(p.begin() + k, p[k]); if (c.s.raw(2)) m.depth++; m.what += "duplicate part;"; break; }
    case 8: m.ch.y = vc::related(c, m.b, m.ch.y); m.what += "result;"; break;
    default: // a part proved from another start: individually right, but not chained
        { F x2 = vc::related(c, m.b, p[k].xs); if (m.b.ord != 0 && power(x2, m.b.ord, m.b.D) != identity(m.b.D)) x2 = m.b.x; F y2 = vc::evolve(m.b, x2, m.b.ord != 0 ? p[k].T : std::min<uint64_t>(p[k].T, 200));
          p[k].pi = vc::prove(m.b, x2, y2, m.b.ord != 0 ? p[k].T : std::min<uint64_t>(p[k].T, 200), &p[k].B); m.what += "unchained part;"; } }
}
static void edit_bytes(Ctx &c, Multi &m, Bytes &bl) {
    // the depth for which 141 * depth + base is the length modulo 2^64, whatever the length is
    auto wrap = [&] { uint64_t inv = 1; for (int i = 0; i < 7; i++) inv *= 2 - 141 * inv; m.depth = ((uint64_t)bl.size() - 200) * inv; };
    switch (c.s.raw(7)) {
    case 5: if (bl.size() > 200) { size_t k = c.s.range(1, 7); bl.erase(bl.begin() + 200 - k, bl.begin() + 200); wrap(); m.what += "parts overlap the base;"; break; } // fall through
    case 6: { size_t k = c.s.range(1, 140); if (c.s.raw(2)) bl.insert(bl.begin() + std::min<size_t>(bl.size(), 200), k, 0); else bl.resize(bl.size() + k); wrap(); m.what += "depth that wraps;"; break; }
    case 0: { if (bl.size() >= 100) { size_t o = c.s.raw(bl.size()); bl = vc::jitter(c, bl, o, o + 16); } m.what += "byte;"; break; }
    case 1: m.depth += c.s.raw(2) ? 1 : -1; m.what += "depth;"; break;
    case 2: { size_t k = c.s.range(1, 41); if (c.s.raw(2)) bl.resize(bl.size() > k ? bl.size() - k : 0); else bl.resize(bl.size() + k); m.what += "length;"; break; }
    case 3: bl.resize(c.s.raw(2) ? bl.size() + SEG : bl.size() > SEG ? bl.size() - SEG : 0); m.what += "segment length;"; break;
    default: m.xs = vc::jitter(c, m.xs, 0, 3 * m.b.n / 32 + 6); m.what += "start bytes;"; }
}
static void c03(Ctx &c, bool small) {
    Multi m = multi(c, small); int ne = c.s.chance(1, 3) ? 0 : 1 + (int)c.s.raw(2);
    for (int i = 0; i < ne; i++) edit_chain(c, m);
    Bytes bl = vc::blob(m.ch, m.b.n, true); if (c.s.chance(1, ne ? 4 : 6)) edit_bytes(c, m, bl);
    c.note("edits=%s T'=%llu depth=%llu", m.what.c_str(), (unsigned long long)m.T, (unsigned long long)m.depth);
    bool want = verify_n(m.b.D, m.xs, bl, m.T, m.depth);
    V got = repo_verify_n(m.b.D, m.xs, bl, m.T, m.depth, m.b.n);
    c.label(want ? (!m.what.empty() ? "accepted after edit" : "honest accepted") : "rejected"); c.labelf("depth%s", m.depth == 0 ? "=0" : m.depth <= 2 ? " 1-2" : m.depth <= 4 ? " 3-4" : ">4");
    if (!m.what.empty()) c.labelf("edit: %s", m.what.substr(0, m.what.find(';')).c_str());
    c.nontrivial(m.depth >= 1);
    PBT_CHECK(got == (want ? YES : NO), "verifier said %d, the part-by-part rules say %d (edits: %s)", got, want, m.what.c_str());
}
static void c04(Ctx &c, bool small) {
    Multi m = multi(c, small); int ne = c.s.chance(1, 3) ? 0 : 1 + (int)c.s.raw(2);
    for (int i = 0; i < ne; i++) edit_chain(c, m);
    Bytes full = vc::blob(m.ch, m.b.n, true); if (c.s.chance(1, ne ? 5 : 6)) edit_bytes(c, m, full);
    Z B, Bw; bool gw = model_get_b(Bw, m.b.D, m.xs, full, m.T, m.depth), gg = repo_get_b(B, m.b.D, m.xs, full, m.T, m.depth);
    c.note("edits=%s T'=%llu depth=%llu", m.what.c_str(), (unsigned long long)m.T, (unsigned long long)m.depth);
    PBT_CHECK(gg == gw, "challenge extraction %s, expected %s", gg ? "succeeded" : "was refused", gw ? "success" : "refusal");
    if (gg) PBT_CHECK(B == Bw, "extracted challenge differs from the hash challenge of (last start, result)");
    bool fullok = repo_verify_n(m.b.D, m.xs, full, m.T, m.depth, m.b.n) == YES;
    Bytes comp = full.size() >= 100 ? Bytes(full.begin() + 100, full.end()) : Bytes();
    if (gg) {
        WithB w = repo_with_b(m.b.D, B, m.xs, comp, m.T, m.depth);
        if (fullok) PBT_CHECK(w.ok && encode(m.ch.y, m.b.n) == w.y, "a good proof is not accepted with its own challenge, or another result is reconstructed");
        // the compressed proof determines its result: if it verifies for this challenge, the full proof verifies
        // exactly when the result it carries is the reconstructed one
        if (w.ok) { F y; bool d = decode(y, m.b.D, Bytes(full.begin(), full.begin() + 100)); PBT_CHECK(fullok == (d && encode(y, m.b.n) == w.y), "compressed and full verification disagree"); }
        c.label(fullok ? "full proof valid" : w.ok ? "compressed valid only" : "both rejected");
    } else c.label("no challenge");
    // any other challenge
    Z C; switch (c.s.raw(6)) { case 0: C = gg ? Z(B + 2) : Z(2); break; case 1: C = 0; break; case 2: C = Z(1) << 300; break; case 3: C = -(gg ? B : Z(3)); break; case 4: C = gen::num(c.s, 264); break; default: C = get_b(m.b.D, m.b.x, m.ch.y); }
    WithB a = model_with_b(m.b.D, C, m.xs, comp, m.T, m.depth), g = repo_with_b(m.b.D, C, m.xs, comp, m.T, m.depth);
    PBT_CHECK(a.ok == g.ok, "challenge-compressed verification said %d, the rules say %d for B=%s", g.ok, a.ok, hex(C).c_str());
    PBT_CHECK(!g.ok || g.y == a.y, "wrong result reconstructed"); PBT_CHECK(g.ok || g.y.empty(), "a rejected compressed proof yielded a result");
    c.nontrivial(gg);
}

// ------------------------------------------------------------------ C05
template <class Fn> static void no_prime(Ctx &c, Fn f) { bool t = false; try { f(); } catch (std::exception &) { t = true; } PBT_CHECK(t, "a seed whose expansion holds no prime was not refused"); c.label("seed without a prime"); c.nontrivial(); }
static void c05(Ctx &c) {
    Bytes sd = gen::seed(c, 100); int n = gen::dbits(c); c.hex("seed", sd); c.note("bits=%d", n);
    bool ok; Z W = discriminant(sd, n, &ok); if (!ok) { no_prime(c, [&] { CreateDiscriminant(sd, n); }); return; }   // one-byte seeds: the (periodic) expansion may hold no prime
    Bytes copy = sd; integer d = CreateDiscriminant(copy, n); Z D = rp::fromI(d);
    PBT_CHECK(copy == sd, "deriving a discriminant changed the caller's seed");
    PBT_CHECK(D < 0 && (int)bits(D) == n, "discriminant has %zu bits, wanted %d", bits(D), n);
    PBT_CHECK(fmod(-D, 8) == 7, "discriminant is not 7 mod 8");
    PBT_CHECK(probab_prime(-D), "discriminant is composite");
    PBT_CHECK(D == W, "discriminant is not the first prime of the seed's expansion: got %s want %s", hex(D).c_str(), hex(W).c_str());
    Bytes again = sd; PBT_CHECK(rp::fromI(CreateDiscriminant(again, n)) == D, "second derivation differs");
    bool carry = sd.back() >= 0xf0; c.label(carry ? "counter carries" : "no early carry"); c.labelf("seed len %s", sd.size() == 32 ? "=32" : sd.size() < 8 ? "<8" : "other"); if (n % 32) c.label("size not multiple of 32"); if (n > 256) c.label("several hash blocks"); c.nontrivial();
}
static void c05_tiny(Ctx &c) {
    Bytes sd = gen::seed(c, 40); c.hex("seed", sd); bool ok; Z w = hash_prime(sd, 8, {0, 1, 2, 7}, &ok, 100000); if (!ok) { no_prime(c, [&] { CreateDiscriminant(sd, 8); }); return; }
    Bytes copy = sd; Z D = rp::fromI(CreateDiscriminant(copy, 8)); c.nontrivial(); PBT_CHECK(D == -w, "8-bit discriminant: got %s want -%s", D.get_str().c_str(), w.get_str().c_str());
}
static void c05_bad(Ctx &c) {
    Bytes sd = c.s.raw(4) ? gen::seed(c) : Bytes(); int n; switch (c.s.raw(6)) { case 0: n = 0; break; case 1: n = -(int)c.s.range(1, 3000); break; case 2: n = 1024 + 8 * (int)c.s.range(1, 200); break; case 3: n = (int)(8 * c.s.range(1, 128) + c.s.range(1, 7)); break; case 4: n = c.s.raw(2) ? INT_MAX : INT_MIN; break; default: n = sd.empty() ? 512 : (int)(uint32_t)c.s.u64(); }
    bool valid = !sd.empty() && n > 0 && n <= 1024 && n % 8 == 0; if (valid) c.discard();
    c.hex("seed", sd); c.note("bits=%d", n); c.nontrivial(); c.label(sd.empty() ? "empty seed" : n <= 0 ? "not positive" : n > 1024 ? "too large" : "not multiple of 8");
    bool threw = false; try { CreateDiscriminant(sd, n); } catch (std::exception &) { threw = true; }
    PBT_CHECK(threw, "invalid parameters were accepted");
}
static void c05_hash(Ctx &c) {   // challenge primes use the same expansion with other sizes
    Bytes sd = gen::seed(c, 220); int n = 8 * (int)c.s.range(3, 64); c.hex("seed", sd); c.note("bits=%d", n); c.nontrivial();
    std::vector<int> sb{n - 1}; if (c.s.raw(2)) sb.push_back((int)c.s.raw(n));
    bool ok; Z w = hash_prime(sd, n, sb, &ok); if (!ok) { no_prime(c, [&] { HashPrime(sd, n, sb); }); return; } Z g = rp::fromI(HashPrime(sd, n, sb)); PBT_CHECK(w == g, "hash prime differs: got %s want %s", hex(g).c_str(), hex(w).c_str());
}

// ------------------------------------------------------------------ C07
// A form whose a and t share a long factor: a = P a1, and b (P t1) = P s1 mod a with short t1, s1.
static bool shared_factor(Ctx &c, Z &D, int &n, F &f) {
    auto &s = c.s; int m = (int)s.range(48, 1022), h = m / 2 - 2, p = (int)s.range(2, h / 2 - 4); auto num = [&](int k) { Z v = gen::num(s, k); if (v < 0) v = -v; return v == 0 ? Z(1) : v; };
    Z P = num(p) | (Z(1) << (p - 1)), a1 = (num(h - p) | (Z(1) << (h - p - 1))) | 1, t1 = num(std::max(1, h / 2 - p - 2)), s1 = num(std::max(1, h / 2 - p - 2)), iv; if (!mpz_invert(iv.get_mpz_t(), t1.get_mpz_t(), a1.get_mpz_t())) return false;
    Z b = s1 * iv % a1 + a1 * (num(p) % P), a = a1 * P; if (b % 2 == 0) b += (b + a1 < a) ? a1 : Z(-a1); if (b <= 0 || b >= a || b % 2 == 0) return false; if (s.raw(2)) b = -b;
    int cb = std::max((int)bits(a) + 1, m - 2 - (int)bits(a)); Z k = num(cb) + a; k += k % 2; for (int i = 0; i < 2000; i++, k += 2) { D = b * b - 4 * a * k; if (probab_prime(-D)) { n = (int)bits(D); if (n > 1024) return false; f.a = a; f.b = b; f.c = k; return true; } } return false;
}
static void c07_round(Ctx &c) {
    int n; Z D; F f; bool sh = c.s.raw(14) == 0 && shared_factor(c, D, n, f); if (!sh) { D = gen::disc(c, 16, 1024, nullptr, &n); f = gen::element(c, D); } else c.note("D=%s a=%s b=%s", hex(D).c_str(), hex(f.a).c_str(), hex(f.b).c_str());
    form rf = rp::toForm(f); bool unred = c.s.chance(1, 4);
    if (unred) { Z k = Z((long)c.s.irange(-5, 5)); F u = f; u.c = f.a * k * k + f.b * k + f.c; u.b = f.b + 2 * k * f.a; if (c.s.raw(2)) { std::swap(u.a, u.c); u.b = -u.b; } rf = rp::toForm(u); }
    Bytes e = SerializeForm(rf, n), w = encode(f, n);
    PBT_CHECK(e == w, "encoding differs from the published format");
    integer d = rp::I(D);
    for (int strict = 0; strict < 2; strict++) { form g; try { g = DeserializeForm(d, e.data(), e.size(), strict); } catch (std::exception &x) { pbt::fail("encoding of a group element refused in %s mode", strict ? "strict" : "historical"); } PBT_CHECK(rp::fromForm(g) == f, "decoding the encoding gives another element"); }
    if (e[1] > 1) c.label("shared factor of more than 2 bytes"); c.label(e[1] || (e[2 + (n + 31) / 32 * 3] > 1) ? "shared factor (g>1)" : e[0] & 12 ? "special form" : "plain"); if (e[0] & 1) c.label("b<0"); if (e[0] & 2) c.label("t<0"); if (unred) c.label("unreduced in"); if (n % 32) c.label("size not multiple of 32"); c.nontrivial(!(e[0] & 12));
}
static void c07_decode(Ctx &c) {
    int n; Z D = gen::disc(c, 16, c.s.raw(2) ? 64 : 1024, nullptr, &n); size_t db = (n + 31) / 32 * 32; Bytes s(100, 0); const char *k = "";
    F f = gen::element(c, D); 
    int kind = (int)c.s.raw(8);
    if (kind <= 2) { s = encode(f, n); int m = 1 + (int)c.s.raw(3); for (int i = 0; i < m; i++) s = vc::jitter(c, s, 0, c.s.chance(1, 6) ? 100 : 3 * db / 32 + 6); k = "edited encoding"; }
    else if (kind == 3) { s = c.s.bytes(100); s[0] &= 3 | (c.s.chance(1, 8) ? 0xff : 0); s[1] = c.s.raw(2) ? 0 : (uint8_t)c.s.raw(db / 32 + 2); k = "random bytes"; }
    else if (kind == 4) {   // canonical encoding of a non-reduced representative
        F u = f; Z m = Z((long)c.s.irange(-3, 3)); u.b = f.b + 2 * m * f.a; u.c = f.a * m * m + f.b * m + f.c; if (c.s.raw(2)) { std::swap(u.a, u.c); u.b = -u.b; Z q = fdiv(u.a - u.b, 2 * u.a); u.c = u.a * q * q + u.b * q + u.c; u.b += 2 * q * u.a; }
        try { s = encode(u, n); } catch (...) { c.discard(); } k = "non-reduced representative"; }
    else if (kind == 5) {   // b0 shifted: the classic malleability
        s = encode(f, n); size_t gs = s[1], o = 2 + db / 16 - gs + db / 32 - gs + gs + 1; for (size_t i = 0; i <= gs && o + i < 100; i++) { int v = s[o + i] + (i ? 0 : (int)c.s.range(1, 9)); s[o + i] = (uint8_t)v; } k = "b0 shifted"; }
    else if (kind == 6) { s[0] = (uint8_t)(c.s.raw(2) ? 4 : 8); s[0] |= c.s.raw(4); if (c.s.chance(1, 3)) s[0] |= 12; if (c.s.chance(1, 2)) s[1 + c.s.raw(99)] = (uint8_t)c.s.raw(256); s[0] |= (uint8_t)(c.s.raw(2) ? 0 : c.s.raw(256)); k = "special flag"; }
    else { s = encode(f, n); s[0] ^= (uint8_t)(1 << c.s.raw(8)); if (c.s.raw(2)) s[1] ^= (uint8_t)c.s.raw(4); k = "flags"; }
    c.hex("enc", s, 100); F w; bool ok = decode(w, D, s); integer d = rp::I(D);
    bool got = true, gots = true; F g, gs;
    try { g = rp::fromForm(DeserializeForm(d, s.data(), s.size(), false)); } catch (std::exception &) { got = false; }
    try { gs = rp::fromForm(DeserializeForm(d, s.data(), s.size(), true)); } catch (std::exception &) { gots = false; }
    c.label(k); c.label(ok ? (encode(w, n) == s ? "accepted, canonical" : "accepted, non-canonical") : "refused"); c.nontrivial(kind != 3);
    PBT_CHECK(got == ok, "historical decoding %s; the format says %s", got ? "accepted" : "refused", ok ? "accept" : "refuse");
    if (ok) PBT_CHECK(g == w && reduced(g) && disc(g) == D, "historical decoding returned another element");
    PBT_CHECK(!gots || got, "strict decoding accepts what historical decoding refuses");
    if (gots) { PBT_CHECK(gs == g, "strict and historical decoding differ"); PBT_CHECK(encode(gs, n) == s, "strict decoding accepts a second encoding of an element"); }
    if (ok && encode(w, n) == s) PBT_CHECK(gots, "strict decoding refuses the element's own encoding");
}

// ------------------------------------------------------------------ C09
static F unreduce(Ctx &c, const F &f) { F u = f; int n = (int)c.s.raw(3); for (int i = 0; i < n; i++) { Z k = Z((long)c.s.irange(-4, 4)); Z nb = u.b + 2 * k * u.a; u.c = u.a * k * k + u.b * k + u.c; u.b = nb; std::swap(u.a, u.c); u.b = -u.b; } return u; }
static int g_soft_lzcnt = 0;
extern "C" int real_has_lzcnt_hard(); extern "C" int has_lzcnt_hard() { return g_soft_lzcnt ? 0 : real_has_lzcnt_hard(); }
static void c09_ops(Ctx &c) {
    int n; Z D = gen::disc(c, 16, 1024, nullptr, &n); F f = gen::element(c, D, "f"), g; const char *rel;
    switch (c.s.raw(6)) { case 0: g = f; rel = "g=f"; break; case 1: g = inverse(f); rel = "g=f^-1"; break; case 2: g = square(f, D); rel = "g=f^2"; break; case 3: { F e = gen::element(c, D, "e"); g = compose(f, e, D); f = compose(f, gen::element(c, D, "e2"), D); rel = "common factor"; break; } default: g = gen::element(c, D, "g"); rel = "independent"; }
    g_soft_lzcnt = (int)c.s.raw(2); c.note("%s%s", rel, g_soft_lzcnt ? " soft-lzcnt" : ""); c.label(rel); if (g_soft_lzcnt) c.label("software lzcnt");
    integer d = rp::I(D), L = root(-d, 4); form F1 = rp::toForm(f), G1 = rp::toForm(g); PulmarkReducer red;
    F want = compose(f, g, D), sq = square(f, D);
    auto chk = [&](const form &r, const F &w, const char *op, bool must_be_reduced) {
        F x = rp::fromForm(r); PBT_CHECK(x.a > 0 && disc(x) == D, "%s: result is not a form of the discriminant", op);
        if (must_be_reduced) PBT_CHECK(x == w, "%s: result is not the reduced form of the right class", op); else PBT_CHECK(reduce(x) == w, "%s: result is in the wrong class", op); };
    { form r; nucomp_form(r, F1, G1, d, L); chk(r, want, "nucomp", false); red.reduce(r); chk(r, want, "nucomp+reduce", true); }
    { form r = F1; nucomp_form(r, r, G1, d, L); chk(r, want, "nucomp in place (left)", false); form q = G1; nucomp_form(q, F1, q, d, L); chk(q, want, "nucomp in place (right)", false); }
    { form r; nudupl_form(r, F1, d, L); chk(r, sq, "nudupl", false); r.reduce(); chk(r, sq, "nudupl+reduce", true); form q = F1; nudupl_form(q, q, d, L); chk(q, sq, "nudupl in place", false); form z = F1; nucomp_form(z, z, z, d, L); chk(z, sq, "nucomp f*f in place", false); }
    chk(F1 * G1, want, "operator*", true); chk(multiply(F1, G1), want, "multiply", false); chk(square(F1), sq, "square", true);
    { form i = F1.inverse(); chk(i, inverse(f), "inverse", true); chk(F1 * i, identity(D), "f*f^-1", true); }
    // associativity through mixed algorithms
    { F h = gen::element(c, D, "h"); form H = rp::toForm(h), r; nucomp_form(r, F1, G1, d, L); red.reduce(r); chk(r * H, compose(want, h, D), "(f*g)*h", true); }
    // long chains without full reduction: operands larger than reduced ones
    { form r = F1; F w = f; int k = (int)c.s.range(1, 6); for (int i = 0; i < k; i++) { nudupl_form(r, r, d, L); w = square(w, D); if (c.s.raw(2)) { nucomp_form(r, r, G1, d, L); w = compose(w, g, D); } if (c.s.raw(3) == 0) red.reduce(r); } red.reduce(r); chk(r, w, "unreduced chain", true); }
    c.nontrivial(f != identity(D) && g != identity(D));
}
static void c09_reduce(Ctx &c) {
    int n; Z D = gen::disc(c, 16, 1024, nullptr, &n); F f = gen::element(c, D, "f"), u = f; g_soft_lzcnt = (int)c.s.raw(2);
    int k = (int)c.s.range(0, 12); for (int i = 0; i < k; i++) { Z m = c.s.raw(3) ? Z((long)c.s.irange(-6, 6)) : gen::num(c.s, n); if (c.s.raw(2)) m = -m; Z nb = u.b + 2 * m * u.a; u.c = u.a * m * m + u.b * m + u.c; u.b = nb; if (c.s.raw(2)) { std::swap(u.a, u.c); u.b = -u.b; } if (bits(u.c) + bits(u.a) > 7000) break; }
    c.note("u=(%s..,%zu bits b, %zu bits c)%s", u.a.get_str(16).substr(0, 10).c_str(), bits(u.b), bits(u.c), g_soft_lzcnt ? " soft" : ""); c.nontrivial(!reduced(u)); c.labelf("c bits %s", bits(u.c) > 2000 ? ">2000" : bits(u.c) > 1024 ? ">1024" : "<=1024"); if (u.b < 0) c.label("b<0");
    PulmarkReducer r; form a = rp::toForm(u); r.reduce(a); PBT_CHECK(rp::fromForm(a) == f, "reducer's result is not the reduced form of the class"); r.reduce(a); PBT_CHECK(rp::fromForm(a) == f, "reducing a reduced form changes it");
    form b = rp::toForm(u); b.reduce(); PBT_CHECK(rp::fromForm(b) == f, "form::reduce's result is not the reduced form"); PBT_CHECK(b.is_reduced(), "reduced form reported as not reduced");
    form e = rp::toForm(u); PBT_CHECK(e.is_reduced() == (u.a <= u.c && (u.a != u.c || u.b >= 0) && (abs(u.b) < u.a || u.b == u.a)), "is_reduced is wrong");
    try { form g = form::from_abd(rp::I(u.a), rp::I(u.b), rp::I(D)); PBT_CHECK(rp::fromForm(g) == f, "from_abd gives another element"); } catch (std::exception &) { pbt::fail("from_abd refuses a valid pair"); }
    { Z bb = u.b + Z((long)c.s.irange(1, 9)); F t; bool ok = make(t, u.a, bb, D); bool threw = false; try { form::from_abd(rp::I(u.a), rp::I(bb), rp::I(D)); } catch (std::exception &) { threw = true; } PBT_CHECK(threw == !ok, "from_abd %s an %s pair", threw ? "refuses" : "accepts", ok ? "valid" : "invalid"); }
}
static void c09_pow(Ctx &c) {
    int n; Z D = gen::disc(c, 16, 1024, nullptr, &n); F f = gen::element(c, D, "f"); Z e = gen::num(c.s, c.s.raw(2) ? 16 : 270); g_soft_lzcnt = (int)c.s.raw(2); c.note("e=%s", hex(e).c_str()); c.nontrivial(e > 1 && f != identity(D)); c.labelf("e bits %s", bits(e) < 2 ? "<2" : bits(e) < 17 ? "<17" : ">=17");
    integer d = rp::I(D), L = root(-d, 4); PulmarkReducer r; form g = FastPowFormNucomp(rp::toForm(f), d, rp::I(e), L, r); PBT_CHECK(rp::fromForm(g) == power(f, e, D), "power is wrong for exponent %s", hex(e).c_str());
    uint64_t a = c.s.logrange(0, 1000), b = c.s.u64(); Z m = gen::num(c.s, 264) + 1; integer mi = rp::I(m); Z w, A = u64z(a), Bz = u64z(b); mpz_powm(w.get_mpz_t(), A.get_mpz_t(), Bz.get_mpz_t(), m.get_mpz_t()); PBT_CHECK(rp::fromI(FastPow(a, b, mi)) == w, "modular power wrong");
}

// ------------------------------------------------------------------ C21
static int g_polls = 0, g_flip_at = -1, g_restore_at = -1, g_eintr_at = -1; static std::string g_path;
static int sys_stat(const char *p, struct stat *b) { return (int)syscall(SYS_newfstatat, AT_FDCWD, p, b, 0); }
static void poll_hook(const char *p) { if (g_path.empty() || g_path != p) return; g_polls++; if (g_polls == g_flip_at) unlink(p); if (g_polls == g_restore_at) { int fd = open(p, O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); } }
extern "C" int stat(const char *p, struct stat *b) noexcept { poll_hook(p); if (!g_path.empty() && g_path == p && g_polls == g_eintr_at) { errno = EINTR; return -1; } return sys_stat(p, b); }
static void c21(Ctx &c) {
    vc::Base b; b.D = gen::disc(c, 16, 24, nullptr, &b.n); b.x = gen::element(c, b.D); b.ord = gen::order(b.x, b.D, 1 << 14);
    uint64_t T; switch (c.s.raw(5)) { case 0: T = c.s.range(1, 50); break; case 1: T = 65536 * c.s.range(1, 3) + c.s.irange(-1, 1); break; default: T = c.s.range(1, 230000); }
    char dir[] = "/tmp/pbt.c21.XXXXXX"; if (!mkdtemp(dir)) c.discard();
    struct Clean { std::string d; ~Clean() { unlink((d + "/f").c_str()); unlink((d + "/l").c_str()); rmdir((d + "/d").c_str()); rmdir(d.c_str()); g_path.clear(); } } clean{dir};
    std::string f = std::string(dir) + "/f", path = f; bool exists = true; int kind = (int)c.s.raw(8); const char *k;
    uint64_t npoll = (T + 65535) / 65536;
    g_polls = 0; g_flip_at = g_restore_at = g_eintr_at = -1;
    auto touch = [](const std::string &p) { int fd = open(p.c_str(), O_CREAT | O_WRONLY, 0600); if (fd >= 0) close(fd); };
    bool want_empty = false;
    switch (kind) {
    case 0: path = ""; exists = false; k = "no path"; break;
    case 1: exists = false; want_empty = true; k = "absent from the start"; break;
    case 2: path = f + "/x"; touch(f); want_empty = true; k = "parent is a file"; break;
    case 3: path = std::string(dir) + "/d"; mkdir(path.c_str(), 0700); exists = false; k = "directory"; break;
    case 4: path = std::string(dir) + "/l"; touch(f); if (symlink(f.c_str(), path.c_str())) {} exists = false; if (c.s.raw(2)) { unlink(f.c_str()); want_empty = true; k = "dangling link"; } else k = "link to file"; break;
    case 5: path = std::string(dir) + "/" + std::string(5000, 'a'); exists = false; want_empty = true; k = "overlong path"; break;
    case 6: g_eintr_at = (int)c.s.range(1, npoll); k = "interrupted poll"; break;
    default: { g_flip_at = (int)c.s.range(1, npoll + 1); k = "removed at a poll"; want_empty = (uint64_t)g_flip_at <= npoll; if (c.s.raw(3) == 0) g_restore_at = g_flip_at + 1; } }
    if (exists) touch(path);
    g_path = path; c.note("T=%llu %s flip=%d", (unsigned long long)T, k, g_flip_at); c.label(k); c.label(want_empty ? "must stop" : "must finish"); c.nontrivial(kind != 0); c.labelf("polls=%d", (int)std::min<uint64_t>(npoll, 4));
    Bytes got = prove_repo(b.D, b.x, T, path); bool hooked = g_polls > 0; g_path.clear();
    if (kind >= 6 && !hooked) { c.label("poll not observable"); want_empty = false; }
    if (want_empty) PBT_CHECK(got.empty(), "proof continued although its shutdown file was gone (%s)", k);
    else { F y = vc::evolve(b, b.x, T), pi = vc::prove(b, b.x, y, T); PBT_CHECK(!got.empty(), "proof stopped although its shutdown file never disappeared (%s)", k); PBT_CHECK(got == cat(encode(y, b.n), encode(pi, b.n)), "supervised proof differs from the unsupervised one"); }
}

int main(int argc, char **argv) {
    std::vector<pbt::Suite> S = {
        {"C01.prove", c01_prove, 6000, 60000, "T>0 and start is not the identity"},
        {"C01.blocks", c01_blocks, 600, 8000, "start is not the identity; counts up to 150000 so that every block width is used"},
        {"C01.tables", c01_tables, 8, 64, "start is not the identity; counts around the several-table threshold"},
        {"C02.small", [](Ctx &c) { c02(c, true); }, 8000, 150000, "all three elements decode, so the verdict depends on the equation (small groups: accidental solutions occur)"},
        {"C02.large", [](Ctx &c) { c02(c, false); }, 2500, 30000, "all three elements decode, so the verdict depends on the equation"},
        {"C03.small", [](Ctx &c) { c03(c, true); }, 5000, 100000, "at least two parts"},
        {"C03.large", [](Ctx &c) { c03(c, false); }, 1200, 15000, "at least two parts"},
        {"C04.small", [](Ctx &c) { c04(c, true); }, 3500, 60000, "the challenge could be extracted"},
        {"C04.large", [](Ctx &c) { c04(c, false); }, 800, 10000, "the challenge could be extracted"},
        {"C05.derive", c05, 6000, 80000, "every case (all seeds non-empty)"},
        {"C05.tiny", c05_tiny, 400, 4000, "an 8-bit prime exists in the seed's expansion", 20},
        {"C05.invalid", c05_bad, 3000, 20000, "parameters are invalid"},
        {"C05.hashprime", c05_hash, 6000, 60000, "every case"},
        {"C07.roundtrip", c07_round, 20000, 300000, "not one of the two special forms"},
        {"C07.decode", c07_decode, 60000, 1000000, "derived from a valid encoding or format edge, not uniform bytes"},
        {"C09.ops", c09_ops, 20000, 300000, "neither operand is the identity"},
        {"C09.reduce", c09_reduce, 20000, 300000, "input form is not reduced"},
        {"C09.pow", c09_pow, 6000, 80000, "exponent > 1 and base not the identity"},
        {"C21.shutdown", c21, 1500, 15000, "a path is given"},
    };
    return pbt::main_(argc, argv, S);
}
