// C22: any mix of calls on any number of threads gives what each call gives alone; inputs lie in read-only memory.
#include "c_bindings/c_wrapper.cpp"
#define HAVE_PROVER_SLOW
#include "repo.h"
#include "gen.h"
#include "vcases.h"
#include <thread>
#include <mutex>
using namespace model; using pbt::Ctx;
// Inputs of a case, in pages that are made read-only before the calls: a call that writes to its caller's buffer crashes.
struct Arena { uint8_t *p; size_t n = 1 << 20, u = 0; Arena() { p = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } ~Arena() { munmap(p, n); }
    const uint8_t *put(const Bytes &b) { if (u + b.size() + 16 > n) throw std::runtime_error("arena"); uint8_t *r = p + u; memcpy(r, b.data(), b.size()); u += b.size() + 1; return r; } void seal() { mprotect(p, n, PROT_READ); } };
typedef std::string R;
struct Call { std::string name; std::function<R()> f; };
static R str(const Bytes &b) { return R((const char *)b.data(), b.size()); }
template <class Fn> static R val(Fn f) { try { return f(); } catch (std::exception &e) { return "error"; } }

static void make_calls(Ctx &c, Arena &A, std::vector<Call> &calls, int n, bool light) {
    auto &s = c.s; struct Item { vc::Base b; Bytes seed, xs, full, comp; uint64_t T = 0; int depth; Z B; const uint8_t *px, *pf, *pc, *ps, *pd; size_t nd; }; std::vector<Item> it; int k = (int)s.range(1, 3);
    for (int i = 0; i < k; i++) { Item t; t.depth = (int)s.raw(3); t.b.D = s.raw(3) ? gen::disc(c, 16, 64, &t.seed, &t.b.n) : gen::disc(c, 128, light ? 256 : 1024, &t.seed, &t.b.n); t.b.x = gen::element(c, t.b.D); t.b.ord = t.b.n <= 24 ? gen::order(t.b.x, t.b.D, 1 << 12) : Z(0);
        std::vector<uint64_t> ts; for (int j = 0; j <= t.depth; j++) ts.push_back(s.logrange(0, 60)); vc::Chain ch = vc::chain(t.b, ts); for (auto v : ts) t.T += v; t.B = ch.p.back().B;
        t.xs = encode(t.b.x, t.b.n); t.full = vc::blob(ch, t.b.n, true); if (s.raw(3) == 0) t.full = vc::jitter(c, t.full, 0, t.full.size()); if (s.raw(6) == 0) t.xs = vc::jitter(c, t.xs, 0, 100); t.comp = Bytes(t.full.begin() + 100, t.full.end());
        t.px = A.put(t.xs); t.pf = A.put(t.full); t.pc = A.put(t.comp); t.ps = A.put(t.seed); Bytes d = to_be(abs(t.b.D), t.b.n / 8); t.pd = A.put(d); t.nd = d.size(); it.push_back(t); }
    for (int i = 0; i < n; i++) { const Item t = it[s.raw(k)]; uint64_t T = s.raw(4) ? t.T : t.T + 1; auto D = std::make_shared<const integer>(rp::I(t.b.D)); auto B = std::make_shared<const integer>(rp::I(t.B)); auto seed = std::make_shared<std::vector<uint8_t>>(t.seed); Call q; int strict = (int)s.raw(2); Bytes sd2 = gen::seed(c, 12); while (sd2.size() < 3) sd2.push_back(7); int nb = 8 * (int)s.range(2, 24); uint64_t pt = s.raw(40); int shut = (int)s.raw(3);
        switch (s.raw(10)) {
        case 0: q = {"verify", [=] { return val([&] { return R(CheckProofOfTimeNWesolowski(*D, t.px, t.pf, t.full.size(), T, t.b.n, t.depth) ? "valid" : "invalid"); }); }}; break;
        case 1: q = {"with b", [=] { return val([&] { auto r = CheckProofOfTimeNWesolowskiWithB(*D, *B, t.px, t.pc, t.comp.size(), T, t.depth); return R(r.first ? "valid " : "invalid ") + str(r.second); }); }}; break;
        case 2: q = {"get b", [=] { return val([&] { return R(GetBFromProof(*D, t.px, t.pf, t.full.size(), T, t.depth).to_string()); }); }}; break;
        case 3: q = {"single", [=] { return val([&] { form x = DeserializeForm(*const_cast<integer *>(D.get()), t.px, 100), y = DeserializeForm(*const_cast<integer *>(D.get()), t.pf, 100), p = DeserializeForm(*const_cast<integer *>(D.get()), t.pf + 100, 100); bool ok = false; integer d(*D); VerifyWesolowskiProof(d, x, y, p, T, ok); return R(ok ? "valid" : "invalid"); }); }}; break;
        case 4: q = {"decode", [=] { return val([&] { form f = DeserializeForm(*const_cast<integer *>(D.get()), t.px, 100, strict); return R(f.a.to_string() + f.b.to_string() + f.c.to_string()); }); }}; break;
        case 5: q = {"derive", [=] { return val([&] { std::vector<uint8_t> v = sd2; integer r = CreateDiscriminant(v, nb); if (v != sd2) return R("seed changed"); return r.to_string(); }); }}; break;
        case 6: q = {"derive shared", [=] { return val([&] { return R(CreateDiscriminant(*seed, t.b.n).to_string()); }); }}; break;   // the seed vector is shared by all threads
        case 7: q = {"prove", [=] { return val([&] { integer d(*D); form x = DeserializeForm(d, t.px, 100); return str(ProveSlow(d, x, pt, shut == 0 ? "/proc/self/stat" : shut == 1 ? "/nonexistent/file" : "")); }); }}; break;
        case 8: q = {"C verify", [=] { return R(verify_n_wesolowski_wrapper(t.pd, t.nd, t.px, t.pf, t.full.size(), T, t.depth) ? "valid" : "invalid"); }}; break;
        default: q = {"C prove", [=] { ByteArray r = prove_wrapper(t.ps, t.seed.size(), t.px, 100, t.b.n, pt); R o = r.data ? R((char *)r.data, r.length) : R("none"); delete_byte_array(r); return o; }}; }
        q.name += " D" + std::to_string(t.b.n); calls.push_back(q); c.note("%d:%s", i, q.name.c_str()); c.label(q.name.substr(0, q.name.find(" D")).c_str()); }
    for (auto &t : it) { c.hex("x", t.xs, 100); c.hex("blob", t.full, 200); c.note("T=%llu depth=%d", (unsigned long long)t.T, t.depth); }
}
static void together(Ctx &c, bool light) {
    auto &s = c.s; Arena A; std::vector<Call> calls; int n = (int)s.range(1, light ? 5 : 12), nt = (int)s.range(2, light ? 4 : 12), rounds = (int)s.range(1, light ? 3 : 12); bool first = s.raw(2); make_calls(c, A, calls, n, light); A.seal(); c.note("threads=%d rounds=%d first=%s", nt, rounds, first ? "together" : "alone");
    std::vector<R> alone(n); auto run_alone = [&] { for (int i = 0; i < n; i++) alone[i] = calls[i].f(); };
    if (!first) run_alone();
    struct Res { int k; R r; }; std::vector<std::vector<Res>> out(nt); std::atomic<int> ready{0}; std::vector<std::thread> th; int order = (int)s.raw(3);
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { ready++; while (ready < nt) {} for (int r = 0; r < rounds; r++) for (int j = 0; j < n; j++) { int k = order == 0 ? j : order == 1 ? (i + j) % n : (i * 7 + r * 5 + j) % n; R v = calls[k].f(); if (r == 0 || out[i].empty() || out[i].size() < 2000) out[i].push_back({k, v}); } });
    for (auto &t : th) t.join();
    if (first) run_alone();
    auto show = [](const R &r) { return r.size() > 40 || (r.size() && (unsigned char)r[0] < 32) ? hex(from_be((const uint8_t *)r.data(), r.size())).substr(0, 60) : r; };
    for (int i = 0; i < nt; i++) for (auto &o : out[i]) PBT_CHECK(o.r == alone[o.k], "call %d (%s) gave %s beside %d other threads and %s alone", o.k, calls[o.k].name.c_str(), show(o.r).c_str(), nt - 1, show(alone[o.k]).c_str());
    c.labelf("%d-%d threads", nt / 4 * 4, nt / 4 * 4 + 3); c.nontrivial(true);
}
static void c22_mix(Ctx &c) { together(c, false); }
static void c22_races(Ctx &c) { together(c, true); }
// The same long call on many threads, so that each is interrupted inside its inner loops.
static void c22_long(Ctx &c) {
    auto &s = c.s; Arena A; int n = 0; Bytes sd; Z D = gen::disc(c, 256, 1024, &sd, &n); F x = gen::element(c, D); uint64_t T = s.range(300, 1500); c.note("T=%llu", (unsigned long long)T); Bytes xs = encode(x, n); const uint8_t *px = A.put(xs); A.seal(); integer d = rp::I(D), dv = d; int nt = (int)s.range(2, 10);
    std::vector<Bytes> out(nt); std::vector<int> ok(nt); std::atomic<int> ready{0}; std::vector<std::thread> th;
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { ready++; while (ready < nt) {} try { integer dd(dv); form f = DeserializeForm(dd, px, 100); out[i] = ProveSlow(dd, f, T + i % 3, ""); ok[i] = CheckProofOfTimeNWesolowski(dd, px, out[i].data(), out[i].size(), T + i % 3, n, 0) + 2 * verify_n_wesolowski_wrapper(to_be(abs(D), n / 8).data(), n / 8, px, out[i].data(), out[i].size(), T + i % 3 + 1, 0); } catch (std::exception &) { ok[i] = -1; } });
    for (auto &t : th) t.join();
    F y = repeated_square(x, T, D); for (int k = 0; k < 3; k++) { Bytes w = encode(y, n); vc::put(w, encode(honest_proof(D, x, y, T + k), n)); for (int i = k; i < nt; i += 3) { PBT_CHECK(out[i] == w, "thread %d of %d got a wrong proof", i, nt); bool fix = square(y, D) == y; PBT_CHECK(ok[i] == 1 || (fix && ok[i] == 3), "thread %d of %d: verdicts %d", i, nt, ok[i]); } y = square(y, D); }
    c.labelf("%d threads", nt); c.nontrivial();
}
int main(int argc, char **argv) {
    std::vector<pbt::Suite> S = {
        {"C22.races", c22_races, 400, 8000, "every case (two or more threads, started together)", 120, false, 4, true},
        {"C22.mix", c22_mix, 1500, 40000, "every case (two or more threads, started together)", 60, false, 8, true},
        {"C22.long", c22_long, 60, 2000, "every case (two or more threads inside the same long call)", 60, false, 4, true},
    };
    return pbt::main_(argc, argv, S);
}
