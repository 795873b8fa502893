// C20, C22 (Python): the same inputs through the native functions, the C interface, the Rust crate and the Python module.
#include "repo.h"
#include "gen.h"
#include "vcases.h"
#include <dlfcn.h>
#include <sys/prctl.h>
using namespace model; using pbt::Ctx;
struct CArr { uint8_t *data; size_t length; };
static bool (*c_create)(const uint8_t *, size_t, size_t, uint8_t *); static CArr (*c_prove)(const uint8_t *, size_t, const uint8_t *, size_t, size_t, uint64_t); static void (*c_free)(CArr);
static bool (*c_verify)(const uint8_t *, size_t, const uint8_t *, const uint8_t *, size_t, uint64_t, uint64_t);
static bool (*rs_create)(const uint8_t *, size_t, uint8_t *, size_t); static bool (*rs_verify)(const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint64_t);
static int64_t (*rs_prove)(const uint8_t *, size_t, const uint8_t *, size_t, size_t, uint64_t, uint8_t *, size_t);
template <class T> static void sym(void *h, const char *n, T &f) { f = (T)dlsym(h, n); if (!f) { fprintf(stderr, "no symbol %s\n", n); exit(2); } }
static std::string bdir() { const char *d = getenv("PBT_BUILD"); return d ? d : "."; }
static void load() {
    void *c = dlopen((bdir() + "/libcw.so").c_str(), RTLD_NOW | RTLD_LOCAL), *r = dlopen((bdir() + "/libshim.so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!c || !r) { fprintf(stderr, "%s\n", dlerror()); exit(2); }
    sym(c, "create_discriminant_wrapper", c_create); sym(c, "prove_wrapper", c_prove); sym(c, "verify_n_wesolowski_wrapper", c_verify); sym(c, "delete_byte_array", c_free);
    sym(r, "rs_create", rs_create); sym(r, "rs_verify", rs_verify); sym(r, "rs_prove", rs_prove);
}
// A buffer that ends at an inaccessible page: reading past the end crashes.
struct Guard { uint8_t *base, *p; size_t n, len; explicit Guard(const Bytes &b) : n(b.size()) { size_t pg = 4096, k = (n + pg - 1) / pg * pg; len = k + 2 * pg; base = (uint8_t *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p = base + k + pg - n; memcpy(p, b.data(), n); mprotect(base + k + pg, pg, PROT_NONE); }
    ~Guard() { munmap(base, len); } Bytes get() const { return Bytes(p, p + n); } Guard(const Guard &) = delete; };

// ------------------------------------------------------------------ the Python module, in a process of its own
struct Py { pid_t owner = 0, pid = 0; FILE *in = nullptr, *out = nullptr;
    void start() { int a[2], b[2]; if (pipe(a) || pipe(b)) pbt::fail("pipe"); owner = getpid(); pid = fork();
        if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); dup2(a[0], 0); dup2(b[1], 1); for (int i = 3; i < 64; i++) close(i); setenv("PYTHONPATH", bdir().c_str(), 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1);
            execl("/opt/vp/venv/bin/python", "python", (bdir() + "/worker.py").c_str(), (char *)nullptr); _exit(127); }
        close(a[0]); close(b[1]); in = fdopen(a[1], "w"); out = fdopen(b[0], "r"); }
    std::string ask(const std::string &l) { if (owner != getpid()) start(); std::string r; fputs(l.c_str(), in); fputc('\n', in); fflush(in); int c; while ((c = fgetc(out)) != EOF && c != '\n') r += (char)c; if (c == EOF) { owner = 0; pbt::fail("the Python process died on: %s", l.substr(0, 900).c_str()); } return r; } };
static Py py;
static std::string hexs(const Bytes &b) { std::string r; char t[3]; for (auto x : b) { snprintf(t, 3, "%02x", x); r += t; } return r; }
static std::string ab(const Bytes &b) { return " b" + hexs(b); } static std::string ai(uint64_t v) { return " i" + std::to_string(v); } static std::string as(const std::string &s) { return " s" + s; }
static bool pyerr(const std::string &r) { return r.compare(0, 4, "err ") == 0; }
static std::string text(Ctx &c, const Z &D) { return c.s.raw(2) ? D.get_str() : (D < 0 ? "-0x" : "0x") + Z(abs(D)).get_str(16); }

// ------------------------------------------------------------------ native outcomes: value or error
static const uint8_t *at(const Bytes &b) { static const uint8_t none = 0; return b.empty() ? &none : b.data(); }   // an empty vector's pointer may be null, which is another input
template <class T> struct Out { bool ok = false; T v{}; };
template <class T, class Fn> static Out<T> run(Fn f) { Out<T> o; try { o.v = f(); o.ok = true; } catch (std::exception &) {} return o; }

// A size that only a truncation to fewer bits makes acceptable.
static uint64_t beyond(Ctx &c, int64_t bits) { auto &s = c.s; uint64_t w = (s.raw(3) ? 1ULL << s.range(11, 63) : s.range(1, 0xffffffffULL) << 32) + (uint64_t)bits; if (s.raw(6) == 0) w = -(uint64_t)bits; c.note("size %llu", (unsigned long long)w); return w; }
static void c20_create(Ctx &c) {
    auto &s = c.s; Bytes seed = s.raw(10) ? gen::seed(c) : Bytes(); c.hex("seed", seed); int64_t bits = 0; switch (s.raw(5)) { case 0: bits = s.irange(-9, 1100); break; case 1: bits = 1024 + s.irange(-9, 9); break; default: bits = gen::dbits(c, 8); }
    c.note("bits=%lld", (long long)bits); bool valid = !seed.empty() && bits > 0 && bits <= 1024 && bits % 8 == 0, prime = true; Z w; if (valid) { w = discriminant(seed, (int)bits, &prime); if (!prime) c.discard(); }
    auto nat = run<Z>([&] { std::vector<uint8_t> t = seed; return rp::fromI(CreateDiscriminant(t, (int)bits)); });
    PBT_CHECK(nat.ok == valid, "native derivation %s", nat.ok ? "accepted invalid parameters" : "refused valid parameters"); if (valid) PBT_CHECK(nat.v == w, "native derivation wrong");
    std::string r = py.ask("create_discriminant" + ab(seed) + " i" + std::to_string(bits));
    PBT_CHECK(pyerr(r) == !valid, "Python: %s", r.substr(0, 300).c_str()); if (valid) { Z p; PBT_CHECK(p.set_str(r.substr(4), 0) == 0 && r[3] == 's', "Python returned no number: %s", r.c_str()); PBT_CHECK(p == w, "Python's discriminant differs from the native one"); }
    if (bits >= 0) { // C takes bits, and writes bits / 8 bytes only if it accepts
        Guard G(seed); size_t n = valid ? bits / 8 : 200; Guard O(Bytes(n, 0xaa)); bool k = c_create(G.p, G.n, (size_t)bits, O.p); PBT_CHECK(k == valid, "C said %d", k); if (valid) PBT_CHECK(from_be(O.p, n) == -w, "C's discriminant differs"); PBT_CHECK(G.get() == seed, "seed modified");
        size_t m = bits / 8; bool v8 = !seed.empty() && m > 0 && m <= 128; Guard R(Bytes(m, 0xaa)); if (v8 && !valid) { w = discriminant(seed, (int)m * 8, &prime); if (!prime) c.discard(); } k = rs_create(G.p, G.n, R.p, R.n); PBT_CHECK(k == v8, "Rust said %d for %zu bytes", k, m); if (v8) PBT_CHECK(from_be(R.p, m) == -w, "Rust's discriminant differs"); PBT_CHECK(G.get() == seed, "seed modified");
    }
    if (valid && s.raw(4) == 0) { uint64_t wide = beyond(c, bits); Guard G(seed), O(Bytes(200, 0xaa)); PBT_CHECK(!c_create(G.p, G.n, wide, O.p), "C derives a discriminant of %llu bits", (unsigned long long)wide); std::string q = py.ask("create_discriminant" + ab(seed) + ai(wide)); PBT_CHECK(pyerr(q), "Python derives a discriminant of %llu bits: %s", (unsigned long long)wide, q.substr(0, 300).c_str()); c.label("size beyond 32 bits"); }
    c.label(valid ? "valid" : "invalid"); c.nontrivial();
}
static void c20_prove(Ctx &c) {
    auto &s = c.s; Bytes ch = s.raw(12) ? s.bytes(2 + s.raw(31)) : Bytes(); int64_t bits = s.raw(10) ? gen::dbits(c) : s.irange(-3, 1100); bool pv = !ch.empty() && bits > 0 && bits <= 1024 && bits % 8 == 0, prime = true; Z D; if (pv) { D = discriminant(ch, (int)bits, &prime); if (!prime) c.discard(); }
    uint64_t T = s.raw(3) ? s.raw(70) : s.logrange(0, 3000); Bytes xs(100, 0); xs[0] = 8; int kind = (int)s.raw(6);
    if (pv && kind) { F f = gen::element(c, D); xs = encode(f, bits); if (kind == 1) xs = vc::jitter(c, xs, 0, 100); if (kind == 2) xs.resize(s.raw(130)); if (kind == 3 && s.raw(3) == 0) xs = s.bytes(100); }
    c.note("bits=%lld T=%llu", (long long)bits, (unsigned long long)T); c.hex("challenge", ch); c.hex("x", xs, 130);
    F x; bool valid = pv && xs.size() == 100 && decode(x, D, xs);
    auto nat = run<Bytes>([&] { std::vector<uint8_t> t = ch; integer d = CreateDiscriminant(t, (int)bits); form f = DeserializeForm(d, xs.data(), xs.size()); return ProveSlow(d, f, T, ""); });
    PBT_CHECK(nat.ok == valid, "native prover %s", nat.ok ? "accepted invalid input" : "refused valid input");
    if (valid) { F y = repeated_square(x, T, D); Bytes w = encode(y, bits); vc::put(w, encode(honest_proof(D, x, y, T), bits)); PBT_CHECK(nat.v == w, "native proof differs from the formula"); }
    std::string r = py.ask("prove" + ab(ch) + ab(xs) + " i" + std::to_string(bits) + ai(T) + " s"); PBT_CHECK(pyerr(r) == !valid, "Python: %s", r.substr(0, 300).c_str()); if (valid) PBT_CHECK(r == "ok b" + hexs(nat.v), "Python's proof differs: %s", r.substr(0, 900).c_str());
    if (bits >= 0) { Guard C(ch), X(xs); CArr a = c_prove(C.p, C.n, X.p, X.n, (size_t)bits, T); PBT_CHECK((a.data != nullptr) == valid && (valid ? a.length == nat.v.size() : a.length == 0), "C returned %zu bytes", a.length); if (valid) PBT_CHECK(Bytes(a.data, a.data + a.length) == nat.v, "C's proof differs"); c_free(a);
        Bytes o(400); int64_t n = rs_prove(C.p, C.n, X.p, X.n, (size_t)bits, T, o.data(), o.size()); PBT_CHECK(n == (valid ? (int64_t)nat.v.size() : -1), "Rust returned %lld bytes", (long long)n); if (valid) { o.resize(n); PBT_CHECK(o == nat.v, "Rust's proof differs"); }
        PBT_CHECK(C.get() == ch && X.get() == xs, "input modified"); }
    if (valid && s.raw(4) == 0) { uint64_t wide = beyond(c, bits); CArr a = c_prove(ch.data(), ch.size(), xs.data(), xs.size(), wide, T); PBT_CHECK(!a.data && !a.length, "C proves for a discriminant of %llu bits", (unsigned long long)wide); Bytes o(400); int64_t n = rs_prove(ch.data(), ch.size(), xs.data(), xs.size(), wide, T, o.data(), o.size()); PBT_CHECK(n == -1, "Rust proves for a discriminant of %llu bits", (unsigned long long)wide);
        std::string q = py.ask("prove" + ab(ch) + ab(xs) + ai(wide) + ai(T) + " s"); PBT_CHECK(pyerr(q), "Python proves for a discriminant of %llu bits: %s", (unsigned long long)wide, q.substr(0, 300).c_str()); c.label("size beyond 32 bits"); }
    c.label(valid ? "proved" : "refused"); c.nontrivial();
}
static void c20_verify(Ctx &c) {
    auto &s = c.s; vc::Base b; int depth = (int)s.raw(4); Bytes ch; uint64_t T = 0;
    b.D = s.raw(2) ? gen::disc(c, 16, 32, &ch, &b.n) : gen::disc(c, 40, 1024, &ch, &b.n); b.x = gen::element(c, b.D); b.ord = b.n <= 32 ? gen::order(b.x, b.D, 1 << 14) : Z(0);
    auto ts = vc::split(c, b, depth); vc::Chain chn = vc::chain(b, ts); for (auto t : ts) T += t; Z D = b.D, B = chn.p.back().B; Bytes xs = encode(b.x, b.n), full = vc::blob(chn, b.n, true); uint64_t dep = depth; int ne = (int)s.raw(4); if (ne == 3) ne = 0; int bits_ = b.n; size_t w = 3 * ((b.n + 31) / 32 * 32) / 32 + 6;
    for (int i = 0; i < ne; i++) switch (s.raw(12)) {
        case 0: full = vc::jitter(c, full, 0, full.size()); break;
        case 1: full = vc::jitter(c, full, s.raw(2) * 100, s.raw(2) * 100 + w); break;
        case 2: if (depth) { size_t o = 200 + 141 * s.raw(depth); full = vc::jitter(c, full, o, o + 41 + w); } break;
        case 3: xs = vc::jitter(c, xs, 0, w); break;
        case 4: T = vc::related_t(c, T); break;
        case 5: dep += s.irange(-1, 1); break;
        case 6: full.resize(s.raw(full.size() + 150)); break;
        case 7: xs.resize(s.raw(130)); break;
        case 8: D += 8 * (long)s.irange(-3, 3); break;
        case 9: D = s.raw(2) ? Z(-D) : s.raw(2) ? Z(0) : Z(-gen::num(s, 1040)); break;
        case 10: B = s.raw(2) ? Z(B + (long)s.irange(-2, 2)) : s.raw(2) ? Z(-B) : gen::num(s, 270); break;
        default: dep = s.u64(); }
    c.note("depth=%llu T=%llu edits=%d D'=%s", (unsigned long long)dep, (unsigned long long)T, ne, hex(D).substr(0, 40).c_str()); c.hex("x", xs, 130); c.hex("blob", full, 300); c.note("B=%s", hex(B).substr(0, 70).c_str());
    bool longx = xs.size() >= 100; Bytes comp(full.begin() + std::min<size_t>(100, full.size()), full.end()), ys(full.begin(), full.begin() + std::min<size_t>(100, full.size())), ps(comp.begin(), comp.begin() + std::min<size_t>(100, comp.size())); integer d = rp::I(D), Bi = rp::I(B); Out<bool> nv, n1, nc; Out<Z> nb; Out<std::pair<bool, Bytes>> nw; Bytes x1(xs.begin(), xs.begin() + std::min<size_t>(100, xs.size()));
    if (longx) { // the native functions read 100 bytes through a bare pointer
        nv = run<bool>([&] { return CheckProofOfTimeNWesolowski(d, at(xs), at(full), full.size(), T, bits(D), dep); });
        nb = run<Z>([&] { return rp::fromI(GetBFromProof(d, at(xs), at(full), full.size(), T, dep)); });
        nw = run<std::pair<bool, Bytes>>([&] { return CheckProofOfTimeNWesolowskiWithB(d, Bi, at(xs), at(comp), comp.size(), T, dep); });
        nc = run<bool>([&] { return CreateDiscriminantAndCheckProofOfTimeNWesolowski(ch, bits_, at(xs), at(full), full.size(), T, dep); }); }
    n1 = run<bool>([&] { form x = DeserializeForm(d, at(xs), xs.size()), y = DeserializeForm(d, ys.data(), ys.size()), p = DeserializeForm(d, ps.data(), ps.size()); bool ok = false; VerifyWesolowskiProof(d, x, y, p, T, ok); return ok; });
    // C and Rust take the magnitude of the discriminant
    Z M = abs(D); Bytes e = M == 0 ? Bytes(s.raw(3), 0) : to_be(M, (bits(M) + 7) / 8 + s.raw(3)); if (e.size() > 128 && bits(M) <= 1024) e.erase(e.begin(), e.end() - 128); integer dn = rp::I(-M); Out<bool> nm = D <= 0 ? nv : Out<bool>(); // (a size above 128 bytes is refused as such)
    if (D > 0 && longx) nm = run<bool>([&] { return CheckProofOfTimeNWesolowski(dn, at(xs), at(full), full.size(), T, bits(D), dep); });
    bool want = nm.ok && nm.v; { Guard E(e), X(xs), P(full); bool r; if (longx) { r = c_verify(E.p, E.n, X.p, P.p, P.n, T, dep); PBT_CHECK(r == want, "C said %d, native %d", r, want); }
        r = rs_verify(E.p, E.n, X.p, X.n, P.p, P.n, T, dep); PBT_CHECK(r == want, "Rust said %d, native %d", r, want); PBT_CHECK(E.get() == e && X.get() == xs && P.get() == full, "input modified"); }
    std::string dt = text(c, D), tk = ai(T) + ai(dep), r;
    auto same = [&](const char *what, const Out<bool> &o, const std::string &r) { PBT_CHECK(r == (o.ok ? o.v ? "ok t" : "ok f" : r) && pyerr(r) == !o.ok, "Python's %s: %s; native: %s", what, r.substr(0, 200).c_str(), !o.ok ? "error" : o.v ? "true" : "false"); };
    same("verify_n_wesolowski", nv, py.ask("verify_n_wesolowski" + as(dt) + ab(xs) + ab(full) + ai(T) + ai(bits(D)) + ai(dep)));
    same("verify_wesolowski", n1, py.ask("verify_wesolowski" + as(dt) + ab(xs) + ab(ys) + ab(ps) + ai(T)));
    same("create_discriminant_and_verify_n_wesolowski", nc, py.ask("create_discriminant_and_verify_n_wesolowski" + ab(ch) + ai(bits_) + ab(xs) + ab(full) + tk));
    r = py.ask("get_b_from_n_wesolowski" + as(dt) + ab(xs) + ab(full) + tk); PBT_CHECK(pyerr(r) == !nb.ok, "Python's get_b: %s", r.c_str()); if (nb.ok) { Z p; PBT_CHECK(r.compare(0, 4, "ok s") == 0 && p.set_str(r.substr(4), 0) == 0 && p == nb.v, "Python's get_b differs: %s", r.c_str()); }
    r = py.ask("verify_n_wesolowski_with_b" + as(dt) + as(text(c, B)) + ab(xs) + ab(comp) + tk); PBT_CHECK(pyerr(r) == !nw.ok, "Python's verify_with_b: %s", r.c_str()); if (nw.ok) PBT_CHECK(r == std::string("ok ") + (nw.v.first ? "t" : "f") + ",b" + hexs(nw.v.second), "Python's verify_with_b differs: %s", r.substr(0, 300).c_str());
    // the truth, from the model: agreement between equally wrong bindings is not enough
    bool truth = bits(D) >= 1 && bits(D) <= 1024 && D < 0 && longx && D == b.D && verify_n(D, x1, full, T, dep); if (D == b.D) PBT_CHECK(want == truth, "all bindings say %d, the proof is %s", want, truth ? "valid" : "invalid");
    c.labelf("verify %s", nv.ok ? nv.v ? "true" : "false" : "error"); c.labelf("with_b %s", nw.ok ? nw.v.first ? "true" : "false" : "error"); c.labelf("single %s", n1.ok ? n1.v ? "true" : "false" : "error"); if (!longx) c.label("short start"); c.nontrivial(nv.ok || n1.ok || nb.ok || !longx);
}
static void c20_decode(Ctx &c) {   // the Python module's low-level decoder against the native one
    auto &s = c.s; Z D = gen::disc(c, 16, 1024), D0 = D; if (s.raw(12) == 0) D = s.raw(2) ? Z(-D) : Z(D - 8 * (long)s.range(1, 3)); Bytes f(100, 0); size_t n = std::min<size_t>(1024, bits(D)), w = 3 * ((n + 31) / 32 * 32) / 32 + 6; try { f = encode(gen::element(c, D0), bits(D0)); } catch (std::exception &) {} bool strict = s.raw(2);
    switch (s.raw(5)) { case 0: f = vc::jitter(c, f, 0, w); break; case 1: f.resize(s.raw(130)); break; case 2: f[0] = (uint8_t)s.raw(16); break; default:; } c.hex("form", f, 130); c.note("strict=%d", strict);
    auto nat = run<std::pair<Z, Z>>([&] { if (f.size() != 100) throw std::runtime_error("size"); form g = DeserializeForm(rp::I(D), f.data(), f.size(), strict); return std::make_pair(rp::fromI(g.a), rp::fromI(g.b)); });
    auto enc = [](const Z &v) { Bytes o(1, v < 0); Z m = abs(v); if (m != 0) vc::put(o, to_be(m, (bits(m) + 7) / 8)); return "b" + hexs(o); };
    std::string r = py.ask("bqfc_deserialize" + as(text(c, D)) + ab(f) + (strict ? s.raw(2) ? "" : " t" : " f")); PBT_CHECK(pyerr(r) == !nat.ok, "Python: %s", r.substr(0, 300).c_str()); if (nat.ok) PBT_CHECK(r == "ok " + enc(nat.v.first) + "," + enc(nat.v.second), "Python's form differs: %s", r.substr(0, 300).c_str());
    c.labelf("%s %s", nat.ok ? "decoded" : "refused", strict ? "strict" : "lenient"); c.nontrivial(nat.ok || f.size() == 100);
}
// C22 for the Python module, which releases the interpreter's lock around native code: the same calls alone and on several threads.
static void c22_python(Ctx &c) {
    auto &s = c.s; std::string calls; int n = (int)s.range(1, 8); std::vector<std::string> own; 
    vc::Base b; Bytes ch; b.D = s.raw(2) ? gen::disc(c, 16, 64, &ch, &b.n) : gen::disc(c, 128, 512, &ch, &b.n); b.x = gen::element(c, b.D); b.ord = 0; int depth = (int)s.raw(3); std::vector<uint64_t> ts; uint64_t T = 0; for (int j = 0; j <= depth; j++) { ts.push_back(s.logrange(0, 60)); T += ts.back(); }
    vc::Chain chn = vc::chain(b, ts); Bytes xs = encode(b.x, b.n), full = vc::blob(chn, b.n, true); if (s.raw(3) == 0) full = vc::jitter(c, full, 0, full.size()); Bytes comp(full.begin() + 100, full.end()), ys(full.begin(), full.begin() + 100), ps(comp.begin(), comp.begin() + 100); std::string dt = text(c, b.D);
    for (int i = 0; i < n; i++) { std::string q; switch (s.raw(8)) {
        case 0: q = "verify_n_wesolowski" + as(dt) + ab(xs) + ab(full) + ai(T) + ai(b.n) + ai(depth); break;
        case 1: q = "verify_wesolowski" + as(dt) + ab(xs) + ab(ys) + ab(ps) + ai(T); break;
        case 2: q = "create_discriminant_and_verify_n_wesolowski" + ab(ch) + ai(b.n) + ab(xs) + ab(full) + ai(T) + ai(depth); break;
        case 3: q = "get_b_from_n_wesolowski" + as(dt) + ab(xs) + ab(full) + ai(T) + ai(depth); break;
        case 4: q = "verify_n_wesolowski_with_b" + as(dt) + as(chn.p.back().B.get_str()) + ab(xs) + ab(comp) + ai(T) + ai(depth); break;
        case 5: q = "prove" + ab(ch) + ab(xs) + ai(b.n) + ai(s.raw(60)) + " s"; break;
        case 6: { Bytes sd = s.bytes(4 + s.raw(20)); q = "create_discriminant" + ab(sd) + ai(8 * s.range(2, 32)); break; }
        default: q = "bqfc_deserialize" + as(dt) + ab(xs) + (s.raw(2) ? " t" : " f"); }
        c.note("%s", q.substr(0, 24).c_str()); c.label(q.substr(0, q.find(' ')).c_str()); calls += (i ? "|" : "") + q; }
    int nt = (int)s.range(2, 10), rounds = (int)s.range(1, 8); c.note("threads=%d rounds=%d T=%llu", nt, rounds, (unsigned long long)T); std::string r = py.ask("par " + std::to_string(nt) + " " + std::to_string(rounds) + " " + calls);
    PBT_CHECK(r.compare(0, 6, "par ok") == 0, "%s", r.substr(0, 1500).c_str()); c.nontrivial();
}
int main(int argc, char **argv) {
    load();
    std::vector<pbt::Suite> S = {
        {"C20.create", c20_create, 3000, 40000, "every case"},
        {"C20.prove", c20_prove, 2500, 40000, "every case"},
        {"C20.verify", c20_verify, 8000, 120000, "some call gave a verdict rather than an error, or the start element is shorter than 100 bytes"},
        {"C20.decode", c20_decode, 6000, 100000, "the form decoded, or failed for another reason than its length"},
        {"C22.python", c22_python, 500, 10000, "every case", 60, false, 8, true},
    };
    return pbt::main_(argc, argv, S);
}
