// C23: gcd kernels, vector integers and word helpers against GMP.
#include "engine.h"
#include "gpu_integer.h"
using namespace model; using pbt::Ctx; using pbt::Src;
static std::string hx(const Z &z) { return (z < 0 ? "-0x" : "0x") + Z(abs(z)).get_str(16); }

// ---------------------------------------------------------------- operands
static Z pattern(Src &s, size_t n) {     // a number below 2^n that stresses carries
    if (!n) return 0; Z r; size_t k;
    switch (s.raw(9)) {
    case 0: r = (Z(1) << n) - 1; break;
    case 1: r = Z(1) << (n - 1); break;
    case 2: r = (Z(1) << (n - 1)) + s.raw(3); break;
    case 3: r = (Z(1) << n) - 1 - (Z(1) << s.raw(n)); break;
    case 4: r = (Z(1) << n) - (Z(1) << s.raw(n)); break;
    case 5: for (int i = 0; i < 4; i++) { size_t hi = s.raw(n) + 1, lo = s.raw(hi); r |= (Z(1) << hi) - (Z(1) << lo); } break;      // runs of ones
    case 6: k = s.pick<size_t>({52, 64, 104, 128, 416, 512}); for (size_t i = 0; i < n; i += k) if (s.raw(2)) r |= ((Z(1) << k) - 1) << i; break;   // whole digits of ones
    case 7: k = s.pick<size_t>({51, 52, 63, 64}); for (size_t i = k; i < n; i += k) if (s.raw(3)) r |= Z(1) << i; break;
    default: r = from_be(s.bytes((n + 7) / 8)); if (s.raw(4)) mpz_setbit(r.get_mpz_t(), n - 1);
    }
    mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), n); return r;
}
struct Pair { Z a, b; };
// a >= b >= 0 with a chosen sequence of quotients
static Pair operands(Ctx &c, size_t n) {
    auto &s = c.s; Pair p; Z g, q, t; int mode;
    switch (mode = (int)s.raw(10)) {
    case 0: p.a = pattern(s, n); p.b = pattern(s, n); c.label("operands patterned"); break;
    case 1: p.a = pattern(s, n); p.b = s.raw(3) ? p.a - (long)s.raw(3) : Z(p.a >> s.raw(n)); c.label("operands close or equal"); break;
    case 2: p.a = pattern(s, n); p.b = s.raw(3); c.label("operands b tiny"); break;
    case 3: { Z h = pattern(s, n / 2 + 1); p.a = h * pattern(s, n / 2) + s.raw(2); p.b = h; c.label("operands multiple"); break; }
    default: {
        g = s.raw(2) ? Z(1) : pattern(s, s.range(1, std::max<size_t>(1, n / 2))); if (g == 0) g = 1; p.a = g; p.b = 0; int big = mode == 9 ? 6 : mode == 8 ? 40 : 0;
        while (bits(p.a) < n) { q = mode == 4 ? Z(1) : mode == 5 ? Z(1 + s.raw(2)) : mode == 6 ? Z(1 + s.raw(6)) : Z(1 + s.raw(40)); if (big && s.raw(big) == 0) { q = pattern(s, s.range(1, 70)); if (q == 0) q = 1; } t = q * p.a + p.b; p.b = p.a; p.a = t; if (mode == 4 && bits(p.a) + 70 < n && s.raw(200) == 0) mode = 6; }
        c.label(mode == 4 ? "operands golden" : big ? "operands with large quotients" : "operands small quotients"); }
    }
    if (bits(p.a) > n) { size_t d = bits(p.a) - n; p.a >>= d; p.b >>= d; }
    if (p.a < p.b) std::swap(p.a, p.b); if (p.b < 0) p.b = 0; return p;
}
struct Step { Z a, b, u0, v0, u1, v1; };      // |cofactors|: a = +-(u0 A - v0 B), b = -+(u1 A - v1 B)
static std::vector<Step> euclid(const Z &A, const Z &B, size_t most = 4000) {
    std::vector<Step> r; Step s{A, B, 1, 0, 0, 1}; r.push_back(s);
    while (s.b != 0 && r.size() < most) { Z q = s.a / s.b, t = s.a - q * s.b; s = Step{s.b, t, s.u1, s.v1, s.u0 + q * s.u1, s.v0 + q * s.v1}; r.push_back(s); }
    return r;
}
static int find(const std::vector<Step> &e, const Z &u0, const Z &v0, const Z &u1, const Z &v1) {
    for (size_t i = 0; i < e.size(); i++) { if (e[i].u0 == u0 && e[i].v0 == v0 && e[i].u1 == u1 && e[i].v1 == v1) return (int)i; if (e[i].u1 > u1) break; }
    return -1;
}
static Z threshold(Ctx &c, const std::vector<Step> &e, bool below_a = true) {
    auto &s = c.s; Z t;
    switch (s.raw(6)) { case 0: t = 0; break; case 1: t = e[s.raw(e.size())].b + s.irange(-1, 1); break; case 2: t = pattern(s, s.range(1, std::max<size_t>(1, bits(e[0].a)))); break; default: t = e[0].a >> (bits(e[0].a) / 2 + s.raw(3)); }
    if (t < 0) t = 0; if (below_a && t >= e[0].a) t = e[0].a - 1; return t;
}
static int rounding(Ctx &c) { int m = (int)c.s.raw(2); fesetround(m ? FE_TOWARDZERO : FE_TONEAREST); c.label(m ? "round toward zero" : "round to nearest"); return m; }

// ---------------------------------------------------------------- partial gcd of the slow path
static void c23_partial(Ctx &c) {
    auto &s = c.s; size_t n = s.range(1, s.raw(3) ? 1100 : 140); Pair p = operands(c, n); auto e = euclid(p.a, p.b); Z L = threshold(c, e, false);
    c.note("r2=%s r1=%s L=%s", hx(p.a).c_str(), hx(p.b).c_str(), hx(L).c_str());
    Z co2 = 77, co1 = 78, r2 = p.a, r1 = p.b;
    mpz_xgcd_partial(co2.get_mpz_t(), co1.get_mpz_t(), r2.get_mpz_t(), r1.get_mpz_t(), L.get_mpz_t());
    size_t first = 0; while (e[first].b > L) first++;
    size_t i = first; for (; i < first + 3 && i < e.size(); i++) if (e[i].a == r2 && e[i].b == r1) break;
    PBT_CHECK(r1 <= L, "r1 = %s is above the bound %s", hx(r1).c_str(), hx(L).c_str());
    PBT_CHECK(i < first + 2 && i < e.size(), "r2, r1 = %s, %s are not the remainders of the division step where r1 falls below the bound", hx(r2).c_str(), hx(r1).c_str());
    c.label(i == first ? "stops at once" : "one step further"); c.nontrivial(i >= 2);
    // co starts as (0, -1) and follows r: |co2| = v0, |co1| = v1, signs alternate
    Z w2 = i & 1 ? Z(-e[i].v0) : e[i].v0, w1 = i & 1 ? e[i].v1 : Z(-e[i].v1);
    PBT_CHECK(co2 == w2 && co1 == w1, "cofactors %s, %s, exact ones %s, %s", hx(co2).c_str(), hx(co1).c_str(), hx(w2).c_str(), hx(w1).c_str());
}

// ---------------------------------------------------------------- Lehmer step on doubles
static void c23_base(Ctx &c) {
    auto &s = c.s; int which = (int)s.raw(3); bool lehmer = s.raw(2); rounding(c); size_t n = s.range(2, which == 1 || s.raw(3) ? 50 : 52); Pair p = operands(c, n);
    if (p.b == 0 || p.a == 0) c.discard(); auto e = euclid(p.a, p.b); Z th = threshold(c, e);
    eng::variant(which == 2 && eng::nvariants() > 1 ? 1 : 0); if (which == 1 && eng::nvariants() < 2) which = 0;
    c.note("%s a=%s b=%s threshold=%s lehmer=%d", which == 0 ? "asm" : which == 1 ? "asm avx2" : "c++", hx(p.a).c_str(), hx(p.b).c_str(), hx(th).c_str(), lehmer); c.labelf("%s", which == 0 ? "asm" : which == 1 ? "asm avx2" : "c++");
    alignas(32) double ab[2] = {p.a.get_d(), p.b.get_d()}, u[2] = {9, 9}, v[2] = {9, 9}, th2[2] = {th.get_d(), th.get_d()}; uint64_t lm[2] = {lehmer ? ~0ULL : 0, lehmer ? ~0ULL : 0}; uint64 np = 7; bool progress;
    if (which == 2) { if (p.b <= th && 0) return; vector2 w{ab[0], ab[1]}; matrix2 m; progress = gcd_base_continued_fraction(w, m, lehmer, th2[0]); ab[0] = w[0]; ab[1] = w[1]; u[0] = m[0][0]; u[1] = m[1][0]; v[0] = m[0][1]; v[1] = m[1][1]; }
    else { int rc = which ? asm_code::asm_avx2_func_gcd_base(ab, u, v, (uint64 *)lm, th2, &np) : asm_code::asm_cel_func_gcd_base(ab, u, v, (uint64 *)lm, th2, &np); PBT_CHECK(rc == 0 && np < 2, "kernel returned %d, no_progress %llu", rc, (unsigned long long)np); progress = !np; }
    fesetround(FE_TONEAREST);
    int i = find(e, fabs(u[0]), fabs(v[0]), fabs(u[1]), fabs(v[1])); c.nontrivial(i >= 2);
    if (!progress) { c.label("no progress"); return; }
    PBT_CHECK(i >= 1, "matrix %.0f %.0f %.0f %.0f is not a sequence of true quotients", u[0], v[0], u[1], v[1]);
    bool even = i % 2 == 0; PBT_CHECK((even ? u[0] >= 0 && v[0] <= 0 && u[1] <= 0 && v[1] >= 0 : u[0] <= 0 && v[0] >= 0 && u[1] >= 0 && v[1] <= 0), "matrix has the wrong signs for %d quotients", i);
    PBT_CHECK(Z(ab[0]) == e[i].a && Z(ab[1]) == e[i].b, "a, b = %.0f, %.0f instead of %s, %s", ab[0], ab[1], hx(e[i].a).c_str(), hx(e[i].b).c_str());
    PBT_CHECK(e[i].a > th, "the larger result %s is not above the threshold", hx(e[i].a).c_str());
    if (lehmer) for (int k = 0; k < 6; k++) {      // true for every continuation of the operands
        size_t x = s.range(1, 80); Z m = (Z(1) << x) - 1, lo = k == 0 ? m : k == 1 ? Z(0) : pattern(s, x), lb = k == 0 ? Z(0) : k == 1 ? m : pattern(s, x);
        Z A = (p.a << x) + lo, B = (p.b << x) + lb; if (A < B) continue; auto f = euclid(A, B, i + 3);
        PBT_CHECK(find(f, fabs(u[0]), fabs(v[0]), fabs(u[1]), fabs(v[1])) == i, "the quotients are wrong for a=%s b=%s, which start with the same bits", hx(A).c_str(), hx(B).c_str());
    }
}
static uint64 lo64(const Z &z) { Z t = z & Z("0xffffffffffffffff"); return t.get_ui(); }
static uint64 hi64(const Z &z) { return lo64(z >> 64); }
static void c23_head(Ctx &c) {
    auto &s = c.s; int which = (int)s.raw(3); bool lehmer = s.raw(2); rounding(c); size_t n = lehmer ? s.range(s.raw(3) ? 127 : 97, 128) : s.range(2, 128); Pair p = operands(c, n);
    if (p.b == 0 || p.a == 0) c.discard(); auto e = euclid(p.a, p.b); Z th = threshold(c, e); if (which == 1 && eng::nvariants() < 2) which = 0;
    eng::variant(which == 1 ? 1 : 0);
    c.note("%s a=%s b=%s threshold=%s lehmer=%d", which == 0 ? "asm" : which == 1 ? "asm avx2" : "c++", hx(p.a).c_str(), hx(p.b).c_str(), hx(th).c_str(), lehmer); c.labelf("%s", which == 0 ? "asm" : which == 1 ? "asm avx2" : "c++");
    Z u0, v0, u1, v1; int par; bool progress;
    if (which == 2) {
        if (n > 127) { p.a >>= 1; p.b >>= 1; th >>= 1; if (p.b == 0 || th >= p.a) c.discard(); e = euclid(p.a, p.b); }
        std::array<uint128, 2> ab = {make_uint128(hi64(p.a), lo64(p.a)), make_uint128(hi64(p.b), lo64(p.b))}; std::array<std::array<uint64, 2>, 2> m; progress = gcd_128(ab, m, par, lehmer, make_uint128(hi64(th), lo64(th)));
        u0 = u64z(m[0][0]); v0 = u64z(m[0][1]); u1 = u64z(m[1][0]); v1 = u64z(m[1][1]);
    } else {
        asm_code::asm_func_gcd_128_data d; memset(&d, 0x5a, sizeof d); d.ab_start_0_0 = lo64(p.a); d.ab_start_0_8 = hi64(p.a); d.ab_start_1_0 = lo64(p.b); d.ab_start_1_8 = hi64(p.b); d.is_lehmer = lehmer; d.ab_threshold_0 = lo64(th); d.ab_threshold_8 = hi64(th);
        int rc = which ? asm_code::asm_avx2_func_gcd_128(&d) : asm_code::asm_cel_func_gcd_128(&d); PBT_CHECK(rc == 0 && d.no_progress < 2, "kernel returned %d", rc); progress = !d.no_progress;
        u0 = u64z(d.u_0); u1 = u64z(d.u_1); v0 = u64z(d.v_0); v1 = u64z(d.v_1); par = (int)d.parity;
    }
    fesetround(FE_TONEAREST); int i = find(e, u0, v0, u1, v1); c.nontrivial(i >= 2);
    if (!progress) { c.label("no progress"); return; }
    PBT_CHECK(i >= 1 && (i & 1) == par, "matrix %s %s %s %s with parity %d is not a sequence of true quotients", hx(u0).c_str(), hx(v0).c_str(), hx(u1).c_str(), hx(v1).c_str(), par);
    PBT_CHECK(e[i].a > th, "the larger result %s is not above the threshold", hx(e[i].a).c_str());
    if (lehmer) for (int k = 0; k < 6; k++) {
        size_t x = s.range(1, 200); Z m = (Z(1) << x) - 1, l = k == 0 ? m : k == 1 ? Z(0) : pattern(s, x), lb = k == 0 ? Z(0) : k == 1 ? m : pattern(s, x);
        Z A = (p.a << x) + l, B = (p.b << x) + lb; if (A < B) continue; auto f = euclid(A, B, i + 3);
        PBT_CHECK(find(f, u0, v0, u1, v1) == i, "the quotients are wrong for a=%s b=%s, which start with the same bits", hx(A).c_str(), hx(B).c_str());
    }
}
// ---------------------------------------------------------------- the whole partial gcd of the fast path
struct Unsigned { Z a, b; int rc; std::vector<Step> uv; std::vector<int> par, flag; int64 iter; uint64 counter; bool spill = false; };
static Unsigned run_unsigned(int which, const Z &A, const Z &B, const Z &th) {
    static const size_t W = 20; struct Buf { alignas(64) uint64 pre[8], v[W], post[8]; } x[5]; alignas(64) static thread_local uint64 uv[42][8]; memset(x, 0x77, sizeof x); memset(uv, 0x66, sizeof uv);
    auto put = [&](uint64 *o, const Z &z) { memset(o, 0, W * 8); mpz_export(o, nullptr, -1, 8, -1, 0, z.get_mpz_t()); }; put(x[0].v, A); put(x[1].v, B); put(x[4].v, th); memset(x[2].v, 0, W * 8); memset(x[3].v, 0, W * 8);
    Unsigned r; alignas(64) std::atomic<uint64> cnt{1234}; asm_code::asm_func_gcd_unsigned_data d; d.a = x[0].v; d.b = x[1].v; d.a_2 = x[2].v; d.b_2 = x[3].v; d.threshold = x[4].v; d.uv_counter_start = 1234; d.out_uv_counter_addr = (uint64 *)&cnt; d.out_uv_addr = uv[1]; d.iter = -2; size_t nl = (bits(A) + 63) / 64; d.a_end_index = nl ? nl - 1 : 0;
    r.rc = which ? asm_code::asm_avx2_func_gcd_unsigned(&d) : asm_code::asm_cel_func_gcd_unsigned(&d); r.iter = d.iter; r.counter = cnt;
    for (int i = 0; i < 5; i++) for (int k = 0; k < 8; k++) if (x[i].pre[k] != 0x7777777777777777ULL || x[i].post[k] != 0x7777777777777777ULL) r.spill = true;
    Z t; mpz_import(t.get_mpz_t(), W, -1, 8, 0, 0, x[4].v); if (t != th) r.spill = true;
    if (r.rc == 0 && d.iter >= 0 && d.iter <= 40) {
        bool second = ((d.iter - 1) & 1) == 0; mpz_import(r.a.get_mpz_t(), W, -1, 8, 0, 0, x[second ? 2 : 0].v); mpz_import(r.b.get_mpz_t(), W, -1, 8, 0, 0, x[second ? 3 : 1].v);
        for (int i = 0; i <= d.iter; i++) { r.flag.push_back((int)uv[i][5]); if (i) { Step q; q.u0 = u64z(uv[i][0]); q.u1 = u64z(uv[i][1]); q.v0 = u64z(uv[i][2]); q.v1 = u64z(uv[i][3]); r.uv.push_back(q); r.par.push_back((int)uv[i][4]); } }
    }
    return r;
}
static void check_unsigned(Ctx &c, const Z &A, const Z &B, const Z &th, const Unsigned &r) {
    PBT_CHECK(!r.spill, "the kernel wrote outside its result buffers"); if (r.rc) return;
    PBT_CHECK(r.iter >= 0 && r.iter <= 40, "iteration count %lld", (long long)r.iter);
    Step m{0, 0, 1, 0, 0, 1}; int par = 0;
    for (size_t k = 0; k < r.uv.size(); k++) { const Step &q = r.uv[k]; m = Step{0, 0, q.u0 * m.u0 + q.v0 * m.u1, q.u0 * m.v0 + q.v0 * m.v1, q.u1 * m.u0 + q.v1 * m.u1, q.u1 * m.v0 + q.v1 * m.v1}; PBT_CHECK(r.par[k] == 0 || r.par[k] == 1, "parity word %d", r.par[k]); par ^= r.par[k]; }
    for (size_t k = 0; k < r.flag.size(); k++) PBT_CHECK(r.flag[k] == (int)(k + 1 == r.flag.size()), "exit flag of entry %zu of %zu is %d", k, r.flag.size(), r.flag[k]);
    auto e = euclid(A, B); int i = find(e, m.u0, m.v0, m.u1, m.v1); PBT_CHECK(i >= 0 && (i & 1) == par, "the product of the matrices is not a sequence of true quotients (found %d, parity %d)", i, par);
    if (r.iter > 0) PBT_CHECK(r.a == e[i].a && r.b == e[i].b, "remainders %s, %s instead of %s, %s", hx(r.a).c_str(), hx(r.b).c_str(), hx(e[i].a).c_str(), hx(e[i].b).c_str());
    PBT_CHECK(e[i].a > th, "the larger remainder %s is not above the threshold", hx(e[i].a).c_str()); size_t sh = bits(e[i].a) > 128 ? bits(e[i].a) - 128 : 0;
    PBT_CHECK(e[i].b <= th || Z(e[i].b >> sh) <= Z(th >> sh), "stopped early: b=%s, threshold %s", hx(e[i].b).c_str(), hx(th).c_str());
    PBT_CHECK(r.counter == 1234 + (uint64)r.iter - 1 || r.counter == 1234 + (uint64)r.iter || r.iter == 0, "counter ends at start%+lld after %lld iterations", (long long)(r.counter - 1234), (long long)r.iter);
}
static void c23_unsigned(Ctx &c) {
    auto &s = c.s; int which = (int)s.raw(eng::nvariants() > 1 ? 2 : 1); rounding(c); size_t n = s.range(2, s.raw(3) ? 1100 : 200); if (s.raw(6) == 0) n = 64 * s.range(1, 17) + s.irange(-1, 1); Pair p = operands(c, n); if (p.a == 0) c.discard(); auto e = euclid(p.a, p.b); Z th = threshold(c, e);
    if (which == 1) eng::variant(1); else eng::variant(0);
    c.note("%s a=%s b=%s threshold=%s", which ? "avx2" : "plain", hx(p.a).c_str(), hx(p.b).c_str(), hx(th).c_str()); c.labelf("%s", which ? "avx2" : "plain");
    Unsigned r = run_unsigned(which, p.a, p.b, th); fesetround(FE_TONEAREST); c.nontrivial(r.rc == 0 && r.iter > 0); c.labelf("rc %s", r.rc ? "failed" : r.iter == 0 ? "0, nothing to do" : "0"); check_unsigned(c, p.a, p.b, th, r);
}
static void c23_yield(Ctx &c) {        // it must not just refuse: nearly all random operands succeed
    auto &s = c.s; int which = (int)s.raw(eng::nvariants() > 1 ? 2 : 1); rounding(c); size_t n = s.range(128, 1088); eng::variant(which); int ok = 0; c.note("%s %zu bits", which ? "avx2" : "plain", n); c.labelf("%s", which ? "avx2" : "plain");
    for (int i = 0; i < 50; i++) { Z a = from_be(s.bytes((n + 7) / 8)), b = from_be(s.bytes((n + 7) / 8)); mpz_setbit(a.get_mpz_t(), n - 1); if (a < b) std::swap(a, b); Z th = a >> (bits(a) / 2); Unsigned r = run_unsigned(which, a, b, th); check_unsigned(c, a, b, th, r); ok += r.rc == 0; }
    fesetround(FE_TONEAREST); c.nontrivial(); PBT_CHECK(ok >= 45, "only %d of 50 random operands succeeded", ok);
}
// ---------------------------------------------------------------- AVX-512 integers
template<int N> struct V; template<> struct V<12> { typedef mpz<9, 16> M; typedef avx512_integer<12, 16> A; enum { E = 9 }; }; template<> struct V<21> { typedef mpz<17, 24> M; typedef avx512_integer<21, 24> A; enum { E = 17 }; }; template<> struct V<31> { typedef mpz<25, 32> M; typedef avx512_integer<31, 32> A; enum { E = 25 }; }; template<> struct V<41> { typedef mpz<33, 40> M; typedef avx512_integer<41, 48> A; enum { E = 33 }; };
static Z signed_pattern(Ctx &c, size_t n) { Z r = pattern(c.s, n ? c.s.raw(4) ? n : c.s.range(0, n) : 0); return c.s.raw(2) ? Z(-r) : r; }
template<int N> static void load(typename V<N>::A &a, const Z &z, Src &s) { typename V<N>::M m; if (s.raw(2)) memset(m.data, 0xee, sizeof m.data); mpz_set(m._(), z.get_mpz_t()); memset(a.data_padded, 0xdd, sizeof a.data_padded); a = m; }
template<int N> static void expect(const typename V<N>::A &a, const Z &w, const char *what) {
    typename V<N>::M m; memset(m.data, 0xcc, sizeof m.data); a.assign(m); mpz<33, 40> m33; memset(m33.data, 0xcc, sizeof m33.data); a.assign(m33); Z r(m._()), r33(m33._());
    PBT_CHECK(r == w, "%s gives %s instead of %s", what, hx(r).c_str(), hx(w).c_str()); PBT_CHECK(r33 == w, "%s stored in a long integer gives %s instead of %s", what, hx(r33).c_str(), hx(w).c_str());
    for (int i = 0; i < V<N>::E; i++) PBT_CHECK((size_t)i < mpz_size(m._()) ? true : true, "size");
    PBT_CHECK(mpz_size(m._()) == 0 || m.data[mpz_size(m._()) - 1] != 0, "%s leaves a zero top limb", what);
}
template<int N> static void vec_add(Ctx &c) {
    auto &s = c.s; typename V<N>::A a, b, o; size_t n = V<N>::E * 64 - 1; Z x = signed_pattern(c, n), y;
    switch (s.raw(5)) { case 0: y = -x; break; case 1: y = x; break; case 2: y = -x + s.irange(-1, 1); break; case 3: y = Z((Z(1) << n) - 1 - abs(x)) * sgn(x); break; default: y = signed_pattern(c, n); }
    if (bits(y) > n) y = x; load<N>(a, x, s); load<N>(b, y, s); c.note("%d digits x=%s y=%s", N, hx(x).c_str(), hx(y).c_str()); c.nontrivial(x != 0 && y != 0);
    expect<N>(a, x, "load"); int k = 0;
    for (int i = 0; i < 5; i++) {     // a chain of operations on results, in place or not
        bool sub = s.raw(2); Z w = sub ? Z(x - y) : Z(x + y); if (bits(w) > V<N>::E * 64) break; int al = (int)s.raw(3); auto &out = al == 0 ? o : al == 1 ? a : b; char t[64]; snprintf(t, sizeof t, "%s %d%s", sub ? "subtract" : "add", i, al ? " in place" : "");
        c.note("%s", t); if (sub) out.set_sub(a, b); else out.set_add(a, b); expect<N>(out, w, t); k++;
        if (bits(w) > n) break; if (al == 0) { if (s.raw(2)) { a = o; x = w; } else { b = o; y = w; } } else (al == 1 ? x : y) = w;
    }
    c.labelf("add %d", N);
}
template<int NA, int NB, int NO> static void vec_mul(Ctx &c) {
    auto &s = c.s; typename V<NA>::A a; typename V<NB>::A b; typename V<NO>::A o; size_t out = V<NO>::E * 64, ma = V<NA>::E * 64, mb = V<NB>::E * 64, na = std::min<size_t>(ma, s.raw(3) ? out - std::min<size_t>(out, mb) + s.raw(std::min<size_t>(out, ma) + 1) : s.range(0, ma)); na = std::min(na, std::min(ma, out)); size_t nb = std::min(mb, out - na); if (s.raw(4) == 0) nb = s.raw(nb + 1);
    Z x = signed_pattern(c, na), y = signed_pattern(c, nb); c.note("%dx%d->%d x=%s y=%s", NA, NB, NO, hx(x).c_str(), hx(y).c_str()); c.nontrivial(bits(x) > 52 && bits(y) > 52); c.labelf("mul %d %d %d", NA, NB, NO);
    load<NA>(a, x, s); load<NB>(b, y, s); o.set_mul(a, b); expect<NO>(o, x * y, "product"); expect<NA>(a, x, "first factor afterwards"); expect<NB>(b, y, "second factor afterwards");
    if constexpr (NA == NO) if (s.raw(2)) { a.set_mul(a, b); expect<NO>(a, x * y, "product in place"); }
    if constexpr (NA == NB && NB == NO) if (s.raw(2) && 2 * bits(x) <= out) { load<NA>(a, x, s); a.set_mul(a, a); expect<NO>(a, x * x, "square in place"); }
}
static void c23_vec(Ctx &c) {
    if (eng::nvariants() < 3) { c.label("no AVX-512 on this machine"); c.nontrivial(false); return; } eng::variant(2);
    switch (c.s.raw(19)) { case 0: case 1: return vec_add<12>(c); case 2: case 3: return vec_add<21>(c); case 4: case 5: return vec_add<31>(c); case 6: case 7: return vec_add<41>(c);
    case 8: return vec_mul<12, 12, 12>(c); case 9: return vec_mul<12, 12, 21>(c); case 10: return vec_mul<12, 21, 21>(c); case 11: return vec_mul<12, 21, 31>(c); case 12: return vec_mul<21, 12, 21>(c); case 13: return vec_mul<21, 21, 21>(c); case 14: return vec_mul<21, 21, 31>(c); case 15: return vec_mul<21, 21, 41>(c); case 16: return vec_mul<31, 31, 31>(c); case 17: return vec_mul<41, 12, 31>(c); default: return vec_mul<41, 41, 41>(c); }
}
// ---------------------------------------------------------------- the scalar wrappers
static uint64 u64p(Src &s) { switch (s.raw(5)) { case 0: return s.raw(4); case 1: return ~0ULL - s.raw(3); case 2: return 1ULL << s.raw(64); case 3: return (1ULL << s.raw(64)) - 1; default: return s.u64(); } }
static Z fix(const mpz_struct *m) { return Z(m); }
static void c23_mpz(Ctx &c) {
    auto &s = c.s; eng::variant((int)s.raw(eng::nvariants())); typedef mpz<33, 40> M; typedef mpz<17, 24> H; typedef mpz<9, 16> Q; M a, b, o; H h, h2; Q q9; Z x = signed_pattern(c, s.range(0, 2000)), y = signed_pattern(c, s.range(0, 1000)), w; a = x.get_mpz_t(); b = y.get_mpz_t(); uint64 k = u64p(s); int64 j = (int64)u64p(s); Z K = u64z(k), J; mpz_set_si(J.get_mpz_t(), j); int sh = (int)s.raw(100); const char *n = "";
    c.note("x=%s y=%s k=%llu j=%lld shift=%d", hx(x).c_str(), hx(y).c_str(), (unsigned long long)k, (long long)j, sh); c.nontrivial(x != 0 && y != 0); Z r; bool done = false;
#define OP(NAME, CODE, WANT) { n = NAME; CODE; w = WANT; done = true; } break
    switch (s.raw(29)) {
    case 0: OP("a+b", o.set_add(a, b), x + y); case 1: OP("a+k", o.set_add(a, k), x + K); case 2: OP("+=", o = a; o += b, x + y); case 3: OP("+=k", o = a; o += k, x + K);
    case 4: OP("a-b", o.set_sub(a, b), x - y); case 5: OP("a-k", o.set_sub(a, k), x - K); case 6: OP("k-b", o.set_sub(k, b), K - y); case 7: OP("-=", o = a; o -= b, x - y);
    case 8: OP("a*j", o.set_mul((const mpz_struct *)b._(), j), y * J); case 9: OP("a*k", o.set_mul((const mpz_struct *)b._(), k), y * K); case 10: OP("<<", o.set_left_shift(b, sh), y << sh); case 11: OP("<<=", o = b; o <<= sh, y << sh);
    case 12: OP("+=a*k", o = a; o.set_add_mul(b, k), x + y * K); case 13: OP("-=a*k", o = a; o.set_sub_mul(b, k), x - y * K); case 14: OP("negate", o = a; o.negate(), -x); case 15: OP("abs", o = a; o.abs(), abs(x));
    case 16: if (y == 0) c.discard(); OP("floor", o.set_divide_floor(a, b), ([&] { Z t; mpz_fdiv_q(t.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return t; }()));
    case 17: if (y == 0) c.discard(); { n = "floor with remainder"; M m; o.set_divide_floor(a, b, m); Z t, u; mpz_fdiv_qr(t.get_mpz_t(), u.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); PBT_CHECK(fix(m._()) == u, "remainder %s instead of %s", hx(fix(m._())).c_str(), hx(u).c_str()); w = t; done = true; } break;
    case 18: if (y == 0) c.discard(); { Z p = y * J; b = p.get_mpz_t(); M d; d = y.get_mpz_t(); OP("exact", o.set_divide_exact(b, d), J); }
    case 19: if (y == 0) c.discard(); OP("mod", o.set_mod(a, b), ([&] { Z t; mpz_mod(t.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); return t; }()));
    case 20: OP(">>=", o = a; o >>= sh, ([&] { Z t; mpz_tdiv_q_2exp(t.get_mpz_t(), x.get_mpz_t(), sh); return t; }()));
    case 21: OP("a>>", o = b; o.set_right_shift(a, sh), ([&] { Z t; mpz_tdiv_q_2exp(t.get_mpz_t(), x.get_mpz_t(), sh); return t; }()));
    case 22: { n = "comparisons"; if (s.raw(3) == 0) { y = x + s.irange(-1, 1); b = y.get_mpz_t(); } const mpz_struct *t = b._(); PBT_CHECK((a < t) == (x < y) && (a <= t) == (x <= y) && (a == t) == (x == y) && (a >= t) == (x >= y) && (a > t) == (x > y) && (a != t) == (x != y) && (a.compare_abs(t) > 0) == (abs(x) > abs(y)) && (a.compare_abs(t) < 0) == (abs(x) < abs(y)), "comparison of two integers"); return; }
    case 23: { n = "comparisons with words"; if (s.raw(2)) { x = s.raw(2) ? K : J; x += s.irange(-1, 1); a = x.get_mpz_t(); } PBT_CHECK((a < j) == (x < J) && (a <= j) == (x <= J) && (a == j) == (x == J) && (a >= j) == (x >= J) && (a > j) == (x > J) && (a != j) == (x != J) && (a < k) == (x < K) && (a <= k) == (x <= K) && (a == k) == (x == K) && (a >= k) == (x >= K) && (a > k) == (x > K) && (a != k) == (x != K) && (a.compare_abs(k) > 0) == (abs(x) > K), "comparison with a word"); return; }
    case 24: { PBT_CHECK(a.sgn() == sgn(x) && a.num_limbs() == (int)mpz_size(x.get_mpz_t()) && (x == 0 || a.num_bits() == (int)bits(x)), "sign %d, %d limbs, %d bits of %s", a.sgn(), a.num_limbs(), a.num_bits(), hx(x).c_str()); auto v = a.to_array<33>(); Z t; mpz_import(t.get_mpz_t(), 33, -1, 8, 0, 0, v.data()); PBT_CHECK(t == abs(x), "to_array"); std::string str = a.to_string(); Z u; bool neg = str[0] == '-'; u = Z(str.substr(neg)); PBT_CHECK((neg ? Z(-u) : u) == x, "to_string gives %s", str.c_str()); M m; m = str; PBT_CHECK(fix(m._()) == x, "reading back %s", str.c_str()); return; }
    case 25: { int num = (int)s.range(mpz_size(x.get_mpz_t()), 33); M m; m = a; memset(m.data + mpz_size(x.get_mpz_t()), 0x99, 8 * (40 - mpz_size(x.get_mpz_t()))); uint64 *l = m.modify_limbs(num); for (int i = (int)mpz_size(x.get_mpz_t()); i < num; i++) PBT_CHECK(l[i] == 0, "limb %d not cleared", i); if (num) l[0] ^= k; m.finish(num, s.raw(2)); Z t = abs(x); if (num) { Z l0 = u64z(t == 0 ? 0 : mpz_getlimbn(t.get_mpz_t(), 0)), l1 = u64z(l0.get_ui() ^ k); t = t - l0 + l1; } PBT_CHECK(abs(fix(m._())) == t, "modify_limbs gives %s", hx(fix(m._())).c_str()); return; }
    case 26: { if (x == 0) c.discard(); if (s.raw(2)) { y = y * x; if (bits(y) > 2100) c.discard(); b = y.get_mpz_t(); } PBT_CHECK(b.divisible_by(a) == (mpz_divisible_p(y.get_mpz_t(), x.get_mpz_t()) != 0), "divisible_by"); return; }
    case 27: { Z p = signed_pattern(c, 500), r2 = signed_pattern(c, 500); h = p.get_mpz_t(); q9 = r2.get_mpz_t(); n = "mixed product"; H z; switch (s.raw(3)) { case 0: z.set_mul(h, q9); break; case 1: z.set_mul(q9, h); break; default: z = h; z.set_mul(z, q9); } c.note("p=%s r=%s", hx(p).c_str(), hx(r2).c_str()); PBT_CHECK(fix(z._()) == p * r2, "product %s instead of %s", hx(fix(z._())).c_str(), hx(p * r2).c_str()); return; }
    default: { Z p = signed_pattern(c, 1050), r2 = signed_pattern(c, 1050); M ma, mb; ma = p.get_mpz_t(); mb = r2.get_mpz_t(); ma.set_mul(ma, mb); PBT_CHECK(fix(ma._()) == p * r2, "product of two long integers"); return; }
    }
#undef OP
    if (done) { c.labelf("%s", n); r = fix(o._()); PBT_CHECK(r == w, "%s gives %s instead of %s", n, hx(r).c_str(), hx(w).c_str()); }
}
static void c23_words(Ctx &c) {
    auto &s = c.s; c.nontrivial(); uint64 t = u64p(s); int st = (int)s.raw(64), sz = (int)s.range(0, 64 - st); Z T = u64z(t);
    c.note("t=%llx start=%d size=%d", (unsigned long long)t, st, sz);
    auto mask = [](int n) { return n == 64 ? ~0ULL : (1ULL << n) - 1; }; uint64 e = extract_bits(t, st, sz); PBT_CHECK(e == ((t >> st) & mask(sz)), "extract_bits gives %llx", (unsigned long long)e);
    uint64 in = s.u64() & mask(sz), w = insert_bits(t, in, st, sz); PBT_CHECK(w == ((t & ~(mask(sz) << st)) | in << st), "insert_bits gives %llx", (unsigned long long)w); PBT_CHECK(bit_sequence(st, sz) == mask(sz) << st, "bit_sequence gives %llx", (unsigned long long)bit_sequence(st, sz));
    double d; memcpy(&d, &t, 8); double_bits b(d); PBT_CHECK(b.to_uint64() == t, "double_bits does not round trip"); PBT_CHECK(b.sign == (t >> 63) && (unsigned)b.exponent == (t >> 52 & 2047) && b.fraction == (t & mask(52)), "double_bits fields");
    int ex = (int)s.range(0, 2045) - 1022; PBT_CHECK(d_exp2(ex) == ldexp(1.0, ex), "d_exp2(%d)", ex); uint64 i = t >> s.range(12, 63); rounding(c); double f = double_from_int(i); uint64 back = int_from_double(f); fesetround(FE_TONEAREST); PBT_CHECK(f == (double)i && back == i, "conversion of %llu to double and back gives %.0f, %llu", (unsigned long long)i, f, (unsigned long long)back);
    uint64 h = u64p(s); PBT_CHECK(make_uint128(h, t) == ((unsigned __int128)h << 64 | t) && make_uint64((uint32)h, (uint32)t) == ((uint64)(uint32)h << 32 | (uint32)t), "make_uint");
    // carries of the limb helpers
    int ci = (int)s.raw(2), co = 9; unsigned __int128 sum = (unsigned __int128)t + h + ci; uint64 r = add_carry(t, h, ci, co); PBT_CHECK(r == (uint64)sum && co == (int)(sum >> 64), "add_carry"); r = sub_carry(t, h, ci, co); PBT_CHECK(r == t - h - ci && co == ((unsigned __int128)t < (unsigned __int128)h + ci), "sub_carry");
    PBT_CHECK(clz(t) == (t ? __builtin_clzll(t) : 64) && mul_high(t, h) == (uint64)((unsigned __int128)t * h >> 64), "clz or mul_high");
}
template<int A, int B> static void fixed_case(Ctx &c) {
    auto &s = c.s; typedef fixed_integer<uint64, A> FA; typedef fixed_integer<uint64, B> FB; auto I = [](const Z &z) { integer r; mpz_set(r.impl, z.get_mpz_t()); return r; }; auto O = [](const integer &i) { return Z(i.impl); }; Z x = signed_pattern(c, 64 * A), y = signed_pattern(c, 64 * B); if (s.raw(3) == 0) { y = x + s.irange(-1, 1); if (bits(y) > 64 * B) { Z t = abs(y) >> (bits(y) - 64 * B); y = y < 0 ? Z(-t) : t; } } if (s.raw(4) == 0) y = -y;
    FA a(I(x)); FB b(I(y)); c.note("%d,%d limbs x=%s y=%s", A, B, hx(x).c_str(), hx(y).c_str()); c.labelf("%d %d", A, B); c.nontrivial(x != 0 && y != 0); PBT_CHECK(O(a) == x && O(b) == y, "load and store");
    PBT_CHECK(O(a + b) == x + y, "sum %s", hx(O(a + b)).c_str()); PBT_CHECK(O(a - b) == x - y, "difference %s", hx(O(a - b)).c_str());
    PBT_CHECK((a < b) == (x < y) && (a <= b) == (x <= y) && (a == b) == (x == y) && (a >= b) == (x >= y) && (a > b) == (x > y) && (a != b) == (x != y), "comparison gives %d", a.compare(b)); PBT_CHECK(a.is_negative() == (x < 0) && a.is_zero() == (x == 0), "sign");
    FA d = a; d.set_negative(false); Z ax = abs(x); PBT_CHECK(d.num_bits() == (x == 0 ? 1 : (int)bits(x)), "num_bits"); int st = (int)s.raw(64 * A); Z wi; mpz_fdiv_q_2exp(wi.get_mpz_t(), ax.get_mpz_t(), st); PBT_CHECK(d.window(st) == lo64(wi), "window at %d gives %llx", st, (unsigned long long)d.window(st));
    int sh = (int)s.raw(64); Z ls = ax << sh; PBT_CHECK(O(d << sh) == ls, "left shift by %d", sh); PBT_CHECK(O(d >> sh) == Z(ax >> sh), "right shift by %d", sh); uint64 k = u64p(s); fixed_integer<uint64, A + 1> m(d); m *= k; PBT_CHECK(O(m) == ax * u64z(k), "product with a word");
}
static void c23_fixed(Ctx &c) { switch (c.s.raw(4)) { case 0: return fixed_case<4, 4>(c); case 1: return fixed_case<4, 2>(c); case 2: return fixed_case<2, 4>(c); default: return fixed_case<17, 17>(c); } }

int main(int ac, char **av) {
    eng::init();
    std::vector<pbt::Suite> S = {
        {"C23.partial", c23_partial, 60000, 3000000, "at least two division steps were made"},
        {"C23.base", c23_base, 120000, 6000000, "the matrix holds at least two quotients"},
        {"C23.head", c23_head, 120000, 6000000, "the matrix holds at least two quotients"},
        {"C23.unsigned", c23_unsigned, 60000, 3000000, "the kernel succeeded after at least one iteration"},
        {"C23.yield", c23_yield, 2000, 80000, "always"},
        {"C23.vec", c23_vec, 200000, 8000000, "both operands longer than one digit (products) or not zero"},
        {"C23.mpz", c23_mpz, 100000, 4000000, "both operands not zero"},
        {"C23.words", c23_words, 100000, 4000000, "always"},
        {"C23.fixed", c23_fixed, 50000, 2000000, "both operands not zero"},
    };
    return pbt::main_(ac, av, S);
}
