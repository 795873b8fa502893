// C10: the squaring engine against plain squaring, in every variant, with early stops and injected faults.
#include "engine.h"
using namespace model; using namespace eng; using pbt::Ctx;

// ------------------------------------------------------------------ fault injection into the gcd kernels
// The linker routes the generated kernels through these wrappers (--wrap); outside fault suites they are transparent.
namespace flt { std::atomic<int> on{0}; std::atomic<uint64_t> calls{0}, hits{0}; uint64_t period = 1; int kind = 0; uint64_t salt = 0; }
typedef asm_code::asm_func_gcd_unsigned_data GD;
static int faulty(int (*real)(GD *), GD *d) {
    if (!flt::on.load(std::memory_order_relaxed)) return real(d);
    uint64_t n = flt::calls++, st = flt::salt ^ n * 0x9e3779b97f4a7c15ULL; uint64_t r = pbt::splitmix(st), r2 = pbt::splitmix(st);
    bool hit = r % flt::period == 0; int k = flt::kind == 7 ? (int)(r2 >> 40) % 6 : flt::kind;
    if (hit && k == 0) { flt::hits++; return 1; }                       // the kernel gives up
    if (hit && k == 1) { flt::hits++; usleep(r2 % 3000); }              // the thread is descheduled
    int rc = real(d); if (!hit || rc) return rc;
    uint64_t bit = 1ULL << (r2 & 63); uint64_t limb = (r2 >> 8) % 6;
    switch (k) {
    case 2: d->a[limb] ^= bit; d->a_2[limb] ^= bit; break;              // wrong remainder
    case 3: d->b[limb] ^= bit; d->b_2[limb] ^= bit; break;
    case 4: { uint64_t it = d->iter > 0 ? (r2 >> 20) % (uint64_t)(d->iter + 1) : 0; d->out_uv_addr[8 * it + ((r2 >> 30) & 3)] ^= bit & 0x7fffffffffffffffULL; break; }   // wrong cofactor
    case 5: d->out_uv_addr[0] ^= bit & 0x7fffffffffffffffULL; break;
    default: return rc;
    }
    flt::hits++; return rc;
}
extern "C" int __real_asm_avx2_func_gcd_unsigned(GD *); extern "C" int __real_asm_cel_func_gcd_unsigned(GD *);
extern "C" int __wrap_asm_avx2_func_gcd_unsigned(GD *d) { return faulty(__real_asm_avx2_func_gcd_unsigned, d); }
extern "C" int __wrap_asm_cel_func_gcd_unsigned(GD *d) { return faulty(__real_asm_cel_func_gcd_unsigned, d); }

static std::string shortf(const F &f) { return bits(f.a) < 200 ? str(f) : "a=" + f.a.get_str(16).substr(0, 24) + ".."; }

// One call of the fast routine: it may stop early, but what it says it did must be right.
static void batch(Ctx &c) {
    Orbit o = orbit(c, c.s.raw(6) ? 240 : 16, 1024); int v = variant(c); bool two = c.s.raw(2); uint64_t n = c.s.logrange(1, bits(o.D) > 600 ? 250 : 600), skip = c.s.raw(5) ? c.s.range(6, 60) : 0, base = c.s.raw(3) ? skip : c.s.raw(1 << 20);
    c.note("threads=%d n=%llu skip=%llu", two ? 2 : 1, (unsigned long long)n, (unsigned long long)skip); c.labelf("%s", two ? "two threads" : "one thread");
    integer D = rp::I(o.D), L = root(-D, 4); form f = rp::toForm(o.at(skip));
    Recorder rec(D); uint64_t seen = 0; std::string err;
    rec.fn = [&](uint64_t it, const form &g) { seen++; if (it != base + seen && err.empty()) err = "iteration numbers out of sequence"; F w = o.at(skip + it - base), h = rp::fromForm(g); if (h != w && err.empty()) err = "iteration " + std::to_string(it - base) + " reports " + shortf(h) + ", want " + shortf(w); };
    square_state_type st; st.pairindex = (int)c.s.raw(100);
    uint64_t r = two ? repeated_square_fast_multithread(st, f, D, L, base, n, &rec) : repeated_square_fast_single_thread(st, f, D, L, base, n, &rec);
    PBT_CHECK(err.empty(), "%s", err.c_str());
    PBT_CHECK(r != ~0ULL, "corruption reported without any"); PBT_CHECK(r <= n, "claims %llu of %llu iterations", (unsigned long long)r, (unsigned long long)n);
    PBT_CHECK(seen == r, "%llu iterations claimed but %llu reported", (unsigned long long)r, (unsigned long long)seen);
    F g = rp::fromForm(f); PBT_CHECK(valid(g, o.D), "result is not a form of the discriminant"); PBT_CHECK(model::reduce(g) == o.at(skip + r), "after %llu squarings the class is %s, want %s", (unsigned long long)r, shortf(model::reduce(g)).c_str(), shortf(o.at(skip + r)).c_str());
    c.nontrivial(r > 0); c.labelf("%s", r == n ? "whole batch" : r ? "stopped early" : "refused at once"); c.labelf("%s D %s", r ? "fast" : "refused", bits(o.D) <= 128 ? "<=128" : bits(o.D) <= 512 ? "<=512" : "<=1024"); (void)v;
}
// The production loop: fast batches with fall back; every iteration is reported exactly once and in order.
static void loop(Ctx &c, bool faults) {
    Orbit o = orbit(c, faults ? 400 : 16, 1024); variant(c); uint64_t want = c.s.raw(3) ? c.s.range(1, 3000) : c.s.range(9000, 21000); bool big = o.ord == 0 && bits(o.D) > 200;
    uint64_t every = big ? c.s.range(1, 7) : 1; c.note("iterations=%llu", (unsigned long long)want);
    // with an unknown order only a window of the orbit is compared element by element; the tail is chained by the slow path
    uint64_t window = big ? 900 : ~0ULL; if (big && want > 3000) { want = 2500; }
    integer D = rp::I(o.D), L = root(-D, 4); form f = rp::toForm(o.x); Recorder rec(D, 1); uint64_t last = 0, checked = 0; std::string err; std::set<uint64_t> seen; bool replayed = false; std::atomic<bool> stopped{false};
    std::vector<F> got; uint64_t maxseen = 0;
    rec.fn = [&](uint64_t it, const form &g) {
        if (it <= last) replayed = true; else if (it != last + 1 && it > maxseen + 1) { if (err.empty()) err = "iteration " + std::to_string(it) + " follows " + std::to_string(last); }
        last = it; maxseen = std::max(maxseen, it); if (it >= window + 200) stopped = true;
        F h = rp::fromForm(g); if (got.size() <= it) got.resize(it + 1); got[it] = h; };
    if (faults) { flt::kind = (int)c.s.raw(8); if (flt::kind == 6) flt::kind = 7; flt::period = c.s.pick(std::vector<uint64_t>{1, 7, 50, 400, 3000}); flt::salt = c.s.u64(); flt::calls = 0; flt::hits = 0; flt::on = 1; c.note("fault=%d every~%llu", flt::kind, (unsigned long long)flt::period); static const char *k[] = {"kernel error", "descheduled", "remainder a", "remainder b", "cofactor", "first cofactor", "", "mixed"}; c.labelf("fault: %s", k[flt::kind]); }
    if (big) { stopped = false; }
    fast_algorithm = false; two_weso = false;
    repeated_square(want, f, D, L, &rec, nullptr, stopped);
    uint64_t hits = flt::hits; flt::on = 0;
    PBT_CHECK(err.empty(), "%s", err.c_str()); PBT_CHECK(faults || !replayed, "an iteration was reported twice");
    PBT_CHECK(stopped || maxseen > want || maxseen >= want, "stopped after %llu of %llu iterations", (unsigned long long)maxseen, (unsigned long long)want); PBT_CHECK((uint64_t)rec.iterations <= maxseen, "progress counter is ahead of the work");
    uint64_t upto = std::min<uint64_t>(maxseen, big ? 1100 : maxseen);
    for (uint64_t i = 1; i <= upto; i += 1) { const F &w = o.at(i); checked++; PBT_CHECK(got[i] == w, "iteration %llu stored as %s, want %s", (unsigned long long)i, shortf(got[i]).c_str(), shortf(w).c_str()); }
    // beyond the window: spot checks, one model squaring each
    for (uint64_t i = upto; i < maxseen; i += every * 37) { F w = square(got[i], o.D); checked++; PBT_CHECK(got[i + 1] == w, "iteration %llu is not the square of the one before", (unsigned long long)(i + 1)); }
    c.nontrivial(checked > 100 && (!faults || hits > 0)); c.labelf("%s", faults ? (replayed ? "batch recomputed" : "no recomputation") : maxseen > 10000 ? "several batches" : "one batch");
}
// The slow paths on their own.
static void slow(Ctx &c) {
    Orbit o = orbit(c, 16, 1024); uint64_t n = c.s.logrange(1, 200), base = c.s.raw(2) ? 0 : c.s.raw(1 << 30); bool nud = c.s.raw(2), weso = c.s.raw(2); variant(c); c.note("n=%llu %s", (unsigned long long)n, nud ? "nudupl" : "original"); c.labelf("%s%s", nud ? "nudupl" : "original", weso ? "" : ", no callback");
    integer D = rp::I(o.D), L = root(-D, 4); form f = rp::toForm(o.x); Recorder rec(D); uint64_t k = 0; rec.fn = [&](uint64_t it, const form &g) { k++; PBT_CHECK(it == base + k, "iteration number %llu, want %llu", (unsigned long long)it, (unsigned long long)(base + k)); PBT_CHECK(rp::fromForm(g) == o.at(k), "iteration %llu differs", (unsigned long long)k); };
    vdf_original vo;
    if (nud) repeated_square_nudupl(f, D, L, base, n, weso ? &rec : nullptr, weso ? &rec : nullptr); else repeated_square_original(vo, f, D, L, base, n, weso ? &rec : nullptr);
    PBT_CHECK(!weso || k == n, "reported %llu of %llu", (unsigned long long)k, (unsigned long long)n); F g = rp::fromForm(f); PBT_CHECK(valid(g, o.D) && model::reduce(g) == o.at(n), "result differs"); c.nontrivial(n > 1);
}
int main(int argc, char **argv) {
    eng::init(); eng::shorts();
    std::vector<pbt::Suite> S = {
        {"C10.batch", batch, 12000, 100000, "the fast routine completed at least one iteration", 60, false, 4},
        {"C10.loop", [](Ctx &c) { loop(c, false); }, 800, 8000, "more than 100 iterations compared", 120, false, 4},
        {"C10.faults", [](Ctx &c) { loop(c, true); }, 130, 2000, "a fault was injected and more than 100 iterations compared", 120, false, 4},
        {"C10.slow", slow, 8000, 100000, "more than one squaring"},
    };
    return pbt::main_(argc, argv, S);
}
