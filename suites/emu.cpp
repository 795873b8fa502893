// C25: the software emulator of the chip, under the program's own driver and under the whole program.
#define EMU
#include "hw.cpp"
static const int kProb[] = {0, 0, 0, 1, 2, 7, 40};
static void jobs(Ctx &c) {
    auto &s = c.s; hush(); int prob = kProb[s.raw(7)]; if (prob) { std::string p = std::to_string(prob); setenv("EMU_ERROR_PROB", p.c_str(), 1); c.labelf("errors 1/%d", prob); } else unsetenv("EMU_ERROR_PROB");
    ChiaDriver d; PBT_CHECK(d.ftdi.Open() == 0, "the emulated device does not open"); d.freq_idx = 1;
    struct Job { Cycle *cy = nullptr; uint64_t e0 = 0, n = 0, last = 0; bool on = false, ended = false, wrong = false; } j[3]; vdf_value val[3]; for (auto &v : val) init_vdf_value(&v); int compared = 0; bool restarted = false; std::vector<Cycle *> cys; for (int i = (int)s.range(1, 3); i--;) cys.push_back(cycle(c));
    auto read = [&](int mask) {
        for (auto &v : val) { v.iters = 12345; mpz_set_ui(v.a, 77); mpz_set_si(v.b, -77); }
        PBT_CHECK(read_hw_status(&d, (uint8_t)mask, val) == 0, "reading the status fails");
        for (int e = 0; e < 3; e++) {
            uint64_t it = val[e].iters; Z a(val[e].a), b(val[e].b); if (!(mask >> e & 1)) { PBT_CHECK(it == 12345 && a == 77 && b == -77, "engine %d is read although it was not asked", e); continue; }
            if (!j[e].cy || !j[e].on) { PBT_CHECK(it == 0 && (prob || a == 0) && b == 0, "engine %d is off but reports %llu iterations, a=%s b=%s", e, (unsigned long long)it, a.get_str(16).c_str(), b.get_str(16).c_str()); continue; }
            Job &q = j[e]; PBT_CHECK(it <= q.n, "engine %d reports %llu iterations of %llu", e, (unsigned long long)it, (unsigned long long)q.n); PBT_CHECK(it >= q.last, "engine %d goes back from %llu to %llu", e, (unsigned long long)q.last, (unsigned long long)it); q.last = it; if (it == q.n) q.ended = true;
            Z k = pow2mod(u64z(it), Z((unsigned long)q.cy->ord)) * u64z(q.e0) % Z((unsigned long)q.cy->ord); const F &f = q.cy->pw[mpz_get_ui(k.get_mpz_t())]; bool right = false; if (is_form(q.cy->D, a, b)) { F g; make(g, a, b, q.cy->D); right = reduce(g) == f; }
            if (prob == 0) PBT_CHECK(right, "engine %d reports for iteration %llu a=%s b=%s, which is not the form of that iteration", e, (unsigned long long)it, a.get_str(16).c_str(), b.get_str(16).c_str());
            else { if (prob == 1) PBT_CHECK(!right, "engine %d reports no error although all are to be wrong", e); if (q.wrong) PBT_CHECK(!right, "engine %d recovers from an error without a restart", e); q.wrong |= !right; }
            if (it) compared++;
        }
    };
    for (int op = (int)s.range(3, 20); op--;) {
        int e = (int)s.raw(3); Job &q = j[e];
        switch (s.raw(4)) {
        case 0: { q.cy = cys[s.raw(cys.size())]; uint64_t at = s.raw(3) ? 0 : s.raw(q.cy->e.size()); F f = q.cy->at(at); q.e0 = q.cy->exp(at); q.n = s.raw(3) ? s.logrange(1, 3000) : s.raw(2) ? s.logrange(1, 1ULL << 40) : (s.range(1, 4) << 32) + s.raw(100); if (q.on) { c.label("restarted while running"); restarted = true; } q.on = true; q.last = 0; q.ended = q.wrong = false; c.note("start %d n=%llu", e, (unsigned long long)q.n); M D(q.cy->D), a(f.a), b(f.b); PBT_CHECK(start_hw_vdf(&d, D, a, b, q.n, e) == 0, "start fails"); PBT_CHECK(D.z() == q.cy->D && a.z() == f.a && b.z() == f.b, "starting a job changes its arguments"); break; }
        case 1: stop_hw_vdf(&d, e); q.on = false; c.note("stop %d", e); break;
        case 2: usleep(s.logrange(1, 4000)); break;
        }
        if (s.raw(3)) read((int)s.raw(16));
    }
    // what is left comes to its end
    double t = pbt::now(); uint64_t mark[3]; for (int e = 0; e < 3; e++) mark[e] = j[e].last; for (;;) { read(7); int open = -1; for (int e = 0; e < 3; e++) if (Job &q = j[e]; q.on && !q.ended && (q.n <= 3000 || q.last < mark[e] + 200)) open = e; if (open < 0) break; PBT_CHECK(pbt::now() - t < 50, "engine %d stands still at %llu of %llu iterations", open, (unsigned long long)j[open].last, (unsigned long long)j[open].n); usleep(200); }
    for (auto &q : j) if (q.on && q.n <= 3000) c.label("ran to its end"); for (int e = 0; e < 3; e++) { stop_hw_vdf(&d, e); j[e].on = false; } read(7); for (auto &v : val) clear_vdf_value(&v); c.nontrivial(compared > 0); (void)restarted;
}
int main(int argc, char **argv) {
    VdfBaseInit();
    std::vector<pbt::Suite> S = {
        {"C25.jobs", jobs, 1200, 60000, "at least one value behind the start was compared", 60, true, 8, true},
        {"C25.client", whole, 20, 600, "at least one proof was delivered and checked", 300, false, 4, true},
    };
    return pbt::main_(argc, argv, S);
}
