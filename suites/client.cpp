// C17: whole sessions of the timelord client against a server that obeys the protocol, breaks it or disappears.
#define main client_main
#include "vdf_client.cpp"
#undef main
#define ENGINE_NO_GLOBALS
#include "engine.h"
#include "schedule.h"
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
using namespace model; using namespace eng; using pbt::Ctx;
static unsigned g_cores = 4;
unsigned std::thread::hardware_concurrency() noexcept { return g_cores; }

static bool have_v6() { static int r = -1; if (r < 0) { int f = socket(AF_INET6, SOCK_STREAM, 0); r = f >= 0; if (f >= 0) close(f); } return r; }
[[noreturn]] static void run_client(int port, int logfd, uint64_t sseed) noexcept {
    prctl(PR_SET_PDEATHSIG, SIGKILL); for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM, SIGTRAP}) signal(sg, SIG_DFL); dup2(logfd, 1); dup2(logfd, 2); sched::nap = 0.002; sched::Scope sc(sseed, 0, 0);
    std::string p = std::to_string(port); char a0[] = "vdf_client", a1[] = "127.0.0.1", a3[] = "0"; char *av[] = {a0, a1, &p[0], a3, nullptr};
    if (have_v6()) _exit(client_main(4, av));
    try {   // no IPv6 here, and the program resolves its host as IPv6: only the connection is made by the harness
        boost::asio::io_context io; tcp::socket s(io); s.connect(tcp::endpoint(boost::asio::ip::make_address("127.0.0.1"), (unsigned short)port)); char m = 0; boost::system::error_code e; boost::asio::read(s, boost::asio::buffer(&m, 1), e);
        if (m == 'S') SessionOneWeso(s); if (m == 'N') { fast_algorithm = true; SessionFastAlgorithm(s); } if (m == 'T') { two_weso = true; SessionTwoWeso(s); }
    } catch (std::exception &) { _exit(1); }
    _exit(0);
}

struct Peer {      // the server's side of one session
    int lfd = -1, fd = -1, logfd = -1; pid_t pid = -1; bool dead = false; int status = 0; std::string in; size_t pos = 0; bool ok = false, stop = false, eof = false; std::vector<Bytes> answers; std::string bad;
    int64_t budget = -1; int how = 0; bool cut = false;   // the connection ends after this many bytes
    Peer(uint64_t sseed) {
        lfd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t l = sizeof a;
        if (bind(lfd, (sockaddr *)&a, sizeof a) || listen(lfd, 1) || getsockname(lfd, (sockaddr *)&a, &l)) { perror("listen"); _exit(9); }
        logfd = memfd_create("log", 0); int port = ntohs(a.sin_port); pid = fork(); if (pid == 0) { close(lfd); run_client(port, logfd, sseed); }
        for (double t = pbt::now(); fd < 0;) { pollfd p{lfd, POLLIN, 0}; if (poll(&p, 1, 20) > 0) fd = accept(lfd, nullptr, nullptr); if (exited() || pbt::now() - t > 60) fail("the client did not connect"); }
        int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); fcntl(fd, F_SETFL, O_NONBLOCK);
    }
    ~Peer() { if (!dead && pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } for (int f : {fd, lfd, logfd}) if (f >= 0) close(f); }
    std::string log() { char b[3000]; off_t n = lseek(logfd, 0, SEEK_END), o = n > 2900 ? n - 2900 : 0; ssize_t r = pread(logfd, b, 2900, o); std::string s(b, r > 0 ? r : 0); size_t p = s.find("ERROR: Addr"); return p == std::string::npos ? (s.size() > 900 ? s.substr(s.size() - 900) : s) : s.substr(p, 1200); }
    [[noreturn]] void fail(const char *what) { pbt::fail("%s; %zu answers, ok=%d stop=%d eof=%d %s; log: %s", what, answers.size(), ok, stop, eof, dead ? (WIFSIGNALED(status) ? "killed by a signal" : "exited") : "running", log().c_str()); }
    bool exited() { if (!dead) { int st; if (waitpid(pid, &st, WNOHANG) == pid) { dead = true; status = st; if (WIFSIGNALED(st) || WEXITSTATUS(st) > 1) { char b[80]; snprintf(b, 80, WIFSIGNALED(st) ? "the client crashed with signal %d" : "the client exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fail(b); } } } return dead; }
    void parse() {
        for (;;) {
            if (stop) { if (pos < in.size()) fail("bytes after STOP"); return; }
            if (!ok) { if (in.size() - pos < 2) return; if (!in.compare(pos, 2, "OK")) { ok = true; pos += 2; continue; } }
            if (in.size() - pos < 4) return;
            if (!in.compare(pos, 4, "STOP")) { stop = true; pos += 4; continue; }
            if (!ok) fail("the session starts with something else than OK");
            const uint8_t *p = (const uint8_t *)in.data() + pos; uint32_t n = (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; if (n > 100000 || n % 2) fail("impossible message length"); if (in.size() - pos - 4 < n) return;
            Bytes m; for (uint32_t i = 0; i < n; i += 2) { int v = 0; for (int k = 0; k < 2; k++) { char ch = in[pos + 4 + i + k]; int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1; if (d < 0) fail("message is not hexadecimal"); v = v * 16 + d; } m.push_back((uint8_t)v); }
            answers.push_back(m); pos += 4 + n;
        }
    }
    void pump(int ms) {
        if (fd < 0 || eof) { if (ms) usleep(ms * 1000); exited(); return; }
        pollfd p{fd, POLLIN, 0}; if (poll(&p, 1, ms) > 0) { char b[65536]; ssize_t r = read(fd, b, sizeof b); if (r > 0) in.append(b, r); else if (r == 0 || (errno != EAGAIN && errno != EINTR)) eof = true; parse(); }
        exited();
    }
    void hangup(int kind) { cut = true; if (fd < 0) return; if (kind == 2) { ::shutdown(fd, SHUT_WR); return; } if (kind == 1) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } close(fd); fd = -1; }
    void put(const std::string &s) {
        for (size_t i = 0; i < s.size() && fd >= 0 && !cut;) {
            size_t n = s.size() - i; if (budget >= 0) n = std::min<size_t>(n, budget); if (n == 0 && budget == 0) { hangup(how); return; }
            ssize_t r = send(fd, s.data() + i, n, MSG_NOSIGNAL); if (r > 0) { i += r; if (budget >= 0) budget -= r; } else if (r < 0 && errno != EAGAIN) return; else pump(5);
        }
    }
    void send_fragmented(Ctx &c, const std::string &s) {
        if (c.s.raw(2) == 0) { put(s); pump(0); return; }
        for (size_t i = 0; i < s.size();) { size_t n = std::min<size_t>(s.size() - i, c.s.logrange(1, s.size())); put(s.substr(i, n)); i += n; pump((int)c.s.raw(4)); }
    }
    template <class P> bool wait(P pred, double secs) { for (double t = pbt::now(); !pred() && !eof && !cut && pbt::now() - t < secs && !dead;) pump(10); if (dead && fd >= 0 && !eof) { for (int i = 0; i < 5 && !eof; i++) pump(10); } return pred(); }
};
static std::string three(int n) { char b[8]; snprintf(b, 8, "%03d", n); return b; }
static std::string request(Ctx &c, uint64_t t) { std::string d = std::to_string(t); if (c.s.raw(10) == 9) d = std::string(c.s.range(1, 20 - d.size() + (d.size() == 20)) * (d.size() < 20), '0') + d; char b[8]; snprintf(b, 8, "%02zu", d.size()); return b + d; }
struct Session {
    char mode; Orbit o; int n; Bytes xs; std::vector<uint64_t> want; std::vector<bool> done; std::set<uint64_t> may;   // answers owed, answers that may come
    void check(Peer &p, size_t &seen) {
        for (; seen < p.answers.size(); seen++) {
            Bytes &m = p.answers[seen]; PBT_CHECK(m.size() >= 8 + 8 + 100 + 1 + 100, "answer of %zu bytes", m.size()); uint64_t T = be64(&m[0]); PBT_CHECK(be64(&m[8]) == 100, "declared size of the result is %llu", (unsigned long long)be64(&m[8])); int depth = m[116];
            Bytes y(m.begin() + 16, m.begin() + 116), blob = y; blob.insert(blob.end(), m.begin() + 117, m.end());
            bool due = false; for (size_t i = 0; i < want.size() && !due; i++) if (!done[i] && want[i] == T) { done[i] = true; due = true; } if (!due && may.count(T)) { may.erase(T); due = true; } PBT_CHECK(due, "an answer for %llu, which is not owed", (unsigned long long)T);
            int maxd = mode == 'S' ? 0 : mode == 'T' ? 2 : 63; PBT_CHECK(depth <= maxd && blob.size() == 200 + 141 * (size_t)depth, "answer for %llu in mode %c declares depth %d, %zu bytes", (unsigned long long)T, mode, depth, blob.size());
            if (o.ord != 0 || T <= 2000) PBT_CHECK(y == encode(o.at(T), n), "result for %llu is not x^(2^T)", (unsigned long long)T);
            PBT_CHECK(verify_n(o.D, xs, blob, T, depth), "the proof for %llu does not verify", (unsigned long long)T);
        }
    }
    bool all() { for (bool d : done) if (!d) return false; return true; }
};
static uint64_t count_for(Ctx &c, char mode, bool known) {
    auto &s = c.s; if (!known) return s.logrange(1, 3000); uint64_t t; switch (s.raw(8)) { case 0: t = s.range(1, 40); break; case 1: t = s.logrange(1, 3000); break; case 2: t = 65536 + s.irange(-60, 300); break; case 3: t = mode == 'N' ? 131072 + s.irange(-60, 100) : mode == 'T' ? (uint64_t)kMaxItersAllowed - 500000 - s.logrange(1, 3000) : s.range(10000, 60000); break; case 4: t = mode == 'N' ? s.range(70000, 270000) : mode == 'T' ? (uint64_t)s.range(17000, 40000) : s.range(60000, 90000); break; default: t = s.logrange(1, 30000); } return t;
}
static const char *const kHow[] = {"close", "reset", "half-close"};
static Session session(Ctx &c, char mode) {
    Session S; S.mode = mode; auto &s = c.s; c.note("mode %c", mode); c.labelf("mode %c", mode);
    S.o = s.raw(4) == 0 ? orbit(c, 64, 1024, false) : orbit(c, 61, 1024, true); S.n = (int)bits(S.o.D); S.xs = encode(S.o.x, S.n); variant(c); g_cores = s.raw(3) == 0 ? 16 : 4; if (mode == 'N') c.labelf("%s storage thread", g_cores == 16 ? "with" : "no"); return S;
}
static bool beyond(char mode, uint64_t t) { return mode == 'T' && t >= (uint64_t)kMaxItersAllowed - 500000; }
static void finish(Ctx &c, Peer &p, Session &S, size_t &seen, bool stopped) {   // the end of every session: STOP/ACK or a broken connection, and an orderly exit
    if (p.fd >= 0 && !p.cut) {
        p.wait([&] { return p.stop; }, 60); if (stopped && !p.stop) p.fail(p.eof ? "the client left without STOP" : "no STOP within 60 s of the stop request");
        S.check(p, seen); int a = (int)c.s.raw(6); if (p.stop && p.fd >= 0) { if (a < 3) p.put("ACK"); else if (a == 3) { p.put("A"); p.pump(2); p.put("CK"); } else if (a == 4) { p.put("NAK"); c.label("wrong acknowledgement"); } else { p.hangup(c.s.raw(2)); c.label("no acknowledgement"); } }
    }
    double t = pbt::now(); while (!p.exited() && pbt::now() - t < 60) p.pump(10);
    if (!p.exited()) p.fail("the client did not end");
    for (int i = 0; i < 3 && p.fd >= 0 && !p.eof; i++) p.pump(2);
    S.check(p, seen); PBT_CHECK(p.cut || p.eof || p.fd < 0 || p.pos == p.in.size(), "an unfinished message"); if (stopped && p.stop) PBT_CHECK(p.pos == p.in.size(), "bytes after STOP");
}
static void serve(Ctx &c, bool faulty) {
    auto &s = c.s; char mode = "STN"[s.raw(3)]; Session S = session(c, mode); size_t seen = 0; bool known = S.o.ord != 0;
    std::string dt = S.o.D.get_str(); size_t fl = 100; if (s.raw(4) == 0) { while (fl > 1 && !S.xs[fl - 1]) fl--; if (s.raw(2)) fl = s.range(fl, 100); } std::string hs = std::string(1, mode) + three((int)dt.size()) + dt + std::string(1, (char)fl) + std::string(S.xs.begin(), S.xs.begin() + fl);
    int nreq = (int)s.range(1, mode == 'S' ? 2 : 6); struct Step { uint64_t T; int after; }; std::vector<Step> st; for (int i = 0; i < nreq; i++) { uint64_t T = i && s.raw(5) == 0 ? st[s.raw(i)].T : count_for(c, mode, known); if (mode != 'S' && s.raw(8) == 7) T = mode == 'T' ? (uint64_t)kMaxItersAllowed - 500000 + (s.raw(2) ? s.raw(3) : s.logrange(0, ~0ULL / 2)) : s.logrange(1ULL << 33, ~0ULL); st.push_back({T, (int)s.raw(5)}); }
    int64_t cut = -1, how = 0, badreq = -1; std::string badbytes; bool badmid = false;
    if (faulty) {
        if (s.raw(2)) { size_t tot = hs.size() + nreq * 6 + 2; cut = (int64_t)(s.raw(3) == 0 ? s.raw(hs.size()) : hs.size() + s.raw(tot - hs.size())); how = s.raw(3); c.note("%s after %lld bytes", kHow[how], (long long)cut); c.labelf("%s in the %s", kHow[how], (size_t)cut < hs.size() ? "handshake" : "requests"); }
        else { badreq = (int64_t)s.raw(nreq + 1); static const char *const k[] = {"0a", "  ", "-1", "21000000000000000000001", "99", "2018446744073709551616", "2099999999999999999999", "03-12", "0412.5", "051234a", "02 1", "0x10"}; int q = (int)s.raw(13); if (q < 12) badbytes = k[q]; else { Bytes b = s.bytes(6); b[0] |= 0x80; badbytes = std::string(b.begin(), b.end()); } c.note("request %lld is malformed (%d)", (long long)badreq, q); c.label("malformed request"); }
    }
    Peer p(s.u64()); p.budget = cut; p.how = (int)how; p.send_fragmented(c, hs); if (s.raw(3)) { p.wait([&] { return p.ok; }, 60); if (!p.ok && !p.cut) p.fail("no OK for a valid challenge"); } else c.label("requests sent before OK");
    bool ended = false, waited = false;
    for (int i = 0; i < nreq && !p.cut && !ended; i++) {
        if (badreq == i) { p.send_fragmented(c, badbytes); ended = true; break; }
        uint64_t T = st[i].T; std::string r = request(c, T); c.note("T=%llu", (unsigned long long)T); bool owed = mode == 'S' ? i == 0 : mode == 'T' ? !beyond(mode, T) && std::find(S.want.begin(), S.want.end(), T) == S.want.end() : true;
        if (mode == 'N' && T >= 1ULL << 32) { c.label("out of reach"); owed = false; } if (owed) { S.want.push_back(T); S.done.push_back(false); } else c.label(mode == 'S' ? "superfluous request" : beyond(mode, T) ? "beyond capacity" : "duplicate");
        p.send_fragmented(c, r); if (p.cut) break;
        if (st[i].after == 0) p.pump((int)s.raw(30)); else if (st[i].after < 3) { p.wait([&] { S.check(p, seen); return S.all(); }, 90); if (!p.cut && !S.all()) p.fail("a request was not answered within 90 s"); waited = true; }
    }
    if (!ended && badreq == nreq) { p.send_fragmented(c, badbytes); ended = true; }
    if (!ended && !p.cut) { if (s.raw(3)) { p.wait([&] { S.check(p, seen); return S.all(); }, 90); if (!p.cut && !S.all()) p.fail("a request was not answered within 90 s"); waited = true; c.label("all answered"); } else c.label("stopped early"); int z = (int)s.raw(4); p.send_fragmented(c, z ? "00" : "010"); ended = true; }
    if (p.cut) c.label("connection lost");
    if (badreq < 0 && cut < 0 && !p.ok) p.wait([&] { return p.ok; }, 60);
    finish(c, p, S, seen, ended && !p.cut && badreq < 0);   // what is left unread of a malformed request may reset the connection
    if (p.dead && !p.cut && badreq < 0) PBT_CHECK(WEXITSTATUS(p.status) == 0, "an orderly session ended with status %d", WEXITSTATUS(p.status));
    c.nontrivial(faulty ? p.cut || badreq >= 0 : waited && !S.want.empty());
}
// Handshakes with one field out of order.
static void handshake(Ctx &c) {
    auto &s = c.s; char mode = "STN"[s.raw(3)]; Session S = session(c, mode); size_t seen = 0; std::string dt = S.o.D.get_str(), len = three((int)dt.size()), form(S.xs.begin(), S.xs.end()); int fs = 100; char m = mode; bool refused = true, plain = true, mism = false; const char *what = "";
    switch (s.raw(9)) {
    case 0: what = "mode"; do m = (char)s.raw(256); while (m == 'S' || m == 'N' || m == 'T'); break;
    case 1: { what = "size text"; static const char *const k[] = {"000", "-01", "350", "999", "abc", "\0\0\0", "-99", "351"}; len.assign(k[s.raw(8)], 3); break; }
    case 2: { what = "size mismatch"; int v = (int)s.range(1, 349); len = three(v); plain = false; mism = true; break; }
    case 3: { what = "discriminant text"; switch (s.raw(7)) { case 0: dt = dt.substr(1); break; case 1: dt = "0"; break; case 2: dt = "-"; break; case 3: dt[s.raw(dt.size())] = "xyz .+-"[s.raw(7)]; plain = dt[0] == '-' && dt.find_first_of(" +") == std::string::npos && dt.find('-', 1) == std::string::npos; break; case 4: dt = "-0"; break; case 5: { Bytes b = s.bytes(s.range(1, 60)); dt.assign(b.begin(), b.end()); plain = false; break; } default: dt = " "; plain = false; } len = three((int)dt.size()); break; }
    case 4: { what = "discriminant value"; plain = false; Z D; switch (s.raw(5)) { case 0: D = -Z((unsigned long)s.range(1, 2000)); break; case 1: D = S.o.D - 2 * Z((unsigned long)s.range(1, 40)); break; case 2: D = -gen::num(s, 1150); break; case 3: D = -(Z(1) << s.range(1, 1150)); break; default: D = 1 - 4 * Z((unsigned long)s.range(1, 100000)) * Z((unsigned long)s.range(1, 100000)); } dt = D.get_str(); if (dt.size() > 349) dt.resize(349); c.note("D=%s", dt.substr(0, 80).c_str()); len = three((int)dt.size()); if (s.raw(2)) { form.assign(100, 0); form[0] = (char)(s.raw(2) ? 4 : 8); } break; }
    case 5: { what = "form size"; fs = s.raw(3) ? (int)s.range(101, 255) : 0; break; }
    default: { what = "form"; Bytes b; do { b = S.xs; if (s.raw(3) == 0) { Bytes r = s.bytes(100); b = r; if (s.raw(2)) b[0] = 0; } else for (int k = (int)s.range(1, 3); k--;) b[s.raw(s.raw(2) ? 100 : (S.n + 31) / 32 * 3 + 4)] ^= (uint8_t)(1u << s.raw(8)); } while (b == S.xs); form.assign(b.begin(), b.end()); F f; Bytes pb = b; if (decode(f, S.o.D, pb)) { refused = false; S.o.x = f; S.o.ord = 0; S.o.seq.clear(); S.o.pw.clear(); S.xs = encode(f, S.n); } break; }
    }
    c.note("%s", what); c.labelf("bad %s", what); if (!plain) c.label("verdict open");
    Peer p(s.u64()); std::string hs = std::string(1, m) + len + dt + std::string(1, (char)fs) + form; if (fs > 100) hs.resize(hs.size() + fs - 100, 'x'); p.send_fragmented(c, hs); (void)mism;
    if (!plain) { p.wait([&] { return p.ok || p.stop; }, s.raw(2) ? 0.3 : 0.02); if (!p.ok && !p.stop && !p.eof && s.raw(2)) p.hangup(2); }   // a shorter size leaves bytes over, a longer one waits for more: no crash and an orderly end is what counts
    else { p.wait([&] { return p.ok || p.stop; }, 60); if (refused && p.ok) p.fail("an invalid handshake was accepted"); if (!refused && !p.ok) p.fail("a valid element was refused"); }
    if (p.ok) { uint64_t T = s.logrange(1, 500); if (plain) { S.want.push_back(T); S.done.push_back(false); } p.put(request(c, T)); c.label("went on"); if (plain) { p.wait([&] { S.check(p, seen); return S.all(); }, 90); if (!S.all()) p.fail("no answer"); p.put("00"); finish(c, p, S, seen, true); c.nontrivial(); return; } p.pump((int)s.raw(200)); p.put("00"); }
    if (!plain) { if (p.ok) { p.wait([&] { return p.stop; }, 30); if (!p.stop && !p.eof) p.fail("no STOP"); } if (p.stop) p.put("ACK"); else if (!p.eof) p.hangup((int)s.raw(2)); double t = pbt::now(); while (!p.exited() && pbt::now() - t < 60) p.pump(10); if (!p.exited()) p.fail("the client did not end"); c.nontrivial(p.ok || p.stop); return; }
    S.want.clear(); PBT_CHECK(p.answers.empty(), "a proof although the handshake was refused"); if (p.stop) p.put("ACK"); else if (!p.eof && !p.dead) p.hangup(0); double t = pbt::now(); while (!p.exited() && pbt::now() - t < 60) p.pump(10); if (!p.exited()) p.fail("the client did not end"); c.nontrivial();
}
// More requests than a two-part session serves at a time.
static void capacity(Ctx &c) {
    auto &s = c.s; Session S = session(c, 'T'); size_t seen = 0; std::string dt = S.o.D.get_str(); Peer p(s.u64()); p.put("T" + three((int)dt.size()) + dt + std::string(1, (char)100) + std::string(S.xs.begin(), S.xs.end())); p.wait([&] { return p.ok; }, 60); if (!p.ok) p.fail("no OK");
    int n = (int)s.range(95, 130); uint64_t top = S.o.ord != 0 ? 20000 : 1500; std::set<uint64_t> active; size_t started = 0; int evicted = 0, ignored = 0; bool down = s.raw(2); c.note("%d requests below %llu%s", n, (unsigned long long)top, down ? ", then mostly descending" : "");
    for (int i = 0; i < n; i++) {
        uint64_t lo = active.empty() ? top : *active.begin(), T = started < 100 ? s.range(top / 3, top) : lo > 2 && (down || s.raw(3) == 0) ? (s.raw(3) ? lo - 1 - s.raw(std::min<uint64_t>(lo - 1, 30)) : s.range(1, lo - 1)) : s.range(1, top); if (s.raw(12) == 0 && !active.empty()) T = *active.begin(); p.send_fragmented(c, request(c, T));
        if (active.count(T) || beyond('T', T)) { ignored++; continue; } if (started >= 100 && T >= *active.begin()) { ignored++; continue; }
        bool over = started >= 100; uint64_t big = over ? *active.rbegin() : 0; active.insert(T); started++; S.want.push_back(T); S.done.push_back(false);
        if (over) { evicted++; active.erase(big); for (size_t k = 0; k < S.want.size(); k++) if (S.want[k] == big && !S.done[k]) { S.want.erase(S.want.begin() + k); S.done.erase(S.done.begin() + k); S.may.insert(big); break; } }
    }
    c.note("%d evicted, %d ignored", evicted, ignored); c.label(evicted ? "evicted" : "none evicted"); bool w = s.raw(4) != 0; if (w) { p.wait([&] { S.check(p, seen); return S.all(); }, 100); if (!S.all()) p.fail("a request within capacity was not answered"); } p.put("00"); finish(c, p, S, seen, true); c.nontrivial(evicted && w);
}
int main(int argc, char **argv) {
    eng::init();
    std::vector<pbt::Suite> R;
    auto add = [&](const char *n, std::function<void(Ctx &)> f, uint64_t q, uint64_t t, const char *rule) { pbt::Suite u; u.name = n; u.prop = f; u.quick = q; u.thorough = t; u.rule = rule; u.timeout_s = 400; u.maxjobs = 4; R.push_back(u); };
    add("C17.session", [](Ctx &c) { serve(c, false); }, 90, 3000, "at least one request was answered and checked before the stop");
    add("C17.faults", [](Ctx &c) { serve(c, true); }, 130, 4000, "the connection was lost or a malformed request was sent");
    add("C17.handshake", handshake, 300, 4000, "the client reacted to the disordered field");
    add("C17.capacity", capacity, 12, 300, "a request was evicted and everything owed was answered");
    return pbt::main_(argc, argv, R);
}
