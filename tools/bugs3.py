from mkbug import *
import sys
VDF = HDR + '''#include "vdf.h"
#include "verifier.h"
int gcd_base_bits = 50, gcd_128_max_iter = 3;
int segments = 7, thread_count = 3;
static void cpu() { init_gmp(); set_rounding_mode(); bAVX2.store(hasAVX2()); enable_avx512_ifma.store(false); gcd_base_bits = bAVX2 ? 63 : 50; gcd_128_max_iter = bAVX2 ? 2 : 3; }
'''
FT = {n: open(os.path.join(os.path.dirname(OUT), "lib/ftdi", n)).read() for n in ("ftd2xx.h", "libft4222.h")}
HW = '''#!/bin/bash
# Builds demo.cpp with hardware sources against /repo (the USB library's headers lie beside it) and runs it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT; cd "$d"; set -e
F="-std=c++17 -O1 -w -no-pie -DVDF_MODE=0 -DFAST_MACHINE=1 -DCHIAVDF_VERSION=\\"dev\\" -I/repo/src -I/repo/src/hw -I$here"
for f in %s; do g++ $F -c /repo/src/$f.cpp -o $(basename $f).o & done; g++ $F -c "$here/demo.cpp" -o demo.o & gcc -O2 -c /repo/src/refcode/lzcnt.c -o lzcnt.o; wait
g++ $F *.o -o demo -lgmpxx -lgmp -lpthread -lboost_system
set +e
timeout 200 ./demo
'''
FTSTUB = '''#include "libft4222.h"
extern "C" {
FT4222_STATUS FT4222_UnInitialize(FT_HANDLE) { return FT4222_OK; } FT4222_STATUS FT4222_SetClock(FT_HANDLE, FT4222_ClockRate) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_Init(FT_HANDLE, FT4222_SPIMode, FT4222_SPIClock, FT4222_SPICPOL, FT4222_SPICPHA, uint8) { return FT4222_OK; } FT4222_STATUS FT4222_SPIMaster_SetCS(FT_HANDLE, SPI_ChipSelect) { return FT4222_OK; } FT4222_STATUS FT4222_SPI_SetDrivingStrength(FT_HANDLE, SPI_DrivingStrength, SPI_DrivingStrength, SPI_DrivingStrength) { return FT4222_OK; }
FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *, uint8 *, uint8, uint16, uint16, uint32 *) { return FT4222_OK; }
FT4222_STATUS FT4222_I2CMaster_Init(FT_HANDLE, uint32) { return FT4222_OK; } FT4222_STATUS FT4222_I2CMaster_ReadEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *) { return FT4222_OK; } FT4222_STATUS FT4222_I2CMaster_WriteEx(FT_HANDLE, uint16, uint8, uint8 *, uint16, uint16 *) { return FT4222_OK; }
FT4222_STATUS FT4222_GPIO_Init(FT_HANDLE, GPIO_Dir *) { return FT4222_OK; } FT4222_STATUS FT4222_GPIO_Read(FT_HANDLE, GPIO_Port, BOOL *) { return FT4222_OK; } FT4222_STATUS FT4222_GPIO_Write(FT_HANDLE, GPIO_Port, BOOL) { return FT4222_OK; } FT4222_STATUS FT4222_SetSuspendOut(FT_HANDLE, BOOL) { return FT4222_OK; } FT4222_STATUS FT4222_SetWakeUpInterrupt(FT_HANDLE, BOOL) { return FT4222_OK; }
FT_STATUS FT_Close(FT_HANDLE) { return FT_OK; } FT_STATUS FT_CreateDeviceInfoList(LPDWORD n) { *n = 0; return FT_OK; } FT_STATUS FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *, LPDWORD) { return FT_OK; } FT_STATUS FT_OpenEx(PVOID, DWORD, FT_HANDLE *) { return FT_OK; } FT_STATUS FT_SetUSBParameters(FT_HANDLE, ULONG, ULONG) { return FT_OK; }
}
'''
def want(id): return len(sys.argv) < 2 or id in sys.argv[1:]
B = []
def b(id, *a): 
    if want(id): bug(id, *a)

b("c01-rows", "C01", [("src/prover_slow.h", '''    form x = form::identity(D);

    for (int64_t j = l - 1; j >= 0; j--) {
        x = FastPowFormNucomp(x, D, integer(1 << k), L, reducer);

        std::vector<form> ys((1ULL << k));
        for (uint64_t i = 0; i < (1ULL << k); i++)
            ys[i] = form::identity(D);
''', '''    form x = form::identity(D);
    // One bucket per block value.
    std::vector<form> ys((1ULL << k), x);

    for (int64_t j = l - 1; j >= 0; j--) {
        x = FastPowFormNucomp(x, D, integer(1 << k), L, reducer);
''')], "T above 10^7, where the prover makes several passes over its table", "the buckets of one pass still hold the products of the previous one",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
#include "prover_slow.h"
int main() {
    std::vector<uint8_t> seed = {1, 2, 3}; integer D = CreateDiscriminant(seed, 64); form g = form::generator(D); auto xs = SerializeForm(g, 64); int bad = 0;
    for (int T : {3000, 10100000}) { auto r = ProveSlow(D, g, T, ""); bool ok = CheckProofOfTimeNWesolowski(D, xs.data(), r.data(), r.size(), T, 64, 0); printf("%d iterations: %s\\n", T, ok ? "good" : "bad"); bad |= !ok; }
    return bad;
}
'''})
SRC4 = '''#include "verifier.h"
int main() {
    // A part for (B + k * 2^64) is made like an honest one: pi = x^floor(2^T / B'); its result is the honest one, but its challenge is not.
    std::vector<uint8_t> seed = {1, 2, 3}; integer D = CreateDiscriminant(seed, 256), L = root(-D, 4); PulmarkReducer red; form g = form::generator(D); auto xs = SerializeForm(g, 256); int bad = 0; uint64_t T1 = 500, T2 = 300;
    form y1 = g; for (uint64_t i = 0; i < T1; i++) { nudupl_form(y1, y1, D, L); red.reduce(y1); } form y2 = y1; for (uint64_t i = 0; i < T2; i++) { nudupl_form(y2, y2, D, L); red.reduce(y2); }
    auto quot = [&](uint64_t T, integer B) { integer q; mpz_set_ui(q.impl, 1); mpz_mul_2exp(q.impl, q.impl, T); mpz_fdiv_q(q.impl, q.impl, B.impl); return q; };
    integer B2 = GetB(D, y1, y2), B1 = GetB(D, g, y1); form p2 = FastPowFormNucomp(y1, D, quot(T2, B2), L, red); auto sy = SerializeForm(y2, 256), sp = SerializeForm(p2, 256);
    for (int k = 0; k < 12; k++) {
        integer B = B1; if (k) { integer e; mpz_set_ui(e.impl, 3 * k); mpz_mul_2exp(e.impl, e.impl, 64 + 16 * (k - 1)); mpz_sub(B.impl, B.impl, e.impl); if (mpz_sgn(B.impl) <= 0) continue; }
        form p1 = FastPowFormNucomp(g, D, quot(T1, B), L, red); std::vector<uint8_t> blob(sy); blob.insert(blob.end(), sp.begin(), sp.end()); uint8_t n[8]; Int64ToBytes(n, T1); blob.insert(blob.end(), n, n + 8); auto bb = B.to_bytes(); bb.resize(33); std::vector<uint8_t> be(33); size_t cnt; memset(be.data(), 0, 33); { size_t bytes = (mpz_sizeinbase(B.impl, 2) + 7) / 8; mpz_export(be.data() + 33 - bytes, &cnt, 1, 1, 0, 0, B.impl); } blob.insert(blob.end(), be.begin(), be.end()); auto s1 = SerializeForm(p1, 256); blob.insert(blob.end(), s1.begin(), s1.end());
        bool r = CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T1 + T2, 256, 1); if (r != (k == 0)) { printf("challenge %d: %d\\n", k, r); bad = 1; }
    }
    return bad;
}
'''
b("c03-limb", "C03", [("src/verifier.h", "return B == GetB(D, x, out_y) ? 0 : -1;", "return mpz_get_ui(B.impl) == mpz_get_ui(GetB(D, x, out_y).impl) ? 0 : -1;")],
    "a part made for a challenge that differs from the right one only above its low 64 bits", "only the low word of a part's challenge is compared", {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + SRC4})
b("c07-trail", "C07", [("src/bqfc.c", "return memcmp(canon_str, str, BQFC_FORM_SIZE);", "return memcmp(canon_str, str, bqfc_get_compr_size(d_bits));")],
    "an encoding for a discriminant shorter than 1024 bits with bytes after its end", "bytes behind the encoding are ignored: an element has many accepted encodings",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
int main() {
    int bad = 0; for (int bits : {256, 512, 1000, 1024}) { std::vector<uint8_t> seed = {1, 2, 3}; integer D = CreateDiscriminant(seed, bits); form g = form::generator(D); for (int i = 0; i < 600; i++) g = g * g; auto s = SerializeForm(g, bits);
        for (int pos = (bits + 31) / 32 * 3 + 4; pos < 100; pos++) for (bool strict : {false, true}) { auto t = s; t[pos] ^= 1; try { DeserializeForm(D, t.data(), 100, strict); if (!bad) printf("%d bits: byte %d is ignored\\n", bits, pos); bad = 1; } catch (...) {} } }
    return bad;
}
'''})
b("c08-div", "C08", [("src/bqfc.c", '''    if (mpz_sgn(c->a) == 0) {
        ret = -1;
        goto out;
    }
    mpz_gcdext''', "    mpz_gcdext")], "an encoding with a zero leading coefficient and t = 1 or -1", "division by zero: the process is killed",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
int main() {
    std::vector<uint8_t> seed = {1, 2, 3}; integer D = CreateDiscriminant(seed, 256);
    for (int f = 0; f < 4; f++) for (int t = 0; t < 3; t++) { uint8_t s[100] = {(uint8_t)f}; s[2 + 16] = t; s[2 + 16 + 8] = 1; try { DeserializeForm(D, s, 100); printf("accepted\\n"); return 1; } catch (std::exception &) {} }
    return 0;
}
'''})
b("c11-row", "C11", [("src/prover_impl.hpp", '''inline void Prover::GenerateProof() {''', '''inline void Prover::GenerateProof() {
    const uint64_t rows = num_iterations / (k * l);'''), ("src/prover_impl.hpp", '''        for (uint64_t i = 0; i < (1UL << k); i++)
            ys[i] = id;

        uint64_t limit = num_iterations / (k * l);
        if (num_iterations % (k * l))
            limit++;
        for (uint64_t i = 0; i < limit; i++) {
            if (num_iterations >= k * (i * l + j + 1)) {
                uint64_t b = GetBlock(i * l + j, k, num_iterations, B);
                if (b >= (1UL << k)) {''', '''        for (uint64_t i = 0; i < (1UL << k); i++)
            ys[i] = id;

        for (uint64_t i = 0; i < rows + (num_iterations % k != 0); i++) {
            if (num_iterations >= k * (i * l + j + 1)) {
                uint64_t b = GetBlock(i * l + j, k, num_iterations, B);
                if (b >= (1UL << k)) {''')],
    "a count that is a multiple of k but not of k * l, with rows wider than the challenge (segments of 2^26 iterations and up)", "the last incomplete row is left out of the proof",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''
struct P : Prover { std::vector<form> &fs; P(Segment s, integer D, std::vector<form> &f, int k_, int l_) : Prover(s, D), fs(f) { k = k_; l = l_; } form GetForm(uint64_t i) { return fs[i * k * l]; } void start() { GenerateProof(); } void stop() {} bool PerformExtraStep() { return true; } void OnFinish() { is_finished = true; } };
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 256), L = root(-D, 4); form x = form::generator(D); int bad = 0; std::vector<form> fs; form y = x; PulmarkReducer red; for (int i = 0; i <= 8192; i++) { fs.push_back(y); nudupl_form(y, y, D, L); red.reduce(y); }
    for (auto c : std::vector<std::array<int, 3>>{{12, 1, 8000}, {12, 64, 4560}, {12, 64, 4565}, {8, 100, 8000}, {8, 100, 7680}}) { form yy = fs[c[2]]; Segment s(0, c[2], x, yy); P p(s, D, fs, c[0], c[1]); p.start(); bool ok = false; VerifyWesolowskiProof(D, x, yy, p.GetProof(), c[2], ok); printf("k=%d l=%d T=%d: %d\\n", c[0], c[1], c[2], ok); bad |= !ok; }
    return bad;
}
'''})
b("c13-grid", "C13", [("src/vdf.h", "iterations1 = iterations1 - iterations1 % 100;", "iterations1 = iterations1 - iterations1 % (weso->LargeConstants() ? 100 : 10);")],
    "a proof asked for before the change of checkpoint density whose parts reach beyond it", "the split is on the old grid, so the second part reads checkpoints that were never stored",
    {"demo.sh": ASM % "-DNDEBUG -DCHIAVDF_VERIF_SCALE", "demo.cpp": VDF + '''
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 128), L = root(-D, 4); form x = form::generator(D); fast_algorithm = false; two_weso = true; int bad = 0; auto xs = SerializeForm(x, 128);
    std::vector<std::thread> th; auto *cb = new TwoWesolowskiCallback(D, x); static std::atomic<bool> stop{false}, stop2{false}; std::atomic<int> good{0}, all{0}; uint64_t n = 0;
    for (uint64_t T : {15000, 60000, 61030, 100070, 123450}) { n++; th.emplace_back([&, T] { Proof p = ProveTwoWeso(D, x, T, 0, cb, 0, stop2); std::vector<uint8_t> blob(p.y); blob.insert(blob.end(), p.proof.begin(), p.proof.end()); bool ok = CheckProofOfTimeNWesolowski(D, xs.data(), blob.data(), blob.size(), T, 128, p.witness_type); fprintf(stderr, "%d %d\\n", (int)T, ok); good += ok; all++; }); }
    usleep(500000); std::thread w([&] { repeated_square(0, x, D, L, cb, NULL, stop); }); w.detach();
    for (int i = 0; i < 1500 && all < n; i++) usleep(100000);
    _exit(good == n ? 0 : 1);
}
'''})
b("c14-resume", "C14", [("src/provers.h", '''        std::unique_lock<std::mutex> lk(m);
        cv.wait(lk, [&] {
            return !is_paused;
        });
        return true;''', '''        std::unique_lock<std::mutex> lk(m);
        if (is_paused) {
            cv.wait(lk, [&] {
                return !is_paused;
            });
            return !is_finished && !is_paused && !new_event;
        }
        return true;''')],
    "a segment prover that is paused and then resumed while an event is pending", "the resumed prover ends without a proof, so the segment is never done",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''
int main() {
    cpu(); std::vector<uint8_t> seed = {5, 7, 9}; integer D = CreateDiscriminant(seed, 128), L = root(-D, 4); form x = form::generator(D); fast_algorithm = true; int bad = 0; FastAlgorithmCallback cb(2, D, x, true); std::atomic<bool> stop{false};
    form y = x; PulmarkReducer red; for (int i = 0; i < 65536; i++) { if (i % 10 == 0) *cb.GetForm(i, 0) = y; nudupl_form(y, y, D, L); red.reduce(y); }
    Segment s(0, 65536, x, y); auto *p = new InterruptableProver(s, D, &cb); { std::lock_guard<std::mutex> lk(new_event_mutex); new_event = true; } p->pause(); p->start(); usleep(300000); p->resume();
    for (int i = 0; i < 300 && !p->IsFinished(); i++) usleep(50000);
    bool ok = false; if (p->IsFinished()) VerifyWesolowskiProof(D, x, y, p->GetProof(), 65536, ok); printf("%d\\n", ok); fflush(stdout); _exit(!ok);
}
'''})
CL = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
timeout 280 python3 "$here/demo.py"
'''
b("c17-evict", "C17", [("src/vdf_client.cpp", '''                    seen_iterations.insert({iters, threads.size()});
                    PrintInfo("Running proving for iter: " + to_string(iters));
''', '''                    PrintInfo("Running proving for iter: " + to_string(iters));
'''), ("src/vdf_client.cpp", '''                                      std::ref(sock)));
                    if (threads.size() > kMaxProcessesAllowed) {''', '''                                      std::ref(sock)));
                    seen_iterations.insert({iters, threads.size()});
                    if (threads.size() > kMaxProcessesAllowed) {''')],
    "a two-part session with more requests than its limit, so that the largest one is dropped", "the thread after the one of the dropped request is stopped instead",
    {"demo.sh": CL, "demo.py": '''import socket, subprocess, sys, time, re, os, tempfile
D = "-" + str(0)
def isprime(n):
    return all(pow(a, n - 1, n) == 1 for a in (2, 3, 5, 7, 11))
n = (1 << 511) + 7
while not isprime(n): n += 8
D = str(-n)
s = socket.socket(socket.AF_INET6); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("::1", 0)); s.listen(1)
p = subprocess.Popen(["/repo/_build/vdf_client", "::1", str(s.getsockname()[1]), "1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tempfile.gettempdir())
try:
    s.settimeout(30); c, _ = s.accept(); c.settimeout(60)
    c.sendall(b"T" + b"%03d" % len(D) + D.encode() + bytes([100, 8]) + bytes(99)); assert c.recv(2) == b"OK"
    req = [300000 + 1000 * ((i * 37) % 100) for i in range(100)] + [200000]; drop = max(req)
    c.sendall(b"".join(b"%02d" % len(str(i)) + str(i).encode() for i in req))
    want = set(req) - {drop}; got = set(); buf = b""; end = time.time() + 200
    while want - got and time.time() < end:
        try: c.settimeout(max(1, min(40, end - time.time()))); d = c.recv(65536)
        except socket.timeout: break
        if not d: break
        buf += d
        while len(buf) >= 4:
            m = int.from_bytes(buf[:4], "big")
            if len(buf) < 4 + m: break
            got.add(int(buf[4:20], 16)); buf = buf[4 + m:]
    print("missing", sorted(want - got)); sys.exit(1 if want - got else 0)
finally:
    p.kill()
'''})
HWO = "hw/hw_util hw/hw_proof hw/hw_interface hw/chia_driver hw/ftdi_driver hw/vdf_driver hw/pll_freqs vdf_base_hw vdf_hw_symbol_anchors prover_runtime"
b("c18-scan", "C18", [("src/hw/hw_proof.cpp", "mpz_scan1(val->a, 0) + 2) {", "mpz_scan1(val->a, 0) + 1) {")],
    "a wrong value of the chip with b^2 - D divisible by 2a but not by 4a: an even a", "the value is taken for a form of the group",
    {"demo.sh": HW % HWO, "demo.cpp": HDR + '''#include "hw_proof.hpp"
#include <unistd.h>
''' + FTSTUB + '''
int chia_vdf_is_emu = 1;
int main() {
    // D = b0^2 - 4ac; a pair (2^j * m, b) with (b^2 - D) / (2a) odd is not a form
    int bad = 0; static vdf_state v; vdf_proof_opts o{1, 1}; mpz_t D, t; mpz_inits(D, t, NULL); mpz_set_ui(D, 1); mpz_mul_2exp(D, D, 1023); mpz_add_ui(D, D, 7); while (!mpz_probab_prime_p(D, 20)) mpz_add_ui(D, D, 8); mpz_neg(D, D); char *ds = mpz_get_str(NULL, 10, D); uint8_t x[100] = {8};
    init_vdf_state(&v, &o, ds, x, 100000, 0); int tried = 0;
    for (int e = 0; e < 6; e++) for (unsigned long b = 1; b < 4000; b += 2) { mpz_set_ui(t, b * b); mpz_sub(t, t, D); unsigned z = mpz_scan1(t, 0); unsigned long a = 1ul << e; if (z != e + 1) continue; tried++;
        vdf_value val; init_vdf_value(&val); val.iters = 4000; mpz_set_ui(val.a, a); mpz_set_ui(val.b, b); if (hw_proof_add_value(&v, &val) == 0) { printf("a = %lu, b = %lu is taken\\n", a, b); _exit(1); } clear_vdf_value(&val); }
    for (unsigned long m = 3; m < 400; m += 2) for (int e = 1; e < 12; e++) { // a = 2^e * m
        unsigned long a = m << e; for (unsigned long b = 1; b < 2 * a && b < 20000; b += 2) { mpz_set_ui(t, b * b); mpz_sub(t, t, D); if (!mpz_divisible_ui_p(t, a) || mpz_scan1(t, 0) >= e + 2) continue; tried++;
            vdf_value val; init_vdf_value(&val); val.iters = 4000; mpz_set_ui(val.a, a); mpz_set_ui(val.b, b); if (hw_proof_add_value(&v, &val) == 0) { printf("a = %lu, b = %lu is taken\\n", a, b); fflush(stdout); _exit(1); } clear_vdf_value(&val); break; } }
    printf("%d values\\n", tried); fflush(stdout); _exit(tried < 20);
}
''', **FT})
b("c18-split", "C18", [("src/hw/hw_proof.cpp", '''            chkp_iters = chkp2_iters;
        }
        chkp_iters = chkp_iters / vdf->interval * vdf->interval;
        prev''', '''            chkp_iters = chkp2_iters;
        } else {
            chkp_iters = chkp_iters / vdf->interval * vdf->interval;
        }
        prev''')],
    "a request more than 4 million iterations after the last checkpoint", "the second part of the split ends between two stored values, so the proof is built from the wrong ones",
    {"demo.sh": HW % HWO, "demo.cpp": HDR + '''#include "hw_proof.hpp"
#include <unistd.h>
''' + FTSTUB + '''
int chia_vdf_is_emu = 1;
void hw_proof_process_req(struct vdf_state *vdf);
int main() {
    static vdf_state v; vdf_proof_opts o{1, 1}; mpz_t D; mpz_init_set_ui(D, 1); mpz_mul_2exp(D, D, 1023); mpz_add_ui(D, D, 7); while (!mpz_probab_prime_p(D, 20)) mpz_add_ui(D, D, 8); mpz_neg(D, D); char *ds = mpz_get_str(NULL, 10, D); uint8_t x[100] = {8}; int bad = 0;
    init_vdf_state(&v, &o, ds, x, 100000000, 0);
    for (uint64_t T : {900000ull, 3000000ull, 4500001ull, 9123457ull, 50000001ull}) { hw_request_proof(&v, T, false); hw_proof_process_req(&v); }
    for (auto &p : v.proofs) if (!(p.flags & HW_VDF_PROOF_FLAG_IS_REQ) && p.flags != 0xff && p.iters % v.interval) { printf("part ends at %lu\\n", p.iters); bad = 1; }
    printf("%zu parts\\n", v.proofs.size()); fflush(stdout); _exit(bad || v.proofs.size() < 8);
}
''', **FT})
HWC = "hw/vdf_driver hw/chia_driver hw/ftdi_driver hw/pll_freqs hw/hw_util"
b("c19-last", "C19", [("src/hw/vdf_driver.cpp", '''  coeffs.push_back(mpz_get_ui(tmp));
''', '''  coeffs.push_back(mpz_get_ui(tmp) & word_mask);
''')], "a negative coefficient", "the sign bits above the last word are lost: the chip is given another number",
    {"demo.sh": HW % HWC, "demo.cpp": HDR + '''#include "chia_driver.hpp"
''' + FTSTUB + '''
int main() {
    ChiaDriver drv; int bad = 0; for (int bits : {1, 100, 500, 529}) for (int neg : {0, 1}) { uint8_t buf[400]; mpz_t v, r; mpz_inits(v, r, NULL); mpz_set_ui(v, 1); mpz_mul_2exp(v, v, bits); mpz_sub_ui(v, v, 3); if (neg) mpz_neg(v, v); drv.write_bytes(84, 0, buf, v, 34); drv.read_bytes(84, 0, buf, r, 34); if (mpz_cmp(v, r)) { gmp_printf("%Zx is read back as %Zx\\n", v, r); bad = 1; } }
    return bad;
}
''', **FT})
b("c19-range", "C19", [("src/hw/vdf_driver.cpp", "while (ref_freq >= pll_filter_ranges[filter_range]) {", "while (ref_freq > pll_filter_ranges[filter_range]) {")],
    "a frequency whose reference frequency lies exactly on a filter range's limit", "the filter range below is programmed",
    {"demo.sh": HW % HWC.replace("hw/ftdi_driver ", ""), "demo.cpp": HDR + '''#include "chia_driver.hpp"
#include "pll_freqs.hpp"
static uint32_t divr, range;
int FtdiDriver::WriteCmd(uint32_t addr, uint8_t *b, size_t n) { uint32_t v = b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3]; if (addr == CLOCK_PRE_DIVIDE_REG_OFFSET) divr = v; if (addr == CLOCK_FILTER_RANGE_REG_OFFSET) range = v; return 0; }
int FtdiDriver::ReadCmd(uint32_t, uint8_t *b, size_t n) { memset(b, 0xff, n); return 0; }
FtdiDriver::FtdiDriver() {} FtdiDriver::~FtdiDriver() {}
int FtdiDriver::SetGPIO(GPIO_Port, bool) { return 0; } int FtdiDriver::TriGPIO(GPIO_Port) { return 0; }
int FtdiDriver::i2c_ReceiveX(int, int, int, uint8_t *, uint16_t, uint16_t &) { return 0; } int FtdiDriver::i2c_TransmitX(int, int, int, uint8_t *, uint16_t, uint16_t &) { return 0; }
int main() {
    ChiaDriver drv; int bad = 0, seen = 0; for (uint32_t i = 1; i < VALID_PLL_FREQS; i++) { divr = range = ~0u; drv.SetPLLFrequency(pll_entries[i].freq, i); if (range == ~0u) continue; seen++; double ref = 100.0 / (pll_entries[i].settings.divr + 1); uint32_t w = 0; while (w < VALID_PLL_FILTER_RANGES && ref >= pll_filter_ranges[w]) w++; if (w != range) { printf("%f MHz: range %u instead of %u\\n", pll_entries[i].freq, range, w); bad = 1; } }
    printf("%d settings\\n", seen); return bad || seen < 5;
}
''', **FT})
b("c20-size", "C20", [("src/c_bindings/c_wrapper.cpp", "integer discriminant = CreateDiscriminant(challenge_hash_bytes, checked_cast<int>(discriminant_size_bits));", "integer discriminant = CreateDiscriminant(challenge_hash_bytes, static_cast<int>(discriminant_size_bits));")],
    "a size of 2^32 bits and a few hundred more", "the size is cut to 32 bits and the C interface proves for another discriminant where the others report an error",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": '''#include "c_bindings/c_wrapper.cpp"
int main() {
    int bad = 0; uint8_t seed[] = {1, 2, 3}, x[100] = {8}; ByteArray g = prove_wrapper(seed, 3, x, 100, 256, 10); if (!g.data) bad = 1;
    for (size_t n : {(size_t(1) << 32) + 256, (size_t(7) << 40) + 1024, (size_t)0, (size_t)2048}) { ByteArray r = prove_wrapper(seed, 3, x, 100, n, 10); if (r.data || r.length) { printf("a proof of %zu bytes for a discriminant of %zu bits\\n", r.length, n); bad = 1; } }
    return bad;
}
'''})
b("c22-digest", "C22", [("src/proof_common.h", "    std::vector<uint8_t> hash(picosha2::k_digest_size);  // output of sha256", "    static std::vector<uint8_t> hash(picosha2::k_digest_size);  // output of sha256")],
    "two threads in the hash expansion at the same moment", "the digest of one derivation ends up in the other",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
#include <thread>
#include <atomic>
int main() {
    std::vector<integer> want; for (int i = 0; i < 64; i++) { std::vector<uint8_t> s = {1, 2, 3, (uint8_t)i}; want.push_back(CreateDiscriminant(s, 64)); }
    std::atomic<int> bad{0}; std::vector<std::thread> th; for (int t = 0; t < 8; t++) th.emplace_back([&, t] { for (int r = 0; r < 20000 && !bad; r++) { int i = (r * 7 + t * 11) % 64; std::vector<uint8_t> s = {1, 2, 3, (uint8_t)i}; if (CreateDiscriminant(s, 64) != want[i]) bad++; } });
    for (auto &x : th) x.join(); printf("%d wrong\\n", (int)bad); return bad != 0;
}
'''})
b("c23-twos", "C23", [("src/gpu_integer.h", "res[x]=add_carry(~res[x], type((x==0)? 1 : 0), carry, carry);", "res[x]=(x==0)? type(-res[x]) : type(~res[x]);")],
    "a difference whose operands share their two top words and their lowest, subtracted in the wrong order", "the two's complement loses its carry",
    {"demo.sh": ASM % "-DNDEBUG", "demo.cpp": VDF + '''#include "gpu_integer.h"
int main() {
    cpu(); int bad = 0; for (int k = 0; k < 4; k++) for (uint64 lo : {0ull, 5ull}) { integer a, b; mpz_set_ui(a.impl, 9); mpz_mul_2exp(a.impl, a.impl, 320); mpz_add_ui(a.impl, a.impl, 77); integer d; mpz_set_ui(d.impl, 3); mpz_mul_2exp(d.impl, d.impl, 64 * k); if (!k) mpz_set_ui(d.impl, 0); mpz_set(b.impl, a.impl); mpz_add(b.impl, b.impl, d.impl); mpz_add_ui(b.impl, b.impl, lo);
        fixed_integer<uint64, 6> x(a), y(b); auto z = x - y; integer w = a - b; if (integer(z) != w) { printf("wrong difference, %d %d\\n", k, (int)lo); bad = 1; } }
    return bad;
}
'''})
b("c04-wrap", "C04", [("src/verifier.h", '''            xnew = f1 * f2;
        }

        x = xnew;
        if (segment_iters > iterations) {
            return false;
        }
        iterations -= segment_iters;''', '''            xnew = f1 * f2;
        }

        x = xnew;
        iterations -= segment_iters;''')],
    "a part that claims more iterations than the whole proof, from an element of small order", "the count left for the last part wraps around: the proof without its result is accepted where the full one is refused",
    {"demo.sh": CPP % "-DNDEBUG", "demo.cpp": HDR + '''#include "verifier.h"
int main() {
    std::vector<uint8_t> seed = {1, 2, 3}; integer D = CreateDiscriminant(seed, 256); form id = form::identity(D); auto s = SerializeForm(id, 256); int bad = 0; integer B = GetB(D, id, id); std::vector<uint8_t> be(33); size_t cnt; { size_t bytes = (mpz_sizeinbase(B.impl, 2) + 7) / 8; mpz_export(be.data() + 33 - bytes, &cnt, 1, 1, 0, 0, B.impl); }
    for (uint64_t n : {5, 20}) { std::vector<uint8_t> part(8), blob(s); Int64ToBytes(part.data(), n); part.insert(part.end(), be.begin(), be.end()); part.insert(part.end(), s.begin(), s.end()); blob.insert(blob.end(), part.begin(), part.end()); std::vector<uint8_t> full(s); full.insert(full.end(), blob.begin(), blob.end());
        bool f = CheckProofOfTimeNWesolowski(D, s.data(), full.data(), full.size(), 10, 256, 1), c = CheckProofOfTimeNWesolowskiWithB(D, B, s.data(), blob.data(), blob.size(), 10, 1).first; printf("part of %d in 10: %d %d\\n", (int)n, f, c); if (f != c || f != (n == 5)) bad = 1; }
    return bad;
}
'''})
EMUSRC = "hw/emu_funcs hw/emu_runner hw/hw_interface hw/vdf_driver hw/chia_driver hw/ftdi_driver hw/pll_freqs hw/hw_util vdf_base_hw vdf_hw_symbol_anchors prover_runtime"
EMU = '''#include "hw_interface.hpp"
#include "chia_driver.hpp"
#include "vdf_base.hpp"
#include <unistd.h>
#include <fcntl.h>
static ChiaDriver *drv; static vdf_value val[3]; static mpz_t D, a, b;
static void prepare() { VdfBaseInit(); dup2(open("/dev/null", O_WRONLY), 2); drv = new ChiaDriver(); if (drv->ftdi.Open()) _exit(3); drv->freq_idx = 1; for (auto &v : val) init_vdf_value(&v); mpz_inits(D, a, b, NULL); mpz_set_ui(D, 1); mpz_mul_2exp(D, D, 1020); mpz_add_ui(D, D, 7); mpz_neg(D, D); while (!mpz_probab_prime_p(D, 5)) mpz_sub_ui(D, D, 8); mpz_set_ui(a, 2); mpz_set_ui(b, 1); }
'''
if want("c25-word"): b("c25-word", "C25", [("src/hw/emu_runner.cpp", "st->drv->read_bytes(sizeof(r->iters), 0, (uint8_t *)r->iters, st->target_iter);", "uint32_t n_iters;\n    st->drv->read_bytes(sizeof(r->iters[0]), 0, (uint8_t *)r->iters, n_iters);\n    st->target_iter = n_iters;")],
    "a job of 2^32 iterations or more whose low word is small", "only the low word of the count is taken: the engine stands still long before its job is done",
    {"demo.sh": HW % EMUSRC, **FT, "demo.cpp": HDR + EMU + '''int main() {
    prepare(); start_hw_vdf(drv, D, a, b, (1ULL << 32) + 5, 0); uint64_t it = 0; for (int i = 0; i < 20000 && it < 100; i++) { usleep(1000); read_hw_status(drv, 1, val); it = val[0].iters; } printf("%llu iterations\\n", (unsigned long long)it); fflush(stdout); _exit(it < 100);
}
'''})
if want("c25-nowait"): b("c25-nowait", "C25", [("src/hw/emu_runner.cpp", "    while (states[i]->running.load(std::memory_order_acquire)) {", "    // A disabled engine has nothing left to wait for\n    while (states[i]->running.load(std::memory_order_acquire) && !states[i]->stopping.load(std::memory_order_acquire)) {")],
    "an engine that is stopped and started again before its thread has noticed the stop", "the old job goes on beside the new one: the engine reports forms that belong to other iterations and counts beyond the end",
    {"demo.sh": HW % EMUSRC, **FT, "demo.cpp": HDR + EMU + '''int main() {
    prepare(); int bad = 0; for (int r = 0; r < 3000 && !bad; r++) { start_hw_vdf(drv, D, a, b, 1000000, r % 3); usleep(50 + r % 100); stop_hw_vdf(drv, r % 3); start_hw_vdf(drv, D, a, b, 3, r % 3); uint64_t it = 0; for (int i = 0; i < 5000 && it < 3; i++) { read_hw_status(drv, 1 << r % 3, val); it = val[r % 3].iters; if (it < 3) usleep(20); } if (it > 3) bad = 1; }
    printf("%d\\n", bad); fflush(stdout); _exit(bad);
}
'''})
PARSE = '''#include <unistd.h>
#include <fcntl.h>
#define main program
#include "hw/hw_vdf_client.cpp"
#undef main
'''
PSRC = "hw/hw_interface hw/hw_proof hw/vdf_driver hw/chia_driver hw/ftdi_driver hw/pll_freqs hw/hw_util vdf_base_hw vdf_hw_symbol_anchors prover_runtime"
if want("c26-stale"): b("c26-stale", "C26", [("src/hw/hw_vdf_client.cpp", '''        char name_buf[32] = {0};
''', ''), ("src/hw/hw_vdf_client.cpp", '''    while (argi < argc) {
        if (strncmp(argv[argi], "--", 2) != 0) {''', '''    // One buffer serves every option
    char name_buf[32] = {0};

    while (argi < argc) {
        if (strncmp(argv[argi], "--", 2) != 0) {''')],
    "two options written --name=value, the second with a shorter name", "the rest of the first name stays behind the second: a valid command line is refused",
    {"demo.sh": HW % PSRC, **FT, "demo.cpp": HDR + FTSTUB + PARSE + '''int chia_vdf_is_emu = 1;
int main() {
    const char *a[] = {"hw", "--voltage=0.8", "--freq=300", "8000", nullptr}; const char *b[] = {"hw", "--freq=300", "--voltage=0.8", "8000", nullptr}; static vdf_client_opts o, q; int x = parse_opts(4, (char **)a, &o), y = parse_opts(4, (char **)b, &q);
    printf("%d %d\\n", x, y); fflush(stdout); _exit(x || y || o.freq != 300 || o.voltage != 0.8);
}
'''})
if want("c26-base"): b("c26-base", "C26", [("src/hw/hw_vdf_client.cpp", "long parsed_port = strtol(positionals[0], &end, 10);", "long parsed_port = strtol(positionals[0], &end, 0);")],
    "a port number written with a leading zero or 0x", "the number is read in another base: 010000 becomes port 4096, and 0x50 is taken",
    {"demo.sh": HW % PSRC, **FT, "demo.cpp": HDR + FTSTUB + PARSE + '''int chia_vdf_is_emu = 1;
int main() {
    const char *a[] = {"hw", "010000", nullptr}; const char *b[] = {"hw", "0x50", nullptr}; static vdf_client_opts o, q; int x = parse_opts(2, (char **)a, &o), y = parse_opts(2, (char **)b, &q);
    printf("%d %d %d\\n", x, o.port, y); fflush(stdout); _exit(x || o.port != 10000 || !y);
}
'''})
LOOP = FTSTUB.replace("FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *, uint8 *, uint8, uint16, uint16, uint32 *) { return FT4222_OK; }", "FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *r, uint8 *w, uint8, uint16 nw, uint16 nr, uint32 *got);").replace("{ *n = 0; return FT_OK; }", "{ *n = 1; return FT_OK; }").replace("FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *, LPDWORD) {", "FT_GetDeviceInfoList(FT_DEVICE_LIST_INFO_NODE *d, LPDWORD n) { *n = 1; memset(d, 0, sizeof *d); d->Type = FT_DEVICE_4222H_0; strcpy(d->Description, \"FT4222 A\"); d->LocId = 0x77;").replace("FT_OpenEx(PVOID, DWORD, FT_HANDLE *) { return FT_OK; }", "FT_OpenEx(PVOID l, DWORD, FT_HANDLE *h) { if ((uintptr_t)l != 0x77 && (uintptr_t)l != 0x7a) return (FT_STATUS)FT4222_DEVICE_NOT_FOUND; *h = (void *)((uintptr_t)l * 16); return FT_OK; }") + '''#include <map>
#include <chrono>
''' + PARSE + '''int chia_vdf_is_emu = 0;
// registers that answer; the clock generator always settles
static std::map<uint32_t, uint32_t> reg; static std::vector<std::pair<double, double>> sets; static double when() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
extern "C" FT4222_STATUS FT4222_SPIMaster_MultiReadWrite(FT_HANDLE, uint8 *r, uint8 *w, uint8, uint16 nw, uint16 nr, uint32 *got) {
    uint32_t a = ((uint32_t)w[1] << 16 | w[2] << 8 | w[3]) << 2; *got = nr; if (w[0] >> 7) { if (nw == 8) { reg[a] = (uint32_t)w[4] << 24 | w[5] << 16 | w[6] << 8 | w[7]; if (a == 0 && reg[a] == 4) sets.push_back({when(), 100.0 / (reg[4] + 1) * (reg[8] + 1) * 4 / ((reg[0x10] + 1) * 2)}); } return FT4222_OK; }
    memset(r, 0, nr); if (nr == 8) { uint32_t v = a == 0x1c ? 3 : reg[a]; r[4] = v >> 24; r[5] = v >> 16; r[6] = v >> 8; r[7] = v; } return FT4222_OK;
}
// the event loop without sessions, for some seconds
static void begin(vdf_client &c, int period) { VdfBaseInit(); dup2(open("/dev/null", O_WRONLY), 2); c.opts.freq = 300; c.opts.auto_freq = true; c.opts.auto_freq_period = period; c.opts.max_freq = 2200; c.opts.vdfs_mask = 0; c.drv = new ChiaDriver(); c.drv->ftdi.Open(); c.drv->SetPLLFrequency(300, 0); }
'''
if want("c27-limit"): b("c27-limit", "C27", [("src/hw/hw_vdf_client.cpp", "pll_entries[next_idx].freq <= client->opts.max_freq", "client->drv->GetPLLFrequency() < client->opts.max_freq")],
    "automatic frequency with a limit that is not itself an entry of the clock table", "the clock is raised to the entry behind the limit",
    {"demo.sh": HW % PSRC, **FT, "demo.cpp": HDR + LOOP + '''int main() {
    static vdf_client c; begin(c, 0); int e = c.drv->freq_idx; c.opts.max_freq = (pll_entries[e + 3].freq + pll_entries[e + 4].freq) / 2;
    std::thread([&] { sleep(3); double top = 0; for (auto &x : sets) top = std::max(top, x.second); printf("raised to %f, limit %f, %zu changes\\n", top, c.opts.max_freq, sets.size()); fflush(stdout); _exit(top > c.opts.max_freq || sets.size() < 4); }).detach(); event_loop(&c);
}
'''})
if want("c27-early"): b("c27-early", "C27", [("src/hw/vdf_driver.cpp", "  this->last_freq_update = vdf_get_cur_time();\n", ""), ("src/hw/hw_interface.cpp", "    drv->SetPLLFrequency(0.0, (uint32_t)next_idx);\n", "    drv->SetPLLFrequency(0.0, (uint32_t)next_idx);\n    if (direction > 0) {\n        drv->last_freq_update = vdf_get_cur_time();\n    }\n"), ("src/hw/hw_interface.cpp", "    // Check frequency\n", "    drv->last_freq_update = vdf_get_cur_time();\n\n    // Check frequency\n")],
    "a wrong value late in an adjustment period", "lowering the clock does not begin a new period: the clock is raised again at once",
    {"demo.sh": HW % PSRC, **FT, "demo.cpp": HDR + LOOP + '''int main() {
    static vdf_client c; begin(c, 2); c.drv->last_freq_update = vdf_get_cur_time(); usleep(1900000); adjust_hw_freq(c.drv, 0, -1); double t = sets.back().first; size_t n = sets.size();
    std::thread([&, n, t] { sleep(4); printf("%zu changes, the next after %f s\\n", sets.size() - n, sets.size() > n ? sets[n].first - t : 0); fflush(stdout); _exit(sets.size() <= n || sets[n].first - t < 1.5); }).detach(); event_loop(&c);
}
'''})
