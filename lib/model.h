// Independent reference model of the mathematics chiavdf implements. Nothing in here includes or calls code
// from /repo: plain GMP integers, textbook algorithms (Cohen, "A Course in Computational Algebraic Number
// Theory", 5.4), and a SHA-256 written from FIPS 180-4.
#pragma once
#include <gmpxx.h>
#include <vector>
#include <string>
#include <cstdint>
#include <stdexcept>
#include <cstring>
#include <algorithm>

namespace model {
typedef mpz_class Z;
typedef std::vector<uint8_t> Bytes;

// ------------------------------------------------------------------ SHA-256
inline Bytes sha256(const Bytes &m) {
    static const uint32_t K[64] = {
        0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
        0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
        0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
        0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
    uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
    Bytes p(m); uint64_t bits = (uint64_t)m.size() * 8; p.push_back(0x80);
    while (p.size() % 64 != 56) p.push_back(0);
    for (int i = 7; i >= 0; i--) p.push_back((uint8_t)(bits >> (8 * i)));
    auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    for (size_t o = 0; o < p.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)p[o+4*i] << 24 | (uint32_t)p[o+4*i+1] << 16 | (uint32_t)p[o+4*i+2] << 8 | p[o+4*i+3];
        for (int i = 16; i < 64; i++) w[i] = w[i-16] + (rr(w[i-15],7) ^ rr(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-7] + (rr(w[i-2],17) ^ rr(w[i-2],19) ^ (w[i-2] >> 10));
        uint32_t a=h[0],b=h[1],c=h[2],d=h[3],e=h[4],f=h[5],g=h[6],hh=h[7];
        for (int i = 0; i < 64; i++) {
            uint32_t t1 = hh + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i];
            uint32_t t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&b)^(a&c)^(b&c));
            hh=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
        }
        h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=d;h[4]+=e;h[5]+=f;h[6]+=g;h[7]+=hh;
    }
    Bytes r; for (int i = 0; i < 8; i++) for (int j = 3; j >= 0; j--) r.push_back((uint8_t)(h[i] >> (8*j)));
    return r;
}

inline Z from_be(const uint8_t *p, size_t n) { Z r; if (n) mpz_import(r.get_mpz_t(), n, 1, 1, 0, 0, p); return r; }
inline Z from_be(const Bytes &b) { return from_be(b.data(), b.size()); }
inline Z from_le(const uint8_t *p, size_t n) { Z r; if (n) mpz_import(r.get_mpz_t(), n, -1, 1, 0, 0, p); return r; }
inline Bytes to_be(const Z &v, size_t n) { Bytes r(n, 0); Z t = v; for (size_t i = n; i-- > 0;) { r[i] = (uint8_t)(mpz_get_ui(t.get_mpz_t()) & 255); t >>= 8; } return r; }
inline size_t bits(const Z &v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
inline std::string hex(const Z &v) { return v.get_str(16); }
inline bool probab_prime(const Z &n) { return mpz_probab_prime_p(n.get_mpz_t(), 30) != 0; }
inline bool small_prime(uint64_t n) { if (n < 2) return false; for (uint64_t i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }

// ------------------------------------------------------------------ hash to prime
// Counter-mode expansion: the seed is incremented as a big-endian integer (mod 256^len) before every block.
inline Z hash_prime(Bytes seed, int length, const std::vector<int> &setbits, bool *ok = nullptr, int max_tries = 1 << 20) {
    // the expansion of a short seed is periodic: after 256^len blocks it repeats, and there may be no prime at all
    if (seed.size() <= 2) max_tries = std::min(max_tries, seed.size() == 1 ? 256 : 65536);
    for (int tries = 0; tries < max_tries; tries++) {
        Bytes blob;
        while ((int)blob.size() < length / 8) {
            for (size_t i = seed.size(); i-- > 0;) if (++seed[i]) break;
            Bytes h = sha256(seed);
            for (size_t i = 0; i < h.size() && (int)blob.size() < length / 8; i++) blob.push_back(h[i]);
        }
        Z p = from_be(blob);
        for (int b : setbits) mpz_setbit(p.get_mpz_t(), b);
        mpz_setbit(p.get_mpz_t(), 0);
        if (probab_prime(p)) { if (ok) *ok = true; return p; }
    }
    if (ok) { *ok = false; return 0; }
    throw std::runtime_error("model: no prime found");
}
inline Z discriminant(const Bytes &seed, int length, bool *ok = nullptr) { return -hash_prime(seed, length, {0, 1, 2, length - 1}, ok); }

// ------------------------------------------------------------------ binary quadratic forms
struct F { Z a, b, c; bool operator==(const F &o) const { return a == o.a && b == o.b && c == o.c; } bool operator!=(const F &o) const { return !(*this == o); } };
inline std::string str(const F &f) { return "(" + f.a.get_str() + "," + f.b.get_str() + ")"; }
inline Z fdiv(const Z &a, const Z &b) { Z r; mpz_fdiv_q(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z fmod(const Z &a, const Z &b) { Z r; mpz_fdiv_r(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); return r; }
inline Z disc(const F &f) { return f.b * f.b - 4 * f.a * f.c; }
inline bool reduced(const F &f) { if (f.a <= 0) return false; if (abs(f.b) > f.a || f.a > f.c) return false; if ((abs(f.b) == f.a || f.a == f.c) && f.b < 0) return false; return true; }
inline bool valid(const F &f, const Z &D) { return f.a > 0 && f.c > 0 && disc(f) == D; }
inline bool make(F &f, const Z &a, const Z &b, const Z &D) { Z n = b * b - D, m = 4 * a; if (a == 0 || n % m != 0) return false; f.a = a; f.b = b; f.c = n / m; return true; }
inline F reduce(F f) {
    for (;;) {
        // normalise b into (-a, a]
        Z r = fdiv(f.a - f.b, 2 * f.a);
        if (r != 0) { Z nb = f.b + 2 * r * f.a; f.c = f.a * r * r + f.b * r + f.c; f.b = nb; }
        if (f.a > f.c) { std::swap(f.a, f.c); f.b = -f.b; continue; }
        if (f.a == f.c && f.b < 0) f.b = -f.b;
        return f;
    }
}
inline F identity(const Z &D) { F f; f.a = 1; f.b = 1; f.c = (1 - D) / 4; return f; }
inline F generator(const Z &D) { F f; f.a = 2; f.b = 1; f.c = (1 - D) / 8; return f; }
inline F inverse(const F &f) { F r = f; r.b = -r.b; return reduce(r); }
// Cohen algorithm 5.4.7
inline F compose(F f1, F f2, const Z &D) {
    if (f1.a > f2.a) std::swap(f1, f2);
    Z s = (f1.b + f2.b) / 2, n = f2.b - s, u, v, d, y1, x2, y2, d1;
    if (f2.a % f1.a == 0) { y1 = 0; d = f1.a; }
    else mpz_gcdext(d.get_mpz_t(), u.get_mpz_t(), v.get_mpz_t(), f2.a.get_mpz_t(), f1.a.get_mpz_t()), y1 = u;
    if (s % d == 0) { y2 = -1; x2 = 0; d1 = d; }
    else { Z uu, vv; mpz_gcdext(d1.get_mpz_t(), uu.get_mpz_t(), vv.get_mpz_t(), s.get_mpz_t(), d.get_mpz_t()); x2 = uu; y2 = -vv; }
    Z v1 = f1.a / d1, v2 = f2.a / d1;
    Z r = fmod(y1 * y2 * n - x2 * f2.c, v1);
    F f3; f3.b = f2.b + 2 * v2 * r; f3.a = v1 * v2;
    f3.c = (f3.b * f3.b - D) / (4 * f3.a);
    return reduce(f3);
}
inline F square(const F &f, const Z &D) { return compose(f, f, D); }
inline F power(const F &x, const Z &e, const Z &D) {
    F r = identity(D);
    for (size_t i = bits(e); i-- > 0;) { r = square(r, D); if (mpz_tstbit(e.get_mpz_t(), i)) r = compose(r, x, D); }
    return r;
}
inline F repeated_square(F f, uint64_t t, const Z &D) { for (uint64_t i = 0; i < t; i++) f = square(f, D); return f; }

// ------------------------------------------------------------------ 100-byte compressed encoding
enum { FORM_SIZE = 100, B_BYTES = 33, SEG = 8 + 33 + 100 };
inline Bytes le_fixed(const Z &v, size_t n) { Bytes r(n, 0); Z t = abs(v); for (size_t i = 0; i < n; i++) { r[i] = (uint8_t)(mpz_get_ui(t.get_mpz_t()) & 255); t >>= 8; } return r; }
// The cofactor t stored in an encoding is fixed by where the partial Euclid algorithm stops. The deployed format
// uses Lehmer steps on 63-bit leading words with the Jebelean-Collins acceptance test, comparing leading words with
// those of the bound; near the bound this can stop one quotient later than the plain algorithm. Encodings are
// consensus data, so this stopping rule is part of the format and is restated here (on GMP integers, word by word).
inline Z word_at(const Z &v, long sh) { return sh > 0 ? Z(v >> sh) : v; }
inline void partial_euclid(Z &r2, Z &r1, const Z &L, Z &c2, Z &c1) {
    c2 = 0; c1 = -1;
    while (r1 != 0 && r1 > L) {
        long sh = (long)std::max(bits(r2), bits(r1)) - 63; if (sh < 0) sh = 0;
        Z h2 = word_at(r2, sh), h1 = word_at(r1, sh), hb = word_at(L, sh);
        Z m00 = 1, m01 = 0, m10 = 0, m11 = 1;       // rows: (r2',r1') = M (r2,r1)
        int n = 0;
        for (; h1 != 0 && h1 > hb; n++) {
            Z q = h2 / h1, h = h2 - q * h1, u = m00 - q * m10, v = m01 - q * m11;   // candidate row (u,v)
            if (n & 1) { if (h < -u || h1 - h < v - m11) break; } else { if (h < -v || h1 - h < u - m10) break; }
            h2 = h1; h1 = h; m00 = m10; m01 = m11; m10 = u; m11 = v;
        }
        if (n == 0) { Z q = r2 / r1, r = r2 - q * r1; r2 = r1; r1 = r; Z c = c2 - q * c1; c2 = c1; c1 = c; }
        else {
            Z a = m00 * r2 + m01 * r1, b = m10 * r2 + m11 * r1; r2 = a; r1 = b;
            Z x = m00 * c2 + m01 * c1, y = m10 * c2 + m11 * c1; c2 = x; c1 = y;
            if (r1 < 0) { r1 = -r1; c1 = -c1; }
            if (r2 < 0) { r2 = -r2; c2 = -c2; }
        }
    }
    if (r2 < 0) { r2 = -r2; c2 = -c2; c1 = -c1; }
}
inline Bytes encode(const F &f, size_t d_bits) {
    Bytes out(FORM_SIZE, 0);
    if (f.b == 1 && f.a <= 2) { out[0] = f.a == 2 ? 8 : 4; return out; }
    size_t db = (d_bits + 31) / 32 * 32;
    Z a = f.a, t = 0, g = 0, b0 = 0; bool neg = false;
    if (f.a != f.b) {
        neg = f.b < 0;
        Z L = sqrt(f.a), r2 = f.a, r1 = abs(f.b), c2, c1;
        partial_euclid(r2, r1, L, c2, c1);   // |b|*(-c1) == +-r1 (mod a)
        t = -c1;
        mpz_gcd(g.get_mpz_t(), f.a.get_mpz_t(), t.get_mpz_t());
        if (g != 1) { a = f.a / g; t = t / g; b0 = abs(f.b) / a; }
    }
    size_t gs = g == 0 ? 0 : (bits(g) + 7) / 8 - 1;
    out[0] = (neg ? 1 : 0) | (t < 0 ? 2 : 0); out[1] = (uint8_t)gs;
    size_t o = 2; auto put = [&](const Z &v, size_t n) { Bytes e = le_fixed(v, n); if (o + n > out.size()) throw std::runtime_error("model: encoding too long"); std::copy(e.begin(), e.end(), out.begin() + o); o += n; };
    put(a, db / 16 - gs); put(t, db / 32 - gs); put(g, gs + 1); put(b0, gs + 1);
    return out;
}
// Historical ("lenient") decoding: the decoded value must re-encode to the same bytes. Returns false on
// rejection. With strict=true |b| <= a is required as well.
inline bool decode_raw(Z &a, Z &b, const Z &D, const Bytes &s, bool strict, bool *special = nullptr) {
    if (special) *special = false;
    size_t d_bits = bits(D);
    if (s.size() != FORM_SIZE || d_bits == 0 || d_bits > 1024) return false;
    if (s[0] & 12) { a = (s[0] & 8) ? 2 : 1; b = 1; if (special) *special = true; return true; }
    size_t db = (d_bits + 31) / 32 * 32, gs = s[1];
    if (gs >= db / 32) return false;
    size_t o = 2; auto get = [&](size_t n) { Z v = from_le(&s[o], n); o += n; return v; };
    Z ap = get(db / 16 - gs), t = get(db / 32 - gs), g = get(gs + 1), b0 = get(gs + 1);
    if (s[0] & 2) t = -t;
    if (t == 0) { a = ap; b = ap; }
    else {
        if (ap == 0) return false;
        Z inv, gg; mpz_gcd(gg.get_mpz_t(), t.get_mpz_t(), ap.get_mpz_t()); if (gg != 1) return false;
        if (ap == 1) inv = 0; else if (!mpz_invert(inv.get_mpz_t(), t.get_mpz_t(), ap.get_mpz_t())) return false;
        Z sq = fmod(t * t * D, ap);
        // the code reduces t^2 and D modulo a' separately and requires the product's residue to be a square
        if (!mpz_perfect_square_p(sq.get_mpz_t())) return false;
        b = sqrt(sq) * inv % ap; a = g > 1 ? Z(ap * g) : ap; b += ap * b0; if (s[0] & 1) b = -b;
        if (strict && abs(b) > a) return false;
    }
    F f; f.a = a; f.b = b;
    Bytes re; try { re = encode(f, d_bits); } catch (...) { return false; }
    return re == s;
}
// What every verifier entry point requires of a serialized group element: it decodes, and it is a reduced form of discriminant D.
inline bool decode(F &f, const Z &D, const Bytes &s, bool strict = false) {
    Z a, b; if (!decode_raw(a, b, D, s, strict)) return false;
    if (a <= 0 || !make(f, a, b, D)) return false;
    if (strict && !reduced(f)) return false;
    f = reduce(f);   // historical decoding accepts a non-reduced pair and uses the reduced form of its class
    return true;
}

// ------------------------------------------------------------------ Wesolowski proofs
inline Z get_b(const Z &D, const F &x, const F &y) {
    Bytes s = encode(reduce(x), bits(D)), t = encode(reduce(y), bits(D)); s.insert(s.end(), t.begin(), t.end());
    return hash_prime(s, 264, {263});
}
inline Z pow2mod(const Z &e, const Z &m) { Z r, two = 2; mpz_powm(r.get_mpz_t(), two.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z u64z(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, 1, 8, 0, 0, &v); return r; }
inline bool verify1(const Z &D, const F &x, const F &y, const F &pi, uint64_t T) {
    Z B = get_b(D, x, y);
    return compose(power(pi, B, D), power(x, pow2mod(u64z(T), B), D), D) == y;
}
inline F honest_proof(const Z &D, const F &x, const F &y, uint64_t T) {   // x^(floor(2^T/B))
    Z B = get_b(D, x, y), e = (Z(1) << T) / B; return power(x, e, D);
}
// One intermediate segment: recompute the end form from (proof,B), then require B to be the challenge for it.
inline bool segment(const Z &D, const F &x, const F &pi, const Z &B, uint64_t T, F &y) {
    if (B == 0) return false;
    y = compose(power(pi, B, D), power(x, pow2mod(u64z(T), B), D), D);
    return get_b(D, x, y) == B;
}
inline uint64_t be64(const uint8_t *p) { uint64_t r = 0; for (int i = 0; i < 8; i++) r = r << 8 | p[i]; return r; }
// Composite proof: y || pi || segments (last segment first in time). Accept iff every part holds.
inline bool verify_n(const Z &D, const Bytes &xs, const Bytes &blob, uint64_t T, uint64_t depth) {
    if (blob.size() < 200 || (blob.size() - 200) % SEG || (blob.size() - 200) / SEG != depth) return false;
    F x; if (!decode(x, D, xs)) return false;
    for (size_t i = blob.size(); i > 200;) {
        i -= SEG; uint64_t st = be64(&blob[i]); Z B = from_be(&blob[i + 8], B_BYTES);
        F pi, y; if (!decode(pi, D, Bytes(blob.begin() + i + 41, blob.begin() + i + SEG))) return false;
        if (!segment(D, x, pi, B, st, y)) return false;
        if (st > T) return false;
        T -= st; x = y;
    }
    F y, pi; if (!decode(y, D, Bytes(blob.begin(), blob.begin() + 100)) || !decode(pi, D, Bytes(blob.begin() + 100, blob.begin() + 200))) return false;
    return verify1(D, x, y, pi, T);
}
}  // namespace model
