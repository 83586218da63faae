#include "ref.h"
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
typedef unsigned __int128 u128;
namespace ref {
// ---------------------------------------------------------------- Keccak
static void keccak(u64 s[25]) {
    static const u64 RC[24] = {0x1ull,0x8082ull,0x800000000000808aull,0x8000000080008000ull,0x808bull,0x80000001ull,0x8000000080008081ull,0x8000000000008009ull,0x8aull,0x88ull,0x80008009ull,0x8000000aull,0x8000808bull,0x800000000000008bull,0x8000000000008089ull,0x8000000000008003ull,0x8000000000008002ull,0x8000000000000080ull,0x800aull,0x800000008000000aull,0x8000000080008081ull,0x8000000000008080ull,0x80000001ull,0x8000000080008008ull};
    static const int rot[24] = {1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44}, pil[24] = {10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
    for (int r = 0; r < 24; r++) {
        u64 b[5], t; for (int i = 0; i < 5; i++) b[i] = s[i] ^ s[i+5] ^ s[i+10] ^ s[i+15] ^ s[i+20];
        for (int i = 0; i < 5; i++) { t = b[(i+4)%5] ^ (b[(i+1)%5] << 1 | b[(i+1)%5] >> 63); for (int j = 0; j < 25; j += 5) s[j+i] ^= t; }
        t = s[1]; for (int i = 0; i < 24; i++) { int j = pil[i]; u64 q = s[j]; s[j] = t << rot[i] | t >> (64 - rot[i]); t = q; }
        for (int j = 0; j < 25; j += 5) { u64 q[5]; for (int i = 0; i < 5; i++) q[i] = s[j+i]; for (int i = 0; i < 5; i++) s[j+i] ^= ~q[(i+1)%5] & q[(i+2)%5]; }
        s[0] ^= RC[r];
    }
}
std::string shake256(const std::string &in, size_t outlen) {
    u64 s[25] = {0}; u8 *b = (u8 *) s; size_t pos = 0; const size_t R = 136;
    for (unsigned char c : in) { b[pos++] ^= c; if (pos == R) { keccak(s); pos = 0; } }
    b[pos] ^= 0x1f; b[R-1] ^= 0x80; keccak(s); std::string o; pos = 0;
    while (o.size() < outlen) { if (pos == R) { keccak(s); pos = 0; } o.push_back((char) b[pos++]); }
    return o;
}
std::string hex(const std::string &s) { static const char *d = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
bool operator==(const Resp &a, const Resp &b) { return a.tag == b.tag && a.a == b.a && a.b == b.b && a.E2 == b.E2 && a.x == b.x; }
bool operator==(const Proof &a, const Proof &b) { return a.E0 == b.E0 && a.E1 == b.E1 && a.resp == b.resp; }
int fp_bytes(int bits) { return bits == 434 ? 55 : bits == 503 ? 63 : bits == 610 ? 77 : 94; }

// ---------------------------------------------------------------- text
std::string dump_fe(const FE &v, int n) { std::string r(v.rbegin() + n, v.rend()), i(v.rbegin(), v.rbegin() + n); return "0x" + hex(r) + ",0x" + hex(i) + "\n"; }
std::string dump(const Params &P, const Proof &p, std::vector<std::pair<size_t,size_t>> *L) {
    int n = fp_bytes(P.bits); std::string o; auto put = [&](const std::string &s) { if (L) L->push_back({o.size(), s.size()}); o += s; };
    put(dump_fe(p.E0, n)); put(dump_fe(p.E1, n));
    for (auto &r : p.resp) { put(std::to_string(r.tag) + "\n"); put(hex(r.a) + "\n"); put(hex(r.b) + "\n"); if (r.tag == 0) put(dump_fe(r.E2, n)); for (auto &x : r.x) put(dump_fe(x, n)); }
    return o;
}
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void skip(const std::string &t, size_t &p) { while (p < t.size() && sp((unsigned char) t[p])) p++; }
static bool bytes(const std::string &t, size_t &p, size_t n, std::string &o) { o.clear(); for (size_t i = 0; i < n; i++) { if (p + 2 > t.size()) return false; int a = hv(t[p]), b = hv(t[p+1]); if (a < 0 || b < 0) return false; o.push_back(a << 4 | b); p += 2; } return true; }
bool parse_fe(int n, const std::string &t, size_t &p, FE &v) {
    std::string h[2];
    for (int k = 0; k < 2; k++) { if (k) { skip(t, p); if (p >= t.size() || t[p] != ',') return false; p++; } skip(t, p); if (p + 2 > t.size() || t[p] != '0' || t[p+1] != 'x') return false; p += 2; if (!bytes(t, p, n, h[k])) return false; h[k] = std::string(h[k].rbegin(), h[k].rend()); }
    v = h[0] + h[1]; return true;
}
bool parse(const Params &P, const std::string &t, Proof &o, size_t *used) {
    size_t p = 0; int n = fp_bytes(P.bits); o = Proof(); if (!parse_fe(n, t, p, o.E0) || !parse_fe(n, t, p, o.E1)) return false;
    for (int i = 0; i < P.reps; i++) {
        Resp r; skip(t, p); size_t q = p; bool neg = false; if (q < t.size() && (t[q] == '-' || t[q] == '+')) neg = t[q++] == '-'; size_t d0 = q; unsigned long v = 0; while (q < t.size() && t[q] >= '0' && t[q] <= '9') { v = v * 10 + (t[q] - '0'); if (v > 1000000) v = 1000000; q++; } if (q == d0) return false; p = q; if (v > 1) return false; r.tag = neg ? -(int) v : (int) v;
        skip(t, p); if (!bytes(t, p, r.tag == 1 ? P.hash : P.hide, r.a)) return false; skip(t, p); if (!bytes(t, p, r.tag == -1 ? P.hash : P.hide, r.b)) return false;
        if (r.tag == 0 && !parse_fe(n, t, p, r.E2)) return false; r.x.resize(r.tag == 0 ? P.W : P.H); for (auto &x : r.x) if (!parse_fe(n, t, p, x)) return false;
        o.resp.push_back(r);
    }
    if (used) *used = p; return true;
}

// ---------------------------------------------------------------- arithmetic
template <int N> struct Impl : Model {
    struct Fp { u64 v[N]; bool operator==(const Fp &o) const { return !memcmp(v, o.v, sizeof v); } };
    struct F2 { Fp a, b; bool operator==(const F2 &o) const { return a == o.a && b == o.b; } };
    struct Pt { F2 X, Z; }; struct Cv { F2 A, C; };
    u64 p[N], R2[N], pinv; Fp one, zero; F2 one2, zero2; u64 pm2[N], pp14[N], pm12[N]; sim::Rng rng{1};
    static bool geq(const u64 *a, const u64 *b) { for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] > b[i]; return true; }
    static u64 subn(u64 *r, const u64 *a, const u64 *b) { u64 br = 0; for (int i = 0; i < N; i++) { u128 d = (u128) a[i] - b[i] - br; r[i] = (u64) d; br = (u64) (d >> 64) & 1; } return br; }
    static u64 addn(u64 *r, const u64 *a, const u64 *b) { u64 c = 0; for (int i = 0; i < N; i++) { u128 d = (u128) a[i] + b[i] + c; r[i] = (u64) d; c = (u64) (d >> 64); } return c; }
    static void shr(u64 *r, const u64 *a, int k) { for (int i = 0; i < N; i++) r[i] = a[i] >> k | (i + 1 < N ? a[i+1] << (64 - k) : 0); }
    Fp fadd(const Fp &a, const Fp &b) const { Fp r; u64 c = addn(r.v, a.v, b.v); if (c || geq(r.v, p)) subn(r.v, r.v, p); return r; }
    Fp fsub(const Fp &a, const Fp &b) const { Fp r; if (subn(r.v, a.v, b.v)) addn(r.v, r.v, p); return r; }
    Fp fneg(const Fp &a) const { return fsub(zero, a); }
    void mont(u64 *r, const u64 *a, const u64 *b) const {
        u64 t[N + 2] = {0};
        for (int i = 0; i < N; i++) {
            u64 c = 0; for (int j = 0; j < N; j++) { u128 x = (u128) a[i] * b[j] + t[j] + c; t[j] = (u64) x; c = x >> 64; } u128 x = (u128) t[N] + c; t[N] = (u64) x; t[N+1] = x >> 64;
            u64 m = t[0] * pinv; x = (u128) m * p[0] + t[0]; c = x >> 64; for (int j = 1; j < N; j++) { x = (u128) m * p[j] + t[j] + c; t[j-1] = (u64) x; c = x >> 64; } x = (u128) t[N] + c; t[N-1] = (u64) x; t[N] = t[N+1] + (u64) (x >> 64);
        }
        if (t[N] || geq(t, p)) subn(r, t, p); else memcpy(r, t, N * 8);
    }
    Fp fmul(const Fp &a, const Fp &b) const { Fp r; mont(r.v, a.v, b.v); return r; }
    Fp fpow(const Fp &a, const u64 *e) const { Fp r = one; for (int i = N * 64 - 1; i >= 0; i--) { r = fmul(r, r); if (e[i / 64] >> (i % 64) & 1) r = fmul(r, a); } return r; }
    Fp finv(const Fp &a) const { return fpow(a, pm2); }
    bool fsq(const Fp &a) const { return a == zero || fpow(a, pm12) == one; }
    Fp fsqrt(const Fp &a) const { return fpow(a, pp14); }
    F2 add2(const F2 &x, const F2 &y) const { return {fadd(x.a, y.a), fadd(x.b, y.b)}; } F2 sub2(const F2 &x, const F2 &y) const { return {fsub(x.a, y.a), fsub(x.b, y.b)}; } F2 neg2(const F2 &x) const { return {fneg(x.a), fneg(x.b)}; }
    F2 mul2(const F2 &x, const F2 &y) const { Fp t0 = fmul(x.a, y.a), t1 = fmul(x.b, y.b), t2 = fmul(fadd(x.a, x.b), fadd(y.a, y.b)); return {fsub(t0, t1), fsub(fsub(t2, t0), t1)}; }
    F2 sqr2(const F2 &x) const { Fp s = fadd(x.a, x.b), d = fsub(x.a, x.b), m = fmul(x.a, x.b); return {fmul(s, d), fadd(m, m)}; }
    F2 inv2(const F2 &x) const { Fp n = finv(fadd(fmul(x.a, x.a), fmul(x.b, x.b))); return {fmul(x.a, n), fneg(fmul(x.b, n))}; }
    bool issq2(const F2 &x) const { return fsq(fadd(fmul(x.a, x.a), fmul(x.b, x.b))); }
    Fp half(const Fp &a) const { Fp r = a; u64 c = 0; if (a.v[0] & 1) c = addn(r.v, a.v, p); shr(r.v, r.v, 1); r.v[N-1] |= c << 63; return r; }
    F2 sqrt2(const F2 &x) const {
        if (x.b == zero) { if (fsq(x.a)) return {fsqrt(x.a), zero}; return {zero, fsqrt(fneg(x.a))}; }
        Fp d = fsqrt(fadd(fmul(x.a, x.a), fmul(x.b, x.b))), t = half(fadd(x.a, d)); if (!fsq(t)) t = half(fsub(x.a, d)); Fp s = fsqrt(t); return {s, half(fmul(x.b, finv(s)))};
    }
    F2 small(long k) const { F2 r = zero2, b = one2; bool n = k < 0; if (n) k = -k; while (k) { if (k & 1) r = add2(r, b); b = add2(b, b); k >>= 1; } return n ? neg2(r) : r; }
    bool iz(const F2 &x) const { return x == zero2; }
    // ---- encoding
    Fp dec(const char *s) const { u64 t[N + 1] = {0}; memcpy(t, s, fpb); while (geq(t, p)) subn(t, t, p); Fp r; mont(r.v, t, R2); return r; }
    void enc(const Fp &a, char *s) const { u64 o[N] = {1}, t[N]; mont(t, a.v, o); memcpy(s, t, fpb); }
    F2 D(const FE &s) const { return {dec(s.data()), dec(s.data() + fpb)}; }
    FE Eb(const F2 &x) const { FE s(2 * fpb, 0); enc(x.a, &s[0]); enc(x.b, &s[fpb]); return s; }
    bool canonical_enc(const FE &s) override { for (int k = 0; k < 2; k++) { u64 t[N] = {0}; memcpy(t, s.data() + k * fpb, fpb); if (geq(t, p)) return false; } return true; }
    FE reduce(const FE &s) override { return Eb(D(s)); }
    // ---- x-only arithmetic on (A:C)
    Pt dbl(const Pt &P_, const F2 &a24, const F2 &c24) const { F2 s = sqr2(add2(P_.X, P_.Z)), d = sqr2(sub2(P_.X, P_.Z)), t = sub2(s, d), u = mul2(c24, d); Pt r; r.X = mul2(u, s); r.Z = mul2(t, add2(u, mul2(a24, t))); return r; } // a24=A+2C, c24=4C
    Pt dadd(const Pt &P_, const Pt &Q, const Pt &Dd) const { F2 u = mul2(sub2(P_.X, P_.Z), add2(Q.X, Q.Z)), v = mul2(add2(P_.X, P_.Z), sub2(Q.X, Q.Z)); Pt r; r.X = mul2(Dd.Z, sqr2(add2(u, v))); r.Z = mul2(Dd.X, sqr2(sub2(u, v))); return r; }
    struct Cst { F2 a24, c24; }; Cst cst(const Cv &E) const { F2 c2 = add2(E.C, E.C); return {add2(E.A, c2), add2(c2, c2)}; }
    Pt dble(Pt P_, const Cv &E, int k) const { Cst c = cst(E); while (k-- > 0) P_ = dbl(P_, c.a24, c.c24); return P_; }
    // tripling through division-polynomial style formulas (valid for 2-torsion inputs too)
    Pt tpl(const Pt &P_, const Cv &E) const { // x(3P) = x (x^4 - 6x^2 - 4ax^3... )  : X3 = X (X^4 - 6X^2Z^2 - 4aXZ^3 - 3Z^4)^2, Z3 = Z (3X^4 + 4aX^3Z + 6X^2Z^2 - Z^4)^2, a=A/C
        F2 x2 = sqr2(P_.X), z2 = sqr2(P_.Z), xz = mul2(P_.X, P_.Z), x4 = sqr2(x2), z4 = sqr2(z2), xz2 = mul2(x2, z2); F2 four = add2(xz, xz); four = add2(four, four); F2 aF = mul2(E.A, four); // 4A XZ
        F2 six = add2(xz2, xz2); six = add2(add2(six, six), six); F2 t3z = add2(add2(z4, z4), z4), t3x = add2(add2(x4, x4), x4);
        F2 f = sub2(sub2(mul2(E.C, sub2(sub2(x4, six), t3z)), mul2(aF, z2)), zero2), g = add2(mul2(E.C, sub2(add2(t3x, six), z4)), mul2(aF, x2));
        Pt r; r.X = mul2(P_.X, sqr2(f)); r.Z = mul2(P_.Z, sqr2(g)); return r; }
    Pt tple(Pt P_, const Cv &E, int k) const { while (k-- > 0) P_ = tpl(P_, E); return P_; }
    Pt mulk(const Pt &P_, const Cv &E, int l, int k) const { return l == 2 ? dble(P_, E, k) : tple(P_, E, k); }
    bool peq(const Pt &a, const Pt &b) const { return mul2(a.X, b.Z) == mul2(b.X, a.Z); }
    Pt aff(const F2 &x) const { return {x, one2}; }
    F2 normx(const Pt &P_) const { return mul2(P_.X, inv2(P_.Z)); }
    F2 normA(const Cv &E) const { return mul2(E.A, inv2(E.C)); }
    F2 rhs(const F2 &A, const F2 &x) const { return mul2(x, add2(mul2(x, add2(x, A)), one2)); }
    bool valid(const F2 &A) { if (iz(sub2(sqr2(A), small(4)))) return false; Cv E{A, one2}; sim::Rng r(0x7e57); int good = 0; for (int i = 0; good < 3; i++) { F2 x = {rndfp(r), rndfp(r)}; if (!issq2(rhs(A, x))) continue; good++; Pt q = tple(dble(aff(x), E, e2), E, e3); if (!iz(q.Z)) return false; } return true; }
    Fp rndfp(sim::Rng &r) const { u64 t[N]; for (int i = 0; i < N; i++) t[i] = r.next(); int top = P.bits - (N - 1) * 64; if (top < 64) t[N-1] &= (1ull << top) - 1; while (geq(t, p)) subn(t, t, p); Fp q; mont(q.v, t, R2); return q; }
    F2 rnd2() { F2 x; x.a = rndfp(rng); x.b = rndfp(rng); return x; }
    F2 jof(const F2 &A) const { F2 a2 = sqr2(A), t = sub2(a2, small(3)); return mul2(mul2(small(256), mul2(sqr2(t), t)), inv2(sub2(a2, small(4)))); }
    // ---- isomorphic Montgomery models: x -> (x - r)/u
    struct Iso { F2 B, r, u; };
    std::vector<Iso> isos(const F2 &A) const {
        std::vector<Iso> o; o.push_back({A, zero2, one2}); o.push_back({neg2(A), zero2, neg2(one2)});
        F2 s = sqrt2(sub2(sqr2(A), small(4)));
        for (int k = 0; k < 2; k++) { F2 x2 = sub2(k ? neg2(s) : s, A); x2.a = half(x2.a); x2.b = half(x2.b);
            F2 t = add2(add2(mul2(small(3), sqr2(x2)), mul2(add2(A, A), x2)), one2), u = sqrt2(t), B = mul2(add2(A, mul2(small(3), x2)), inv2(u)); o.push_back({B, x2, u}); o.push_back({neg2(B), x2, neg2(u)}); }
        return o;
    }
    bool less(const F2 &x, const F2 &y) const { u64 o[N] = {1}, a[N], b[N]; mont(a, x.a.v, o); mont(b, y.a.v, o); for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i]; mont(a, x.b.v, o); mont(b, y.b.v, o); for (int i = N - 1; i >= 0; i--) if (a[i] != b[i]) return a[i] < b[i]; return false; }
    Iso canon(const F2 &A) const { auto v = isos(A); Iso best = v[0]; for (auto &i : v) if (less(i.B, best.B)) best = i; return best; }
    Pt app(const Iso &i, const Pt &P_) const { return {sub2(P_.X, mul2(i.r, P_.Z)), mul2(i.u, P_.Z)}; }
    // ---- isogenies
    void iso2(Cv &E, const Pt &K, std::vector<Pt *> &pts) const { F2 x = sqr2(K.X), z = sqr2(K.Z); E.A = sub2(z, add2(x, x)); E.A = add2(E.A, E.A); E.C = z; for (Pt *q : pts) { F2 a = sub2(mul2(q->X, K.X), mul2(q->Z, K.Z)), b = sub2(mul2(q->X, K.Z), mul2(q->Z, K.X)); q->X = mul2(q->X, a); q->Z = mul2(q->Z, b); } }
    void iso3(Cv &E, const Pt &K, std::vector<Pt *> &pts) const { F2 x = sqr2(K.X), z = sqr2(K.Z), xz = mul2(K.X, K.Z); F2 t = add2(mul2(E.A, xz), mul2(mul2(small(6), E.C), sub2(z, x))); F2 A = mul2(K.X, t), C = mul2(E.C, mul2(z, K.Z)); E.A = A; E.C = C;
        for (Pt *q : pts) { F2 a = sub2(mul2(q->X, K.X), mul2(q->Z, K.Z)), b = sub2(mul2(q->X, K.Z), mul2(q->Z, K.X)); q->X = mul2(q->X, sqr2(a)); q->Z = mul2(q->Z, sqr2(b)); } }
    void rec(Cv &E, Pt R, int l, int e, std::vector<Pt *> pts) const {
        if (e == 1) { if (l == 2) { if (iz(R.X)) { auto v = isos(normA(E)); Iso i = v[2]; E = {i.B, one2}; R = app(i, R); for (Pt *q : pts) *q = app(i, *q); } iso2(E, R, pts); } else iso3(E, R, pts); return; }
        int h = l == 2 ? e * 55 / 100 : e / 2; if (h < 1) h = 1; if (h >= e) h = e - 1; Pt S = mulk(R, E, l, e - h); auto p2 = pts; p2.push_back(&R); rec(E, S, l, h, p2); rec(E, R, l, e - h, pts);
    }
    bool order_ok(const F2 &A, const F2 &K, int l) const { Cv E{A, one2}; int e = e_of(l); Pt t = mulk(aff(K), E, l, e - 1); if (iz(t.Z)) return false; t = mulk(t, E, l, 1); return iz(t.Z); }
    bool step_(const F2 &A, const F2 &K, int l, F2 &A2, F2 &back, std::vector<F2> *push) {
        if (!order_ok(A, K, l)) return false; int e = e_of(l); Cv E{A, one2}; std::vector<Pt> q; if (push) for (auto &x : *push) q.push_back(aff(x));
        // the image of a full-order point independent of K generates the kernel of the dual walk
        Pt T = mulk(aff(K), E, l, e - 1);
        Pt F_; do { F2 x = rnd2(); if (!issq2(rhs(A, x))) continue; F_ = l == 2 ? tple(aff(x), E, e3) : dble(aff(x), E, e2); Pt t = mulk(F_, E, l, e - 1); if (!iz(t.Z) && !peq(t, T)) break; } while (true);
        std::vector<Pt *> pp; for (auto &x : q) pp.push_back(&x); pp.push_back(&F_); rec(E, aff(K), l, e, pp);
        F2 nA = normA(E); Iso c = canon(nA); Cv E2{c.B, one2}; Pt f = app(c, F_); f = mulk(f, E2, l, e - 1); if (iz(f.Z)) return false; A2 = c.B; back = normx(f);
        if (push) for (size_t i = 0; i < q.size(); i++) { Pt r = app(c, q[i]); (*push)[i] = normx(r); } return true;
    }
    // ---- Model interface
    void seed(u64 s) override { rng = sim::Rng(s ^ 0x5eed); }
    std::string rnd(size_t n) override { std::string s; while (s.size() < n) s.push_back((char) (rng.next() >> 24)); return s; }
    bool valid_curve(const FE &A) override { return valid(D(A)); }
    FE canonical(const FE &A) override { return Eb(canon(D(A)).B); }
    std::vector<FE> models(const FE &A) override { std::vector<FE> o; for (auto &i : isos(D(A))) o.push_back(Eb(i.B)); return o; }
    std::vector<FE> model_points(const FE &A, const FE &x) override { std::vector<FE> o; F2 a = D(A); if (iz(sub2(sqr2(a), small(4)))) return o; Pt q = aff(D(x)); for (auto &i : isos(a)) { Pt r = app(i, q); o.push_back(Eb(normx(r))); } return o; }
    FE mont_repr(const FE &x) override { F2 a = D(x); FE s(16 * N, 0); memcpy(&s[0], a.a.v, 8 * N); memcpy(&s[8 * N], a.b.v, 8 * N); return s; }
    FE jinv(const FE &A) override { return Eb(jof(D(A))); }
    F2 rpoint(const F2 &A, int l, int e, const F2 *avoid) { Cv E{A, one2}; int full = e_of(l); if (e <= 0) e = full; for (;;) { F2 x = rnd2(); if (!issq2(rhs(A, x))) continue; Pt q = l == 2 ? tple(aff(x), E, e3) : dble(aff(x), E, e2); Pt t = mulk(q, E, l, full - 1); if (iz(t.Z)) continue; if (avoid && peq(t, aff(*avoid))) continue; q = mulk(q, E, l, full - e); return normx(q); } }
    FE random_point(const FE &A, int l, int e, const FE *av) override { F2 a; if (av) a = D(*av); return Eb(rpoint(D(A), l, e, av ? &a : nullptr)); }
    FE random_x(const FE &A, int side) override { F2 a = D(A); for (;;) { F2 x = rnd2(); if (issq2(rhs(a, x)) == !!side) return Eb(x); } }
    FE top(const FE &A, const FE &K, int l, int e) override { Cv E{D(A), one2}; if (e <= 0) e = e_of(l); Pt t = mulk(aff(D(K)), E, l, e - 1); return iz(t.Z) ? FE() : Eb(normx(t)); }
    bool step(const FE &A, const FE &K, int l, FE &A2, FE &back, const std::vector<FE> *push, std::vector<FE> *pushed) override { F2 a2, b; std::vector<F2> q; if (push) for (auto &x : *push) q.push_back(D(x)); if (!step_(D(A), D(K), l, a2, b, push ? &q : nullptr)) return false; A2 = Eb(a2); back = Eb(b); if (pushed) { pushed->clear(); for (auto &x : q) pushed->push_back(Eb(x)); } return true; }
    bool has_order(const FE &A, const FE &K, int l) override { return order_ok(D(A), D(K), l); }
    bool chain(const FE &A0, const std::vector<FE> &K, int l, FE &A2, std::string *why) override {
        F2 A = D(A0), back; for (size_t i = 0; i < K.size(); i++) { F2 k = D(K[i]); if (!order_ok(A, k, l)) { if (why) *why = "step " + std::to_string(i) + ": kernel point has the wrong order"; return false; }
            if (i) { Cv E{A, one2}; Pt t = mulk(aff(k), E, l, e_of(l) - 1); if (peq(t, aff(back))) { if (why) *why = "step " + std::to_string(i) + ": backtracking"; return false; } }
            F2 A_; if (!step_(A, k, l, A_, back, nullptr)) { if (why) *why = "step failed"; return false; } A = A_; }
        A2 = Eb(A); return true;
    }
    Pt ladder(const Pt &P_, const Cv &E, u64 k) const { Cst c = cst(E); Pt r0{one2, zero2}, r1 = P_; for (int i = 63; i >= 0; i--) { if (k >> i & 1) { r0 = dadd(r0, r1, P_); r1 = dbl(r1, c.a24, c.c24); } else { r1 = dadd(r0, r1, P_); r0 = dbl(r0, c.a24, c.c24); } } return r0; }
    FE scalar_mul(const FE &A, const FE &K, u64 k) override { Cv E{D(A), one2}; return Eb(normx(ladder(aff(D(K)), E, k))); }
    struct Af { F2 x, y; bool inf; };
    Af aadd(const F2 &A, const Af &P_, const Af &Q) const { if (P_.inf) return Q; if (Q.inf) return P_; F2 l; if (P_.x == Q.x) { if (!(P_.y == Q.y) || iz(P_.y)) return {zero2, zero2, true}; l = mul2(add2(mul2(P_.x, add2(mul2(small(3), P_.x), add2(A, A))), one2), inv2(add2(P_.y, P_.y))); } else l = mul2(sub2(Q.y, P_.y), inv2(sub2(Q.x, P_.x))); F2 x = sub2(sub2(sub2(sqr2(l), A), P_.x), Q.x); return {x, sub2(mul2(l, sub2(P_.x, x)), P_.y), false}; }
    bool dlog2(const FE &A_, const FE &P_, const FE &Q_, std::vector<u8> &bits) override { // Pohlig-Hellman, one bit at a time
        F2 A = D(A_); Cv E{A, one2}; Cst c = cst(E); auto lift = [&](const FE &X) { F2 x = D(X); return Af{x, sqrt2(rhs(A, x)), false}; }; Af p2 = lift(P_), R = lift(Q_); if (!(sqr2(p2.y) == rhs(A, p2.x)) || !(sqr2(R.y) == rhs(A, R.x))) return false; bits.assign(e2, 0);
        for (int k = 0; k < e2; k++) { if (!R.inf) { Pt t = aff(R.x); for (int i = 0; i < e2 - 1 - k; i++) t = dbl(t, c.a24, c.c24); if (!iz(t.Z)) { bits[k] = 1; R = aadd(A, R, {p2.x, neg2(p2.y), p2.inf}); } } p2 = aadd(A, p2, p2); } return R.inf; }
    FE fe(u64 a, u64 b) override { FE s(2 * fpb, 0); memcpy(&s[0], &a, 8); memcpy(&s[fpb], &b, 8); return s; }
    FE add(const FE &a, const FE &b) override { return Eb(add2(D(a), D(b))); } FE mul(const FE &a, const FE &b) override { return Eb(mul2(D(a), D(b))); } FE neg(const FE &a) override { return Eb(neg2(D(a))); } FE conj(const FE &a) override { F2 x = D(a); x.b = fneg(x.b); return Eb(x); } bool square(const FE &a) override { return issq2(D(a)); } FE sqrt(const FE &a) override { return Eb(sqrt2(D(a))); } FE inv(const FE &a) override { return Eb(inv2(D(a))); }
    FE point_above(const FE &A, const FE &T, int l) override { F2 a = D(A), t = D(T); Cv E{a, one2}; for (;;) { F2 k = rpoint(a, l, 0, nullptr); if (peq(mulk(aff(k), E, l, e_of(l) - 1), aff(t))) return Eb(k); } }
    FE kernel_on_any(const FE &A, int l, int e) override { F2 a = D(A); Cv E{a, one2}; for (int tries = 0; tries < 60; tries++) { F2 x = rnd2(); Pt q = aff(x); for (int pass = 0; pass < 1; pass++) q = l == 2 ? tple(q, E, e3) : dble(q, E, e2 + 3); int k = 0; Pt r = q; while (!iz(r.Z) && k < e_of(l) + 4) { r = mulk(r, E, l, 1); k++; } if (!iz(r.Z) || k < e) continue; q = mulk(q, E, l, k - e); if (iz(q.Z)) continue; return Eb(normx(q)); } return FE(); }
    // singular y^2 = x(x -+ 1)^2: parametrise the smooth part by the multiplicative group
    FE singular_point(const FE &A, int l) override { return kernel_on_any(A, l, e_of(l)); }
    Impl(const Params &P_) { P = P_; fpb = fp_bytes(P.bits); e2 = P.bits == 434 ? 216 : P.bits == 503 ? 250 : P.bits == 610 ? 305 : 372; e3 = P.bits == 434 ? 137 : P.bits == 503 ? 159 : P.bits == 610 ? 192 : 239;
        memset(p, 0, sizeof p); p[0] = 1; auto mulsmall = [&](u64 k) { u64 c = 0; for (int i = 0; i < N; i++) { u128 x = (u128) p[i] * k + c; p[i] = (u64) x; c = x >> 64; } }; for (int i = 0; i < e2; i++) mulsmall(2); for (int i = 0; i < e3; i++) mulsmall(3); u64 o[N] = {1}; subn(p, p, o);
        pinv = 1; for (int i = 0; i < 6; i++) pinv *= 2 - p[0] * pinv; pinv = -pinv;
        u64 t[N] = {1}; for (int i = 0; i < 2 * 64 * N; i++) { u64 c = addn(t, t, t); if (c || geq(t, p)) subn(t, t, p); } memcpy(R2, t, sizeof t);
        memset(&zero, 0, sizeof zero); mont(one.v, o, R2); zero2 = {zero, zero}; one2 = {one, zero}; u64 two[N] = {2}; subn(pm2, p, two); u64 q[N]; addn(q, p, o); shr(q, q, 2); memcpy(pp14, q, sizeof q); subn(q, p, o); shr(q, q, 1); memcpy(pm12, q, sizeof q); }
};
std::unique_ptr<Model> make(const Params &P) { switch (P.bits) { case 434: return std::make_unique<Impl<7>>(P); case 503: return std::make_unique<Impl<8>>(P); case 610: return std::make_unique<Impl<10>>(P); default: return std::make_unique<Impl<12>>(P); } }

// ---------------------------------------------------------------- protocol
std::vector<int> Model::challenge(const FE &j0, const FE &j1, const std::vector<std::string> &h2, const std::vector<std::string> &h3) {
    std::string in = std::string("\x01") + j0 + j1; for (int i = 0; i < P.reps; i++) in += h2[i] + h3[i];
    std::vector<int> t; for (size_t need = 136;; need += 136) { std::string s = shake256(in, need); t.clear(); for (unsigned char c : s) { if (c >= 243) continue; int v = c; for (int k = 0; k < 5 && (int) t.size() < P.reps; k++) { int r = v % 3; v /= 3; t.push_back(r == 2 ? -1 : r); } } if ((int) t.size() >= P.reps) return t; }
}
bool Model::open(const FE &E0, const FE &E1, const Resp &r, std::string &h2, std::string &h3, std::string *why) {
    FE e;
    switch (r.tag) {
    case -1: if (!chain(E0, r.x, 3, e, why)) return false; h2 = commit(r.a, jinv(e)); h3 = r.b; return true;
    case 0: if (!valid_curve(r.E2)) { if (why) *why = "E2 is not a valid curve"; return false; } if (!chain(r.E2, r.x, 2, e, why)) return false; h2 = commit(r.a, jinv(r.E2)); h3 = commit(r.b, jinv(e)); return true;
    case 1: if (!chain(E1, r.x, 3, e, why)) return false; h2 = r.a; h3 = commit(r.b, jinv(e)); return true;
    } if (why) *why = "bad tag"; return false;
}
bool Model::verify(const Proof &p, std::string *why) {
    if (!valid_curve(p.E0)) { if (why) *why = "E0 is not a valid curve"; return false; } if (!valid_curve(p.E1)) { if (why) *why = "E1 is not a valid curve"; return false; }
    std::vector<std::string> h2(P.reps), h3(P.reps); for (int i = 0; i < P.reps; i++) { std::string w; if (!open(p.E0, p.E1, p.resp[i], h2[i], h3[i], &w)) { if (why) *why = "response " + std::to_string(i) + ": " + w; return false; } }
    auto c = challenge(jinv(p.E0), jinv(p.E1), h2, h3); for (int i = 0; i < P.reps; i++) if (c[i] != p.resp[i].tag) { if (why) *why = "challenge differs at response " + std::to_string(i); return false; }
    return true;
}
std::vector<FE> Model::walk(const FE &A, int l, int n, FE &end) { std::vector<FE> k; FE E = A, back; for (int i = 0; i < n; i++) { k.push_back(random_point(E, l, 0, i ? &back : nullptr)); FE e; if (!step(E, k.back(), l, e, back)) abort(); E = e; } end = E; return k; }
Secret Model::generate(const FE &A0) { Secret s; s.E.push_back(canonical(A0)); FE back; for (int i = 0; i < P.W; i++) { s.K.push_back(random_point(s.E[i], 2, 0, i ? &back : nullptr)); FE e; if (!step(s.E[i], s.K[i], 2, e, back)) abort(); s.E.push_back(e); } return s; }
Instance Model::instance(const Secret &s) {
    Instance v; v.botE = s.E; v.bot = s.K; v.leftE.push_back(s.E[0]); v.rightE.push_back(s.E[P.W]); FE lback;
    for (int r = 0; r < P.H; r++) {
        FE kb = random_point(v.botE[0], 3, 0, r ? &lback : nullptr); v.left.push_back(kb); std::vector<FE> nE, nK; FE k = kb;
        for (int c = 0; c <= P.W; c++) {
            FE e, b; std::vector<FE> push, pushed; if (c < P.W) push.push_back(v.bot[c]); if (!step(v.botE[c], k, 3, e, b, &push, &pushed)) abort(); nE.push_back(e); if (c < P.W) nK.push_back(pushed[0]); if (c == 0) lback = b;
            if (c == P.W) v.right.push_back(k); else { FE e2_, b2; std::vector<FE> q{k}, q2; if (!step(v.botE[c], v.bot[c], 2, e2_, b2, &q, &q2)) abort(); if (e2_ != v.botE[c+1]) abort(); k = q2[0]; }
        }
        v.botE = nE; v.bot = nK; v.leftE.push_back(nE[0]); v.rightE.push_back(nE[P.W]);
    }
    v.r2 = rnd(P.hide); v.r3 = rnd(P.hide); v.h2 = commit(v.r2, jinv(v.botE[0])); v.h3 = commit(v.r3, jinv(v.botE[P.W])); return v;
}
Resp Model::respond(const Instance &v, int tag) {
    Resp r; r.tag = tag; if (tag == -1) { r.a = v.r2; r.b = v.h3; r.x = v.left; } else if (tag == 1) { r.a = v.h2; r.b = v.r3; r.x = v.right; }
    else { r.a = v.r2; r.b = v.r3; r.E2 = v.botE[0]; for (int i = 0; i < P.W; i++) { u64 k = 0; for (char c : rnd(8)) k = k << 8 | (u8) c; r.x.push_back(scalar_mul(v.botE[i], v.bot[i], k | 1)); } } return r;
}
static void ser(std::string &o, const std::string &s) { u32 n = s.size(); o.append((char *) &n, 4); o += s; }
static std::string deser(const std::string &o, size_t &p) { u32 n; memcpy(&n, &o[p], 4); p += 4; std::string s = o.substr(p, n); p += n; return s; }
Proof Model::prove(const Secret &s, int jobs, Proof *alt1, Proof *alt2) {
    std::vector<Instance> v(P.reps); u64 base = 0; for (char c : rnd(8)) base = base << 8 | (u8) c;
    if (jobs <= 1) for (int i = 0; i < P.reps; i++) { seed(sim::mix2(base, i)); v[i] = instance(s); }
    else { // fan out over processes
        std::vector<int> fd(jobs); for (int j = 0; j < jobs; j++) { int p[2]; if (pipe(p)) abort(); if (!fork()) { close(p[0]); FILE *f = fdopen(p[1], "w"); for (int i = j; i < P.reps; i += jobs) { seed(sim::mix2(base, i)); Instance w = instance(s); std::string o; for (auto *x : {&w.r2, &w.r3, &w.h2, &w.h3}) ser(o, *x); for (auto *x : {&w.left, &w.bot, &w.botE, &w.right}) { u32 n = x->size(); o.append((char *) &n, 4); for (auto &y : *x) ser(o, y); } u32 n = o.size(); fwrite(&n, 4, 1, f); fwrite(o.data(), 1, n, f); } fclose(f); _exit(0); } close(p[1]); fd[j] = p[0]; }
        for (int j = 0; j < jobs; j++) { FILE *f = fdopen(fd[j], "r"); for (int i = j; i < P.reps; i += jobs) { u32 n; if (fread(&n, 4, 1, f) != 1) abort(); std::string o(n, 0); if (fread(&o[0], 1, n, f) != n) abort(); size_t p = 0; Instance &w = v[i]; for (auto *x : {&w.r2, &w.r3, &w.h2, &w.h3}) *x = deser(o, p); for (auto *x : {&w.left, &w.bot, &w.botE, &w.right}) { u32 m; memcpy(&m, &o[p], 4); p += 4; x->resize(m); for (auto &y : *x) y = deser(o, p); } } fclose(f); int st; wait(&st); }
    }
    seed(sim::mix2(base, 1 << 20)); std::vector<std::string> h2, h3; for (auto &w : v) { h2.push_back(w.h2); h3.push_back(w.h3); }
    Proof p; p.E0 = s.E[0]; p.E1 = s.E[P.W]; auto c = challenge(jinv(p.E0), jinv(p.E1), h2, h3); for (int i = 0; i < P.reps; i++) p.resp.push_back(respond(v[i], c[i]));
    for (int k = 1; k <= 2; k++) if (Proof *a = k == 1 ? alt1 : alt2) { *a = p; for (int i = 0; i < P.reps; i++) a->resp[i] = respond(v[i], (c[i] + 1 + k) % 3 - 1); }
    return p;
}
Proof Model::grind(const FE &E0, const FE &E1, std::vector<Resp> resp, const std::vector<std::pair<std::string,std::string>> &opened, int differ, bool *okp) {
    // opened[i]: (h2,h3) with the empty string where the commitment is not opened (free to choose)
    std::vector<std::string> h2(P.reps), h3(P.reps); FE j0 = jinv(E0), j1 = jinv(E1); int nfree = 0; for (auto &o : opened) nfree += o.first.empty() + o.second.empty();
    for (long t = 0; t < 2000000; t++) {
        for (int i = 0; i < P.reps; i++) { h2[i] = opened[i].first.empty() ? rnd(P.hash) : opened[i].first; h3[i] = opened[i].second.empty() ? rnd(P.hash) : opened[i].second; }
        auto c = challenge(j0, j1, h2, h3); bool ok = true; for (int i = 0; i < P.reps; i++) if ((c[i] == resp[i].tag) == (i == differ)) { ok = false; break; }
        if (okp) *okp = ok; if (ok || !nfree) { for (int i = 0; i < P.reps; i++) { if (resp[i].tag == -1) resp[i].b = h3[i]; if (resp[i].tag == 1) resp[i].a = h2[i]; } Proof p; p.E0 = E0; p.E1 = E1; p.resp = resp; return p; }
    }
    Proof p; p.E0 = E0; p.E1 = E1; p.resp = resp; return p;
}
}
