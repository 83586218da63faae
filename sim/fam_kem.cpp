// Key encapsulation and key exchange families (C15, C16, C17): all 16 builds live in one binary.
#include "core.h"
#include "ref.h"
#include <cstring>
#include <algorithm>
extern "C" void sim_shake_observed(const void *, size_t, const void *, size_t) {}
namespace sim {
using std::string; using std::vector;
struct Kem { int bits, comp, gen; size_t pk, sk, ss, ct, skA, skB, kexpk, kexss; int (*keypair)(u8 *, u8 *), (*enc)(u8 *, u8 *, const u8 *), (*dec)(u8 *, const u8 *, const u8 *), (*rndA)(u8 *), (*rndB)(u8 *), (*genA)(const u8 *, u8 *), (*genB)(const u8 *, u8 *), (*agreeA)(const u8 *, const u8 *, u8 *), (*agreeB)(const u8 *, const u8 *, u8 *); };
#define KD(b) extern "C" const Kem sim_kem_k##b, sim_kem_k##b##g, sim_kem_k##b##c, sim_kem_k##b##cg;
KD(434) KD(503) KD(610) KD(751)
static const Kem *const builds[4][2][2] = {     // size, compressed, generic
    {{&sim_kem_k434, &sim_kem_k434g}, {&sim_kem_k434c, &sim_kem_k434cg}}, {{&sim_kem_k503, &sim_kem_k503g}, {&sim_kem_k503c, &sim_kem_k503cg}},
    {{&sim_kem_k610, &sim_kem_k610g}, {&sim_kem_k610c, &sim_kem_k610cg}}, {{&sim_kem_k751, &sim_kem_k751g}, {&sim_kem_k751c, &sim_kem_k751cg}}};
// numbers of the specification
static const int MSG[4] = {16, 24, 24, 32}, EA[4] = {216, 250, 305, 372}, EB[4] = {217, 252, 304, 378}, FPB[4] = {55, 63, 77, 94}; static const char *const SZ[4] = {"434", "503", "610", "751"};
static int S, C;       // parameter set of this run
static const Kem &any_build() { u64 k = choose(S_WORK, 4); return *builds[S][C][k == 3]; }
static string bname(const Kem &k) { return "p" + std::to_string(k.bits) + (k.comp ? "-compressed" : "") + (k.gen ? "-portable" : "-fast"); }
static void pick_params() {     // weights: small sets are cheaper
    static const u8 w[] = {0, 1, 0, 2, 0, 1, 3, 0}; static const u8 t[] = {0, 1, 2, 3}; S = opts.count("set") ? (int) opt_u("set", 0) : thorough ? t[run_index % 4] : w[run_index % 8]; C = opts.count("comp") ? (int) opt_u("comp", 0) : (run_index / (thorough ? 4 : 8)) % 2; }
static ProcCfg draw(bool sched, bool ent, bool stall) {
    ProcCfg c; static u64 n; c.garbage = mix2(run_seed, 0x6a + n) | 1; c.ent.key = mix2(run_seed, 0xe7 + n); n++; c.races = true; c.step_budget = opt_u("budget", 0);
    if (sched) { static const u64 means[] = {200, 5, 40, 2000, 30000}; c.sched.mode = choose(S_WORK, 5); c.sched.mean = means[choose(S_WORK, 5)]; c.sched.starve = choose(S_WORK, 7); }
    if (stall && choose(S_WORK, 3) == 1) c.sched.p_stall = 0.15;
    if (ent) { u64 k = choose(S_WORK, 8); if (k & 1) c.ent.p_short = 0.15 + 0.2 * (k >> 1); if (k & 2) c.ent.p_err = 0.15; if (k & 4) c.ent.p_open = 0.5; if (choose(S_WORK, 3) == 2) c.ent.sparse = 1 + choose(S_WORK, 6); }
    return c;
}
static void clean(const char *what, const ProcResult &r) { switch (r.kind) { case X_CRASH: case X_MEMORY: violate("crash", "%s: %s", what, r.status().c_str()); case X_BUDGET: violate("hang", "%s did not terminate: %s", what, r.status().c_str()); case X_DEADLOCK: violate("deadlock", "%s: %s", what, r.status().c_str()); case X_ABORT: violate("abort", "%s: %s", what, r.status().c_str()); default: break; } }
static u8 *buf(const string &s) { u8 *p = (u8 *) palloc(s.size()); memcpy(p, s.data(), s.size()); return p; }
static string str(const u8 *p, size_t n) { return string((const char *) p, n); }
// entropy delivered to the calling fiber since `from`
static string my_entropy(size_t from) { string o; auto &l = ent_log(); for (size_t i = from; i < l.size(); i++) if (l[i].fiber == cur_fiber()) o += ent_data().substr(l[i].off, l[i].len); return o; }
static void fresh(const string &x, const string &ent, const char *what, const string &who) { if (ent.find(x) == string::npos) violate("not-fresh", "%s of %s is not the entropy delivered to that call (%zu bytes delivered)", what, who.c_str(), ent.size()); }

struct Key { string pk, sk; }; struct Sess { int key; string ct, ss, m; };
static Key op_keypair(const Kem &k) {
    u8 *pk = (u8 *) palloc(k.pk), *sk = (u8 *) palloc(k.sk); size_t e0 = ent_log_size(); int rc = k.keypair(pk, sk); string ent = my_entropy(e0); Key r{str(pk, k.pk), str(sk, k.sk)}; pfree(pk); pfree(sk);
    if (rc) violate("kem-error", "key generation of %s returned %d", bname(k).c_str(), rc); int m = MSG[S]; fresh(r.sk.substr(0, m), ent, "rejection seed", bname(k));
    string sc = r.sk.substr(m, k.comp ? k.skA : k.skB); if (ent.find(sc.substr(1, sc.size() - 2)) == string::npos) violate("not-fresh", "secret scalar of %s is not the entropy delivered to that call", bname(k).c_str()); 
    bool apart = false; string a = r.sk.substr(0, m), b = sc.substr(1, sc.size() - 2); for (size_t i = ent.find(a); i != string::npos && !apart; i = ent.find(a, i + 1)) for (size_t j = ent.find(b); j != string::npos; j = ent.find(b, j + 1)) if (i + a.size() <= j || j + b.size() <= i) apart = true;
    if (!apart) violate("not-fresh", "rejection seed and secret scalar of %s share delivered entropy", bname(k).c_str()); return r; }
static Sess op_enc(const Kem &k, int key, const u8 *pk) {
    u8 *ct = (u8 *) palloc(k.ct), *ss = (u8 *) palloc(k.ss); size_t e0 = ent_log_size(); string pk0 = str(pk, k.pk); int rc = k.enc(ct, ss, pk); string ent = my_entropy(e0); Sess s{key, str(ct, k.ct), str(ss, k.ss), ""}; pfree(ct); pfree(ss);
    if (rc) violate("kem-error", "encapsulation of %s returned %d", bname(k).c_str(), rc); if (str(pk, k.pk) != pk0) violate("kem-input", "encapsulation of %s modified the public key", bname(k).c_str());
    for (size_t i = 0; i + MSG[S] <= ent.size() && s.m.empty(); i++) if (ref::shake256(ent.substr(i, MSG[S]) + s.ct, k.ss) == s.ss) s.m = ent.substr(i, MSG[S]);
    if (s.m.empty()) violate("not-fresh", "the secret of %s does not derive from %d bytes of entropy delivered to the encapsulation (%zu delivered)", bname(k).c_str(), MSG[S], ent.size()); return s; }
static string op_dec(const Kem &k, const string &ct, const u8 *sk) {
    u8 *c = buf(ct), *ss = (u8 *) palloc(k.ss); string sk0 = str(sk, k.sk); int rc = k.dec(ss, c, sk); string r = str(ss, k.ss); if (rc) violate("kem-error", "decapsulation of %s returned %d", bname(k).c_str(), rc);
    if (str(c, ct.size()) != ct || str(sk, k.sk) != sk0) violate("kem-input", "decapsulation of %s modified its input", bname(k).c_str()); pfree(c); pfree(ss); return r; }
// runs the jobs in threads of one simulated process
static ProcResult in_threads(const ProcCfg &c, vector<std::function<void()>> jobs, bool together, const std::function<void()> &first = nullptr) {
    return run_proc(c, "", [&] { if (first) first(); vector<int> ids; for (size_t i = 0; i < jobs.size(); i++) { if (together) ids.push_back(spawn(jobs[i])); else jobs[i](); } for (int id : ids) join_fiber(id); return 0; }); }
static vector<Key> make_keys(int n, string *log) {
    vector<Key> keys(n); vector<bool> have(n, false);
    for (int attempt = 0;; attempt++) {
        ProcCfg c = draw(true, true, true); if (attempt < 2 && choose(S_WORK, 4) == 3) c.kill_at = 1 + choose(S_KILL, 400000ull << 2 * choose(S_KILL, 4));
        vector<std::function<void()>> jobs; for (int i = 0; i < n; i++) if (!have[i]) { const Kem &b = any_build(); jobs.push_back([&, i] { Key k = op_keypair(b); keys[i] = k; have[i] = true; }); }     // stored once complete
        ProcResult r = in_threads(c, jobs, n > 1 && choose(S_WORK, 4)); clean("key generation", r); if (std::find(have.begin(), have.end(), false) == have.end()) return keys; fired(F_RESTART); *log += "receiver restarted during key generation; ";
    }
}

// ---------------------------------------------------------------- C15
void fam_kem() {
    pick_params(); st.checks++; string log; int nk = 1 + (choose(S_WORK, 3) == 2), ns = 1 + choose(S_WORK, 3);
    vector<Key> keys = make_keys(nk, &log); vector<Sess> sess(ns); vector<const Kem *> eb(ns); vector<u8 *> pks(nk); vector<int> to(ns); for (int i = 0; i < ns; i++) { eb[i] = &any_build(); to[i] = choose(S_WORK, nk); }
    { ProcCfg c = draw(true, true, true); vector<std::function<void()>> jobs; for (int i = 0; i < ns; i++) jobs.push_back([&, i] { sess[i] = op_enc(*eb[i], to[i], pks[to[i]]); }); ProcResult r = in_threads(c, jobs, choose(S_WORK, 4), [&] { for (int i = 0; i < nk; i++) pks[i] = buf(keys[i].pk); }); clean("encapsulation", r); }
    for (int i = 0; i < ns; i++) for (int j = 0; j < i; j++) if (sess[i].m == sess[j].m || sess[i].ss == sess[j].ss) violate("kem-repeat", "two sessions share a message or secret");
    struct Del { int s; const Kem *b; u64 at; bool done; }; vector<Del> q;   // the network: delayed, duplicated, reordered, none altered
    for (int i = 0; i < ns; i++) { int copies = 1 + (choose(S_NET, 4) == 3); if (copies > 1) fired(F_DUP); for (int k = 0; k < copies; k++) { u64 d = choose(S_NET, 6) * 1000000000ull; if (d) fired(F_DELAY); q.push_back({i, &any_build(), d, false}); } }
    std::stable_sort(q.begin(), q.end(), [](const Del &x, const Del &y) { return x.at < y.at; }); for (size_t i = 1; i < q.size(); i++) if (q[i].s < q[i-1].s) fired(F_REORDER);
    for (int attempt = 0;; attempt++) {
        ProcCfg c = draw(true, false, true); if (attempt < 2 && choose(S_WORK, 3) == 2) c.kill_at = 1 + choose(S_KILL, 400000ull << 2 * choose(S_KILL, 4)); vector<u8 *> sks(nk); u64 together = choose(S_WORK, 4), mixed = choose(S_WORK, 4) == 3; vector<std::function<void()>> jobs; const Kem &xb = any_build();
        for (auto &d : q) if (!d.done) jobs.push_back([&] { if (together && d.at) sleep_ns(d.at); string ss = op_dec(*d.b, sess[d.s].ct, sks[sess[d.s].key]); if (ss != sess[d.s].ss) violate("kem-disagree", "session %d: %s decapsulated a different secret than %s encapsulated; %zu concurrent sessions, mode %d; %s", d.s, bname(*d.b).c_str(), bname(*eb[d.s]).c_str(), together ? q.size() : 1, c.sched.mode, log.c_str()); d.done = true; });
        if (mixed) jobs.push_back([&] { Key k = op_keypair(xb); u8 *p = buf(k.pk), *s = buf(k.sk); Sess x = op_enc(xb, 0, p); if (op_dec(xb, x.ct, s) != x.ss) violate("kem-disagree", "a session opened while others were served disagrees (%s)", bname(xb).c_str()); });
        ProcResult r = in_threads(c, jobs, together, [&] { for (int i = 0; i < nk; i++) sks[i] = buf(keys[i].sk); }); clean("decapsulation", r); bool all = true; for (auto &d : q) all &= d.done; if (all) break; fired(F_RESTART); log += "receiver killed and restarted; ";
    }
    probe(P_ACCEPTED); note_sample("p%s%s: %d session(s), %zu deliveries, %d key(s); %s all secrets agree", SZ[S], C ? " compressed" : "", ns, q.size(), nk, log.c_str());
}

// ---------------------------------------------------------------- C16
typedef vector<u64> Big;
static Big big(const string &b) { Big r(8, 0); for (size_t i = 0; i < b.size() && i < 64; i++) r[i / 8] |= (u64) (u8) b[i] << i % 8 * 8; return r; }
static Big mulb(const Big &a, const Big &b) { Big r(8, 0); for (int i = 0; i < 8; i++) { unsigned __int128 c = 0; for (int j = 0; i + j < 8; j++) { c += (unsigned __int128) a[i] * b[j] + r[i + j]; r[i + j] = (u64) c; c >>= 64; } } return r; }
static Big addb(const Big &a, const Big &b) { Big r(8); unsigned __int128 c = 0; for (int i = 0; i < 8; i++) { c += (unsigned __int128) a[i] + b[i]; r[i] = (u64) c; c >>= 64; } return r; }
static Big negb(const Big &a) { Big r(8), one(8, 0); one[0] = 1; for (int i = 0; i < 8; i++) r[i] = ~a[i]; return addb(r, one); }
static Big modb(Big a, int bits) { for (int i = 0; i < 8; i++) if (i * 64 >= bits) a[i] = 0; else if (bits - i * 64 < 64) a[i] &= (1ull << (bits - i * 64)) - 1; return a; }
static std::unique_ptr<ref::Model> mdl;
// compressed ciphertexts that decode to the same content (unused bits, congruent scalars, sign)
static bool same_content(const Kem &k, const string &a, const string &b, const string &sk) {
    if (!k.comp) return a == b; size_t n = k.skA, f = 2 * FPB[S], m = MSG[S]; if (a.substr(4 * n + f + 2) != b.substr(4 * n + f + 2)) return false; if (a[4*n+f+1] != b[4*n+f+1] || ((a[4*n+f] ^ b[4*n+f]) & 1)) return false;
    if (!mdl || mdl->P.bits != k.bits) mdl = ref::make({k.bits, 1, 1, 1, 32, 64}); if (mdl->reduce(a.substr(4 * n, f)) != mdl->reduce(b.substr(4 * n, f))) return false;
    Big s = big(sk.substr(m, n)); auto dec = [&](const string &c, Big &x, Big &y) { x = modb(addb(big(c.substr(0, n)), mulb(s, big(c.substr(2 * n, n)))), EA[S]); y = modb(addb(big(c.substr(n, n)), mulb(s, big(c.substr(3 * n, n)))), EA[S]); };
    Big x, y, u, w; dec(a, x, y); dec(b, u, w); return (x == u && y == w) || (modb(negb(x), EA[S]) == u && modb(negb(y), EA[S]) == w);
}
static string corrupt(const Kem &k, const vector<Sess> &ss, int i, string *what) {
    string c = ss[i].ct; size_t n = c.size(), m = MSG[S], f = 2 * FPB[S]; vector<std::pair<size_t,size_t>> fld; // fields
    if (k.comp) { for (int j = 0; j < 4; j++) fld.push_back({j * k.skA, k.skA}); fld.push_back({4 * k.skA, f / 2}); fld.push_back({4 * k.skA + f / 2, f / 2}); fld.push_back({4 * k.skA + f, 1}); fld.push_back({4 * k.skA + f + 1, 1}); } else for (int j = 0; j < 6; j++) fld.push_back({j * f / 2, f / 2}); fld.push_back({n - m, m});
    auto F = fld[choose(S_NET, fld.size())]; char w[200];
    switch (choose(S_NET, 17)) {
    case 0: { size_t b = choose(S_NET, n * 8); c[b / 8] ^= 1 << b % 8; snprintf(w, sizeof w, "bit %zu of byte %zu flipped", b % 8, b / 8); break; }
    case 1: { size_t b = choose(S_NET, F.second * 8); c[F.first + b / 8] ^= 1 << b % 8; snprintf(w, sizeof w, "bit flipped in the field at %zu", F.first); break; }
    case 2: { size_t b = (choose(S_NET, 2) ? F.second - 1 : 0); c[F.first + b] ^= 1 << choose(S_NET, 8); snprintf(w, sizeof w, "bit flipped in byte %zu", F.first + b); break; }
    case 3: { size_t b = choose(S_NET, n); c[b] ^= 1 + choose(S_NET, 255); snprintf(w, sizeof w, "byte %zu altered", b); break; }
    case 4: { for (size_t j = 0; j < F.second; j++) c[F.first + j] = 0; snprintf(w, sizeof w, "field at %zu zeroed", F.first); break; }
    case 5: { for (size_t j = 0; j < F.second; j++) c[F.first + j] = (char) 0xff; snprintf(w, sizeof w, "field at %zu all ones", F.first); break; }
    case 6: { auto G = fld[choose(S_NET, fld.size())]; size_t q = std::min(F.second, G.second); for (size_t j = 0; j < q; j++) std::swap(c[F.first + j], c[G.first + j]); snprintf(w, sizeof w, "fields at %zu and %zu exchanged", F.first, G.first); break; }
    case 7: { size_t a = choose(S_NET, n), l = 1 + choose(S_NET, n - a); for (size_t j = 0; j < l; j++) c[a + j] = 0; snprintf(w, sizeof w, "%zu bytes lost at %zu", l, a); break; }
    case 8: { size_t j = choose(S_NET, ss.size()); for (size_t q = 0; q < F.second; q++) c[F.first + q] = ss[j].ct[F.first + q]; snprintf(w, sizeof w, "field at %zu taken from session %zu", F.first, j); break; }
    case 9: { size_t j = choose(S_NET, ss.size()); c = ss[j].ct; snprintf(w, sizeof w, "ciphertext of session %zu (key %d)", j, ss[j].key); break; }
    case 10: { size_t d = 1 + choose(S_NET, n - 1); std::rotate(c.begin(), c.begin() + d, c.end()); snprintf(w, sizeof w, "rotated by %zu", d); break; }
    case 11: case 12: {     // special coefficient, possibly with degenerate other fields
        size_t a = k.comp ? 4 * k.skA : 0, fb = FPB[S]; int cf = k.comp ? 1 : 1 + choose(S_NET, 3); if (!mdl || mdl->P.bits != k.bits) mdl = ref::make({k.bits, 1, 1, 1, 32, 64}); u64 sp = choose(S_NET, 8); static const int val[] = {0, 2, -2, 6, -6, 1, 3, 0};
        for (int q = 0; q < cf; q++) { ref::FE e = mdl->fe(val[sp] < 0 ? -val[sp] : val[sp], 0); if (val[sp] < 0) e = mdl->neg(e); if (sp == 7) e = mdl->fe(0, 1); size_t at = a + (k.comp ? 0 : choose(S_NET, 3) * 2 * fb); c.replace(at, 2 * fb, e); }
        u64 z = choose(S_NET, 4); if (k.comp && z) { if (z & 1) for (size_t j = 0; j < 4 * k.skA; j++) c[j] = 0; if (z & 2) { c[4 * k.skA + f] = choose(S_NET, 2); c[4 * k.skA + f + 1] = choose(S_NET, 3) ? choose(S_NET, 256) : 0; } } snprintf(w, sizeof w, "special field value %d, variant %d", (int) sp, (int) z); break; }
    case 13: case 14: case 15: {     // another encoding of the same coordinate: x + k*p
        int q = k.comp ? 4 + choose(S_NET, 2) : choose(S_NET, 6); F = fld[q]; if (!mdl || mdl->P.bits != k.bits) mdl = ref::make({k.bits, 1, 1, 1, 32, 64}); string pb = mdl->neg(mdl->fe(1, 0)).substr(0, F.second); pb[0] |= 1; int k_ = 1 + choose(S_NET, 4), done = 0;
        for (int t = 0; t < k_; t++) { string d = c; unsigned cy = 0; for (size_t j = 0; j < F.second; j++) { cy += (u8) c[F.first + j] + (u8) pb[j]; d[F.first + j] = (char) cy; cy >>= 8; } if (cy) break; c = d; done++; }
        if (!done) c[F.first + F.second - 1] ^= 1; snprintf(w, sizeof w, "coordinate %d encoded as x + %d*p", q, done); break; }
    default: { u64 s = choose(S_NET, 1 << 20); Rng r(s); size_t keep = choose(S_NET, n); for (size_t j = keep; j < n; j++) c[j] = (char) r.next(); snprintf(w, sizeof w, "garbage from byte %zu", keep); break; }
    }
    *what = w; return c;
}
void fam_reject() {
    pick_params(); st.checks++; string log; int nk = 2, ns = 2; vector<Key> keys(nk); vector<Sess> sess(ns + 1); const Kem &g = *builds[S][C][0];
    { ProcCfg c = draw(false, true, false); ProcResult r = run_proc(c, "", [&] { for (auto &k : keys) k = op_keypair(g); vector<u8 *> p; for (auto &k : keys) p.push_back(buf(k.pk)); for (int i = 0; i < ns; i++) sess[i] = op_enc(g, 0, p[0]); sess[ns] = op_enc(g, 1, p[1]); return 0; }); clean("setup", r); }
    int nd = 2 + choose(S_WORK, 3); struct D { string ct, what; const Kem *b; bool genuine; int of; string ss; }; vector<D> ds;
    for (int i = 0; i < nd; i++) { int s = choose(S_WORK, ns); string w; bool gen = choose(S_WORK, 4) == 3; string ct = gen ? sess[s].ct : corrupt(g, sess, s, &w); if (!gen) fired(F_CORRUPT); ds.push_back({ct, gen ? "genuine" : w, &any_build(), gen, s, ""}); }
    { int s = choose(S_WORK, ns); ds.push_back({sess[s].ct, "genuine, last", &any_build(), true, s, ""}); if (choose(S_WORK, 2)) { fired(F_DUP); D d = ds[choose(S_WORK, nd)]; d.b = &any_build(); ds.push_back(d); } }
    // two incarnations of the receiver: results must be the same
    for (int inc = 0; inc < (choose(S_WORK, 3) == 2 ? 2 : 1); inc++) {
        if (inc) fired(F_RESTART); ProcCfg c = draw(true, false, true); u8 *sk = nullptr; u64 together = choose(S_WORK, 3); vector<std::function<void()>> jobs; for (auto &d : ds) { if (inc) d.b = &any_build(); jobs.push_back([&] { d.ss = op_dec(*d.b, d.ct, sk); }); }
        ProcResult r = in_threads(c, jobs, together == 2, [&] { sk = buf(keys[0].sk); }); clean("decapsulation", r);
        for (auto &d : ds) {
            int own = -1; for (int i = 0; i < ns; i++) if (d.ct == sess[i].ct) own = i; string rej = ref::shake256(keys[0].sk.substr(0, MSG[S]) + d.ct, g.ss);
            if (own >= 0) { if (d.ss != sess[own].ss) violate("kem-disagree", "genuine ciphertext decapsulates to a different secret (%s, among %zu others, incarnation %d)", bname(*d.b).c_str(), ds.size(), inc); probe(P_ACCEPTED); continue; }
            for (auto &s : sess) if (d.ss == s.ss) violate("kem-malleable", "%s: %s yields a sender's secret", bname(*d.b).c_str(), d.what.c_str());
            if (d.ss == rej) { probe(P_IMPLICIT_REJ); continue; }
            bool eq = false; for (int i = 0; i < ns; i++) if (same_content(g, d.ct, sess[i].ct, keys[0].sk) && d.ss == ref::shake256(sess[i].m + d.ct, g.ss)) eq = true;
            if (!eq) violate("kem-no-rejection", "%s: altered ciphertext (%s) does not yield the rejection key; incarnation %d, mode %d", bname(*d.b).c_str(), d.what.c_str(), inc, c.sched.mode);
        }
    }
    note_sample("p%s%s: %s -> rejection key; %zu decapsulations", SZ[S], C ? " compressed" : "", ds[0].what.c_str(), ds.size());
}

// ---------------------------------------------------------------- C17
static void check_private(const Kem &k, bool alice, const string &sk, const string &ent) {
    size_t n = sk.size(); Big x = big(sk); string who = bname(k) + (alice ? " (A)" : " (B)"); int bits = alice ? EA[S] : EB[S];
    if (!k.comp) { if (modb(x, bits) != x) violate("private-range", "private key of %s exceeds %d bits", who.c_str(), bits); bool ok = false; for (size_t i = 0; i + n <= ent.size(); i++) if (modb(big(ent.substr(i, n)), bits) == x) ok = true; if (!ok) violate("not-fresh", "private key of %s is not the entropy delivered to that call", who.c_str()); return; }
    if (alice) { if (modb(x, bits) != x || (x[0] & 1)) violate("private-range", "private key of %s is not an even number below 2^%d", who.c_str(), bits); bool ok = false; for (size_t i = 0; i + n <= ent.size(); i++) { Big y = modb(big(ent.substr(i, n)), bits); y[0] &= ~1ull; if (y == x) ok = true; } if (!ok) violate("not-fresh", "private key of %s is not the entropy delivered to that call", who.c_str()); return; }
    // three times a number of delivered entropy, below the order 3^e (2^(bits) < 3^e < 2^(bits+1)): at least all but the top two bytes are delivered bytes
    u64 rem = 0; Big q(8); for (int i = 7; i >= 0; i--) { unsigned __int128 c = ((unsigned __int128) rem << 64) | x[i]; q[i] = (u64) (c / 3); rem = (u64) (c % 3); } if (rem) violate("private-range", "private key of %s is not a multiple of 3", who.c_str()); if (modb(x, bits + 1) != x) violate("private-range", "private key of %s exceeds the group order", who.c_str());
    string lo; for (size_t i = 0; i + 2 < n; i++) lo.push_back((char) (q[i / 8] >> i % 8 * 8)); if (ent.find(lo) == string::npos) violate("not-fresh", "private key of %s is not the entropy delivered to that call", who.c_str());
}
void fam_kex() {
    pick_params(); st.checks++; int ns = 1 + choose(S_WORK, 2); struct Party { const Kem *kb, *ab, *xb; string sk, pk, inbox, ss, ent; u64 due; bool sent, has; }; vector<Party> P(2 * ns); for (auto &p : P) { p.kb = &any_build(); p.ab = &any_build(); p.xb = &any_build(); p.sent = p.has = false; }
    ProcCfg c = draw(true, true, true); u64 cross = choose(S_WORK, 3) == 2; u64 together = choose(S_WORK, 5); vector<u64> order(2 * ns); for (size_t i = 0; i < order.size(); i++) order[i] = i; for (size_t i = order.size() - 1; i > 0; i--) std::swap(order[i], order[i - choose(S_NET, i + 1)]);
    auto gen = [&](int i) { Party &p = P[i]; bool A = i % 2 == 0; const Kem &k = *p.kb; size_t n = A ? k.skA : k.skB; u8 *sk = (u8 *) palloc(n), *pk = (u8 *) palloc(k.kexpk); memset(pk, 0, k.kexpk);   // party B's key may be shorter than the buffer
        size_t e0 = ent_log_size(); int rc = (A ? k.rndA : k.rndB)(sk); p.ent = my_entropy(e0); if (rc) violate("kex-error", "private key generation returned %d", rc);
        p.sk = str(sk, n); check_private(k, A, p.sk, p.ent); rc = (A ? k.genA : k.genB)(sk, pk); if (rc) violate("kex-error", "public key generation of %s returned %d", bname(k).c_str(), rc); if (str(sk, n) != p.sk) violate("kex-input", "public key generation of %s modified the private key", bname(k).c_str()); p.pk = str(pk, k.kexpk);
        if (cross && i < 2) { const Kem &x = *builds[S][C][!k.gen]; u8 *p2 = (u8 *) palloc(x.kexpk); memset(p2, 0, x.kexpk); (A ? x.genA : x.genB)(sk, p2); size_t df = 0, lst = 0; for (size_t j = 0; j < x.kexpk; j++) if (p2[j] != (u8) p.pk[j]) { df++; lst = j; } if (df) violate("kex-builds-differ", "fast and portable builds of %s compute different public keys from one private key (%zu of %zu bytes, last %zu, party %s)", bname(k).c_str(), df, x.kexpk, lst, A ? "A" : "B"); }
        pfree(sk); pfree(pk); Party &o = P[i ^ 1]; u64 d = choose(S_NET, 5) * 700000000ull; if (d) fired(F_DELAY); o.due = now_ns() + d; o.inbox = p.pk; o.sent = true; };
    auto agree = [&](int i) { Party &p = P[i]; bool A = i % 2 == 0; const Kem &k = *p.ab; u8 *sk = buf(p.sk), *pk = buf(p.inbox), *ss = (u8 *) palloc(k.kexss); int rc = (A ? k.agreeA : k.agreeB)(sk, pk, ss); if (rc) violate("kex-error", "agreement of %s returned %d on a genuine public key", bname(k).c_str(), rc); if (str(sk, p.sk.size()) != p.sk || str(pk, p.inbox.size()) != p.inbox) violate("kex-input", "agreement of %s modified its input", bname(k).c_str()); p.ss = str(ss, k.kexss); pfree(sk); pfree(pk); pfree(ss); p.has = true; };
    vector<std::function<void()>> jobs;
    if (together) for (u64 i : order) jobs.push_back([&, i] { gen(i); while (!P[i].sent || P[i].due > now_ns()) sleep_ns(50000000); agree(i); if (choose(S_NET, 6) == 5) { fired(F_DUP); string s0 = P[i].ss; agree(i); if (P[i].ss != s0) violate("kex-disagree", "a repeated public key gave another secret"); } });
    else { vector<u64> o2 = order; for (u64 i : order) jobs.push_back([&, i] { gen(i); }); for (size_t k = o2.size(); k-- > 0;) jobs.push_back([&, k, o2] { agree(o2[k]); }); }
    ProcResult r = in_threads(c, jobs, together); clean("key exchange", r);
    for (int s = 0; s < ns; s++) { Party &a = P[2*s], &b = P[2*s+1]; if (!a.has || !b.has) violate("kex-incomplete", "a session never finished"); if (a.ss != b.ss) violate("kex-disagree", "session %d of %d: %s/%s and %s/%s derive different secrets; mode %d", s, ns, bname(*a.kb).c_str(), bname(*a.ab).c_str(), bname(*b.kb).c_str(), bname(*b.ab).c_str(), c.sched.mode); for (int t = 0; t < s; t++) if (P[2*t].ss == a.ss || P[2*t].sk == a.sk) violate("kex-repeat", "two sessions share a secret"); }
    probe(P_ACCEPTED); note_sample("p%s%s: %d session(s), %s, entropy faults short %.2f errors %.2f: secrets agree", SZ[S], C ? " compressed" : "", ns, together ? "interleaved threads" : "one thread", c.ent.p_short, c.ent.p_err);
}
static const Family kem_families[] = {{"kem", fam_kem, nullptr}, {"reject", fam_reject, nullptr}, {"kex", fam_kex, nullptr}, {nullptr, nullptr, nullptr}};
}
int main(int argc, char **argv) { return sim::sim_main(argc, argv, sim::kem_families); }
