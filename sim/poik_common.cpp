#include "poik_common.h"
#include <unistd.h>
#include <sys/stat.h>
namespace sim {
// commitment and nonce lengths are those of the specification, not of the code under test
ref::Params params() { int b = v.bits; return {b, v.reps, v.width, v.height, b <= 503 ? 32 : b == 610 ? 48 : 64, b <= 503 ? 64 : b == 610 ? 96 : 128}; }
static std::unique_ptr<ref::Model> mdl; static u64 mdl_seed;
ref::Model &model() { if (!mdl) mdl = ref::make(params()); if (mdl_seed != run_seed) { mdl_seed = run_seed; mdl->seed(mix2(run_seed, 77)); } return *mdl; }
vector<PoolProof> pool;

static string fixture(int k) { char b[256]; snprintf(b, sizeof b, "/%d_%d_%d_%d_%d.txt", v.bits, v.reps, v.width, v.height, k); return b; }
static string cache_path(int k) { string d = opts.count("cache") ? opts["cache"] : "/verif/build/cache"; mkdir(d.c_str(), 0755); return d + fixture(k); }
static void set_all(PoolProof &q, const Proof &x, const Proof &y) { q.all.assign(v.reps, vector<Resp>(3)); for (int i = 0; i < v.reps; i++) for (const Proof *p : {(const Proof *) &q.p, &x, &y}) q.all[i][p->resp[i].tag + 1] = p->resp[i]; }
static bool load(int k, PoolProof &q) {
    FILE *f = fopen(((opts.count("fixtures") ? opts["fixtures"] : "/verif/fixtures") + fixture(k)).c_str(), "r"); if (!f) f = fopen(cache_path(k).c_str(), "r"); if (!f) return false; string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    size_t p = t.find("#commitments\n"); if (p == string::npos) return false; q.text = t.substr(0, p); if (!ref::parse(params(), q.text, q.p)) return false; p += 13;
    q.h.clear(); auto unhex = [](const string &s) { string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((char) strtol(s.substr(i, 2).c_str(), 0, 16)); return o; };
    for (int i = 0; i < v.reps; i++) { size_t e = t.find('\n', p); if (e == string::npos) return false; string l = t.substr(p, e - p); size_t s = l.find(' '); q.h.push_back({unhex(l.substr(0, s)), unhex(l.substr(s + 1))}); p = e + 1; }
    while (p < t.size()) { size_t e = t.find('\n', p); if (e == string::npos || t[p] == '#') break; string l = t.substr(p, e - p); if (l[0] == 'E') q.secretE.push_back(unhex(l.substr(2))); if (l[0] == 'K') q.secretK.push_back(unhex(l.substr(2))); p = e + 1; }
    q.all.clear(); size_t a1 = t.find("#alt1\n"), a2 = t.find("#alt2\n"); if (a1 != string::npos && a2 != string::npos) { Proof x, y; if (!ref::parse(params(), t.substr(a1 + 6, a2 - a1 - 6), x) || !ref::parse(params(), t.substr(a2 + 6), y)) return false; set_all(q, x, y); }
    q.lines.clear(); return ref::dump(params(), q.p, &q.lines) == q.text && (int) q.h[0].first.size() == params().hash;
}
static void make(int k, PoolProof &q, const FE &start, u64 secseed, int jobs) {
    ref::Model &m = model(); m.seed(mix2(0x900d, secseed)); ref::Secret s = m.generate(start); m.seed(mix2(0x9003, k)); Proof x, y; q.p = m.prove(s, jobs, k ? nullptr : &x, k ? nullptr : &y); q.all.clear(); if (!k) set_all(q, x, y); q.text = ref::dump(params(), q.p, &q.lines); q.secretE = s.E; q.secretK = s.K;
    q.h.clear(); for (auto &r : q.p.resp) { string a, b, w; if (!m.open(q.p.E0, q.p.E1, r, a, b, &w)) { fprintf(stderr, "reference prover produced an invalid response: %s\n", w.c_str()); _exit(4); } q.h.push_back({a, b}); }
    char tmp[300]; snprintf(tmp, sizeof tmp, "%s.%d", cache_path(k).c_str(), getpid()); FILE *f = fopen(tmp, "w"); if (!f) return; fputs(q.text.c_str(), f); fputs("#commitments\n", f); for (auto &h : q.h) fprintf(f, "%s %s\n", ref::hex(h.first).c_str(), ref::hex(h.second).c_str());
    for (auto &e : s.E) fprintf(f, "E %s\n", ref::hex(e).c_str()); for (auto &e : s.K) fprintf(f, "K %s\n", ref::hex(e).c_str()); if (!k) { fputs("#alt1\n", f); fputs(ref::dump(params(), x).c_str(), f); fputs("#alt2\n", f); fputs(ref::dump(params(), y).c_str(), f); } fclose(f); rename(tmp, cache_path(k).c_str());
}
static void prep(int n) {
    pool.resize(n); FE z(2 * v.fp_bytes, 0); int jobs = (int) opt_u("pooljobs", 8);
    for (int k = 0; k < n; k++) if (!load(k, pool[k])) { if (k < 2) make(k, pool[k], z, 1, jobs); else make(k, pool[k], pool[0].p.E1, k, jobs); }
    mdl_seed = 0;
}
void prepare_pool() { prep(3); }
void prepare_one() { prep(1); }

bool ref_verdict_full(const Proof &q, string *why) { return model().verify(q, why); }
bool ref_verdict(const PoolProof &b, const Proof &q, string *why) {
    ref::Model &m = model(); bool same0 = q.E0 == b.p.E0, same1 = q.E1 == b.p.E1;
    if (!same0 && !m.valid_curve(q.E0)) { if (why) *why = "E0 is not a valid curve"; return false; } if (!same1 && !m.valid_curve(q.E1)) { if (why) *why = "E1 is not a valid curve"; return false; }
    vector<string> h2(v.reps), h3(v.reps);
    for (int i = 0; i < v.reps; i++) { const Resp &r = q.resp[i]; if (r == b.p.resp[i] && (r.tag == 0 || (r.tag < 0 ? same0 : same1))) { h2[i] = b.h[i].first; h3[i] = b.h[i].second; continue; }
        if (same0 && same1 && !b.all.empty() && r.tag >= -1 && r.tag <= 1 && r == b.all[i][r.tag + 1]) { h2[i] = b.h[i].first; h3[i] = b.h[i].second; continue; } string w; if (!m.open(q.E0, q.E1, r, h2[i], h3[i], &w)) { if (why) *why = "response " + std::to_string(i) + ": " + w; return false; } }
    auto c = m.challenge(m.jinv(q.E0), m.jinv(q.E1), h2, h3); for (int i = 0; i < v.reps; i++) if (c[i] != q.resp[i].tag) { if (why) *why = "challenge differs at response " + std::to_string(i); return false; } return true;
}
u64 budget() { return opt_u("budget", 0); }
ProcCfg draw_cfg(int what) {
    ProcCfg c; static u64 n; c.races = what & C_RACE; c.garbage = mix2(run_seed, 0x6a + n) | 1; c.ent.key = mix2(run_seed, 0xe7 + n); n++; c.step_budget = budget();
    if (what & C_SCHED) {
        static const long cpus[] = {4, 1, 2, 3, 5, 8, 16, 33, 64, 4, 2, 8, 16, 1, 100, 256}; c.ncpu = cpus[choose(S_CPU, 16)]; static const u64 means[] = {40, 1, 3, 10, 200, 2000, 30000};
        c.sched.mode = choose(S_WORK, 5); c.sched.mean = means[choose(S_WORK, 7)]; c.sched.starve = choose(S_WORK, 7);
        if (c.sched.mean < 10 && c.sched.mode) { static const u64 z[] = {1, 3, 10}; (void) z; }
    }
    if ((what & C_STALL) && choose(S_WORK, 3) == 1) c.sched.p_stall = 0.15;
    if (what & C_ENT) { u64 k = choose(S_WORK, 8); if (k & 1) c.ent.p_short = 0.05 + 0.1 * (k >> 1); if (k & 2) c.ent.p_err = 0.03; if (k & 4) c.ent.p_open = 0.5; }
    if ((what & C_RARE) && choose(S_WORK, 2)) { // candidate points of tiny order, extreme words, and a block the device happens to repeat for a while
        ref::Model &m = model(); c.ent.p_rare = 0.08; for (int k : {0, 1, -1}) c.ent.inject.push_back(m.mont_repr(k < 0 ? m.neg(m.fe(1, 0)) : m.fe(k, 0)));
        if (choose(S_WORK, 3) == 2) { size_t w = m.mont_repr(m.fe(0, 0)).size(); c.ent.rep = m.rnd(w * (1 + choose(S_ENT, 2))); c.ent.rep_from = choose(S_ENT, 200) * (w / 2); c.ent.rep_to = c.ent.rep_from + c.ent.rep.size() * (1 + choose(S_ENT, 24)); } }
    if (what & C_IO) { static const int bufs[] = {4096, 1, 64, 1000, 65536}; c.io.in_buf = bufs[choose(S_WORK, 5)]; c.io.out_buf = bufs[choose(S_WORK, 5)]; if (choose(S_WORK, 2)) { c.io.p_in_chunk = 0.5; c.io.in_chunk_max = 300; } if (choose(S_WORK, 2)) c.io.p_out_short = 0.3; }
    return c;
}
ProcResult cli_verify(const ProcCfg &c, const string &text) { return run_proc(c, text, [&] { char a0[] = "verify"; char *av[] = {a0, nullptr}; return v.verify_main(1, av); }); }
ProcResult cli_prove(const ProcCfg &c, const string *curve) { return run_proc(c, curve ? *curve : "", [&] { char a0[] = "prove", a1[] = "--initial"; char *av[] = {a0, curve ? nullptr : a1, nullptr}; return v.prove_main(curve ? 1 : 2, av); }); }
string two_lines(const Proof &p) { return ref::dump_fe(p.E0, v.fp_bytes) + ref::dump_fe(p.E1, v.fp_bytes); }
FE load_fe(const void *p) { return FE((const char *) p, v.sz_fp2); }
void store_fe(void *p, const FE &x) { memcpy(p, x.data(), v.sz_fp2); }
bool api_parse(const string &t, void *prf) { string c = t; FILE *f = fmemopen(&c[0], c.size(), "r"); if (!f) sim_error("fmemopen"); bool ok = v.Parse(f, prf); fclose(f); return ok; }
string api_dump(const void *prf) { char *b = nullptr; size_t n = 0; FILE *f = open_memstream(&b, &n); bool ok = v.Dump(f, prf); fclose(f); string s(b, n); free(b); return ok ? s : string(); }
bool verify_in_process(void *prf) { return v.Verify(prf); }
void require_clean(const char *what, const ProcResult &r) {
    switch (r.kind) { case X_CRASH: case X_MEMORY: violate("crash", "%s: %s", what, r.status().c_str()); case X_BUDGET: violate("hang", "%s did not terminate: %s", what, r.status().c_str()); case X_DEADLOCK: violate("deadlock", "%s: %s", what, r.status().c_str()); default: break; }
}
FE draw_start_curve(bool special, string *what) {
    ref::Model &m = model(); u64 k = choose(S_WORK, special ? 8 : 4); FE z = m.fe(0, 0);
    auto from_pool = [&]() -> FE { if (pool.empty()) { FE e; m.walk(z, 2, 1, e); return e; } const PoolProof &q = pool[choose(S_WORK, pool.size())]; u64 w = choose(S_WORK, 2 + q.p.resp.size()); if (w == 0) return q.p.E0; if (w == 1) return q.p.E1; const Resp &r = q.p.resp[w - 2]; return r.tag == 0 ? r.E2 : q.p.E1; };
    switch (k) {
    case 0: *what = "initial curve"; return z;
    case 1: *what = "reachable curve"; return from_pool();
    case 2: { *what = "fresh reachable curve"; FE e; m.walk(from_pool(), 3, 1, e); return e; }
    case 3: *what = "end curve of a link"; return pool.empty() ? from_pool() : pool[0].p.E1;
    case 4: { *what = "other Montgomery model"; auto mm = m.models(from_pool()); return mm[choose(S_WORK, mm.size())]; }
    case 5: *what = "Galois conjugate"; return m.conj(from_pool());
    case 6: { // curves with coefficients in the prime field
        *what = "subfield curve"; FE c = m.fe(6, 0); if (choose(S_WORK, 2)) c = m.neg(c); return m.valid_curve(c) ? c : z; }
    default: { *what = "curve with extra automorphisms"; FE s3 = m.sqrt(m.fe(3, 0)); if (choose(S_WORK, 2)) s3 = m.neg(s3); return m.valid_curve(s3) ? s3 : z; }
    }
}
}
