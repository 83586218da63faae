// Families for the proof system: C06-C14.
#include "poik_common.h"
namespace sim {

static string strip_progress(const string &e) { string o; for (size_t i = 0; i < e.size(); i++) { if (e[i] == '\r') { if (e.compare(i, 4, "\r\x1b[K") == 0) { i += 3; while (i + 1 < e.size() && (e[i+1] == '=' || e[i+1] == '>' || e[i+1] == '.' || e[i+1] == 0)) i++; } continue; } o += e[i]; } return o; }
static FE zero_fe() { return FE(2 * v.fp_bytes, 0); }

// ---------------------------------------------------------------- C06
void fam_output() {
    bool prv = choose(S_WORK, v.reps > 50 ? 1 : 2); ProcCfg c = draw_cfg(C_IO); c.ncpu = 1; bool multi = prv && choose(S_WORK, 4) == 3; if (multi) { ProcCfg s = draw_cfg(C_SCHED); c.sched = s.sched; c.ncpu = s.ncpu; } else if (!prv) { ProcCfg s = draw_cfg(C_SCHED | C_STALL); c.sched = s.sched; c.ncpu = s.ncpu; }
    string expect; u64 steps = 0; const string &text = pool[0].text; ProcCfg h = c; h.io = IoCfg();
    if (prv) { ProcResult r = cli_prove(h, nullptr); require_clean("prove", r); if (!r.ok()) violate("output-control", "prove failed without faults: %s", r.status().c_str()); expect = r.out; steps = r.steps; Proof p; if (!ref::parse(params(), r.out, p) || ref::dump(params(), p) != r.out) violate("output-control", "prove exited 0 but its output (%zu bytes) is not a complete proof", r.out.size()); }
    else { expect = two_lines(pool[0].p); steps = 2000000; }
    size_t N = expect.size(); auto where = [&]() -> u64 { switch (choose(S_OUT, 7)) { case 5: case 6: { vector<size_t> nl; for (size_t i = 0; i < N; i++) if (expect[i] == '\n' || expect[i] == ',') nl.push_back(i); return nl[choose(S_OUT, nl.size())]; } case 0: return choose(S_OUT, N + 1); case 1: return N - 1 - choose(S_OUT, std::min<size_t>(N, 3)); case 2: return N - choose(S_OUT, std::min<size_t>(N, 4096)); case 3: { size_t b = c.io.out_buf > 1 ? c.io.out_buf : 1; u64 k = choose(S_OUT, N / b + 1) * b; return k; } default: { // at the start of a line
        vector<size_t> st_; st_.push_back(0); for (size_t i = 0; i + 1 < N; i++) if (expect[i] == '\n') st_.push_back(i + 1); return st_[choose(S_OUT, st_.size())]; } } };
    static const int errs[] = {5, 28, 32, 122, 11, 4, 27}; string what = "no fault"; u64 k = choose(S_WORK, 13);
    switch (k) {
    case 1: c.io.out_full_at = where(); what = "disk full"; break; case 2: c.io.out_err_at = where(); c.io.out_errno = errs[choose(S_OUT, 7)]; what = "write error"; break;
    case 3: case 4: case 5: c.io.out_err_at = where(); c.io.out_err_times = 1 + choose(S_OUT, 3); c.io.out_errno = errs[choose(S_OUT, 7)]; switch (choose(S_WORK, 4)) { case 0: break; case 1: c.io.out_buf = c.io.out_err_at > 1 && c.io.out_err_at < 65536 ? c.io.out_err_at : 4096; break; default: c.io.out_buf = 1; } what = "transient write error"; break;
    case 6: c.kill_out_at = where(); what = "killed during a write"; break; case 7: c.kill_at = choose(S_KILL, steps + 1); what = "killed"; break;
    case 8: c.oom_at = choose(S_MEM, 4); what = "allocation failure"; break; case 9: c.thread_fail_at = choose(S_MEM, 2 * std::max(1l, c.ncpu) + 1); what = "thread creation failure"; break;
    case 10: c.io.err_fails = true; what = "stderr fails"; break; case 11: c.io.err_fails = true; c.io.out_full_at = where(); what = "both streams fail"; break; case 12: c.io.out_full_at = N - 1; c.io.out_buf = 65536; what = "last byte does not fit"; break; default: break; }
    ProcResult r = prv ? cli_prove(c, nullptr) : cli_verify(c, text); require_clean(prv ? "prove" : "verify", r); st.checks++;
    bool complete = r.out == expect; if (multi) { Proof p; string why; complete = ref::parse(params(), r.out, p) && ref::dump(params(), p) == r.out && (!r.ok() || ref_verdict_full(p, &why)); }
    bool hard = r.out_fault || r.oom || r.thread_fault || r.killed || r.in_fault;
    if (r.ok() && !complete) violate("incomplete-output", "%s exited 0 but only %zu of %zu expected bytes are as they should be (%s, buffer %zu)", prv ? "prove" : "verify", r.out.size(), N, what.c_str(), c.io.out_buf);
    if (!hard && !complete) violate("wrong-output", "%s wrote other bytes than without faults (%s): %zu instead of %zu", prv ? "prove" : "verify", what.c_str(), r.out.size(), N);
    if (!hard && !r.err_fault && !r.ok()) violate("spurious-failure", "%s failed although nothing went wrong: %s", prv ? "prove" : "verify", r.status().c_str());
    note_sample("%s, %s at %llu/%zu, buffer %zu, %ld cpus -> %s", prv ? "prove" : "verify", what.c_str(), (unsigned long long) std::min({c.io.out_full_at, c.io.out_err_at, c.kill_out_at}), N, c.io.out_buf, c.ncpu, r.status().c_str());
}

// ---------------------------------------------------------------- C07
static string hostile_fe(string *w) {
    ref::Model &m = model(); int n = v.fp_bytes; switch (choose(S_WORK, 9)) {
    case 0: *w += "0 "; return m.fe(0, 0); case 1: *w += "1 "; return m.fe(1, 0); case 2: *w += "2 "; return m.fe(2, 0); case 3: *w += "-2 "; return m.neg(m.fe(2, 0)); case 4: *w += "ff "; return FE(2 * n, (char) 0xff); case 5: *w += "rnd "; return m.rnd(2 * n);
    case 6: { *w += "p "; FE z = m.neg(m.fe(1, 0)); z[0] = (char) (z[0] + 1); return z; } // the modulus itself (p = -1 mod 2^e2)
    case 7: *w += "i "; return m.fe(0, 1 + choose(S_WORK, 3)); default: *w += "random element "; return m.reduce(m.rnd(2 * n)); }
}
void fam_hostile() {
    ref::Model &m = model(); ref::Params P = params(); bool prv = choose(S_WORK, 4) == 3; string t, what; ProcCfg c = draw_cfg(C_SCHED | C_IO | C_STALL); if (c.ncpu > 8) c.ncpu = 8; c.time_budget = 3600ull * 1000000000ull;
    if (prv) {
        switch (choose(S_WORK, 10)) { case 0: what = "empty input"; break; case 1: t = m.rnd(choose(S_WORK, 400)); what = "garbage"; break; case 2: t = ref::dump_fe(hostile_fe(&what), v.fp_bytes); what = "curve " + what; break; case 3: { t = ref::dump_fe(pool[0].p.E1, v.fp_bytes); t.resize(choose(S_WORK, t.size())); what = "truncated curve"; break; }
        case 4: { t = ref::dump_fe(pool[0].p.E1, v.fp_bytes); size_t k = choose(S_WORK, t.size()); t[k] ^= 1 << choose(S_WORK, 8); what = "curve with a flipped bit"; break; } case 5: { t = ref::dump_fe(pool[0].p.E1, v.fp_bytes); c.io.in_err_at = choose(S_IN, t.size()); what = "read error"; break; } case 8: case 9: t = ref::dump_fe(pool[choose(S_WORK, pool.size())].p.E1, v.fp_bytes); if (!misspell(t, &what)) what = "curve"; break; case 6: { t = ref::dump_fe(pool[0].p.E1, v.fp_bytes); size_t k = choose(S_WORK, t.size()); t.insert(k, string(1, "x,0 \n-g"[choose(S_WORK, 7)])); what = "inserted character"; break; } default: t = "0x" + string(choose(S_WORK, 3000), '0') + ",0x1"; what = "overlong number"; }
    } else {
        const PoolProof &b = pool[choose(S_WORK, pool.size())]; t = b.text;
        switch (choose(S_WORK, 14)) { case 12: case 13: if (!misspell(t, &what)) what = "none"; break; case 0: t = ""; what = "empty input"; break; case 1: t = m.rnd(choose(S_WORK, 3000)); what = "garbage"; break;
        case 2: t.resize(choose(S_WORK, t.size())); what = "truncated"; break; case 3: c.io.in_err_at = choose(S_IN, t.size()); static const int er[] = {5, 4, 21}; c.io.in_errno = er[choose(S_IN, 3)]; what = "read error"; break; case 4: c.io.in_eof_at = choose(S_IN, t.size()); what = "early end of input"; break;
        case 5: { static const char *tags[] = {"2", "-2", "3", "1000000", "99999999999999999999", "-1x", "x", "", "4294967295", "4294967296", "0x1", "1.5"}; Proof q = b.p; size_t i = choose(S_WORK, v.reps), ln = 0, k = 2; for (size_t j = 0; j < i; j++) k += 3 + (q.resp[j].tag == 0) + q.resp[j].x.size(); ln = k; t.replace(b.lines[ln].first, b.lines[ln].second, string(tags[choose(S_WORK, 12)]) + "\n"); what = "bad tag"; break; }
        case 6: case 7: case 8: { Proof q = b.p; int n = 1 + choose(S_WORK, 4); for (int k = 0; k < n; k++) { size_t i = choose(S_WORK, v.reps); Resp &r = q.resp[i]; switch (choose(S_WORK, 5)) { case 0: q.E0 = hostile_fe(&what); break; case 1: q.E1 = hostile_fe(&what); break; case 2: if (r.tag == 0) { r.E2 = hostile_fe(&what); break; } default: r.x[choose(S_WORK, r.x.size())] = hostile_fe(&what); } } t = ref::dump(P, q); what = "field values " + what; break; }
        case 9: { Proof q = b.p; FE z = hostile_fe(&what); q.E0 = z; q.E1 = z; for (auto &r : q.resp) { if (r.tag == 0) r.E2 = z; for (auto &x : r.x) x = z; } t = ref::dump(P, q); what = "every field " + what; break; }
        case 10: { int n = 1 + choose(S_WORK, 6); for (int k = 0; k < n; k++) { size_t p = choose(S_WORK, t.size()); t[p] = (char) choose(S_WORK, 256); } what = "bytes overwritten"; break; }
        default: { size_t p = choose(S_WORK, t.size()); t.insert(p, string(choose(S_WORK, 5000), "0 \n\tf-"[choose(S_WORK, 6)])); what = "long run inserted"; } } }
    string eff = t.substr(0, std::min<u64>({(u64) t.size(), c.io.in_err_at, c.io.in_eof_at})); bool valid = false, either = false; string why;
    if (prv) { FE a; size_t p = 0; if (ref::parse_fe(v.fp_bytes, eff, p, a)) { if (!m.canonical_enc(a)) either = true; else valid = m.valid_curve(a); } } else { Proof q; if (ref::parse(P, eff, q)) { bool canon = m.canonical_enc(q.E0) && m.canonical_enc(q.E1); for (auto &r : q.resp) { if (r.tag == 0) canon = canon && m.canonical_enc(r.E2); for (auto &x : r.x) canon = canon && m.canonical_enc(x); } if (!canon) either = true; else valid = ref_verdict_full(q, &why); } }
    ProcResult r = prv ? cli_prove(c, &t) : cli_verify(c, t); require_clean(prv ? "prove" : "verify", r); st.checks++; fired(F_TAMPER); const char *pn = prv ? "prove" : "verify";
    if (r.kind == X_ABORT) violate("hostile-abort", "%s aborted on %s: %s %s", pn, what.c_str(), r.what.c_str(), strip_progress(r.err).substr(0, 150).c_str());
    if (r.kind != X_RETURN && r.kind != X_EXIT) violate("hostile-crash", "%s on %s: %s", pn, what.c_str(), r.status().c_str());
    if (r.code == 0) { if (!valid && !either) violate("hostile-accepted", "%s exited 0 on %s", pn, what.c_str()); }
    else { if (!r.out.empty()) violate("hostile-output", "%s refused %s but printed %zu bytes", pn, what.c_str(), r.out.size()); if (strip_progress(r.err).empty()) violate("hostile-silent", "%s refused %s without a diagnostic", pn, what.c_str()); }
    probe(r.code ? P_REJECTED : P_ACCEPTED); note_sample("%s: %s -> exit %d, '%s'", pn, what.substr(0, 200).c_str(), r.code, strip_progress(r.err).substr(0, 60).c_str());
}

// ---------------------------------------------------------------- entropy bookkeeping (C08, C09)
static vector<std::pair<string,string>> taps; static void tap_fn(const u8 *i, size_t il, const u8 *o, size_t ol) { taps.push_back({string((const char *) i, il), string((const char *) o, ol)}); }
struct Fresh {      // where in the delivered entropy a value lies
    std::map<u64, string> per; std::map<u64, vector<std::pair<u64,u64>>> seg; string all;
    Fresh(const ProcResult &r) { all = r.ent_bytes; for (auto &e : r.ent) { string &s = per[e.seq]; seg[e.seq].push_back({s.size(), e.off}); s.append(r.ent_bytes, e.off, e.len); } }
    bool find(const string &x, vector<std::pair<u64,u64>> &iv) const { // intervals of the global stream
        size_t p = all.find(x); if (p != string::npos) { iv.push_back({p, p + x.size()}); return true; }
        for (auto &q : per) { p = q.second.find(x); if (p == string::npos) continue; auto &sg = seg.at(q.first); for (size_t i = 0; i < sg.size(); i++) { u64 a = sg[i].first, b = i + 1 < sg.size() ? sg[i+1].first : q.second.size(); u64 lo = std::max<u64>(a, p), hi = std::min<u64>(b, p + x.size()); if (lo < hi) iv.push_back({sg[i].second + lo - a, sg[i].second + hi - a}); } return true; }
        for (size_t k = 0; k < x.size();) { size_t best = 0, bp = 0; for (size_t len = std::min<size_t>(x.size() - k, 64); len >= 8 || len == x.size() - k; len--) { p = all.find(x.substr(k, len)); if (p != string::npos) { best = len; bp = p; break; } if (len == 1) break; } if (!best) return false; iv.push_back({bp, bp + best}); k += best; }
        return true; }
};
struct Nonce { string r; string where; };
static vector<Nonce> nonces_of(const Proof &p, const string &tag) { vector<Nonce> o; for (size_t i = 0; i < p.resp.size(); i++) { const Resp &r = p.resp[i]; string w = tag + " response " + std::to_string(i); if (r.tag <= 0) o.push_back({r.a, w + " r2"}); if (r.tag >= 0) o.push_back({r.b, w + " r3"}); } return o; }
static string unopened_nonce(const string &h) { for (auto &t : taps) if (t.second.size() >= h.size() && t.second.compare(0, h.size(), h) == 0 && (int) t.first.size() > params().hide) return t.first.substr(1, params().hide); return ""; }
static vector<Nonce> hidden_nonces(const Proof &p, const string &tag) { vector<Nonce> o; for (size_t i = 0; i < p.resp.size(); i++) { const Resp &r = p.resp[i]; string n, w = tag + " response " + std::to_string(i); if (r.tag < 0) { n = unopened_nonce(r.b); if (n.size()) o.push_back({n, w + " hidden r3"}); } if (r.tag > 0) { n = unopened_nonce(r.a); if (n.size()) o.push_back({n, w + " hidden r2"}); } } return o; }

// ---------------------------------------------------------------- C08
void fam_entropy() {
    st.checks++; u64 mode = choose(S_WORK, 4);
    if (mode == 0) {            // one worker: the result is a function of the delivered bytes only
        ProcCfg c = draw_cfg(0); c.ncpu = 1; ProcResult h = cli_prove(c, nullptr); require_clean("prove", h); if (!h.ok()) violate("entropy-control", "prove failed with a healthy source: %s", h.status().c_str());
        ProcCfg d = draw_cfg(C_STALL); d.ncpu = 1; d.ent = c.ent; u64 k = 1 + choose(S_WORK, 7); static const double ps[] = {0.02, 0.2, 0.8}; if (k & 1) d.ent.p_short = ps[choose(S_WORK, 3)]; if (k & 2) d.ent.p_err = ps[choose(S_WORK, 2)]; if (k & 4) d.ent.p_open = 0.6;
        ProcResult r = cli_prove(d, nullptr); require_clean("prove", r); if (!r.ok()) violate("entropy-fault-fatal", "prove failed under retryable entropy faults: %s %s", r.status().c_str(), r.err.substr(0, 80).c_str());
        if (r.out != h.out) { size_t i = 0; while (i < r.out.size() && i < h.out.size() && r.out[i] == h.out[i]) i++; violate("entropy-differs", "proof under entropy faults (%s%s%s) differs from the healthy one at byte %zu of %zu: undelivered bytes were used or delivered ones dropped", k & 1 ? "short " : "", k & 2 ? "errors " : "", k & 4 ? "open" : "", i, h.out.size()); }
        note_sample("one worker, faults %s%s%s: same proof, %llu bytes of entropy, %.1f simulated s", k & 1 ? "short " : "", k & 2 ? "errors " : "", k & 4 ? "open" : "", (unsigned long long) r.ent_total, r.ns / 1e9); return;
    }
    if (mode == 1) {            // outage: nothing is produced
        ProcCfg c = draw_cfg(C_SCHED | C_STALL); if (c.ncpu > 8) c.ncpu = 8; ProcResult h; u64 tot; { ProcCfg d = c; d.sched = SchedCfg(); h = cli_prove(d, nullptr); require_clean("prove", h); tot = h.ent_total; }
        bool never = choose(S_WORK, 6) == 5; if (never) c.ent.never_opens = true; else { u64 k = choose(S_WORK, 3); c.ent.outage_at = k == 0 ? choose(S_ENT, tot) : k == 1 ? tot - 1 - choose(S_ENT, std::min<u64>(tot, 200)) : choose(S_ENT, std::min<u64>(tot, 200)); if (c.ncpu > 1 && c.ent.outage_at > tot / 2) c.ent.outage_at = tot / 2; }
        c.time_budget = 600ull * 1000000000ull; ProcResult r = cli_prove(c, nullptr); if (r.kind == X_CRASH || r.kind == X_MEMORY) require_clean("prove", r);
        if (!r.out.empty()) violate("outage-output", "prove wrote %zu bytes (%s) although the entropy source failed for good after %llu bytes", r.out.size(), r.status().c_str(), (unsigned long long) c.ent.outage_at); if (r.ok()) violate("outage-success", "prove exited 0 during a permanent entropy outage");
        probe(P_REJECTED); note_sample("%s after %llu of %llu bytes: no output, %s", never ? "source never opens" : "outage", (unsigned long long) (never ? 0 : c.ent.outage_at), (unsigned long long) tot, r.status().c_str()); return;
    }
    // freshness and disjointness over threads, repetitions, successive proofs
    ProcCfg c = draw_cfg(C_SCHED | C_ENT | C_STALL); int np = 1 + choose(S_WORK, 2); vector<string> texts; taps.clear(); shake_tap = tap_fn; bool gen_ok = true;
    ProcResult r = run_proc(c, "", [&] { void *sec = palloc(v.sz_secret), *prf = palloc(v.sz_proof), *e = palloc(v.sz_fp2); store_fe(e, zero_fe()); if (!v.Generate(e, sec)) { gen_ok = false; return 1; } for (int k = 0; k < np; k++) { v.Prove(sec, prf); texts.push_back(api_dump(prf)); } return 0; }); shake_tap = nullptr;
    require_clean("Prove", r); if (!r.ok()) violate("entropy-fault-fatal", "proving failed under retryable entropy faults: %s", r.status().c_str());
    Fresh f(r); vector<Nonce> ns; for (int k = 0; k < np; k++) { Proof p; if (!ref::parse(params(), texts[k], p)) violate("entropy-control", "unreadable proof"); for (auto &n : nonces_of(p, "proof " + std::to_string(k))) ns.push_back(n); for (auto &n : hidden_nonces(p, "proof " + std::to_string(k))) ns.push_back(n); }
    struct Iv { u64 a, b; int n; }; vector<Iv> ivs;
    for (size_t i = 0; i < ns.size(); i++) { vector<std::pair<u64,u64>> iv; if (!f.find(ns[i].r, iv)) violate("nonce-not-fresh", "%s does not consist of delivered entropy (%s...); %ld cpus", ns[i].where.c_str(), ref::hex(ns[i].r.substr(0, 16)).c_str(), c.ncpu); for (auto &x : iv) ivs.push_back({x.first, x.second, (int) i}); }
    std::sort(ivs.begin(), ivs.end(), [](const Iv &x, const Iv &y) { return x.a < y.a; }); for (size_t i = 1; i < ivs.size(); i++) if (ivs[i].a < ivs[i-1].b && ivs[i].n != ivs[i-1].n) violate("nonce-reused", "%s and %s use the same delivered entropy; %ld cpus", ns[ivs[i-1].n].where.c_str(), ns[ivs[i].n].where.c_str(), c.ncpu);
    probe(P_ACCEPTED); note_sample("%d proof(s), %ld cpus, %zu nonces traced to disjoint ranges of %zu delivered bytes in %zu reads", np, c.ncpu, ns.size(), r.ent_bytes.size(), r.ent.size());
}

// ---------------------------------------------------------------- C09
struct ZkRun { vector<string> text; vector<FE> E, K; ProcResult r; vector<u64> ends; };
static ZkRun zk_run(const ProcCfg &c, int np, const FE &start) {
    ZkRun z; taps.clear(); shake_tap = tap_fn;
    z.r = run_proc(c, "", [&] { void *sec = palloc(v.sz_secret), *prf = palloc(v.sz_proof), *e = palloc(v.sz_fp2); store_fe(e, start); if (!v.Generate(e, sec)) return 1; for (int i = 0; i <= v.width; i++) z.E.push_back(load_fe((char *) sec + v.off_E + i * v.sz_fp2)); for (int i = 0; i < v.width; i++) z.K.push_back(load_fe((char *) sec + v.off_P + i * v.sz_fp2)); z.ends.push_back(ent_pos()); for (int k = 0; k < np; k++) { v.Prove(sec, prf); z.text.push_back(api_dump(prf)); z.ends.push_back(ent_pos()); } return 0; });
    shake_tap = nullptr; require_clean("Prove", z.r); if (!z.r.ok()) violate("zk-control", "proving failed: %s", z.r.status().c_str()); return z;
}
static Proof must_parse(const string &t) { Proof p; if (!ref::parse(params(), t, p)) violate("zk-control", "unreadable proof (%zu bytes)", t.size()); if (ref::dump(params(), p) != t) violate("zk-extra", "the proof text holds more than the published fields (%zu bytes)", t.size()); return p; }
static bool same_commitments(const Proof &a, const Proof &b) { if (a.E0 != b.E0 || a.E1 != b.E1) return false; for (size_t i = 0; i < a.resp.size(); i++) if (a.resp[i].tag != b.resp[i].tag || a.resp[i].a != b.resp[i].a || a.resp[i].b != b.resp[i].b || a.resp[i].E2 != b.resp[i].E2 || (a.resp[i].tag != 0 && a.resp[i].x != b.resp[i].x)) return false; return true; }
// r = a/b mod 2^e with |a|, |b| < 2^bound?  (shortest vector of the lattice {(x, y): x = r y mod 2^e} by Euclid's algorithm on bit strings)
typedef vector<u8> Bits;
static int bcmp(const Bits &a, const Bits &b) { for (size_t i = a.size(); i--;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
static size_t blen(const Bits &a) { size_t n = a.size(); while (n && !a[n-1]) n--; return n; }
static void bsub(Bits &a, const Bits &b, size_t sh) { int br = 0; for (size_t i = sh; i < a.size(); i++) { int d = a[i] - b[i - sh] - br; a[i] = d & 1; br = d < 0; } }
static void badd(Bits &a, const Bits &b, size_t sh) { int c = 0; for (size_t i = sh; i < a.size(); i++) { int d = a[i] + b[i - sh] + c; a[i] = d & 1; c = d >> 1; } }
static bool small_ratio(const Bits &r, size_t bound) { // half-extended Euclid: remainders fall while cofactors grow
    size_t e = r.size(), w = e + 2; Bits r0(w, 0), r1(r), t0(w, 0), t1(w, 0); r0[e] = 1; r1.resize(w, 0); t1[0] = 1;
    while (blen(r1) > bound) { while (bcmp(r0, r1) >= 0) { size_t sh = blen(r0) - blen(r1); Bits x(w, 0); for (size_t i = w; i-- > sh;) x[i] = r1[i - sh]; if (bcmp(x, r0) > 0) sh--; bsub(r0, r1, sh); badd(t0, t1, sh); } std::swap(r0, r1); std::swap(t0, t1); }
    return blen(t1) <= bound; // cofactors alternate in sign, so magnitudes add
}
void fam_zk() {
    ref::Model &m = model(); st.checks++; u64 mode = choose(S_WORK, 3); FE start = zero_fe(); if (choose(S_WORK, 2)) { m.walk(start, 3, 1, start); }
    if (mode <= 1) {
        ProcCfg c = draw_cfg(C_SCHED | C_ENT | C_STALL); ZkRun z = zk_run(c, 2, start); vector<Proof> ps; for (auto &t : z.text) ps.push_back(must_parse(t));
        std::map<string, string> seen; auto put = [&](const string &x, const string &w) { auto it = seen.find(x); if (it != seen.end()) violate("zk-shared-value", "%s equals %s; %ld cpus", w.c_str(), it->second.c_str(), c.ncpu); seen[x] = w; };
        std::map<string, string> secret; for (int i = 0; i <= v.width; i++) { for (auto &q : m.models(z.E[i])) { if (i > 0 && i < v.width) secret[q] = "secret curve " + std::to_string(i); else secret[q] = i ? "end curve" : "start curve"; } } for (int i = 0; i < v.width; i++) for (auto &q : m.model_points(z.E[i], z.K[i])) secret[q] = "secret kernel point " + std::to_string(i);
        vector<Nonce> all;
        for (int k = 0; k < 2; k++) { for (int i = 0; i < v.reps; i++) { const Resp &r = ps[k].resp[i]; string w = "proof " + std::to_string(k) + " response " + std::to_string(i) + " (tag " + std::to_string(r.tag) + ")"; put(r.a, w + " first field"); put(r.b, w + " second field"); if (r.tag == 0) { put(r.E2, w + " E2"); auto s = secret.find(r.E2); if (s != secret.end()) violate("zk-secret", "%s E2 is the %s", w.c_str(), s->second.c_str()); } for (size_t j = 0; j < r.x.size(); j++) { put(r.x[j], w + " kernel " + std::to_string(j)); auto s = secret.find(r.x[j]); if (s != secret.end()) violate("zk-secret", "%s kernel %zu is the %s", w.c_str(), j, s->second.c_str()); } }
            for (auto &n : nonces_of(ps[k], "proof " + std::to_string(k))) all.push_back(n); for (auto &n : hidden_nonces(ps[k], "proof " + std::to_string(k))) all.push_back(n); }
        std::map<string, string> chunk; for (auto &n : all) for (size_t o = 0; o + 16 <= n.r.size(); o += 16) { string x = n.r.substr(o, 16); auto it = chunk.find(x); if (it != chunk.end()) violate("zk-nonce-shared", "%s and %s share 16 bytes: a published nonce discloses one that must stay hidden or repeats", n.where.c_str(), it->second.c_str()); chunk[x] = n.where; }
        probe(P_ACCEPTED); note_sample("two proofs of one secret, %ld cpus: %zu distinct values, %zu nonces, none secret", c.ncpu, seen.size(), all.size()); return;
    }
    // generators of opened 2-walks depend on entropy that influences nothing else
    ProcCfg c = draw_cfg(0); c.ncpu = 1; ZkRun z = zk_run(c, 1, start); Proof p = must_parse(z.text[0]); int nb = 0; for (auto &r : p.resp) nb += r.tag == 0; if (!nb) { note_sample("no opened 2-walk in this proof"); return; }
    u64 lo = z.ends[0], hi = z.ends[1]; auto with = [&](u64 a, u64 b, u64 key) { ProcCfg d = c; d.ent.flip_at = a; d.ent.flip_end = b; d.ent.flip_key = mix2(c.ent.key, key); return must_parse(zk_run(d, 1, start).text[0]); };
    while (lo < hi) { u64 mid = (lo + hi) / 2; if (same_commitments(with(mid, ~0ull, 5), p)) hi = mid; else lo = mid + 1; }
    Proof q = with(lo, ~0ull, 5); vector<std::pair<int,int>> stuck; for (size_t i = 0; i < p.resp.size(); i++) if (p.resp[i].tag == 0) for (int k = 0; k < v.width; k++) if (p.resp[i].x[k] == q.resp[i].x[k]) stuck.push_back({(int) i, k});
    if (!stuck.empty()) { // the randomness may have been drawn earlier: look for any single read that re-randomises the generator alone
        vector<std::pair<u64,u64>> reads; for (auto &e : z.r.ent) if (e.off >= z.ends[0]) reads.push_back({e.off, e.off + e.len}); for (auto &rd : reads) { if (stuck.empty()) break; Proof t = with(rd.first, rd.second, 9); if (t.resp.size() != p.resp.size()) continue; for (size_t s = 0; s < stuck.size();) { auto [i, k] = stuck[s]; if (t.resp[i].tag == 0 && t.resp[i].E2 == p.resp[i].E2 && t.resp[i].a == p.resp[i].a && t.resp[i].b == p.resp[i].b && t.resp[i].x[k] != p.resp[i].x[k]) stuck.erase(stuck.begin() + s); else s++; } }
        if (!stuck.empty()) violate("zk-generator", "kernel %d of opened 2-walk %d is published without fresh randomisation: no entropy changes it while its curve and nonces stay the same", stuck[0].second, stuck[0].first);
        note_sample("generators randomised before the challenge"); return; }
    // the ratio of two independent randomisers of one generator is r = s'/s mod 2^e2, up to sign: it must not repeat over generators, nor come from short or mostly fixed randomisers
    std::map<string, string> ratios; int done = 0, fixed_low = 0, off = choose(S_WORK, nb), seen_b = 0;
    for (size_t i = 0; i < p.resp.size() && done < 6; i++) { if (p.resp[i].tag != 0 || seen_b++ < off - 1) continue; FE A = p.resp[i].E2, B, back;
        for (int k = 0; k < v.width && done < 6; k++) { vector<u8> b; string w = "kernel " + std::to_string(k) + " of opened 2-walk " + std::to_string(i); if (!m.dlog2(A, p.resp[i].x[k], q.resp[i].x[k], b)) violate("zk-generator-subgroup", "%s: another randomisation generates another kernel", w.c_str());
            done++; size_t e = b.size(); auto neg = [](vector<u8> x) { int c = 1; for (auto &d : x) { int t = (d ^ 1) + c; d = t & 1; c = t >> 1; } return x; }; vector<u8> n = neg(b); string key = std::min(string(b.begin(), b.end()), string(n.begin(), n.end()));
            auto it = ratios.find(key); if (it != ratios.end()) violate("zk-generator-shared", "%s and %s are published through the same multiple", w.c_str(), it->second.c_str()); ratios[key] = w;
            bool low = true; for (size_t t = 1; t < 33; t++) low &= b[t] == b[1]; fixed_low += low;
            size_t bound = e / 2 - 24; if (small_ratio(b, bound)) violate("zk-generator-entropy", "%s is published through a multiple drawn from fewer than 2^%zu values", w.c_str(), bound);
            if (k + 1 < v.width && !m.step(A, p.resp[i].x[k], 2, B, back)) violate("zk-control", "%s has the wrong order", w.c_str()); A = B; } }
    if (done >= 3 && fixed_low == done) violate("zk-generator-entropy", "the low 32 bits of the multiples of all %d generators do not depend on fresh entropy", done);
    probe(P_ACCEPTED); note_sample("%d opened 2-walks: all %d generators change with the last %llu of %llu entropy bytes, nothing else does", nb, nb * v.width, (unsigned long long) (z.ends[1] - lo), (unsigned long long) z.ends[1]);
}

// ---------------------------------------------------------------- C10
void fam_race() {
    ProcCfg c = draw_cfg(C_SCHED | C_ENT | C_STALL | C_RACE); if (c.ncpu == 1) c.ncpu = 2 + choose(S_CPU, 4); u64 mode = choose(S_WORK, 4); st.checks++; string desc; ProcResult r;
    if (mode == 0) { const PoolProof &b = pool[choose(S_WORK, pool.size())]; string what = "valid proof"; Proof q = b.p; if (u64 k = choose(S_WORK, 4)) { q = alter(b, &what); if (k > 1 && !q.resp.empty()) { int n = 0; for (auto &x : q.resp) if (!x.x.empty() && (k == 3 || choose(S_WORK, 2))) { x.x[choose(S_WORK, x.x.size())][choose(S_WORK, 20)] ^= 1 + choose(S_WORK, 200); n++; } what += ", " + std::to_string(n) + " invalid responses"; } }
        r = cli_verify(c, ref::dump(params(), q)); desc = "verify " + what; }
    else if (mode == 1) { r = cli_prove(c, nullptr); desc = "prove"; if (r.ok()) { Proof p; string why; if (!ref::parse(params(), r.out, p)) violate("race-proof", "unreadable proof"); if (v.reps <= 20 && !ref_verdict_full(p, &why)) violate("race-proof", "a repetition was skipped or overwritten: %s (%ld cpus, mode %d)", why.c_str(), c.ncpu, c.sched.mode); } }
    else { // workers are the first users of the entropy source; then verify in the same process
        string sec0; ProcCfg g = draw_cfg(0); run_proc(g, "", [&] { void *s = palloc(v.sz_secret), *e = palloc(v.sz_fp2); store_fe(e, zero_fe()); if (v.Generate(e, s)) sec0.assign((char *) s, v.sz_secret); return 0; }); if (sec0.empty()) violate("race-proof", "Generate failed");
        bool ok = true, two = choose(S_WORK, 2); string text; r = run_proc(c, "", [&] { void *s = palloc(v.sz_secret), *p = palloc(v.sz_proof); memcpy(s, sec0.data(), sec0.size()); *v.progress = two ? sim_err() : nullptr; v.Prove(s, p); if (mode == 3) ok = v.Verify(p); if (two) { v.Prove(s, p); } text = api_dump(p); return 0; }); desc = "Prove first in process"; Proof p; string why; if (r.ok()) { if (!ok) violate("race-proof", "Verify rejects the proof made in the same process (%ld cpus)", c.ncpu); if (!ref::parse(params(), text, p)) violate("race-proof", "unreadable proof"); if (v.reps <= 20 && !ref_verdict_full(p, &why)) violate("race-proof", "a repetition was skipped or overwritten: %s (%ld cpus, mode %d)", why.c_str(), c.ncpu, c.sched.mode); } }
    require_clean(desc.c_str(), r); if (mode && !r.ok()) violate("race-failed", "%s ended with %s", desc.c_str(), r.status().c_str());
    note_sample("%s, %ld cpus, mode %d, mean quantum %llu: %llu threads, %llu switches", desc.c_str(), c.ncpu, c.sched.mode, (unsigned long long) c.sched.mean, (unsigned long long) r.created, (unsigned long long) st.switches);
}

// ---------------------------------------------------------------- C11
void fam_live() {
    ProcCfg c = draw_cfg(C_SCHED | C_ENT); static const long cpus[] = {1, -1, 0, 2, 3, 7, 16, 64, 128}; c.ncpu = cpus[choose(S_CPU, 9)]; if (choose(S_WORK, 2)) c.sched.p_stall = 0.3; u64 outage = choose(S_WORK, 5) == 4; (void) outage; st.checks++;
    int n = 1 + choose(S_WORK, v.reps > 50 ? 1 : 3); string bad, desc; vector<std::pair<int, std::pair<string, bool>>> ops; for (int i = 0; i < n; i++) { int k = choose(S_WORK, 4); string t; bool exp = true; if (k >= 2) { const PoolProof &b = pool[choose(S_WORK, pool.size())]; string w; Proof q = b.p; if (choose(S_WORK, 3)) { for (int tr = 0; tr < 8; tr++) { q = alter(b, &w); if (!(q == b.p)) break; } exp = false; } t = ref::dump(params(), q); } ops.push_back({k, {t, exp}}); }
    ProcResult r = run_proc(c, "", [&] {
        void *sec = palloc(v.sz_secret), *prf = palloc(v.sz_proof), *e = palloc(v.sz_fp2); bool have = false;
        for (auto &o : ops) { *v.progress = choose(S_WORK, 2) ? sim_err() : nullptr; const char *nm; u64 s0 = cur_steps(), h0 = heap_live();
            if (o.first == 0 || (o.first == 1 && !have)) { nm = "Generate"; store_fe(e, zero_fe()); if (!v.Generate(e, sec)) bad = "Generate refused the initial curve"; have = true; }
            else if (o.first == 1) { nm = "Prove"; v.Prove(sec, prf); }
            else { nm = "Verify"; if (!api_parse(o.second.first, prf)) { continue; } v.Verify(prf); }
            desc += string(nm) + " " + std::to_string((cur_steps() - s0) / 1000) + "k steps; ";
            if (threads_live()) { bad = string(nm) + " returned with " + std::to_string(threads_live()) + " of its threads not ended and joined"; return 1; } if (heap_live() != h0) { bad = string(nm) + " left " + std::to_string((long) heap_live() - (long) h0) + " bytes allocated"; return 1; } if (fds_open() > 1) { bad = string(nm) + " left " + std::to_string(fds_open()) + " descriptors open"; return 1; } }
        return 0; });
    require_clean("call sequence", r); if (!bad.empty()) violate("leftover", "%s (%ld cpus)", bad.c_str(), c.ncpu); if (r.kind == X_ABORT) violate("abort", "call aborted: %s (%ld cpus)", r.err.substr(0, 120).c_str(), c.ncpu); if (!r.ok()) violate("leftover", "ended with %s", r.status().c_str());
    note_sample("%ld cpus, mode %d, stalls %s: %s%.1f simulated s", c.ncpu, c.sched.mode, c.sched.p_stall > 0 ? "on" : "off", desc.c_str(), r.ns / 1e9);
}

// ---------------------------------------------------------------- C12
void fam_gate() {
    ref::Model &m = model(); string what; FE A; u64 k = choose(S_WORK, 14); st.checks++; FE prior; string prior_what;
    switch (k) {
    case 0: case 1: A = draw_start_curve(true, &what); break; case 2: { A = draw_start_curve(false, &what); auto mm = m.models(A); A = mm[choose(S_WORK, 6)]; what += ", other model"; break; }
    case 3: A = m.reduce(m.rnd(2 * v.fp_bytes)); what = "random coefficient"; break; case 4: { A = m.fe(choose(S_WORK, 100000), 0); what = "small subfield coefficient"; break; } case 5: A = choose(S_WORK, 2) ? m.fe(2, 0) : m.neg(m.fe(2, 0)); what = "singular"; break;
    case 6: { A = m.fe(0, 1 + choose(S_WORK, 50)); what = "imaginary coefficient"; break; } case 7: { A = draw_start_curve(false, &what); A = m.add(A, m.fe(1 + choose(S_WORK, 3), 0)); what += ", off by a little"; break; }
    case 8: { // coefficients of curves with small j or extra structure
        static const u64 s[] = {3, 5, 7, 8, 18, 27, 63, 255}; FE t = m.fe(s[choose(S_WORK, 8)], 0); A = m.sqrt(t); if (choose(S_WORK, 2)) A = m.neg(A); what = "square root of a small number"; break; }
    case 12: case 13: { // shares a coordinate with a valid curve the same process has just seen
        prior = choose(S_WORK, 2) ? pool[0].p.E0 : choose(S_WORK, 2) ? pool[0].p.E1 : draw_start_curve(false, &prior_what); A = prior; FE x = m.reduce(m.rnd(2 * v.fp_bytes)); u64 h = choose(S_WORK, 4); size_t n = v.fp_bytes; if (h == 0) A.replace(n, n, x, n, n); else if (h == 1) A.replace(0, n, x, 0, n); else if (h == 2) A.replace(n, n, string(n, 0)); else A = A.substr(n, n) + A.substr(0, n); static const char *hw[] = {"real part of a valid curve", "imaginary part of a valid curve", "real part of a valid curve only", "valid curve with parts swapped"}; what = hw[h]; break; }
    case 9: { A = draw_start_curve(false, &what); A = m.conj(A); what += ", conjugate"; break; } case 10: { A = m.mul(draw_start_curve(false, &what), m.fe(0, 1)); what += ", times i"; break; } default: { FE x = m.reduce(m.rnd(2 * v.fp_bytes)); memset(&x[v.fp_bytes], 0, v.fp_bytes); A = x; what = "random subfield coefficient"; } }
    bool expect = m.valid_curve(A); ProcCfg c = draw_cfg(C_ENT | C_STALL); c.ncpu = 2; c.time_budget = 0; u64 rr = choose(S_WORK, 4); if (rr == 3) { c.ent.rep = expect && choose(S_WORK, 2) ? m.mont_repr(m.random_point(A, 2, 0)) : m.rnd(m.mont_repr(A).size()); c.ent.rep_to = c.ent.rep.size() * (2 + choose(S_ENT, 200)); } else if (rr) { c.ent.p_rare = rr == 1 ? 0.1 : 0.6; // low-order points as candidates
        for (FE x : {m.fe(0, 0), m.fe(1, 0), m.neg(m.fe(1, 0))}) { c.ent.inject.push_back(m.mont_repr(x)); } FE disc = m.add(m.mul(A, A), m.neg(m.fe(4, 0))); if (m.square(disc)) { FE s = m.sqrt(disc), half = m.inv(m.fe(2, 0)); c.ent.inject.push_back(m.mont_repr(m.mul(m.add(m.neg(A), s), half))); c.ent.inject.push_back(m.mont_repr(m.mul(m.neg(m.add(A, s)), half))); }
        if (expect) { c.ent.inject.push_back(m.mont_repr(m.random_point(A, 3, 1))); c.ent.inject.push_back(m.mont_repr(m.random_point(A, 2, 1 + choose(S_WORK, 30)))); } }
    u64 how = choose(S_WORK, 4); bool got; ProcResult r; string via;
    if (how <= 1) { bool g = false; vector<FE> before, after; if (!prior.empty()) before.push_back(prior); if (choose(S_WORK, 3) == 0) (choose(S_WORK, 2) ? before : after).push_back(A); if (choose(S_WORK, 3) == 0) { string t; FE B = choose(S_WORK, 2) ? draw_start_curve(false, &t) : m.reduce(m.rnd(2 * v.fp_bytes)); (choose(S_WORK, 2) ? before : after).push_back(B); } if (choose(S_WORK, 4) == 0 && !prior.empty()) after.push_back(prior); vector<char> pre(before.size()), post(after.size()); c.ent.p_rare = before.empty() && after.empty() ? c.ent.p_rare : std::min(c.ent.p_rare, 0.1);
        r = run_proc(c, "", [&] { void *s = palloc(v.sz_secret), *e = palloc(v.sz_fp2); for (size_t i = 0; i < before.size(); i++) { store_fe(e, before[i]); pre[i] = v.Generate(e, s); } store_fe(e, A); g = v.Generate(e, s); for (size_t i = 0; i < after.size(); i++) { store_fe(e, after[i]); post[i] = v.Generate(e, s); } return 0; }); got = g; via = "Generate"; require_clean("Generate", r); if (!r.ok()) violate("gate-abort", "Generate on %s: %s %s", what.c_str(), r.status().c_str(), r.err.substr(0, 100).c_str());
        for (int side = 0; side < 2; side++) { auto &cs = side ? after : before; auto &rs = side ? post : pre; for (size_t i = 0; i < cs.size(); i++) { bool ex = m.valid_curve(cs[i]); if (ex != (bool) rs[i]) violate(ex ? "gate-refuses" : "gate-accepts", "Generate %s a%s curve checked %s another one in the same process", ex ? "refuses" : "accepts", ex ? " valid" : "n invalid", side ? "after" : "before"); } } if (!before.empty() || !after.empty()) what += ", among " + std::to_string(before.size() + after.size()) + " other curves"; }
    else if (how == 2) { string t = ref::dump_fe(A, v.fp_bytes); if (expect) { c.ent.p_rare = std::min(c.ent.p_rare, 0.1); } r = cli_prove(c, &t); got = r.ok(); via = "prove"; require_clean("prove", r); if (r.kind == X_ABORT) violate("gate-abort", "prove on %s: %s %s", what.c_str(), r.status().c_str(), r.err.substr(0, 100).c_str()); if (!got && !r.out.empty()) violate("gate-output", "prove refused the curve but printed %zu bytes", r.out.size()); }
    else { // as an end curve in a transcript whose other parts do not depend on it (j-invariant and tags ground to match)
        if (v.reps > 6) { note_sample("skipped"); return; } bool side = choose(S_WORK, 2); FE E0 = pool[0].p.E0, E1 = pool[0].p.E1; (side ? E1 : E0) = A; int avoid = side ? 1 : -1; vector<Resp> resp; Comms op; bool free_ = false; for (int t = 0; t < 300 && (int) resp.size() < v.reps; t++) { const PoolProof &o = pool[choose(S_WORK, 2)]; int j = choose(S_WORK, v.reps); if (o.p.resp[j].tag == avoid) continue; if ((int) resp.size() == v.reps - 1 && !free_ && o.p.resp[j].tag == 0) continue; auto h = o.h[j]; if (o.p.resp[j].tag < 0) h.second = ""; if (o.p.resp[j].tag > 0) h.first = ""; if (o.p.resp[j].tag) free_ = true; resp.push_back(o.p.resp[j]); op.push_back(h); }
        if ((int) resp.size() < v.reps || !free_) { note_sample("pool lacks the needed tag"); return; } bool ok; Proof p = m.grind(E0, E1, resp, op, -1, &ok); if (!ok) { note_sample("grinding failed"); return; } c.ncpu = 3; c.ent.p_rare = std::min(c.ent.p_rare, 0.3); r = cli_verify(c, ref::dump(params(), p)); got = r.ok(); via = side ? "verify with E1" : "verify with E0"; require_clean("verify", r); if (r.kind == X_ABORT) violate("gate-abort", "verify on %s: %s", what.c_str(), r.status().c_str()); }
    if (got && !expect) violate("gate-accepts", "%s accepts an invalid curve (%s)", via.c_str(), what.c_str()); if (!got && expect) violate("gate-refuses", "%s refuses a valid curve (%s): %s", via.c_str(), what.c_str(), r.status().c_str());
    probe(expect ? P_ACCEPTED : P_REJECTED); note_sample("%s: %s -> %s, rare entropy %.2f", via.c_str(), what.c_str(), got ? "accepted" : "refused", c.ent.p_rare);
}

// ---------------------------------------------------------------- C13
void fam_ceremony() {
    ref::Model &m = model(); FE cur = zero_fe(); string published = ref::dump_fe(cur, v.fp_bytes); int links = 0, rounds = 0; const int want = v.height > 3 || v.bits > 503 ? 1 + choose(S_WORK, 2) : 1 + choose(S_WORK, 3); double p_fault = choose(S_WORK, 3) == 0 ? 0 : 0.35; struct Msg { string text; bool intact; string start; }; vector<Msg> net; string log; bool first = true; FE nullcurve = zero_fe();
    if (choose(S_WORK, 2)) { cur = m.canonical(draw_start_curve(false, &log)); published = ref::dump_fe(cur, v.fp_bytes); log = "start: " + log + "; "; first = false; } bool calm = false; int calm_rounds = 0; string genesis = published; vector<string> ledger{published};
    if (choose(S_WORK, 3) == 1) { // a participant is handed another model of the curve: the proof still names the canonical one
        auto mm = m.models(cur); FE A = mm[choose(S_WORK, mm.size())]; if (choose(S_WORK, 3) == 0) { FE t = draw_start_curve(false, &log); auto m2 = m.models(t); A = m2[choose(S_WORK, m2.size())]; } string in = ref::dump_fe(A, v.fp_bytes); ProcCfg c = draw_cfg(C_SCHED | C_ENT | C_IO); if (c.ncpu > 8) c.ncpu = 8; ProcResult r = cli_prove(c, &in); require_clean("prove", r); if (!r.ok()) violate("ceremony-prove", "prove refused a model of a valid curve: %s %s", r.status().c_str(), r.err.substr(0, 80).c_str());
        Proof p; if (!ref::parse(params(), r.out, p)) violate("ceremony-text", "prove exited 0 with an unreadable proof"); if (p.E0 != m.canonical(A) || p.E1 != m.canonical(p.E1)) violate("ceremony-start", "a proof made from another model of the start curve does not name the canonical %s curve", p.E0 != m.canonical(A) ? "start" : "end");
        ProcResult q = cli_verify(draw_cfg(C_SCHED | C_IO), r.out); require_clean("verify", q); if (!q.ok() || q.out != two_lines(p)) violate("ceremony-refused", "verify refused an intact honest contribution made from another model: %s", q.status().c_str()); log += "other model; "; }
    while (links < want) {
        if (++rounds > 6 + 2 * want) { calm = true; } if (calm && ++calm_rounds > 3 * want + 3) violate("ceremony-stuck", "no accepted contribution within %d fault-free rounds (%s)", calm_rounds - 1, log.substr(0, 300).c_str());
        double pf = calm ? 0 : p_fault; auto flt = [&](u64 n) { return pf > 0 ? choose_p(S_NET, n, pf) : 0; };
        // a participant reads the published curve and contributes
        ProcCfg c = draw_cfg(C_SCHED | (calm ? 0 : C_ENT | C_IO)); if (c.ncpu > 8) c.ncpu = 8; string in = published; u64 f = flt(5); if (f == 1) { c.kill_at = choose(S_KILL, 40000000); } else if (f == 2) { c.kill_out_at = choose(S_KILL, 20000); } else if (f == 3) { c.io.out_full_at = choose(S_OUT, 20000); } else if (f == 4 && ledger.size() > 1) { in = ledger[choose(S_NET, ledger.size() - 1)]; fired(F_DELAY); log += "stale start; "; }
        ProcResult r = cli_prove(c, first && in == genesis && choose(S_WORK, 2) ? nullptr : &in); require_clean("prove", r); bool whole = r.ok();
        if (!whole && !r.killed && !r.out_fault) violate("ceremony-prove", "prove refused the published curve: %s %s", r.status().c_str(), r.err.substr(0, 80).c_str()); if (!whole) { fired(F_RESTART); log += "participant " + string(exit_name(r.kind)) + "; "; }
        if (whole) { Proof p; if (!ref::parse(params(), r.out, p)) violate("ceremony-text", "prove exited 0 with an unreadable proof"); string l1 = r.out.substr(0, r.out.find('\n') + 1); if (l1 != in) violate("ceremony-start", "the proof's first curve differs from the text the prover was given (canonical form)"); if (p.E1 != m.canonical(p.E1)) violate("ceremony-start", "the proof's end curve is not in canonical form"); }
        // a participant that ignores the exit status may still send what was written
        if (whole || choose(S_NET, 2)) { Msg ms{r.out, whole, in}; u64 g = flt(6); switch (g) { case 1: fired(F_DROP); log += "lost; "; ms.text.clear(); break; case 2: fired(F_DUP); net.push_back(ms); log += "dup; "; break; case 3: if (ms.text.size()) { size_t k = choose(S_NET, ms.text.size()); ms.text[k] ^= 1 << choose(S_NET, 8); ms.intact = false; fired(F_CORRUPT); log += "corrupt; "; } break; case 4: ms.text.resize(choose(S_NET, ms.text.size() + 1)); ms.intact = false; fired(F_CORRUPT); log += "cut; "; break; case 5: fired(F_DELAY); break; default: break; } if (!ms.text.empty()) net.push_back(ms); if (g == 5) continue; }
        // delivery in any order; the coordinator verifies, and crashes now and then
        while (!net.empty() && links < want) { size_t k = net.size() > 1 ? choose(S_NET, net.size()) : 0; if (k) fired(F_REORDER); Msg ms = net[k]; bool keep = flt(4) == 1; if (!keep) net.erase(net.begin() + k); ProcCfg d = draw_cfg(C_SCHED | (calm ? 0 : C_IO)); if (d.ncpu > 8) d.ncpu = 8; u64 h = flt(4); if (h == 1) d.kill_at = choose(S_KILL, 20000000); else if (h == 2) d.kill_out_at = choose(S_KILL, 500); else if (h == 3) d.io.out_full_at = choose(S_OUT, 500);
            ProcResult q = cli_verify(d, ms.text); require_clean("verify", q); st.checks++;
            if (!q.ok()) { if (ms.intact && !q.killed && !q.out_fault) violate("ceremony-refused", "verify refused an intact honest contribution: %s", q.status().c_str()); if (!q.out.empty() && !q.killed && !q.out_fault) violate("ceremony-output", "verify failed but printed %zu bytes", q.out.size()); if (q.killed) { fired(F_RESTART); log += "coordinator restart; "; if (!keep) net.push_back(ms); } else if (q.out_fault && !keep) net.push_back(ms); continue; }
            size_t e = q.out.find('\n') + 1; string l1 = q.out.substr(0, e), l2 = q.out.substr(e); Proof p; string why; if (!ref::parse(params(), ms.text, p) || (!ms.intact && !ref_verdict_full(p, &why))) { if (!model().canonical_enc(p.E0)) continue; violate("ceremony-link", "verify exited 0 for a message that is no valid proof (%s)", why.c_str()); } if (ref::dump_fe(p.E0, v.fp_bytes) != l1 || ref::dump_fe(p.E1, v.fp_bytes) != l2) violate("ceremony-link", "verify printed curves other than the proof's"); 
            if (l1 != published) { log += "stale or repeated link refused; "; if (ms.intact && ms.start == published) violate("ceremony-start", "an intact contribution made for the published curve does not start at it"); continue; }
            published = l2; ledger.push_back(l2); links++; probe(P_LINKS); first = false; log += "link; "; net.size(); }
    }
    note_sample("%d links in %d rounds: %s", links, rounds, log.substr(0, 500).c_str());
}

// ---------------------------------------------------------------- C14
void fam_format() {
    ref::Model &m = model(); ref::Params P = params(); st.checks++; static const int reps_[] = {219, 219, 329, 438}; int bi = v.bits == 434 ? 0 : v.bits == 503 ? 1 : v.bits == 610 ? 2 : 3; bool shipped = v.reps > 100 && v.width == 4 && opts.count("shipped");
    if (opts.count("shipped")) { if (v.reps != reps_[bi] || v.width != 4 || v.height != 7 || v.hash_bytes != P.hash || v.hide_bytes != P.hide) violate("format-shape", "shipped parameters are %d repetitions, %d/%d points, %d/%d bytes", v.reps, v.width, v.height, v.hash_bytes, v.hide_bytes); P.reps = reps_[bi]; P.W = 4; P.H = 7; (void) shipped; }
    Proof p; u64 kind = choose(S_WORK, 5); auto byt = [&](size_t n) { string s = m.rnd(n); if (kind == 1) for (auto &c : s) c = 0; if (kind == 2) for (auto &c : s) c = (char) 0xff; if (kind == 3) for (auto &c : s) c = "\x0a\x20\x30\x78\x0f\xf0\x00\x80"[(u8) c % 8]; return s; }; p.E0 = byt(2 * v.fp_bytes); p.E1 = byt(2 * v.fp_bytes); u64 tk = choose(S_WORK, 5);
    for (int i = 0; i < P.reps; i++) { Resp r; r.tag = tk < 3 ? (int) tk - 1 : (int) (m.rnd(1)[0] & 0x7f) % 3 - 1; r.a = byt(r.tag == 1 ? P.hash : P.hide); r.b = byt(r.tag == -1 ? P.hash : P.hide); if (r.tag == 0) r.E2 = byt(2 * v.fp_bytes); r.x.resize(r.tag == 0 ? P.W : P.H); for (auto &x : r.x) x = byt(2 * v.fp_bytes); p.resp.push_back(r); }
    string t = ref::dump(P, p); ProcCfg c = draw_cfg(C_IO); if (c.io.in_buf == 1 && t.size() > 300000) c.io.in_buf = 64; u64 f = choose(S_WORK, 4); string cut = "complete"; size_t need = t.size() - 1; auto cutat = [&]() -> u64 { switch (choose(S_WORK, 4)) { case 0: return choose(S_IN, need); case 1: return need - 1 - choose(S_IN, 300); case 2: return need - 1 - choose(S_IN, 4); default: { size_t e = t.find('\n', choose(S_IN, need)); return std::min<u64>(e == string::npos ? need - 1 : e - choose(S_IN, 3), need - 1); } } };
    if (f == 1) { c.io.in_eof_at = cutat(); cut = "ends early"; } if (f == 2) { c.io.in_err_at = cutat(); cut = "read error"; } bool short_ = c.io.in_eof_at < need || c.io.in_err_at < need;
    bool parsed = false, dumped = false; string e0, e1; ProcResult r = run_proc(c, t, [&] { void *prf = palloc(v.sz_proof); parsed = v.Parse(sim_in(), prf); if (!parsed) return 0; e0 = load_fe((char *) prf + v.off_pE0); e1 = load_fe((char *) prf + v.off_pE1); dumped = v.Dump(sim_out(), prf); fflush(sim_out()); return 0; });
    require_clean("Parse/Dump", r); if (!r.ok()) violate("format-failed", "Parse/Dump ended with %s", r.status().c_str());
    if (short_ && parsed) violate("format-incomplete", "Parse succeeded although the text %s at byte %llu of %zu", cut.c_str(), (unsigned long long) std::min(c.io.in_eof_at, c.io.in_err_at), t.size());
    if (!short_) { if (!parsed) violate("format-parse", "Parse refused a well-formed proof text (%d responses, content kind %llu)", P.reps, (unsigned long long) kind); if (e0 != p.E0 || e1 != p.E1) violate("format-value", "Parse stored other end curves than written"); if (!dumped) violate("format-dump", "Dump failed without a fault"); if (r.out != t) { size_t i = 0; while (i < t.size() && i < r.out.size() && t[i] == r.out[i]) i++; violate("format-roundtrip", "write(read(text)) differs from text at byte %zu of %zu", i, t.size()); } probe(P_ACCEPTED); } else probe(P_REJECTED);
    note_sample("%d responses, tags %s, content %llu, %s, input buffer %d chunk %.1f: %s", P.reps, tk < 3 ? "all equal" : "mixed", (unsigned long long) kind, cut.c_str(), c.io.in_buf, c.io.p_in_chunk, parsed ? "round trip" : "refused");
}
}
