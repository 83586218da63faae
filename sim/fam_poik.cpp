// Families (workload + fault space + oracle) for the proof system: C01-C05.
#include "poik_common.h"
namespace sim {

static string bitflip(string s) { size_t k = choose(S_WORK, s.size() * 8); s[k / 8] ^= 1 << k % 8; return s; }
static int which_l(int tag) { return tag == 0 ? 2 : 3; }
static const FE &start_of(const Proof &p, int i) { return p.resp[i].tag == 0 ? p.resp[i].E2 : p.resp[i].tag < 0 ? p.E0 : p.E1; }
// curve on which step s of response i starts
static FE curve_at(const Proof &p, int i, int s) { ref::Model &m = model(); FE A = start_of(p, i), b, e; for (int k = 0; k < s; k++) { if (!m.step(A, p.resp[i].x[k], which_l(p.resp[i].tag), e, b)) return A; A = e; } return A; }
static bool encodings_ok(const Proof &p) { ref::Model &m = model(); if (!m.canonical_enc(p.E0) || !m.canonical_enc(p.E1)) return false; for (auto &r : p.resp) { if (r.tag == 0 && !m.canonical_enc(r.E2)) return false; for (auto &x : r.x) if (!m.canonical_enc(x)) return false; } return true; }

// ---------------------------------------------------------------- a proof altered in one place
Proof alter(const PoolProof &b, string *what) {
    ref::Model &m = model(); Proof q = b.p; int R = v.reps, i = choose(S_WORK, R), j = choose(S_WORK, R); u64 op = choose(S_WORK, 21); Resp &r = q.resp[i]; int s = choose(S_WORK, r.x.size()); char t[160];
    switch (op) {
    case 0: r.a = bitflip(r.a); *what = "bit of first nonce/commitment"; break;
    case 1: r.b = bitflip(r.b); *what = "bit of second nonce/commitment"; break;
    case 2: case 3: { if (v.bits > 503 || v.height > 3) s = choose(S_WORK, 2) < r.x.size() ? s % 2 : 0; int l = which_l(r.tag), e = m.e_of(l), k = choose(S_WORK, 2) ? 1 + choose(S_WORK, e - 1) : 1; FE A = curve_at(q, i, s); r.x[s] = m.random_point(A, l, e - k); *what = "kernel of lower order"; break; }
    case 4: r.x[s] = m.random_x(start_of(q, i), choose(S_WORK, 2)); *what = "random x"; break;
    case 5: { u64 k = choose(S_WORK, 3); r.x[s] = k == 0 ? m.fe(0, 0) : k == 1 ? m.fe(1, 0) : m.neg(m.fe(1, 0)); *what = "x in {0,1,-1}"; break; }
    case 6: { FE A = start_of(q, i); r.x[0] = m.random_point(A, which_l(r.tag) == 2 ? 3 : 2, 0); *what = "kernel of the other prime"; break; }
    case 7: std::swap(q.resp[i], q.resp[j]); *what = "responses swapped"; break;
    case 8: q.resp[j] = q.resp[i]; *what = "response copied"; break;
    case 9: { const PoolProof &o = pool[choose(S_WORK, pool.size())]; q.resp[i] = o.p.resp[j]; *what = "response of another proof"; break; }
    case 10: if (r.x.size() > 1) std::swap(r.x[s], r.x[(s + 1) % r.x.size()]); else r.a = bitflip(r.a); *what = "kernel points swapped"; break;
    case 11: std::swap(q.E0, q.E1); *what = "end curves swapped"; break;
    case 12: { const PoolProof &o = pool[pool.size() - 1]; FE n = o.p.E1; if (choose(S_WORK, 2)) q.E0 = n; else q.E1 = n; *what = "end curve replaced"; break; }
    case 13: if (r.tag == 0) { u64 k = choose(S_WORK, 3); r.E2 = k == 0 ? q.E0 : k == 1 ? q.E1 : m.models(r.E2)[1 + choose(S_WORK, 5)]; *what = "E2 replaced"; } else { r.x[s] = bitflip(r.x[s]); *what = "bit of x"; } break;
    case 14: if (r.tag == 0) { std::swap(r.a, r.b); *what = "nonces swapped"; } else { r.tag = -r.tag; std::swap(r.a, r.b); *what = "tag negated"; } break;
    case 15: r.x[s] = m.neg(r.x[s]); *what = "x negated"; break;
    case 16: r.x[s] = bitflip(r.x[s]); *what = "bit of x"; break;
    case 17: { u64 k = choose(S_WORK, 2); FE &e = k ? q.E1 : q.E0; e = choose(S_WORK, 2) ? bitflip(e) : m.models(e)[1 + choose(S_WORK, 5)]; *what = "end curve altered"; break; }
    case 19: case 20: if (!b.all.empty()) { int n = op == 19 ? 1 : 1 + choose(S_WORK, 3); for (int k = 0; k < n; k++) { Resp &o = q.resp[k ? choose(S_WORK, R) : i]; o = b.all[&o - &q.resp[0]][(o.tag + 2 + (int) choose(S_WORK, 2)) % 3]; } *what = "valid opening for another challenge"; break; } // fall through
    default: { string z = q.resp[j].b; if (r.b.size() == z.size()) std::swap(r.b, q.resp[j].b); else r.b = string(r.b.size(), 0); *what = "second nonce/commitment exchanged or zeroed"; } }
    snprintf(t, sizeof t, " (response %d, tag %d, step %d)", i, r.tag, s); *what += t; return q;
}

// ---------------------------------------------------------------- C01
static void fam_honest() {
    ref::Model &m = model(); string what; FE start = draw_start_curve(true, &what); if (!m.valid_curve(start)) { start = m.fe(0, 0); what = "initial curve"; }
    ProcCfg c = draw_cfg(C_ALL); u64 odd = choose(S_CPU, 10); if (odd == 9) c.ncpu = -1; else if (odd == 8) c.ncpu = 0;
    string curve = ref::dump_fe(start, v.fp_bytes); st.checks++;
    if (choose(S_WORK, 4) == 3) {       // library interface: two links in one process
        string fail; bool prog = choose(S_WORK, 2);
        ProcResult r = run_proc(c, "", [&] {
            *v.progress = prog ? sim_err() : nullptr; void *sec = palloc(v.sz_secret), *prf = palloc(v.sz_proof), *e = palloc(v.sz_fp2); store_fe(e, start);
            for (int hop = 0; hop < 2; hop++) { if (!v.Generate(e, sec)) { fail = "Generate refused a valid curve"; return 1; } v.Prove(sec, prf); if (!v.Verify(prf)) { fail = "Verify rejected an honest proof"; return 1; } memcpy(e, (char *) prf + v.off_pE1, v.sz_fp2); } return 0; });
        require_clean("honest session", r); if (!fail.empty()) violate("honest-rejected", "%s (start: %s)", fail.c_str(), what.c_str());
        if (!r.ok()) violate("honest-failed", "honest session from %s ended with %s %s", what.c_str(), r.status().c_str(), r.err.substr(0, 120).c_str());
        note_sample("library, 2 links from %s, %ld cpus, mode %d, %llu entropy bytes", what.c_str(), c.ncpu, c.sched.mode, (unsigned long long) r.ent_total); probe(P_ACCEPTED); return;
    }
    bool initial = start == m.fe(0, 0) && choose(S_WORK, 2);
    ProcResult r = cli_prove(c, initial ? nullptr : &curve); require_clean("prove", r);
    if (!r.ok()) violate("honest-failed", "prove from %s ended with %s: %s", what.c_str(), r.status().c_str(), r.err.substr(0, 120).c_str());
    ProcCfg d = draw_cfg(C_ALL); if (odd == 7) d.ncpu = -1; ProcResult q = cli_verify(d, r.out); require_clean("verify", q);
    if (!q.ok()) violate("honest-rejected", "verify of an honest proof from %s ended with %s: %s", what.c_str(), q.status().c_str(), q.err.substr(0, 120).c_str());
    size_t e = r.out.find('\n', r.out.find('\n') + 1) + 1; if (q.out != r.out.substr(0, e)) violate("honest-output", "verify printed %zu bytes that are not the proof's end curves", q.out.size());
    probe(P_ACCEPTED); note_sample("prove|verify from %s, prover %ld cpus mode %d, verifier %ld cpus mode %d, %zu bytes", what.c_str(), c.ncpu, c.sched.mode, d.ncpu, d.sched.mode, r.out.size());
}

// ---------------------------------------------------------------- C02
struct Call { string text; bool expect; string what; bool prog; };
static void fam_verdict() {
    ProcCfg c = draw_cfg(C_SCHED | C_ENT | C_STALL); int callers = choose(S_WORK, 4) == 3 ? 2 + choose(S_WORK, 2) : 1; if (callers > 1 && c.ncpu > 16) c.ncpu = 16;
    vector<vector<Call>> plan(callers); bool big = v.reps > 50 || v.bits > 503 || v.height > 3; bool any0 = false, any1 = false; string desc;
    for (int k = 0; k < callers; k++) { size_t base = choose(S_WORK, pool.size()); int n = big ? 1 + choose(S_WORK, 2) : 1 + choose(S_WORK, 4);
        for (int i = 0; i < n; i++) { Call x; const PoolProof &b = pool[base]; bool good = choose(S_WORK, 3) == 0 || (n > 1 && i == 0);
            if (good) { x.text = b.text; x.expect = true; x.what = "valid"; } else { Proof q; for (int t = 0; t < 20; t++) { q = alter(b, &x.what); if (encodings_ok(q)) break; q = b.p; x.what = "valid"; } string why; x.expect = q == b.p ? true : ref_verdict(b, q, &why); x.text = ref::dump(params(), q); }
            x.prog = choose(S_WORK, 2); (x.expect ? any1 : any0) = true; desc += (k ? "|" : "") + x.what + (x.expect ? "=accept" : "=reject") + "; "; plan[k].push_back(x); if (choose(S_WORK, 8) == 7) base = choose(S_WORK, pool.size()); } }
    struct Res { int caller, call; bool got; }; bool early = choose(S_WORK, 2);     // all proofs parsed before the first is verified
    vector<Res> bad; bool parse_failed = false; u64 done = 0;
    ProcResult r = run_proc(c, "", [&] {
        auto go = [&](int k) { size_t n = plan[k].size(); vector<void *> prfs; for (size_t i = 0; i < n; i++) { prfs.push_back(early || !i ? palloc(v.sz_proof) : prfs[0]); if (early && !api_parse(plan[k][i].text, prfs[i])) { parse_failed = true; bad.push_back({k, (int) i, false}); return; } }
            for (size_t i = 0; i < n; i++) { Call &x = plan[k][i]; void *prf = prfs[i]; if (!early && !api_parse(x.text, prf)) { parse_failed = true; bad.push_back({k, (int) i, false}); return; } if (callers == 1) *v.progress = x.prog ? sim_err() : nullptr; bool got = v.Verify(prf); done++; if (got != x.expect) bad.push_back({k, (int) i, got}); } };
        if (callers == 1) go(0); else { vector<int> ids; for (int k = 0; k < callers; k++) ids.push_back(spawn([&, k] { go(k); })); for (int id : ids) join_fiber(id); } return 0; });
    require_clean("verification", r); st.checks += done;
    if (!bad.empty()) { Call &x = plan[bad[0].caller][bad[0].call]; violate(parse_failed ? "verdict-parse" : bad[0].got ? "verdict-accept" : "verdict-reject", "%s call %d of caller %d (%s) returned %s, expected %s; %ld cpus, mode %d", parse_failed ? "parse before" : "verify", bad[0].call, bad[0].caller, x.what.c_str(), bad[0].got ? "accept" : "reject", x.expect ? "accept" : "reject", c.ncpu, c.sched.mode); }
    if (!r.ok()) violate("verdict-abort", "verification ended with %s %s (%s)", r.status().c_str(), r.err.substr(0, 100).c_str(), desc.substr(0, 200).c_str());
    if (any0) probe(P_REJECTED); if (any1) probe(P_ACCEPTED); if (any0 && any1) probe(P_BOTH_VERDICTS); note_sample("%d caller(s), %ld cpus, mode %d: %s", callers, c.ncpu, c.sched.mode, desc.substr(0, 400).c_str());
}

// ---------------------------------------------------------------- C03
// writes one hex byte in a spelling that sloppy number parsing takes for the same or a close value
bool misspell(string &t, string *what) {
    vector<size_t> z; for (size_t a = 0; a + 1 < t.size();) { size_t e = t.find_first_of(",\n", a); if (e == string::npos) e = t.size(); size_t b = a; if (t.compare(a, 2, "0x") == 0) b = a + 2; if (e - b >= 20) for (size_t k = b; k + 1 < e; k += 2) if (t[k] == '0' || t[k+1] == '0') z.push_back(k); a = e + 1; }
    if (z.empty()) return false; size_t k = z[choose(S_WORK, z.size())]; char hi = t[k], lo = t[k+1]; if (choose(S_WORK, 8) == 7) { // the last digits of a line
        size_t e = t.find_first_of(",\n", k); if (e != string::npos && e >= 2) { k = e - 2; hi = t[k]; lo = t[k+1]; } }
    static const char junk[] = "g \t+-xX.,:zG\0\n\x80"; char j = junk[choose(S_WORK, 15)];
    switch (choose(S_WORK, 5)) { case 0: t[k] = j; break; case 1: t[k+1] = j; break; case 2: t[k] = lo; t[k+1] = j; break; case 3: t[k] = hi == '0' && lo == '0' ? '0' : hi; t[k+1] = choose(S_WORK, 2) ? 'x' : 'X'; break; default: t.insert(k + choose(S_WORK, 2), 1, j); }
    *what += "digit misspelt; "; return true;
}
static string alter_text(const PoolProof &b, string t, string *what) {
    u64 op = choose(S_WORK, 15); if (t.empty()) return t; if (op >= 13) { if (misspell(t, what)) return t; op = 0; } size_t n = t.size(); auto pos = [&] { return choose(S_WORK, 4) == 3 && b.lines.size() ? std::min(n - 1, b.lines[choose(S_WORK, b.lines.size())].first) : (size_t) choose(S_WORK, n); }; auto blk = [&] { static const size_t z[] = {1, 2, 16, 64, 512, 4096}; return z[choose(S_WORK, 6)]; };
    vector<std::pair<size_t,size_t>> L; for (size_t a = 0; a < n;) { size_t e = t.find('\n', a); e = e == string::npos ? n : e + 1; L.push_back({a, e - a}); a = e; }
    switch (op) {
    case 0: case 1: { size_t p = pos(); t[p] ^= 1 << choose(S_WORK, 8); *what += "bit flip; "; break; }
    case 2: { size_t p = pos(); static const char h[] = "0123456789abcdef"; t[p] = h[choose(S_WORK, 16)]; *what += "character replaced; "; break; }
    case 3: { size_t p = pos(), k = blk(); t.erase(p, k); *what += "bytes lost; "; break; }
    case 4: { size_t p = pos(), k = std::min(blk(), n - p); memset(&t[p], choose(S_WORK, 2) ? '0' : 0, k); *what += "block zeroed; "; break; }
    case 5: { size_t p = pos(), k = std::min(blk(), n - p); t.insert(p, t.substr(p, k)); *what += "block duplicated; "; break; }
    case 6: { size_t k = blk(), p = pos(), q = pos(); if (p > q) std::swap(p, q); if (q + k > n || p + k > q) { t[p] ^= 2; } else { string x = t.substr(p, k); memcpy(&t[p], &t[q], k); memcpy(&t[q], x.data(), k); } *what += "blocks swapped; "; break; }
    case 7: { t.resize(pos()); *what += "truncated; "; break; }
    case 8: { size_t a = choose(S_WORK, L.size()), c = choose(S_WORK, L.size()); if (a > c) std::swap(a, c); if (a != c) { string x = t.substr(L[a].first, L[a].second), y = t.substr(L[c].first, L[c].second); t.replace(L[c].first, L[c].second, x); t.replace(L[a].first, L[a].second, y); } *what += "lines swapped; "; break; }
    case 9: { size_t a = choose(S_WORK, L.size()); t.erase(L[a].first, L[a].second); *what += "line lost; "; break; }
    case 10: { size_t a = choose(S_WORK, L.size()); t.insert(L[a].first, t.substr(L[a].first, L[a].second)); *what += "line duplicated; "; break; }
    case 11: { size_t a = choose(S_WORK, L.size()), c = choose(S_WORK, L.size()); string x = t.substr(L[a].first, L[a].second); t.replace(L[c].first, L[c].second, x); *what += "line overwritten by another; "; break; }
    default: { const PoolProof &o = pool[choose(S_WORK, pool.size())]; size_t p = pos(); if (p < o.text.size()) t = t.substr(0, p) + o.text.substr(p); *what += "tail of another proof; "; break; } }
    return t;
}
static void fam_tamper() {
    const PoolProof &b = pool[choose(S_WORK, pool.size())]; string what, t = b.text; int n = 1 + (choose(S_WORK, 4) == 3 ? 1 + choose(S_WORK, 2) : 0);
    if (choose(S_WORK, 2)) { string w; Proof q = alter(b, &w); what = w + "; "; t = ref::dump(params(), q); if (n == 1) n = 0; else n--; }
    for (int i = 0; i < n; i++) t = alter_text(b, t, &what); fired(F_TAMPER, n ? n : 1);
    Proof q; bool parsed = ref::parse(params(), t, q), expect = false, either = false; string why;
    if (parsed) { if (q == b.p) either = true; else { Proof red = q; ref::Model &m = model(); red.E0 = m.reduce(q.E0); red.E1 = m.reduce(q.E1); for (auto &r : red.resp) { if (r.tag == 0) r.E2 = m.reduce(r.E2); for (auto &x : r.x) x = m.reduce(x); } if (red == b.p || ref_verdict(b, red, &why)) either = true; } } else why = "does not parse";
    ProcCfg c = draw_cfg(C_SCHED | C_IO | C_STALL); ProcResult r = cli_verify(c, t); require_clean("verify", r); st.checks++;
    if (t == b.text) expect = true;
    if (expect && !r.ok()) violate("tamper-control", "unaltered proof rejected: %s %s", r.status().c_str(), r.err.substr(0, 80).c_str());
    if (!either && r.ok()) violate("tamper-accepted", "verify accepted an altered proof (%s reference: %s)", what.c_str(), why.c_str());
    if (!either && !r.out.empty()) violate("tamper-output", "verify printed %zu bytes for an altered proof (%s)", r.out.size(), what.c_str());
    if (!either) probe(P_REJECTED); else probe(P_ACCEPTED); note_sample("%s-> %s (%s), exit %s", what.c_str(), either ? "same or equivalent proof" : "must be rejected", why.c_str(), r.status().c_str());
}

// ---------------------------------------------------------------- C04
static vector<std::pair<string,string>> tapped; static void tap_fn(const u8 *i, size_t il, const u8 *o, size_t ol) { tapped.push_back({string((const char *) i, il), string((const char *) o, ol)}); }
static string tap_lookup(const string &r) { for (auto &t : tapped) if (t.first.size() > r.size() && t.first.compare(1, r.size(), r) == 0 && (int) t.second.size() >= params().hash) return t.second.substr(0, params().hash); return ""; }

static bool cheat_chain(const FE &A0, int l, int n, int where, vector<FE> &xs, FE &end, string *what) { // walk that turns back at junction `where`
    ref::Model &m = model(); FE A = A0, back, e; xs.clear(); bool full = choose(S_WORK, 2); FE indep;
    for (int s = 0; s < n; s++) {
        FE K; vector<FE> push, out;
        if (s == where) K = full ? indep : m.point_above(A, back, l); else K = m.random_point(A, l, 0, s ? &back : nullptr);
        if (s + 1 == where && full) { FE t = m.top(A, K, l, 0); FE f = m.random_point(A, l, 0, &t); push.push_back(f); }   // its image generates the dual kernel
        if (!m.step(A, K, l, e, back, &push, &out)) return false; if (push.size()) { indep = out[0]; }
        xs.push_back(K); A = e;
    }
    end = A; *what = full ? "full step back" : "partial step back"; return true;
}
static void fam_byz() {
    ref::Model &m = model(); int R = v.reps, i = choose(S_WORK, R); ref::Params P = params(); FE E0 = pool[0].p.E0, E1 = pool[0].p.E1;
    u64 kind = choose(S_WORK, 12); int tag = (int) choose(S_WORK, 3) - 1; string what; int differ = -1; bool adaptive = false, honest = false;
    bool full = !pool[0].all.empty() && (R > 6 || choose(S_WORK, 2)) && kind != 8 && kind != 9;    // honest responses for every other challenge are known: no need to grind
    vector<Resp> resp(R); Comms op(R); auto fill = [&](int k, int want) { for (int t = 0; t < 200; t++) { const PoolProof &o = pool[choose(S_WORK, 2)]; int j = choose(S_WORK, R); const Resp &r = o.p.resp[j]; if (want != 9 && (want == 8 ? r.tag == 0 : r.tag != want)) continue; resp[k] = r; op[k] = o.h[j]; if (r.tag < 0) op[k].second = ""; if (r.tag > 0) op[k].first = ""; return true; } return false; };
    if (R > 6 && !full) { note_sample("needs a small transcript"); return; } int freek = R > 1 ? (i + 1) % R : 0; if (!full) for (int k = 0; k < R; k++) if (!fill(k, k == freek && R > 1 ? 8 : 9)) { note_sample("pool lacks the needed tag"); return; }
    Resp c; c.tag = tag; c.a = m.rnd(tag == 1 ? P.hash : P.hide); c.b = m.rnd(tag == -1 ? P.hash : P.hide); int l = which_l(tag), n = tag == 0 ? v.width : v.height; FE A = tag < 0 ? E0 : E1; if (tag == 0) { c.E2 = choose(S_WORK, 2) ? E0 : pool[0].p.E1; A = c.E2; } FE end; bool cheat_in_c = true;
    auto set_opened = [&] { op[i] = {"", ""}; if (tag <= 0) op[i].first = m.commit(c.a, m.jinv(tag == 0 ? c.E2 : end)); if (tag >= 0) op[i].second = m.commit(c.b, m.jinv(end)); };
    switch (kind) {
    case 0: case 1: case 2: if (n < 2) { honest = true; cheat_in_c = false; break; } { int w = 1 + choose(S_WORK, n - 1); if (!cheat_chain(A, l, n, w, c.x, end, &what)) sim_error("cheat chain"); what += " at junction " + std::to_string(w) + " of " + std::to_string(n); set_opened(); } break;
    case 3: case 4: case 5: { // one kernel that does not have the prescribed order
        c.x = m.walk(A, l, n, end); int s = choose(S_WORK, n); if (choose(S_WORK, 2)) s = n - 1; FE at = A, b, e; for (int k = 0; k < s; k++) { m.step(at, c.x[k], l, e, b); at = e; } int emax = m.e_of(l); u64 k = choose(S_WORK, 7);
        if (k <= 1) { int d = k == 0 ? 1 : 1 + choose(S_WORK, emax - 1); c.x[s] = m.random_point(at, l, emax - d); what = "kernel order l^(e-" + std::to_string(d) + ")"; } else if (k == 2) { c.x[s] = m.random_point(at, l == 2 ? 3 : 2, 0); what = "kernel of the other prime"; } else if (k == 3) { c.x[s] = m.random_x(at, choose(S_WORK, 2)); what = "random kernel"; } else if (k == 6) { int t = 1 + choose(S_WORK, 2), o = l == 2 ? 3 : 2; FE y = m.random_x(at, 1); for (int q = 0; q < m.e_of(o) - t; q++) { FE z = m.scalar_mul(at, y, o); if (z.empty()) break; y = z; } c.x[s] = y; what = "kernel of a multiple of the order"; } else if (k == 4) { c.x[s] = m.fe(0, 0); what = "kernel (0,0)"; } else { c.x[s] = choose(S_WORK, 2) ? m.fe(1, 0) : m.neg(m.fe(1, 0)); what = "kernel of order 4"; }
        what += " at step " + std::to_string(s); set_opened(); adaptive = true; break; }
    case 6: { tag = c.tag = 0; l = 2; n = v.width; c.a = m.rnd(P.hide); c.b = m.rnd(P.hide); c.x.clear(); FE two = m.fe(2, 0); c.E2 = choose(S_WORK, 2) ? two : m.neg(two); FE k = m.singular_point(c.E2, 2); if (k.empty()) k = m.random_x(c.E2, 1); for (int s = 0; s < n; s++) c.x.push_back(k); end = m.fe(0, 0); what = "singular E2"; set_opened(); adaptive = true; break; }
    case 7: { tag = c.tag = 0; l = 2; n = v.width; c.a = m.rnd(P.hide); c.b = m.rnd(P.hide); c.x.clear(); c.E2 = m.fe(choose(S_WORK, 1000) + 7, choose(S_WORK, 3)); if (m.valid_curve(c.E2)) { honest = true; cheat_in_c = false; break; } FE k = m.kernel_on_any(c.E2, 2, m.e_of(2)); if (k.empty()) k = m.random_x(c.E2, 1); for (int s = 0; s < n; s++) c.x.push_back(k); end = m.fe(0, 0); what = "E2 not supersingular"; set_opened(); adaptive = true; break; }
    case 8: case 9: { // an invalid end curve that no opened response touches
        cheat_in_c = false; bool zero_side = choose(S_WORK, 2); int avoid = zero_side ? -1 : 1; for (int k = 0; k < R; k++) { int tr = 0; while (resp[k].tag == avoid && tr++ < 50) fill(k, k == freek ? (avoid < 0 ? 1 : -1) : 9); if (resp[k].tag == avoid && !fill(k, 0) && !fill(k, -avoid)) { note_sample("pool lacks the needed tag"); return; } } FE bad = choose(S_WORK, 3) == 2 ? (choose(S_WORK, 2) ? m.fe(2, 0) : m.neg(m.fe(2, 0))) : m.fe(choose(S_WORK, 1000) + 7, choose(S_WORK, 3)); if (m.valid_curve(bad)) { honest = true; break; } (zero_side ? E0 : E1) = bad; what = zero_side ? "invalid E0" : "invalid E1"; break; }
    case 10: cheat_in_c = false; differ = choose(S_WORK, R); what = "tag differs from the challenge at " + std::to_string(differ); break;
    default: cheat_in_c = false; honest = true; }
    if (honest) what = "honest control"; if (cheat_in_c) { resp[i] = c; }
    // honest commitments everywhere else; the lying prover redraws what it may until its own tag comes up, then answers the rest honestly
    auto compose = [&](const Comms &opened) { const PoolProof &b = pool[0]; Proof q; q.E0 = E0; q.E1 = E1; vector<string> h2(R), h3(R); for (int k = 0; k < R; k++) { h2[k] = b.h[k].first; h3[k] = b.h[k].second; } FE j0 = m.jinv(E0), j1 = m.jinv(E1); Resp d = c; vector<int> ch; int at = cheat_in_c ? i : differ;
        auto all = b.all; int k2 = R > 1 ? (i + 1) % R : i;
        for (int t = 0; t < 200; t++) { if (cheat_in_c) { h2[i] = opened[i].first; h3[i] = opened[i].second; if (tag < 0) h3[i] = d.b = m.rnd(P.hash); else if (tag > 0) h2[i] = d.a = m.rnd(P.hash); else if (t && k2 != i) { string r2 = m.rnd(P.hide); h2[k2] = m.commit(r2, m.jinv(all[k2][1].E2)); all[k2][0].a = all[k2][1].a = r2; all[k2][2].a = h2[k2]; } }
            ch = m.challenge(j0, j1, h2, h3); if (!cheat_in_c || ch[i] == tag) break; }
        for (int k = 0; k < R; k++) q.resp.push_back(cheat_in_c && k == i ? d : all[k][(ch[k] + 1 + (!cheat_in_c && k == at ? 1 + choose(S_WORK, 2) : 0)) % 3]); return q; };
    bool ok = false; Proof p = full ? compose(op) : m.grind(E0, E1, resp, op, differ, &ok); if (!honest) fired(F_BYZ);
    ProcCfg cfg = draw_cfg(C_SCHED | C_STALL); tapped.clear(); shake_tap = tap_fn; ProcResult r = cli_verify(cfg, ref::dump(P, p)); shake_tap = nullptr; require_clean("verify", r);
    if (adaptive && !r.ok()) { // learn what the verifier hashed for the lying response and commit to that
        Comms o2 = op; bool learnt = false; if (tag <= 0) { string h = tap_lookup(c.a); if (!h.empty()) { o2[i].first = h; learnt = true; } } if (tag >= 0) { string h = tap_lookup(c.b); if (!h.empty()) { o2[i].second = h; learnt = true; } }
        if (learnt) { p = full ? compose(o2) : m.grind(E0, E1, resp, o2, differ, &ok); r = cli_verify(draw_cfg(C_SCHED), ref::dump(P, p)); require_clean("verify", r); what += " (adapted)"; } }
    st.checks++; string why; bool rv = ref_verdict(pool[0], p, &why);
    if (r.ok() && !rv) violate("lying-prover-accepted", "verify accepted: %s, response %d tag %d (reference: %s)", what.c_str(), i, tag, why.c_str());
    if (!rv && !r.out.empty()) violate("lying-prover-output", "verify printed %zu bytes for %s", r.out.size(), what.c_str());
    if (honest && rv && !r.ok()) violate("honest-rejected", "verify rejected an honest transcript: %s", r.status().c_str());
    probe(rv ? P_ACCEPTED : P_REJECTED); note_sample("%s, tag %d, response %d/%d: %s; reference says %s", what.c_str(), tag, i, R, r.status().c_str(), rv ? "valid" : why.c_str());
}

// ---------------------------------------------------------------- C05
static void fam_conform() {
    ref::Model &m = model(); ref::Params P = params(); u64 mode = choose(S_WORK, 6); st.checks++;
    if (mode <= 1) {            // repo prover -> reference verifier
        string what; FE start = draw_start_curve(true, &what); if (!m.valid_curve(start)) start = m.fe(0, 0); string curve = ref::dump_fe(start, v.fp_bytes); ProcResult r = cli_prove(draw_cfg(C_SCHED | C_ENT), &curve); require_clean("prove", r); if (!r.ok()) violate("conform-prove", "prove from %s failed: %s", what.c_str(), r.status().c_str());
        Proof p; if (!ref::parse(P, r.out, p)) violate("conform-format", "the reference cannot read the proof text (%zu bytes)", r.out.size()); if (ref::dump(P, p) != r.out) violate("conform-format", "proof text is not in the published format");
        string why; if (!m.verify(p, &why)) violate("conform-prover", "the reference verifier rejects the proof: %s", why.c_str()); if (p.E0 != m.canonical(start)) violate("conform-start", "proof does not start at the canonical model of the given curve"); for (auto &rr : p.resp) if (rr.tag == 0 && rr.E2 != m.canonical(rr.E2)) violate("conform-start", "E2 is not the canonical model"); if (p.E1 != m.canonical(p.E1)) violate("conform-start", "E1 is not the canonical model");
        probe(P_ACCEPTED); note_sample("repo prover from %s -> reference verifier", what.c_str()); return;
    }
    if (mode == 2) {            // reference prover -> repo verifier
        Proof p; string what = "pool proof"; if (v.reps <= 8 && v.height <= 3) { FE start = draw_start_curve(true, &what); if (!m.valid_curve(start)) start = m.fe(0, 0); p = m.prove(m.generate(start)); } else p = pool[choose(S_WORK, pool.size())].p; ProcResult r = cli_verify(draw_cfg(C_SCHED | C_IO), ref::dump(P, p)); require_clean("verify", r);
        if (!r.ok()) violate("conform-verifier", "verify rejects the reference prover's proof (%s): %s", what.c_str(), r.status().c_str()); if (r.out != two_lines(p)) violate("conform-output", "verify printed the wrong curves"); probe(P_ACCEPTED); note_sample("reference prover (%s) -> repo verifier", what.c_str()); return;
    }
    if (mode == 3 && v.reps <= 8) { // valid but unusual transcripts: other models of E0/E1/E2, other kernel generators
        FE E0 = pool[0].p.E0, E1 = pool[0].p.E1; bool o0 = choose(S_WORK, 2), o1 = choose(S_WORK, 2); if (o0) E0 = m.models(E0)[1 + choose(S_WORK, 5)]; if (o1) E1 = m.models(E1)[1 + choose(S_WORK, 5)]; int R = v.reps; vector<Resp> resp(R); Comms op(R); bool free_ = false; string d;
        for (int k = 0; k < R; k++) { const PoolProof &o = pool[choose(S_WORK, 2)]; int j = choose(S_WORK, R); Resp r = o.p.resp[j]; op[k] = o.h[j]; if (k == R - 1 && !free_) { r.tag = 1; } if (r.tag != 0) free_ = true;
            FE end; if (r.tag == 0) { if (choose(S_WORK, 2)) { r.E2 = m.models(r.E2)[1 + choose(S_WORK, 5)]; r.x = m.walk(r.E2, 2, v.width, end); op[k] = {m.commit(r.a, m.jinv(r.E2)), m.commit(r.b, m.jinv(end))}; d += "E2 model; "; } else { FE A = r.E2, b, e; for (int s = 0; s < v.width; s++) { FE x = r.x[s]; r.x[s] = m.scalar_mul(A, x, 2 * choose(S_WORK, 1000) + 3); if (!m.step(A, x, 2, e, b)) sim_error("step"); A = e; } d += "generator multiples; "; } }
            else { bool left = r.tag < 0; if ((left ? o0 : o1) || k == R - 1) { r.a = m.rnd(left ? P.hide : P.hash); r.b = m.rnd(left ? P.hash : P.hide); r.x = m.walk(left ? E0 : E1, 3, v.height, end); op[k] = left ? std::make_pair(m.commit(r.a, m.jinv(end)), string()) : std::make_pair(string(), m.commit(r.b, m.jinv(end))); } else (left ? op[k].second : op[k].first) = ""; }
            resp[k] = r; }
        bool ok; Proof p = m.grind(E0, E1, resp, op, -1, &ok); string why; bool rv = m.verify(p, &why); ProcResult r = cli_verify(draw_cfg(C_SCHED), ref::dump(P, p)); require_clean("verify", r); if (rv != r.ok()) violate("conform-unusual", "verdicts differ on a consistent transcript (%s%s%s): reference %s, repo %s", d.c_str(), o0 ? "E0 model " : "", o1 ? "E1 model " : "", rv ? "accepts" : why.c_str(), r.status().c_str());
        probe(rv ? P_ACCEPTED : P_REJECTED); note_sample("consistent transcript: %s%s%s both %s", d.c_str(), o0 ? "other E0 model " : "", o1 ? "other E1 model " : "", rv ? "accept" : "reject"); return;
    }
    const PoolProof &b = pool[choose(S_WORK, pool.size())]; string what; Proof q = alter(b, &what); fired(F_TAMPER); if (!encodings_ok(q)) { note_sample("non-canonical encoding skipped"); return; } string why; bool rv = ref_verdict(b, q, &why); ProcResult r = cli_verify(draw_cfg(C_SCHED), ref::dump(P, q)); require_clean("verify", r);
    if (rv != r.ok()) violate("conform-verdict", "verdicts differ on %s: reference %s, repo %s", what.c_str(), rv ? "accepts" : why.c_str(), r.status().c_str()); probe(rv ? P_ACCEPTED : P_REJECTED); note_sample("%s: both %s", what.c_str(), rv ? "accept" : "reject");
}

void fam_output(), fam_hostile(), fam_entropy(), fam_zk(), fam_race(), fam_live(), fam_gate(), fam_ceremony(), fam_format();
extern const Family poik_families[];
const Family poik_families[] = {{"honest", fam_honest, prepare_pool}, {"verdict", fam_verdict, prepare_pool}, {"tamper", fam_tamper, prepare_pool}, {"byz", fam_byz, prepare_pool}, {"conform", fam_conform, prepare_pool},
    {"output", fam_output, prepare_one}, {"hostile", fam_hostile, prepare_pool}, {"entropy", fam_entropy, nullptr}, {"zk", fam_zk, nullptr}, {"race", fam_race, prepare_pool}, {"live", fam_live, prepare_pool}, {"gate", fam_gate, prepare_pool}, {"ceremony", fam_ceremony, nullptr}, {"format", fam_format, nullptr}, {nullptr, nullptr, nullptr}};
}
