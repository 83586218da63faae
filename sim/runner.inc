// Search, gating, minimisation and replay. Included at the end of core.cpp.
namespace sim {
static const Family *families; static const Family *find_family(const std::string &n) { for (const Family *f = families; f->name; f++) if (n == f->name) return f; return nullptr; }
static void arm_watchdog(int secs) { struct itimerval it = {{0, 0}, {secs, 0}}; setitimer(ITIMER_PROF, &it, 0); }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Slot *new_slot() { return (Slot *) mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static void child_body(const Family *f, u64 seed, int index) {
    stack_t ss = {}; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; sigaltstack(&ss, 0);
    struct sigaction sa = {}; sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigfillset(&sa.sa_mask);
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGPROF}) sigaction(s, &sa, 0);
    arm_watchdog((int) opt_u("watchdog", 400));
    memset(&st, 0, sizeof st); st.trace_hash = 0xcbf29ce484222325ull; run_seed = seed; run_index = index; choice_rng = Rng(mix2(seed, 0xc401ce));
    memset(stream_idx, 0, sizeof stream_idx); g_fast = g_slow = 0; t_now = 0; nquanta = 0;
    slot->status = 0; slot->nrec = 0; slot->textlen = 0; slot->msg[0] = slot->cls[0] = slot->sample[0] = 0; memset(&slot->st, 0, sizeof slot->st);
    f->fn(); settle_stats(); trace("run end"); finish(1);
}
static void reap(Slot *s, int status) { if (s->status == 0) { s->status = 3; if (WIFSIGNALED(status)) snprintf(s->msg, sizeof s->msg, "run process died with signal %d", WTERMSIG(status)); else snprintf(s->msg, sizeof s->msg, "run process exited with %d without a result", WEXITSTATUS(status)); } }
// one run in a forked child, waiting for it
static void one(Slot *s, const Family *f, u64 seed, int index, bool rep, const std::vector<ChoiceRec> *recs, bool text) {
    s->status = 0; fflush(stdout); fflush(stderr); pid_t p = fork();
    if (!p) { slot = s; replay_mode = rep; text_trace = text; replay_map.clear(); if (recs) for (auto &r : *recs) replay_map[{r.stream, r.idx}] = r.val; child_body(f, seed, index); }
    int w; waitpid(p, &w, 0); reap(s, w);
}
static std::string jstr(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

static void minimise(Slot *s, const Family *f, u64 seed, int index, std::vector<ChoiceRec> &recs, const std::string &cls, double budget, int *tried, int J) {
    // ddmin over the non-default choices: drop chunks while the same class of violation persists
    double t0 = wall(); *tried = 0; std::vector<Slot *> ss; for (int i = 0; i < J; i++) ss.push_back(new_slot()); (void) s;
    auto batch = [&](std::vector<std::vector<ChoiceRec>> &cands) -> int { // first candidate index that still fails, or -1
        for (size_t b = 0; b < cands.size(); b += J) {
            std::vector<pid_t> pid; size_t e = std::min(cands.size(), b + J);
            for (size_t i = b; i < e; i++) { Slot *q = ss[i - b]; q->status = 0; fflush(stdout); pid_t p = fork(); if (!p) { slot = q; replay_mode = true; text_trace = false; replay_map.clear(); for (auto &r : cands[i]) replay_map[{r.stream, r.idx}] = r.val; child_body(f, seed, index); } pid.push_back(p); }
            int found = -1; for (size_t i = b; i < e; i++) { int w; waitpid(pid[i - b], &w, 0); reap(ss[i - b], w); ++*tried; if (found < 0 && ss[i - b]->status == 2 && cls == ss[i - b]->cls) found = i; }
            if (found >= 0) return found; if (wall() - t0 > budget) return -1;
        }
        return -1;
    };
    size_t n = 2; { std::vector<std::vector<ChoiceRec>> c(1); if (batch(c) == 0) { recs.clear(); for (auto q : ss) munmap(q, sizeof(Slot)); return; } }
    while (recs.size() >= 1 && wall() - t0 < budget) {
        if (n > recs.size()) n = recs.size(); std::vector<std::vector<ChoiceRec>> cands; std::vector<std::pair<size_t, size_t>> cut;
        for (size_t k = 0; k < n; k++) { size_t a = recs.size() * k / n, b = recs.size() * (k + 1) / n; if (a == b) continue; std::vector<ChoiceRec> c(recs.begin(), recs.begin() + a); c.insert(c.end(), recs.begin() + b, recs.end()); cands.push_back(c); }
        int i = batch(cands);
        if (i >= 0) { recs = cands[i]; n = std::max<size_t>(2, n - 1); } else { if (n >= recs.size()) break; n = std::min(recs.size(), n * 2); }
    }
    // values: try smaller ones
    for (size_t i = 0; i < recs.size() && wall() - t0 < budget; i++) for (u64 v : {(u64) 1, recs[i].val / 2}) if (v && v < recs[i].val) { std::vector<std::vector<ChoiceRec>> c(1, recs); c[0][i].val = v; if (batch(c) == 0) { recs = c[0]; break; } }
    for (auto q : ss) munmap(q, sizeof(Slot));
}
static void write_replay(const char *path, const char *argv0, const Family *f, u64 seed, int index, const std::vector<ChoiceRec> &recs, Slot *s, size_t orig, int tried) {
    FILE *o = fopen(path, "w"); if (!o) { fprintf(stderr, "cannot write %s\n", path); _exit(4); }
    const char *b = strrchr(argv0, '/'); b = b ? b + 1 : argv0;
    fprintf(o, "{\n \"binary\": %s,\n \"family\": \"%s\",\n \"seed\": %llu,\n \"index\": %d,\n \"options\": {", jstr(b).c_str(), f->name, (unsigned long long) seed, index); bool first = true;
    for (auto &k : opts) { fprintf(o, "%s%s: %s", first ? "" : ", ", jstr(k.first).c_str(), jstr(k.second).c_str()); first = false; }
    fprintf(o, "},\n \"class\": %s,\n \"violation\": %s,\n \"trace_hash\": \"%016llx\",\n \"choices_before_minimisation\": %zu, \"minimisation_runs\": %d,\n \"choices\": [", jstr(s->cls).c_str(), jstr(s->msg).c_str(), (unsigned long long) s->st.trace_hash, orig, tried);
    for (size_t i = 0; i < recs.size(); i++) fprintf(o, "%s[\"%s\", %u, %llu]", i ? ", " : "", stream_name[recs[i].stream], recs[i].idx, (unsigned long long) recs[i].val);
    fprintf(o, "],\n \"events\": ["); std::string t(s->text, s->textlen); size_t a = 0; bool f1 = true; int cnt = 0; while (a < t.size()) { size_t e = t.find('\n', a); if (e == std::string::npos) e = t.size(); if (cnt++ < 400) { fprintf(o, "%s\n  %s", f1 ? "" : ",", jstr(t.substr(a, e - a)).c_str()); f1 = false; } a = e + 1; }
    fprintf(o, "\n ]\n}\n"); fclose(o);
}
static bool read_replay_line(const char *path, std::string *fam, u64 *seed, int *index, std::vector<ChoiceRec> *recs, std::string *cls, std::string *hash) {
    std::string t; FILE *f = fopen(path, "r"); if (!f) return false; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    auto str = [&](const char *k) { std::string key = std::string("\"") + k + "\": \""; size_t p = t.find(key); if (p == std::string::npos) return std::string(); p += key.size(); return t.substr(p, t.find('"', p) - p); };
    *fam = str("family"); *cls = str("class"); *hash = str("trace_hash"); size_t p = t.find("\"seed\": "); *seed = strtoull(t.c_str() + p + 8, 0, 10); p = t.find("\"index\": "); *index = atoi(t.c_str() + p + 9);
    p = t.find("\"options\": {"); size_t e = t.find('}', p); size_t q = p + 12; while ((q = t.find('"', q)) != std::string::npos && q < e) { size_t q2 = t.find('"', q + 1), v1 = t.find('"', q2 + 1), v2 = t.find('"', v1 + 1); opts[t.substr(q + 1, q2 - q - 1)] = t.substr(v1 + 1, v2 - v1 - 1); q = v2 + 1; }
    p = t.find("\"choices\": ["); if (p == std::string::npos) return false; p += 12; e = t.find("\"events\"", p);
    while ((p = t.find("[\"", p)) != std::string::npos && p < e) { size_t q = t.find('"', p + 2); std::string sn = t.substr(p + 2, q - p - 2); char *c; u32 idx = strtoul(t.c_str() + q + 2, &c, 10); u64 v = strtoull(c + 1, 0, 10); for (int i = 0; i < S_COUNT; i++) if (sn == stream_name[i]) recs->push_back(ChoiceRec{(u8) i, idx, v}); p = q; }
    return true;
}

int sim_main(int argc, char **argv, const Family *fams) {
    families = fams; if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) >= 0) { setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    dl_iterate_phdr(tls_cb, 0);
    if (mmap((void *) HEAP_BASE, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *) HEAP_BASE) { fprintf(stderr, "cannot map heap\n"); return 4; }
    mmap((void *) STACK_BASE, STACK_SPAN * MAXF, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    std::string mode = argc > 1 ? argv[1] : ""; std::string fam, out, replay; u64 seed0 = 1; int runs = 10, J = 4, first = 0; double maxwall = 1e9, minwall = 60;
    for (int i = 2; i < argc; i++) { std::string a = argv[i]; auto val = [&] { return std::string(argv[++i]); };
        if (a == "--family") fam = val(); else if (a == "--seed") seed0 = strtoull(argv[++i], 0, 0); else if (a == "--runs") runs = atoi(argv[++i]); else if (a == "--first") first = atoi(argv[++i]); else if (a == "--jobs") J = atoi(argv[++i]); else if (a == "--replay-out") replay = val(); else if (a == "--maxwall") maxwall = atof(argv[++i]); else if (a == "--minwall") minwall = atof(argv[++i]); else if (a == "--thorough") thorough = true;
        else { size_t e = a.find('='); if (e != std::string::npos) opts[a.substr(0, e)] = a.substr(e + 1); else replay = a; } }
    if (opts.count("thorough")) thorough = true; if (thorough) opts["thorough"] = "1";
    Slot *s = new_slot();
    if (mode == "replay") {
        u64 seed; int index; std::vector<ChoiceRec> recs; std::string cls, hash; if (!read_replay_line(replay.c_str(), &fam, &seed, &index, &recs, &cls, &hash)) { fprintf(stderr, "bad replay file\n"); return 4; }
        if (opts.count("thorough")) thorough = true;
        const Family *f = find_family(fam); if (!f) { fprintf(stderr, "no family %s\n", fam.c_str()); return 4; }
        slot = s; if (f->prepare) f->prepare(); one(s, f, seed, index, true, &recs, true);
        char h[20]; snprintf(h, sizeof h, "%016llx", (unsigned long long) s->st.trace_hash); fwrite(s->text, 1, s->textlen, stderr);
        printf("{\"status\": %d, \"class\": %s, \"message\": %s, \"trace_hash\": \"%s\", \"same_hash\": %s}\n", s->status, jstr(s->cls).c_str(), jstr(s->msg).c_str(), h, hash == h ? "true" : "false");
        return s->status == 2 ? (cls == s->cls ? 1 : 5) : s->status == 1 ? 0 : 4;
    }
    const Family *f = find_family(fam); if (!f) { fprintf(stderr, "no family '%s'\n", fam.c_str()); return 4; }
    double t0 = wall(); slot = s; s->status = 0; if (f->prepare) f->prepare(); double tprep = wall() - t0; t0 = wall();
    if (mode == "hash") { for (int i = 0; i < runs; i++) { u64 sd = mix2(seed0, first + i); one(s, f, sd, first + i, false, nullptr, false); printf("%d %d %016llx %u\n", first + i, s->status, (unsigned long long) s->st.trace_hash, s->nrec); } return 0; }
    std::vector<Slot *> ss; std::vector<pid_t> pids(J, 0); std::vector<int> idx(J); std::vector<double> started(J); for (int i = 0; i < J; i++) ss.push_back(new_slot());
    RunStats tot = {}; u64 done = 0, nontriv = 0; std::set<u64> hashes, scheds; int next = first, live = 0, bad = -1, badk = -1, errs = 0; std::string errmsg; std::vector<std::string> samples; u64 maxrun = 0; double maxrunwall = 0;
    while (true) {
        while (live < J && next < first + runs && bad < 0 && errs < 8 && wall() - t0 < maxwall) { int k = 0; while (pids[k]) k++; fflush(stdout); ss[k]->status = 0; pid_t p = fork(); if (p < 0) { fprintf(stderr, "fork failed\n"); return 4; } if (!p) { slot = ss[k]; replay_mode = false; text_trace = false; child_body(f, mix2(seed0, next), next); } pids[k] = p; idx[k] = next++; started[k] = wall(); live++; }
        if (!live) break;
        int w; pid_t p = wait(&w); int k = 0; while (k < J && pids[k] != p) k++; if (k == J) continue; pids[k] = 0; live--; reap(ss[k], w); Slot *q = ss[k]; double dw = wall() - started[k]; if (dw > maxrunwall) maxrunwall = dw;
        if (q->status == 3) { if (!errs++) errmsg = q->msg + std::string(" [run ") + std::to_string(idx[k]) + "]"; continue; }
        done++; tot.steps += q->st.steps; tot.switches += q->st.switches; tot.sim_ns += q->st.sim_ns; tot.shared_acc += q->st.shared_acc; tot.ent_bytes += q->st.ent_bytes; tot.threads += q->st.threads; tot.procs += q->st.procs; tot.checks += q->st.checks; if (q->st.max_runnable > maxrun) maxrun = q->st.max_runnable;
        for (int i = 0; i < F_COUNT; i++) tot.fault[i] += q->st.fault[i]; for (int i = 0; i < P_COUNT; i++) tot.probe[i] += q->st.probe[i];
        bool nt = q->nrec > 0; if (hashes.insert(q->st.trace_hash).second && nt) nontriv++; if (q->st.switches) scheds.insert(q->st.sched_hash); if (q->sample[0] && samples.size() < 4) samples.push_back(q->sample);
        if (q->status == 2 && (bad < 0 || idx[k] < bad)) { bad = idx[k]; badk = k; }
    }
    double tw = wall() - t0; int rc = 0; std::string extra;
    if (bad >= 0) { errs = 0;    // a violation takes precedence over runs that gave no answer
        u64 seed = mix2(seed0, bad); (void) badk;
        // gate 1: the same seed must reproduce exactly
        one(s, f, seed, bad, false, nullptr, false); std::vector<ChoiceRec> recs(s->rec, s->rec + s->nrec); std::string cls = s->cls; u64 h = s->st.trace_hash; int st1 = s->status;
        one(s, f, seed, bad, false, nullptr, false);
        if (st1 != 2 || s->status != 2 || s->st.trace_hash != h || cls != s->cls) { errs = 1; errmsg = "violation did not reproduce from its seed: " + std::string(s->msg); }
        else {
            one(s, f, seed, bad, true, &recs, false); if (s->status != 2 || s->st.trace_hash != h || cls != s->cls) { errs = 1; errmsg = "violation did not reproduce from its recorded choices: " + std::string(s->msg); }
            else {
                size_t orig = recs.size(); int tried = 0; minimise(s, f, seed, bad, recs, cls, minwall, &tried, J);
                one(s, f, seed, bad, true, &recs, true); if (s->status != 2 || cls != s->cls) { errs = 1; errmsg = "minimised trace does not fail"; }
                else { // keep only what the run consumed
                    std::string path = replay.empty() ? "replay.json" : replay; write_replay(path.c_str(), argv[0], f, seed, bad, recs, s, orig, tried);
                    char exe[4096]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n < 0 ? 0 : n] = 0; std::string cmd = std::string("'") + exe + "' replay '" + path + "' >/dev/null 2>&1"; int r = system(cmd.c_str());
                    if (!WIFEXITED(r) || WEXITSTATUS(r) != 1) { errs = 1; errmsg = "replay in a fresh process did not reproduce the violation"; }
                    else { rc = 1; extra = ", \"violation\": {\"class\": " + jstr(cls) + ", \"message\": " + jstr(s->msg) + ", \"seed\": " + std::to_string(seed) + ", \"replay\": " + jstr(path) + ", \"choices\": " + std::to_string(recs.size()) + ", \"choices_before\": " + std::to_string(orig) + "}"; }
                }
            }
        }
    }
    if (errs) rc = 4;
    printf("{\"family\": \"%s\", \"runs\": %llu, \"requested\": %d, \"wall_s\": %.3f, \"prepare_s\": %.3f, \"max_run_s\": %.2f, \"distinct_traces\": %zu, \"distinct_nontrivial\": %llu, \"distinct_schedules\": %zu, \"steps\": %llu, \"shared_accesses\": %llu, \"switches\": %llu, \"sim_ns\": %llu, \"threads\": %llu, \"processes\": %llu, \"checks\": %llu, \"entropy_bytes\": %llu, \"max_runnable\": %llu, \"faults\": {", fam.c_str(), (unsigned long long) done, runs, tw, tprep, maxrunwall, hashes.size(), (unsigned long long) nontriv, scheds.size(), (unsigned long long) tot.steps, (unsigned long long) tot.shared_acc, (unsigned long long) tot.switches, (unsigned long long) tot.sim_ns, (unsigned long long) tot.threads, (unsigned long long) tot.procs, (unsigned long long) tot.checks, (unsigned long long) tot.ent_bytes, (unsigned long long) maxrun);
    bool c = false; for (int i = 0; i < F_COUNT; i++) if (tot.fault[i]) { printf("%s\"%s\": %llu", c ? ", " : "", fault_name[i], (unsigned long long) tot.fault[i]); c = true; }
    printf("}, \"probes\": {"); c = false; for (int i = 0; i < P_COUNT; i++) if (tot.probe[i]) { printf("%s\"%s\": %llu", c ? ", " : "", probe_name[i], (unsigned long long) tot.probe[i]); c = true; }
    printf("}, \"samples\": ["); c = false; for (auto &x : samples) { printf("%s%s", c ? ", " : "", jstr(x).c_str()); c = true; }
    printf("], \"error\": %s%s}\n", errs ? jstr(errmsg).c_str() : "null", extra.c_str());
    return rc;
}
} // namespace sim
