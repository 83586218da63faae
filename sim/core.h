// Deterministic simulator core: one OS thread, fibers for threads, seeded choices for everything.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;

namespace sim {

// ---------------------------------------------------------------- hashing / prf
static inline u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
static inline u64 mix2(u64 a, u64 b) { return mix64(a ^ mix64(b + 0x632be59bd9b4e019ull)); }
struct Rng { u64 s; explicit Rng(u64 seed) : s(mix64(seed)) {} u64 next() { return mix64(s++ * 0xd1342543de82ef95ull + 1); } u64 below(u64 n) { return n ? next() % n : 0; } double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); } };

// ---------------------------------------------------------------- choices
// Every nondeterministic decision is a choice >= 0 in a stream; 0 is the benign default.
// Search mode draws them from the run's PRNG, replay mode reads the (sparse) recorded values.
enum Stream { S_SCHED, S_STALL, S_IN, S_OUT, S_ENT, S_MEM, S_CPU, S_KILL, S_WORK, S_NET, S_COUNT };
extern const char *const stream_name[S_COUNT];
struct ChoiceRec { u8 stream; u32 idx; u64 val; };
u64 choose(Stream s, u64 n);                    // uniform in 0..n-1
u64 choose_p(Stream s, u64 n, double p);        // 0 with prob. 1-p, else uniform in 1..n-1
bool coin(Stream s, double p);                  // choose_p(s,2,p)

// ---------------------------------------------------------------- violations
struct Violation { std::string cls, msg; };
// ends the current run (switches to the driver, never returns)
[[noreturn]] void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// the simulator itself cannot handle the situation: error, not a verdict
[[noreturn]] void sim_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // event log (hash always, text in replay mode)

// ---------------------------------------------------------------- statistics
enum Fault { F_ENT_OPEN, F_ENT_ERR, F_ENT_SHORT, F_ENT_OUTAGE, F_ENT_RARE, F_IN_CHUNK, F_IN_ERR, F_IN_EOF, F_OUT_SHORT, F_OUT_ERR, F_OUT_FULL,
    F_ERR_OUT, F_OOM, F_THREAD, F_CPU_UNKNOWN, F_PREEMPT, F_STALL, F_KILL, F_TAMPER, F_BYZ, F_DROP, F_DUP, F_REORDER, F_DELAY, F_CORRUPT, F_RESTART, F_CLOCK, F_GARBAGE, F_COUNT };
extern const char *const fault_name[F_COUNT];
enum Probe { P_MULTI_WORKER, P_BOTH_VERDICTS, P_REJECTED, P_ACCEPTED, P_LATE_REJECT, P_EXIT0, P_EXITN, P_ABORT, P_KILLED, P_MIDWRITE, P_FIRST_USE, P_REF_DIFF, P_NULL_OPEN, P_IMPLICIT_REJ, P_LINKS, P_COUNT };
extern const char *const probe_name[P_COUNT];

struct RunStats {
    u64 steps, switches, sim_ns, shared_acc, ent_bytes, threads, procs, checks, sched_hash, trace_hash;
    u64 fault[F_COUNT], probe[P_COUNT];
    u64 max_runnable;
};
extern RunStats st;
static inline void fired(Fault f, u64 n = 1) { st.fault[f] += n; }
static inline void probe(Probe p, u64 n = 1) { st.probe[p] += n; }

// ---------------------------------------------------------------- a simulated process
enum ExitKind { X_RETURN, X_EXIT, X_ABORT, X_KILLED, X_CRASH, X_BUDGET, X_DEADLOCK, X_MEMORY };
const char *exit_name(ExitKind);

struct EntCfg { double p_open = 0, p_err = 0, p_short = 0; u64 outage_at = ~0ull; double p_rare = 0; u64 key = 0; u64 flip_at = ~0ull, flip_end = ~0ull; u64 flip_key = 0; bool never_opens = false; std::vector<std::string> inject; std::string rep; u64 rep_from = 0, rep_to = 0; int sparse = 0; };   // inject: byte strings the device happens to deliver (rare values)
struct IoCfg {
    // input
    double p_in_chunk = 0; size_t in_chunk_max = 0; u64 in_err_at = ~0ull; int in_errno = 5; u64 in_eof_at = ~0ull;
    // output
    size_t out_buf = 4096; double p_out_short = 0; u64 out_full_at = ~0ull; u64 out_err_at = ~0ull; int out_errno = 5; int out_err_times = -1; bool err_fails = false; int in_buf = 4096;
};
struct SchedCfg {
    int mode = 0;           // 0 run-to-block, 1 random quantum, 2 round robin with small quantum, 3 priorities with change points, 4 starve one
    u64 mean = 1000;        // mean quantum in shared accesses
    double p_stall = 0;     // probability that a new thread / a wakeup is stalled
    u64 starve = 0;
};
struct ProcCfg {
    EntCfg ent; IoCfg io; SchedCfg sched;
    long ncpu = 4; double p_oom = 0; int oom_at = -1; int thread_fail_at = -1; u64 kill_at = ~0ull; u64 kill_out_at = ~0ull; u64 step_budget = 0; u64 time_budget = 0; u64 garbage = 0; bool races = true;
};
struct EntRec { int fiber; u64 off; u32 len; u64 seq; };
struct ProcResult {
    ExitKind kind = X_RETURN; int code = 0; std::string what;
    std::string out, err;               // bytes the simulated OS accepted
    u64 out_attempted = 0;
    bool out_fault = false, in_fault = false, ent_fault = false, oom = false, thread_fault = false, killed = false, err_fault = false;
    u64 steps = 0, ns = 0, ent_total = 0;
    std::vector<EntRec> ent; std::string ent_bytes;
    size_t leaked = 0, leaked_blocks = 0, live_threads = 0, open_fds = 0, opens = 0; u64 created = 0;
    bool ok() const { return (kind == X_RETURN || kind == X_EXIT) && code == 0; }
    std::string status() const;
};
// runs body as the main thread of a fresh simulated process (globals of the code under test reset)
ProcResult run_proc(const ProcCfg &cfg, const std::string &input, const std::function<int()> &body);

// --- usable inside a simulated process
int spawn(const std::function<void()> &f);      // extra caller thread of the harness
void join_fiber(int id);
void *palloc(size_t n);                         // block of the process's checked heap
void pfree(void *p);
FILE *sim_out(); FILE *sim_in(); FILE *sim_err();
u64 now_ns(); u64 cur_steps(); int cur_fiber();
u64 ent_pos(); size_t ent_log_size(); u64 heap_live(); size_t threads_live(); size_t fds_open();
void reset_output();
const std::string &cur_out();
std::vector<EntRec> &ent_log(); std::string &ent_data();
void sleep_ns(u64 ns);
// observers (called in simulated context, must not block)
extern void (*shake_tap)(const u8 *in, size_t inlen, const u8 *out, size_t outlen);

// ---------------------------------------------------------------- variant under test
struct Variant {                // filled in by the C glue
    int bits, reps, width, height, hash_bytes, hide_bytes, fp_bytes, threading, debug;
    size_t sz_secret, sz_proof, sz_fp2, off_E, off_P, off_pE0, off_pE1;
    bool (*Generate)(const void *, void *); void (*Prove)(const void *, void *); bool (*Verify)(void *);
    bool (*Dump_Fp2)(FILE *, const void *); bool (*Dump)(FILE *, const void *); bool (*Parse_Fp2)(FILE *, void *); bool (*Parse)(FILE *, void *);
    FILE **progress;
    int (*prove_main)(int, char **); int (*verify_main)(int, char **);
};

// ---------------------------------------------------------------- runs
typedef void (*FamilyFn)();
struct Family { const char *name; FamilyFn fn; void (*prepare)(); };
extern u64 run_seed; extern int run_index; extern bool thorough;
extern std::map<std::string, std::string> opts;
u64 opt_u(const char *k, u64 d);
void note_sample(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int sim_main(int argc, char **argv, const Family *fams);
}
