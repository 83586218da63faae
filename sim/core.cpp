// Simulator core: fibers, scheduler, clock, seams for the C library, race detector, checked heap.
#include <cmath>
#include "core.h"
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <threads.h>
#include <algorithm>
#include <unordered_map>
#include <set>

namespace sim {

const char *const stream_name[S_COUNT] = {"sched","stall","in","out","entropy","mem","cpu","kill","work","net"};
const char *const fault_name[F_COUNT] = {"entropy_open_error","entropy_read_error","entropy_short_read","entropy_outage","entropy_rare_value","input_chunked","input_error","input_truncated",
    "output_short_write","output_error","disk_full","stderr_error","malloc_failure","thread_create_failure","cpu_count_unknown","preemption","thread_stall","process_kill","stored_byte_tamper","byzantine_message",
    "message_drop","message_duplicate","message_reorder","message_delay","message_corrupt","restart","clock_jump","stack_heap_garbage"};
const char *const probe_name[P_COUNT] = {"multi_worker","both_verdicts","rejected","accepted","late_reject","exit_zero","exit_nonzero","abort","killed","fault_inside_write","entropy_first_use_by_workers","reference_disagreed","fault_during_open","implicit_rejection","ceremony_links"};
RunStats st;
u64 run_seed; int run_index; bool thorough;
std::map<std::string, std::string> opts;
u64 opt_u(const char *k, u64 d) { auto it = opts.find(k); return it == opts.end() ? d : strtoull(it->second.c_str(), 0, 0); }
void (*shake_tap)(const u8 *, size_t, const u8 *, size_t) = nullptr;

const char *exit_name(ExitKind k) { static const char *n[] = {"return","exit","abort","killed","crash","step-budget","deadlock","memory-error"}; return n[k]; }
std::string ProcResult::status() const { char b[64]; snprintf(b, sizeof b, "%s(%d)", exit_name(kind), code); return what.empty() ? b : std::string(b) + ": " + what; }

// ---------------------------------------------------------------- result slot shared with the parent
enum { MAXREC = 1 << 19, TEXTCAP = 1 << 22 };
struct Slot {
    volatile int status;            // 0 running, 1 ok, 2 violation, 3 error
    char cls[64]; char msg[2000]; char sample[1200];
    RunStats st; u32 nrec; u32 textlen; double wall;
    ChoiceRec rec[MAXREC]; char text[TEXTCAP];
};
static Slot *slot; static ProcCfg cfg;
static bool replay_mode, text_trace;
static std::map<std::pair<int,u32>, u64> replay_map;
static u32 stream_idx[S_COUNT];
static Rng choice_rng(0);

static u64 record(Stream s, u64 v) { u32 i = stream_idx[s]++; (void) i; if (v) { if (slot->nrec < MAXREC) slot->rec[slot->nrec++] = ChoiceRec{(u8) s, i, v}; else sim_error("choice record overflow (stream %s, index %u, mode %d, mean %llu)", stream_name[s], i, cfg.sched.mode, (unsigned long long) cfg.sched.mean); } return v; }
static bool replayed(Stream s, u64 n, u64 *v) { if (!replay_mode) return false; auto it = replay_map.find({(int) s, stream_idx[s]}); *v = it == replay_map.end() ? 0 : it->second; if (n && *v >= n) *v = n - 1; return true; }
u64 choose(Stream s, u64 n) { u64 v; if (n <= 1) return 0; if (!replayed(s, n, &v)) v = choice_rng.below(n); return record(s, v); }
u64 choose_p(Stream s, u64 n, double p) { u64 v; if (n <= 1) return 0; if (!replayed(s, n, &v)) v = choice_rng.unit() < p ? 1 + choice_rng.below(n - 1) : 0; return record(s, v); }
bool coin(Stream s, double p) { return p > 0 && choose_p(s, 2, p); }

static void hash_trace(const void *p, size_t n) { u64 h = slot->st.trace_hash ^ st.trace_hash; const u8 *b = (const u8 *) p; for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull; st.trace_hash = h ? h : 1; }
void trace(const char *fmt, ...) {
    char b[1200]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (n > (int) sizeof b - 1) n = sizeof b - 1;
    hash_trace(b, n);
    if (text_trace && slot->textlen + n + 2 < TEXTCAP) { memcpy(slot->text + slot->textlen, b, n); slot->textlen += n; slot->text[slot->textlen++] = '\n'; }
}
void note_sample(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(slot->sample, sizeof slot->sample, fmt, ap); va_end(ap); }
static void finish(int status) { slot->st = st; slot->status = status; _exit(0); }
static u64 g_fast, g_slow;
static void settle_stats();
[[noreturn]] void violate(const char *cls, const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(slot->msg, sizeof slot->msg, fmt, ap); va_end(ap); snprintf(slot->cls, sizeof slot->cls, "%s", cls); settle_stats(); trace("VIOLATION %s", cls); finish(2); __builtin_unreachable(); }
[[noreturn]] void sim_error(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(slot->msg, sizeof slot->msg, fmt, ap); va_end(ap); finish(3); __builtin_unreachable(); }

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void **save_sp, void *to_sp);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
    mov %rsp,(%rdi)
    mov %rsi,%rsp
    pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
    ret
)");

enum { MAXF = 290 };
enum FState { FREE, RUN, BLOCK, SLEEP, DONE };
struct VC { u32 c[MAXF]; };
struct Fiber {
    FState state = FREE; int id = 0; u64 serial = 0; void *sp = nullptr; char *lo = nullptr; size_t size = 0; bool detached = false, joined = false, harness = false;
    u64 wake = 0; void *waitq = nullptr; bool timed_out = false;
    std::function<void()> fn; void *ret = nullptr; int err = 0; std::string tls; VC *vc = nullptr; u64 prio = 0; std::map<u32, void *> specific; int started_by = 0;
};
static Fiber F[MAXF];
static Fiber *cur; static int nfib;             // nfib: highest used + 1
static void *driver_sp;
static bool in_proc;
static const uintptr_t STACK_BASE = 0x600000000000ull, HEAP_BASE = 0x610000000000ull;
static const size_t STACK_SPAN = 16u << 20, STACK_SIZE = 8u << 20; static const size_t HEAP_SIZE = 4ull << 30;
static u64 fiber_serial;

static ProcResult *pr; static std::string input; static size_t in_pos;
static u64 t_now, time_end; static u64 g_fast0, quantum, switch_limit, proc_steps0, budget_end, event_at; static int oom_count, thr_count; static u64 hot;
static std::vector<std::pair<int, bool>> fds; // index -> open?
static std::string ent_pending; static u64 e_pos; static FILE *f_in, *f_out, *f_err; static bool out_closed; static int out_err_left; static size_t stall_budget;
static u64 shared_since_switch; static int unjoined;       // threads started and not joined
uintptr_t cur_lo; size_t cur_span;               // fast-path stack window (read by the hooks)
static std::string tls_init; static char *tls_addr; static size_t tls_size;
static bool races_on;

u64 now_ns() { return t_now; }
u64 cur_steps() { return g_fast + g_slow; }
int cur_fiber() { return cur ? cur->id : -1; }
static void settle_stats() { st.steps = g_fast + g_slow; st.shared_acc = g_slow; }

static int tls_cb(struct dl_phdr_info *i, size_t, void *) {
    static bool first = true; if (!first) return 1; first = false;      // the executable comes first
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        tls_size = i->dlpi_phdr[k].p_memsz; tls_addr = (char *) i->dlpi_tls_data; tls_init.assign((char *) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz); tls_init.resize(tls_size, 0); }
    return 1;
}

static void fill_garbage(char *p, size_t n, u64 key) { if (!key) { memset(p, 0, n); return; } u64 *q = (u64 *) p; u64 k = mix64(key); for (size_t i = 0; i < n / 8; i++) { k = k * 6364136223846793005ull + 1442695040888963407ull; q[i] = k ^ (k >> 29); } for (size_t i = n & ~7ull; i < n; i++) p[i] = (char) (k >> (i & 7) * 8); }

// ---------------------------------------------------------------- race detector (happens-before, 8-byte granules, byte masks)
struct Cell { u32 epoch; u8 fid; u8 mask; u8 flags; u8 pad; u32 pc; };     // flags: 1 write, 2 atomic, 4 valid
struct Gran { u64 addr; Cell c[6]; };
static Gran *rtab; static size_t rcap = 1 << 21, rused; static u64 rgen; 
static inline Gran *rget(u64 a) { size_t h = (a * 0x9e3779b97f4a7c15ull) >> 43; for (;;) { Gran *g = &rtab[h & (rcap - 1)]; if (g->addr == a) return g; if (!g->addr) { if (rused > rcap * 3 / 4) return nullptr; rused++; g->addr = a; return g; } h++; } }
static void race_reset() { if (rtab) munmap(rtab, rcap * sizeof(Gran)); rtab = (Gran *) mmap(0, rcap * sizeof(Gran), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); rused = 0; }
static void race_clear(uintptr_t a, size_t n) { if (!races_on || !rused) return; if (n > (64 << 20)) return; for (uintptr_t g = a & ~7ull; g < a + n; g += 8) { size_t h = (g * 0x9e3779b97f4a7c15ull) >> 43; for (;;) { Gran *q = &rtab[h & (rcap - 1)]; if (!q->addr) break; if (q->addr == g) { memset(q->c, 0, sizeof q->c); break; } h++; } } }
static std::string where(uintptr_t a) {
    char b[160];
    for (int i = 0; i < nfib; i++) if (F[i].lo && a >= (uintptr_t) F[i].lo && a < (uintptr_t) F[i].lo + F[i].size) { snprintf(b, sizeof b, "stack of thread %d", i); return b; }
    if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) return "heap";
    return "static data";
}
static void race_granule(u64 g, u8 mask, bool wr, bool atom, uintptr_t pc) {
    Gran *r = rget(g); if (!r) return;
    int me = cur->id; u32 *vc = cur->vc->c; int freec = -1, own = -1, oldest = 0; 
    for (int i = 0; i < 6; i++) {
        Cell &c = r->c[i];
        if (!(c.flags & 4)) { if (freec < 0) freec = i; continue; }
        if (c.fid == me && c.mask == mask && !!(c.flags & 1) == wr && !!(c.flags & 2) == atom) { own = i; }
        if (c.fid != me && (c.mask & mask) && (wr || (c.flags & 1)) && !(atom && (c.flags & 2)) && c.epoch > vc[c.fid])
            violate("data-race", "unsynchronised %s by thread %d (at 0x%lx) conflicts with earlier %s%s by thread %d (at 0x%x) on %s, %d worker threads", wr ? "write" : "read", me, (long) pc, c.flags & 2 ? "atomic " : "", c.flags & 1 ? "write" : "read", c.fid, c.pc, where(g).c_str(), unjoined);
        if (c.epoch <= vc[c.fid] && c.fid != me && freec < 0) freec = i;    // ordered before us: may be replaced
        if (c.epoch < r->c[oldest].epoch) oldest = i;
    }
    int k = own >= 0 ? own : freec >= 0 ? freec : (int) (g_slow % 6);
    Cell &c = r->c[k]; c.epoch = vc[me]; c.fid = me; c.mask = mask; c.flags = 4 | (wr ? 1 : 0) | (atom ? 2 : 0); c.pc = (u32) pc;
}
static void race_access(uintptr_t a, size_t n, bool wr, bool atom, uintptr_t pc) {
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8) { u8 m = 0xff; if (g < a) m &= (u8) (0xff << (a - g)); if (g + 8 > e) m &= (u8) (0xff >> (g + 8 - e)); race_granule(g, m, wr, atom, pc); }
}
static std::unordered_map<u64, VC *> syncs;     // release clocks of atomics, mutexes, ...
static void vc_join(VC *a, const VC *b) { for (int i = 0; i < nfib; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static void hb_acquire(u64 key) { if (!races_on) return; auto it = syncs.find(key); if (it != syncs.end()) vc_join(cur->vc, it->second); }
static void hb_release(u64 key, bool replace) { if (!races_on) return; VC *&v = syncs[key]; if (!v) { v = (VC *) calloc(1, sizeof(VC)); } if (replace) *v = *cur->vc; else vc_join(v, cur->vc); cur->vc->c[cur->id]++; }

// ---------------------------------------------------------------- checked heap of the simulated process
struct Blk { size_t n; bool freed; bool harness; };
static std::map<uintptr_t, Blk> blocks; static uintptr_t heap_top; static size_t live_bytes; static size_t live_blocks;
static uintptr_t last_lo = 1, last_hi = 0;
u64 heap_live() { return live_bytes; }
[[noreturn]] static void end_proc(ExitKind k, int code, const char *what);
static void heap_check(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    if (a >= last_lo && a + n <= last_hi) return;
    auto it = blocks.upper_bound(a); char b[200];
    if (it == blocks.begin()) { snprintf(b, sizeof b, "%s of %zu bytes outside any heap block (at 0x%lx)", wr ? "write" : "read", n, (long) pc); end_proc(X_MEMORY, 0, b); }
    --it;
    if (a + n > it->first + it->second.n) { snprintf(b, sizeof b, "heap %s of %zu bytes at offset %ld of a %zu-byte block (at 0x%lx)", wr ? "write" : "read", n, (long) (a - it->first), it->second.n, (long) pc); end_proc(X_MEMORY, 0, b); }
    if (it->second.freed) { snprintf(b, sizeof b, "heap %s of %zu bytes in a freed block (at 0x%lx)", wr ? "write" : "read", n, (long) pc); end_proc(X_MEMORY, 0, b); }
    last_lo = it->first; last_hi = it->first + it->second.n;
}
static void *heap_alloc(size_t n, size_t align, bool harness) {
    uintptr_t a = (heap_top + 64 + align - 1) / align * align; if (a + n + 64 > HEAP_BASE + HEAP_SIZE) return nullptr;
    heap_top = a + n; blocks[a] = Blk{n, false, harness}; if (!harness) { live_bytes += n; live_blocks++; }
    fill_garbage((char *) a, n, cfg.garbage ? mix2(cfg.garbage, blocks.size()) : 0); race_clear(a, n); return (void *) a;
}
static void heap_free(void *p, bool harness) {
    if (!p) return; auto it = blocks.find((uintptr_t) p);
    if (it == blocks.end()) end_proc(X_MEMORY, 0, "free() of a pointer that was not allocated");
    if (it->second.freed) end_proc(X_MEMORY, 0, "double free()");
    it->second.freed = true; if (!it->second.harness) { live_bytes -= it->second.n; live_blocks--; } fill_garbage((char *) p, it->second.n, 0xfeed); last_lo = 1; last_hi = 0; race_clear((uintptr_t) p, it->second.n);
}
void *palloc(size_t n) { return heap_alloc(n, 16, true); }
void pfree(void *p) { heap_free(p, true); }

// ---------------------------------------------------------------- scheduler
static void set_window() { if (cur->id == 0 && unjoined > 0) { cur_lo = 0; cur_span = 0; } else if (unjoined > 0 && cur->harness) { cur_lo = 0; cur_span = 0; } else { cur_lo = (uintptr_t) cur->lo; cur_span = cur->size; } }
static void leave_to(Fiber *n) {
    if (n == cur) return; Fiber *o = cur; st.switches++;
    st.sched_hash = mix2(st.sched_hash, (u64) n->id << 40 ^ (shared_since_switch < 1000000 ? shared_since_switch : 1000000) ^ (u64) o->id << 50); shared_since_switch = 0;
    o->err = errno; if (tls_size) { o->tls.assign(tls_addr, tls_size); memcpy(tls_addr, n->tls.data(), tls_size); }
    cur = n; errno = n->err; set_window(); sim_switch(&o->sp, n->sp);
}
static u64 nquanta;
static void draw_quantum() {
    u64 q = 0; shared_since_switch = 0; const u64 mean = cfg.sched.mean << std::min<u64>(40, 2 * (nquanta++ / 8000));     // long runs: ever coarser, so that the record stays bounded
    switch (cfg.sched.mode) { case 1: case 4: { u64 k = replay_mode ? 0 : 1; u64 v; if (replayed(S_SCHED, 0, &v)) q = v; else if (k) { double u = choice_rng.unit(); q = choice_rng.unit() < 0.1 ? 0 : (u64) (-std::log1p(-u) * mean) + 1; } record(S_SCHED, q); break; }
        case 2: { u64 v; if (replayed(S_SCHED, 0, &v)) q = v; else q = 1 + choice_rng.below(mean < 2 ? 2 : mean); record(S_SCHED, q); break; }
        case 3: { u64 v; if (replayed(S_SCHED, 0, &v)) q = v; else q = choice_rng.unit() < 0.25 ? 0 : 1 + choice_rng.below(mean * 8 + 1); record(S_SCHED, q); break; } }
    quantum = q ? q : 4000000; switch_limit = quantum; if (q) fired(F_PREEMPT);
}
static int runnable_list(int *L) { int n = 0; for (int i = 0; i < nfib; i++) if (F[i].state == SLEEP && F[i].wake <= t_now) { F[i].state = RUN; F[i].waitq = nullptr; } for (int k = 0; k < nfib; k++) { int i = (cur->id + k) % nfib; if (F[i].state == RUN) L[n++] = i; } return n; }
// pick the next fiber; voluntary: the current one may keep running
static void reschedule() {
    int L[MAXF], n;
    for (;;) {
        n = runnable_list(L); if (n) break;
        u64 w = ~0ull; for (int i = 0; i < nfib; i++) if (F[i].state == SLEEP && F[i].wake < w) w = F[i].wake;
        if (w == ~0ull) end_proc(X_DEADLOCK, 0, "all threads are blocked");
        t_now = w; if (t_now >= time_end) end_proc(X_BUDGET, 0, "simulated-time budget exhausted");
    }
    if ((u64) n > st.max_runnable) st.max_runnable = n;
    int pick = 0;
    if (n > 1) {
        if (cfg.sched.mode == 3) { // highest priority runs; a change point demotes the current one
            if (cur->state == RUN) { cur->prio = 1000 + st.switches; }
            u64 best = ~0ull; for (int i = 0; i < n; i++) if (F[L[i]].prio < best) { best = F[L[i]].prio; pick = i; }
        } else if (cfg.sched.mode == 4 && cfg.sched.starve) { int m = 0, M[MAXF]; for (int i = 0; i < n; i++) if (F[L[i]].serial % 7 != cfg.sched.starve % 7) M[m++] = i; if (m) pick = M[choose(S_SCHED, m)]; else pick = choose(S_SCHED, n); }
        else if (cfg.sched.mode == 2) pick = L[0] == cur->id ? 1 : 0;
        else if (cfg.sched.mode) pick = choose(S_SCHED, n);
        else pick = L[0] == cur->id ? 1 : 0;
    }
    if (n > 1 || (long) quantum <= 0) draw_quantum();
    leave_to(&F[L[pick]]);
}
static void do_event();
static inline void tick() { g_slow++; hot++; t_now += 20; shared_since_switch++; }
static void after_switch_check() {}
void yield_point() {
    tick(); if (g_fast + g_slow >= event_at) do_event();
    if (--quantum == 0 || (long) quantum < 0) { t_now += (g_fast - g_fast0) * 5; g_fast0 = g_fast; reschedule(); }
}
static void do_event() {
    u64 s = g_fast + g_slow;
    if (s - proc_steps0 >= cfg.kill_at) { fired(F_KILL); pr->killed = true; end_proc(X_KILLED, 9, ""); }
    if (s >= budget_end) end_proc(X_BUDGET, 0, "step budget exhausted");
}
static void block_on(void *q) { cur->state = BLOCK; cur->waitq = q; cur->timed_out = false; reschedule(); }
static void wake_q(void *q, int max) { for (int i = 0; i < nfib && max; i++) if ((F[i].state == BLOCK || F[i].state == SLEEP) && F[i].waitq == q && q) { F[i].state = RUN; F[i].waitq = nullptr; max--; } }
void sleep_ns(u64 ns) { cur->state = SLEEP; cur->wake = t_now + ns; cur->waitq = nullptr; reschedule(); }
static void maybe_stall() { if (cfg.sched.p_stall > 0 && stall_budget) { u64 k = choose_p(S_STALL, 6, cfg.sched.p_stall); if (k) { stall_budget--; static const u64 d[] = {0, 50000, 1000000, 40000000, 1000000000ull, 60000000000ull}; fired(F_STALL); sleep_ns(d[k]); } } }

static void fiber_entry() {
    Fiber *me = cur; me->fn(); me->fn = nullptr; me->state = DONE;
    if (races_on) hb_release((u64) me, true);
    wake_q(me, 999); if (me->detached) { me->joined = true; unjoined--; }
    set_window(); reschedule(); abort();
}
static int new_fiber(std::function<void()> fn, bool harness) {
    int id = -1; for (int i = 0; i < MAXF; i++) if (F[i].state == FREE || (F[i].state == DONE && F[i].joined)) { id = i; break; }
    if (id < 0) return -1;
    Fiber &f = F[id]; if (id >= nfib) nfib = id + 1;
    f.id = id; f.serial = ++fiber_serial; f.lo = (char *) STACK_BASE + (size_t) id * STACK_SPAN; f.size = STACK_SIZE;
    mmap(f.lo, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (cfg.garbage) { size_t g = 192 << 10; fill_garbage(f.lo + STACK_SIZE - g, g, mix2(cfg.garbage, 0x5000 + f.serial)); }
    race_clear((uintptr_t) f.lo + STACK_SIZE - (256 << 10), races_on && unjoined ? (256 << 10) : 0);
    f.fn = std::move(fn); f.ret = nullptr; f.detached = f.joined = false; f.harness = harness; f.err = 0; f.tls = tls_init; f.waitq = nullptr; f.specific.clear(); f.prio = mix2(run_seed, f.serial) % 1000;
    if (!f.vc) f.vc = (VC *) calloc(1, sizeof(VC));
    u32 own = f.vc->c[id]; if (cur) *f.vc = *cur->vc; else memset(f.vc, 0, sizeof(VC)); f.vc->c[id] = (own > f.vc->c[id] ? own : f.vc->c[id]) + 1;
    if (cur) cur->vc->c[cur->id]++;
    void **sp = (void **) (f.lo + STACK_SIZE - 64); *--sp = nullptr; *--sp = (void *) fiber_entry; sp -= 6; memset(sp, 0, 48); f.sp = sp;
    f.state = RUN; st.threads++; if (cur) { unjoined++; set_window(); }
    return id;
}
int spawn(const std::function<void()> &f) { int id = new_fiber(f, true); if (id < 0) sim_error("too many fibers"); return id; }
void join_fiber(int id) { Fiber &f = F[id]; while (f.state != DONE) block_on(&f); hb_acquire((u64) &f); if (!f.joined) { f.joined = true; unjoined--; } set_window(); }

[[noreturn]] static void end_proc(ExitKind k, int code, const char *what) {
    if (!in_proc) sim_error("process end outside a process: %s %s", exit_name(k), what);
    pr->kind = k; pr->code = code; pr->what = what; in_proc = false;
    if (tls_size) memcpy(tls_addr, tls_init.data(), tls_size);
    void *dummy; sim_switch(&dummy, driver_sp); abort();
}

// ---------------------------------------------------------------- streams
static ssize_t in_read(void *, char *buf, size_t n) {
    if (in_pos >= cfg.io.in_err_at) { pr->in_fault = true; fired(F_IN_ERR); errno = cfg.io.in_errno; return -1; }
    size_t end = std::min<u64>(input.size(), cfg.io.in_eof_at); if (in_pos >= end) { if (cfg.io.in_eof_at < input.size()) { pr->in_fault = true; fired(F_IN_EOF); } return 0; }
    size_t m = std::min(n, end - in_pos); if (cfg.io.in_err_at > in_pos && cfg.io.in_err_at < in_pos + m) m = cfg.io.in_err_at - in_pos;
    if (m > 1 && cfg.io.p_in_chunk > 0) { u64 k = choose_p(S_IN, std::min<size_t>(m, cfg.io.in_chunk_max ? cfg.io.in_chunk_max : m), cfg.io.p_in_chunk); if (k) { m = k; fired(F_IN_CHUNK); } }
    memcpy(buf, input.data() + in_pos, m); in_pos += m; t_now += 1000; return m;
}
static ssize_t out_accept(const char *buf, size_t n) {
    pr->out_attempted += n; t_now += 1000; size_t have = pr->out.size();
    if (have >= cfg.io.out_err_at && out_err_left != 0) { if (out_err_left > 0) out_err_left--; pr->out_fault = true; fired(F_OUT_ERR); errno = cfg.io.out_errno; return 0; }
    if (have >= cfg.io.out_full_at) { pr->out_fault = true; fired(F_OUT_FULL); errno = ENOSPC; return 0; }
    size_t m = n; if (have + m > cfg.io.out_full_at) m = cfg.io.out_full_at - have; if (out_err_left != 0 && have + m > cfg.io.out_err_at) m = cfg.io.out_err_at - have;
    if (m < n) probe(P_MIDWRITE);
    if (m > 1 && cfg.io.p_out_short > 0) { u64 k = choose_p(S_OUT, m, cfg.io.p_out_short); if (k) { m = k; fired(F_OUT_SHORT); } }
    if (have + m >= cfg.kill_out_at) { pr->out.append(buf, cfg.kill_out_at - have); fired(F_KILL); probe(P_MIDWRITE); pr->killed = true; end_proc(X_KILLED, 9, ""); }
    pr->out.append(buf, m); return m;
}
// the kernel may accept less; libc retries until done or an error
static ssize_t out_write(void *, const char *buf, size_t n) { size_t done = 0; while (done < n) { ssize_t r = out_accept(buf + done, n - done); if (r <= 0) break; done += r; } return done; }
static ssize_t err_write(void *, const char *buf, size_t n) { if (cfg.io.err_fails) { pr->err_fault = true; fired(F_ERR_OUT); errno = EIO; return 0; } pr->err.append(buf, n); return n; }
FILE *sim_out() { return f_out; } FILE *sim_in() { return f_in; } FILE *sim_err() { return f_err; }
void reset_output() { fflush(f_out); pr->out.clear(); }
const std::string &cur_out() { return pr->out; }
u64 ent_pos() { return e_pos; } size_t ent_log_size() { return pr->ent.size(); } size_t threads_live() { return unjoined; }
size_t fds_open() { size_t n = 0; for (auto &f : fds) n += f.second; return n; }
std::vector<EntRec> &ent_log() { return pr->ent; } std::string &ent_data() { return pr->ent_bytes; }

static void open_streams() {
    cookie_io_functions_t ci = {in_read, 0, 0, 0}, co = {0, out_write, 0, 0}, ce = {0, err_write, 0, 0};
    f_in = fopencookie(0, "r", ci); f_out = fopencookie(0, "w", co); f_err = fopencookie(0, "w", ce);
    static char ibuf[1 << 16], obuf[1 << 16];
    setvbuf(f_in, ibuf, cfg.io.in_buf > 1 ? _IOFBF : _IONBF, cfg.io.in_buf > 1 ? cfg.io.in_buf : 0);
    setvbuf(f_out, obuf, cfg.io.out_buf > 1 ? _IOFBF : _IONBF, cfg.io.out_buf > 1 ? cfg.io.out_buf : 0); setvbuf(f_err, 0, _IONBF, 0);
}

// ---------------------------------------------------------------- process
struct GSnap { char *lo, *hi; std::string img; };
static std::vector<GSnap> snaps;
extern "C" { extern char __start_vdata[] __attribute__((weak)), __stop_vdata[] __attribute__((weak)), __start_vbss[] __attribute__((weak)), __stop_vbss[] __attribute__((weak)); }
static void take_snaps() { if (snaps.size()) return; if (__start_vdata) snaps.push_back({__start_vdata, __stop_vdata, ""}); if (__start_vbss) snaps.push_back({__start_vbss, __stop_vbss, ""}); for (auto &s : snaps) s.img.assign(s.lo, s.hi - s.lo); if (snaps.empty()) snaps.push_back({nullptr, nullptr, ""}); }
extern "C" { FILE *sim_stdin_v, *sim_stdout_v, *sim_stderr_v; }

static char altstack[1 << 16];
static void on_fault(int sig, siginfo_t *si, void *uc) {
    ucontext_t *u = (ucontext_t *) uc; char b[128];
    if (sig == SIGVTALRM || sig == SIGPROF) snprintf(b, sizeof b, "no progress (CPU watchdog)");
    else snprintf(b, sizeof b, "signal %d (address %p, at 0x%llx)", sig, (uintptr_t) si->si_addr < 4096 ? si->si_addr : (void *) -1, (unsigned long long) u->uc_mcontext.gregs[REG_RIP]);
    if (!in_proc) { snprintf(slot->msg, sizeof slot->msg, "harness failure: %s", b); slot->status = 3; _exit(0); }
    sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, 0);
    end_proc(sig == SIGVTALRM || sig == SIGPROF ? X_BUDGET : X_CRASH, sig, b);
}
static std::vector<void (*)()> atexits; static std::map<FILE *, char **> memstreams; static std::set<void *> libc_ptrs;
static void forget_sync();
static void finish_exit(ExitKind k, int code) {    // like exit(): run handlers, flush, ignore errors, end
    while (!atexits.empty()) { auto f = atexits.back(); atexits.pop_back(); f(); }
    if (!out_closed) { fflush(f_out); }
    end_proc(k, code & 0xff, "");
}

ProcResult run_proc(const ProcCfg &c, const std::string &in, const std::function<int()> &body) {
    ProcResult res; take_snaps(); for (auto &s : snaps) if (s.lo) memcpy(s.lo, s.img.data(), s.img.size());
    st.procs++; cfg = c; pr = &res; input = in; in_pos = 0; races_on = c.races; out_closed = false; out_err_left = c.io.out_err_times; stall_budget = 40;
    for (int i = 0; i < MAXF; i++) { F[i].state = FREE; F[i].joined = false; F[i].fn = nullptr; if (F[i].vc) memset(F[i].vc, 0, sizeof(VC)); }
    nfib = 0; cur = nullptr; unjoined = 0; fds.clear(); ent_pending.clear(); e_pos = 0; oom_count = thr_count = 0; fiber_serial = 0;
    atexits.clear(); memstreams.clear(); libc_ptrs.clear(); forget_sync(); blocks.clear(); heap_top = HEAP_BASE; live_bytes = live_blocks = 0; last_lo = 1; last_hi = 0;
    if (races_on) race_reset(); for (auto &s : syncs) free(s.second); syncs.clear();
    proc_steps0 = g_fast + g_slow; budget_end = proc_steps0 + (c.step_budget ? c.step_budget : 20000000000ull); event_at = std::min<u64>(budget_end, c.kill_at == ~0ull ? ~0ull : proc_steps0 + c.kill_at);
    u64 t0 = t_now; time_end = t_now + (c.time_budget ? c.time_budget : 4 * 3600 * 1000000000ull); g_fast0 = g_fast; open_streams(); sim_stdin_v = f_in; sim_stdout_v = f_out; sim_stderr_v = f_err;
    if (c.garbage) fired(F_GARBAGE);
    int id = new_fiber([&] { int rc = body(); finish_exit(X_RETURN, rc); }, false); 
    int saved = errno; cur = &F[id]; quantum = 4000000; draw_quantum(); set_window(); if (tls_size) memcpy(tls_addr, tls_init.data(), tls_size);
    u64 th0 = st.threads; in_proc = true; errno = 0;
    sim_switch(&driver_sp, cur->sp);
    in_proc = false; errno = saved; settle_stats();
    res.steps = g_fast + g_slow - proc_steps0; t_now += (g_fast - g_fast0) * 5; g_fast0 = g_fast; res.ns = t_now - t0; res.ent_total = e_pos; res.leaked = live_bytes; res.leaked_blocks = live_blocks; res.created = st.threads - th0;
    res.live_threads = unjoined; res.open_fds = fds_open(); res.opens = fds.size();
    cur = nullptr; pr = nullptr; st.sim_ns += res.ns; st.ent_bytes += e_pos;
    switch (res.kind) { case X_RETURN: case X_EXIT: probe(res.code ? P_EXITN : P_EXIT0); break; case X_ABORT: probe(P_ABORT); break; case X_KILLED: probe(P_KILLED); break; default: break; }
    trace("proc end %s out=%zu steps=%llu", res.status().substr(0, 60).c_str(), res.out.size(), (unsigned long long) res.steps);
    hash_trace(res.out.data(), res.out.size());
    return res;
}

// ---------------------------------------------------------------- instrumentation hooks
static inline void slow_access(uintptr_t a, size_t n, bool wr, uintptr_t pc) {
    if (!in_proc) return;
    if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) heap_check(a, n, wr, pc);
    if (unjoined > 0) { if (races_on) race_access(a, n, wr, false, pc); yield_point(); }
    else { tick(); if (g_fast + g_slow >= event_at) do_event(); }
}
} // namespace sim
using namespace sim;

#define FASTSTACK(p) if (__builtin_expect((uintptr_t) (p) - cur_lo < cur_span, 1)) { g_fast++; return; }
#define PC ((uintptr_t) __builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) { g_fast++; if (__builtin_expect(g_fast + g_slow >= event_at, 0) && in_proc) do_event(); } void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void *p) { FASTSTACK(p) slow_access((uintptr_t) p, n, false, PC); } \
void __tsan_write##n(void *p) { FASTSTACK(p) slow_access((uintptr_t) p, n, true, PC); } \
void __tsan_read_write##n(void *p) { FASTSTACK(p) slow_access((uintptr_t) p, n, true, PC); } \
void __tsan_unaligned_read##n(void *p) { FASTSTACK(p) slow_access((uintptr_t) p, n, false, PC); } \
void __tsan_unaligned_write##n(void *p) { FASTSTACK(p) slow_access((uintptr_t) p, n, true, PC); } \
void __tsan_volatile_read##n(void *p) { slow_access((uintptr_t) p, n, false, PC); } \
void __tsan_volatile_write##n(void *p) { slow_access((uintptr_t) p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range_access(const void *p, size_t n, bool wr, uintptr_t pc) { if (!n) return; if ((uintptr_t) p - cur_lo < cur_span) { g_fast += n / 8 + 1; return; } slow_access((uintptr_t) p, n, wr, pc); }
void __tsan_read_range(void *p, long n) { range_access(p, n, false, PC); }
void __tsan_write_range(void *p, long n) { range_access(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range_access(s, n, false, PC); range_access(d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range_access(s, n, false, PC); range_access(d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { range_access(d, n, true, PC); return memset(d, c, n); }
void __tsan_vptr_update(void *, void *) {} void __tsan_vptr_read(void *) {}
void *sim_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { range_access(a, n, false, PC); range_access(b, n, false, PC); return memcmp(a, b, n); }

static void atomic_acc(void *p, size_t n, bool wr, bool rd, int mo, uintptr_t pc) {
    if (!in_proc) return; uintptr_t a = (uintptr_t) p;
    if (a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE) heap_check(a, n, wr, pc);
    if (unjoined > 0 && races_on) race_access(a, n, wr, true, pc);
    yield_point();
    if (races_on) { bool acq = mo == 1 || mo == 2 || mo >= 4, rel = mo >= 3; if (rd && acq) hb_acquire(a); if (wr && rel) hb_release(a, !rd); }
}
// yield happens before the operation itself, which is then indivisible; happens-before edges are added at the operation
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic_acc((void *) p, sizeof(T), false, true, mo, PC); return *p; } \
void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, false, mo, PC); *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { atomic_acc((void *) p, sizeof(T), true, true, mo, PC); T o = *p; if (o == e) *p = v; return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) { if (in_proc) { hb_acquire(1); hb_release(1, false); } } void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- libc seams
static void sys_point() { if (in_proc) { for (int i = 0; i < 1; i++) yield_point(); if (unjoined > 0) maybe_stall(); } }
int sim_pthread_create(pthread_t *t, const void *, void *(*fn)(void *), void *arg) {
    sys_point(); if (cfg.thread_fail_at >= 0 && thr_count++ >= cfg.thread_fail_at) { fired(F_THREAD); pr->thread_fault = true; return EAGAIN; }
    int id = new_fiber([fn, arg] { maybe_stall(); Fiber *me = cur; void *r = fn(arg); me->ret = r; }, false);
    if (id < 0) { fired(F_THREAD); pr->thread_fault = true; return EAGAIN; }
    *t = (pthread_t) (F[id].serial * 1000 + id); if (unjoined > 1) probe(P_MULTI_WORKER); yield_point(); return 0;
}
static Fiber *by_handle(u64 h) { u64 id = h % 1000; if (id < MAXF && F[id].state != FREE && F[id].serial == h / 1000) return &F[id]; return nullptr; }
int sim_pthread_join(pthread_t t, void **ret) { sys_point(); Fiber *f = by_handle((u64) t); if (!f || f->joined || f->detached) return ESRCH; if (f == cur) return EDEADLK; while (f->state != DONE) block_on(f); hb_acquire((u64) f); if (ret) *ret = f->ret; f->joined = true; unjoined--; set_window(); return 0; }
int sim_pthread_detach(pthread_t t) { Fiber *f = by_handle((u64) t); if (!f || f->joined || f->detached) return ESRCH; f->detached = true; if (f->state == DONE) { f->joined = true; unjoined--; set_window(); } return 0; }
void sim_pthread_exit(void *r) { Fiber *me = cur; me->ret = r; me->state = DONE; if (races_on) hb_release((u64) me, true); wake_q(me, 999); if (me->detached) { me->joined = true; unjoined--; } if (me->id == 0) { while (unjoined) { bool any = false; for (int i = 1; i < nfib; i++) if (F[i].state != DONE && F[i].state != FREE) any = true; if (!any) break; reschedule(); } finish_exit(X_EXIT, 0); } set_window(); reschedule(); abort(); }
pthread_t sim_pthread_self() { return (pthread_t) (cur->serial * 1000 + cur->id); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_ok() { return 0; }
int sim_sched_yield() { if (in_proc) { t_now += 1000; quantum = 1; yield_point(); } return 0; }
struct Mtx { int owner = -1; int depth = 0; bool recursive = false; int readers = 0; };
static std::map<void *, Mtx> mtxs;
static Mtx &mtx(void *m) { return mtxs[m]; }
int sim_pthread_mutex_init(void *m, const void *) { mtxs[m] = Mtx(); return 0; }
int sim_pthread_mutex_destroy(void *m) { mtxs.erase(m); return 0; }
int sim_pthread_mutex_lock(void *m) { sys_point(); Mtx &x = mtx(m); if (x.owner == cur->id) { if (x.recursive) { x.depth++; return 0; } } while (x.owner >= 0) block_on(m); x.owner = cur->id; hb_acquire((u64) m); return 0; }
int sim_pthread_mutex_trylock(void *m) { sys_point(); Mtx &x = mtx(m); if (x.owner >= 0) return EBUSY; x.owner = cur->id; hb_acquire((u64) m); return 0; }
int sim_pthread_mutex_unlock(void *m) { Mtx &x = mtx(m); if (x.depth) { x.depth--; return 0; } x.owner = -1; hb_release((u64) m, false); wake_q(m, 999); sys_point(); return 0; }
int sim_pthread_rwlock_rdlock(void *m) { sys_point(); Mtx &x = mtx(m); while (x.owner >= 0) block_on(m); x.readers++; hb_acquire((u64) m); return 0; }
int sim_pthread_rwlock_wrlock(void *m) { sys_point(); Mtx &x = mtx(m); while (x.owner >= 0 || x.readers) block_on(m); x.owner = cur->id; hb_acquire((u64) m); return 0; }
int sim_pthread_rwlock_unlock(void *m) { Mtx &x = mtx(m); if (x.owner == cur->id) x.owner = -1; else x.readers--; hb_release((u64) m, false); wake_q(m, 999); sys_point(); return 0; }
int sim_pthread_cond_init(void *, const void *) { return 0; }
int sim_pthread_cond_destroy(void *) { return 0; }
int sim_pthread_cond_wait(void *c, void *m) { mtx(m).owner = -1; hb_release((u64) m, false); wake_q(m, 999); block_on(c); Mtx &x = mtx(m); while (x.owner >= 0) block_on(m); x.owner = cur->id; hb_acquire((u64) m); hb_acquire((u64) c); return 0; }
int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *ts) { mtx(m).owner = -1; hb_release((u64) m, false); wake_q(m, 999); u64 dl = (u64) ts->tv_sec * 1000000000ull + ts->tv_nsec; cur->state = SLEEP; cur->wake = dl; cur->waitq = c; reschedule(); bool to = t_now >= dl; Mtx &x = mtx(m); while (x.owner >= 0) block_on(m); x.owner = cur->id; hb_acquire((u64) m); return to ? ETIMEDOUT : 0; }
int sim_pthread_cond_signal(void *c) { hb_release((u64) c, false); wake_q(c, 1); sys_point(); return 0; }
int sim_pthread_cond_broadcast(void *c) { hb_release((u64) c, false); wake_q(c, 999); sys_point(); return 0; }
static std::map<void *, int> onces;
int sim_pthread_once(void *o, void (*fn)(void)) { sys_point(); int *st_ = (int *) o; while (*st_ == 1) block_on(o); if (*st_ == 2) { hb_acquire((u64) o); return 0; } *st_ = 1; fn(); *st_ = 2; hb_release((u64) o, true); wake_q(o, 999); return 0; }
static u32 next_key; 
int sim_pthread_key_create(u32 *k, void (*)(void *)) { *k = ++next_key; return 0; }
void *sim_pthread_getspecific(u32 k) { return cur->specific[k]; }
int sim_pthread_setspecific(u32 k, const void *v) { cur->specific[k] = (void *) v; return 0; }
struct Bar { unsigned n, arrived; u64 gen; }; static std::map<void *, Bar> bars;
int sim_pthread_barrier_init(void *b, const void *, unsigned n) { bars[b] = Bar{n, 0, 0}; return 0; }
int sim_pthread_barrier_wait(void *b) { sys_point(); hb_release((u64) b, false); Bar &x = bars[b]; u64 g = x.gen; if (++x.arrived == x.n) { x.arrived = 0; x.gen++; wake_q(b, 999); hb_acquire((u64) b); return -1; } while (x.gen == g) block_on(b); hb_acquire((u64) b); return 0; }
static std::map<void *, int> sems;
int sim_sem_init(void *s, int, unsigned v) { sems[s] = v; return 0; }
int sim_sem_wait(void *s) { sys_point(); while (sems[s] <= 0) block_on(s); sems[s]--; hb_acquire((u64) s); return 0; }
int sim_sem_trywait(void *s) { sys_point(); if (sems[s] <= 0) { errno = EAGAIN; return -1; } sems[s]--; hb_acquire((u64) s); return 0; }
int sim_sem_post(void *s) { hb_release((u64) s, false); sems[s]++; wake_q(s, 1); sys_point(); return 0; }
int sim_thrd_create(u64 *t, int (*fn)(void *), void *arg) { pthread_t p; int r = sim_pthread_create(&p, 0, (void *(*)(void *)) (void *) fn, arg); *t = (u64) p; return r ? thrd_error : thrd_success; }
int sim_thrd_join(u64 t, int *res) { void *r; int e = sim_pthread_join((pthread_t) t, &r); if (res) *res = (int) (intptr_t) r; return e ? thrd_error : thrd_success; }
int sim_mtx_init(void *m, int type) { mtxs[m] = Mtx(); mtxs[m].recursive = type & mtx_recursive; return thrd_success; }
int sim_mtx_lock(void *m) { sim_pthread_mutex_lock(m); return thrd_success; }
int sim_mtx_unlock(void *m) { sim_pthread_mutex_unlock(m); return thrd_success; }
void sim_mtx_destroy(void *m) { mtxs.erase(m); }
void sim_call_once(void *o, void (*fn)(void)) { sim_pthread_once(o, fn); }

unsigned sim_sleep(unsigned s) { sleep_ns((u64) s * 1000000000ull); return 0; }
int sim_usleep(unsigned us) { sleep_ns((u64) us * 1000ull + 1); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { sleep_ns((u64) t->tv_sec * 1000000000ull + t->tv_nsec + 1); return 0; }
int sim_thrd_sleep(const struct timespec *t, struct timespec *) { sleep_ns((u64) t->tv_sec * 1000000000ull + t->tv_nsec + 1); return 0; }
int sim_clock_nanosleep(int, int flags, const struct timespec *t, struct timespec *) { u64 d = (u64) t->tv_sec * 1000000000ull + t->tv_nsec; if (flags & TIMER_ABSTIME) d = d > t_now ? d - t_now : 0; sleep_ns(d + 1); return 0; }
static const u64 EPOCH = 1700000000ull;
int sim_clock_gettime(int id, struct timespec *t) { yield_point(); u64 n = t_now + (id == CLOCK_REALTIME ? EPOCH * 1000000000ull : 0); t->tv_sec = n / 1000000000ull; t->tv_nsec = n % 1000000000ull; return 0; }
time_t sim_time(time_t *p) { time_t v = EPOCH + t_now / 1000000000ull; if (p) *p = v; return v; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = EPOCH + t_now / 1000000000ull; tv->tv_usec = t_now / 1000 % 1000000; return 0; }
long sim_clock() { return t_now / 1000; }
long sim_sysconf(int n) { if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) { if (cfg.ncpu <= 0) fired(F_CPU_UNKNOWN); return cfg.ncpu; } return sysconf(n); }
int sim_get_nprocs() { return cfg.ncpu > 0 ? cfg.ncpu : 1; }
int sim_sched_getaffinity(int, size_t n, void *s) { memset(s, 0, n); for (long i = 0; i < (cfg.ncpu > 0 ? cfg.ncpu : 1) && i < (long) n * 8; i++) ((u8 *) s)[i / 8] |= 1 << i % 8; return 0; }
char *sim_getenv(const char *) { return nullptr; }

static ssize_t deliver(void *buf, size_t n, bool may_fail) {
    sys_point(); EntCfg &e = cfg.ent;
    if (e.never_opens) { fired(F_ENT_OPEN); pr->ent_fault = true; errno = EIO; return -1; }    // getrandom() and friends need no descriptor
    if (e_pos >= e.outage_at) { fired(F_ENT_OUTAGE); pr->ent_fault = true; errno = EIO; return -1; }
    if (may_fail && e.p_err > 0) { u64 k = choose_p(S_ENT, 4, e.p_err); if (k) { fired(F_ENT_ERR); pr->ent_fault = true; static const int er[] = {0, EINTR, EIO, EAGAIN}; errno = er[k]; return -1; } }
    if (e.p_short > 0 && n > 1) { u64 k = choose_p(S_ENT, n, e.p_short); if (k) { fired(F_ENT_SHORT); pr->ent_fault = true; n = k; } }
    if (e_pos + n > e.outage_at && e_pos < e.outage_at) n = e.outage_at - e_pos;
    u8 *b = (u8 *) buf; u64 rare = ent_pending.empty() && e.p_rare > 0 && n >= 8 ? choose_p(S_ENT, 6 + 2 * e.inject.size(), e.p_rare) : 0; if (rare) fired(F_ENT_RARE);
    if (rare >= 6) { ent_pending = e.inject[(rare - 6) % e.inject.size()]; }
    for (size_t i = 0; i < n; i++) {
        u64 pos = e_pos + i, key = pos >= e.flip_at && pos < e.flip_end ? e.flip_key : e.key; u8 v = (u8) (mix2(key, pos >> 3) >> (pos & 7) * 8);
        if (e.sparse) { u64 z = mix2(e.key ^ 0x59a5, pos); if ((int) (z & 7) < e.sparse) { v = z & 64 ? 0xff : 0; if (i == 0) fired(F_ENT_RARE); } }   // a stream rich in extreme bytes
        switch (rare) { case 1: v = 0; break; case 2: v = 0xff; break; case 3: v = i == 0; break; case 4: v = i < n / 2 ? 0 : v; break; case 5: v = i < 2 ? v : 0; break; }
        if (i < ent_pending.size()) v = (u8) ent_pending[i];
        if (pos >= e.rep_from && pos < e.rep_to) { if (pos == e.rep_from) fired(F_ENT_RARE); v = (u8) e.rep[(pos - e.rep_from) % e.rep.size()]; }
        b[i] = v;
    }
    ent_pending.erase(0, std::min(n, ent_pending.size()));
    pr->ent.push_back(EntRec{cur->id, pr->ent_bytes.size(), (u32) n, cur->serial}); pr->ent_bytes.append((char *) b, n); e_pos += n; t_now += 300;
    range_access(buf, n, true, (uintptr_t) __builtin_return_address(0)); return n;       // may switch threads: last
}
static bool is_rnd(const char *p) { return !strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"); }
static int do_open(const char *path) {
    sys_point(); if (!is_rnd(path)) { errno = ENOENT; return -1; }
    if (unjoined > 0) probe(P_FIRST_USE);
    if (cfg.ent.never_opens) { fired(F_ENT_OPEN); pr->ent_fault = true; errno = EMFILE; return -1; }
    u64 k = cfg.ent.p_open > 0 ? choose_p(S_ENT, 4, cfg.ent.p_open) : 0; if (k) { static const int er[] = {0, EINTR, EMFILE, ENOENT}; fired(F_ENT_OPEN); pr->ent_fault = true; errno = er[k]; return -1; }
    for (size_t i = 0; i < fds.size(); i++) if (!fds[i].second) { fds[i].second = true; sys_point(); return 3 + i; }
    fds.push_back({1, true}); int fd = 3 + fds.size() - 1; sys_point(); return fd;
}
int sim_open(const char *path, int, ...) { return do_open(path); }
int sim_openat(int, const char *path, int, ...) { return do_open(path); }
int sim_close(int fd) { sys_point(); if (fd >= 3 && fd < 3 + (int) fds.size() && fds[fd - 3].second) { fds[fd - 3].second = false; return 0; } if (fd == 1) { out_closed = true; return 0; } errno = EBADF; return -1; }
ssize_t sim_read(int fd, void *buf, size_t n) { if (fd == 0) return in_read(0, (char *) buf, n); if (fd < 3 || fd >= 3 + (int) fds.size() || !fds[fd - 3].second) { sys_point(); errno = EBADF; return -1; } if (!n) return 0; return deliver(buf, n, true); }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd == 1 && !out_closed) { ssize_t r = out_accept((const char *) b, n); return r > 0 || n == 0 ? r : -1; } if (fd == 2) { ssize_t r = err_write(0, (const char *) b, n); return r ? r : -1; } errno = EBADF; return -1; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { return deliver(b, n, true); }
int sim_getentropy(void *b, size_t n) { u8 *p = (u8 *) b; while (n) { ssize_t r = deliver(p, n, false); if (r <= 0) { errno = EIO; return -1; } p += r; n -= r; } return 0; }
static ssize_t rnd_cookie(void *, char *b, size_t n) { return deliver(b, n, true); }
static int rnd_close(void *c) { fds[(size_t) c].second = false; return 0; }
FILE *sim_fopen(const char *path, const char *m) { int fd = do_open(path); if (fd < 0) return nullptr; cookie_io_functions_t ci = {rnd_cookie, 0, 0, rnd_close}; return fopencookie((void *) (size_t) (fd - 3), m, ci); }
static void note_memstream(FILE *f) { auto it = memstreams.find(f); if (it != memstreams.end()) libc_ptrs.insert(*it->second); }
int sim_fclose(FILE *f) { auto ms = memstreams.find(f); if (ms != memstreams.end()) { char **b = ms->second; memstreams.erase(ms); int r = fclose(f); libc_ptrs.insert(*b); return r; } if (f == f_out) { out_closed = true; return fflush(f); } if (f == f_in || f == f_err) return 0; return fclose(f); }
int sim_fileno(FILE *f) { return f == f_in ? 0 : f == f_out ? 1 : f == f_err ? 2 : -1; }
int sim_isatty(int) { return 0; }
int sim_fsync(int fd) { (void) fd; return 0; }

void *sim_malloc(size_t n) { sys_point(); if ((cfg.oom_at >= 0 && oom_count++ == cfg.oom_at) || coin(S_MEM, cfg.p_oom)) { fired(F_OOM); pr->oom = true; errno = ENOMEM; return nullptr; } return heap_alloc(n, 16, false); }
void *sim_calloc(size_t a, size_t b) { void *p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { sys_point(); if (p && libc_ptrs.erase(p)) { free(p); return; } heap_free(p, false); }
void *sim_realloc(void *p, size_t n) { void *q = sim_malloc(n); if (q && p) { auto it = blocks.find((uintptr_t) p); if (it == blocks.end()) end_proc(X_MEMORY, 0, "realloc() of a bad pointer"); memcpy(q, p, std::min(n, it->second.n)); heap_free(p, false); } return q; }
int sim_posix_memalign(void **p, size_t al, size_t n) { if ((cfg.oom_at >= 0 && oom_count++ == cfg.oom_at)) { fired(F_OOM); pr->oom = true; return ENOMEM; } *p = heap_alloc(n, al < 16 ? 16 : al, false); return 0; }
void *sim_aligned_alloc(size_t al, size_t n) { void *p = nullptr; if (sim_posix_memalign(&p, al, n)) return nullptr; return p; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void sim_exit(int c) { finish_exit(X_EXIT, c); }
void sim__exit(int c) { end_proc(X_EXIT, c & 0xff, ""); }
void sim_abort() { end_proc(X_ABORT, 134, ""); }
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { char b[300]; const char *s = strrchr(f, '/'); snprintf(b, sizeof b, "assertion failed: %s (%s:%u %s)", e, s ? s + 1 : f, l, fn); end_proc(X_ABORT, 134, b); }
void sim_stack_chk_fail() { end_proc(X_MEMORY, 0, "stack smashing detected"); }
int sim_raise(int s) { if (s == SIGABRT) end_proc(X_ABORT, 134, ""); end_proc(X_KILLED, s, "raise"); }

int sim_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(f_out, f, ap); va_end(ap); return r; }
int sim_printf_chk(int, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(f_out, f, ap); va_end(ap); return r; }
int sim_vprintf_chk(int, const char *f, va_list ap) { return vfprintf(f_out, f, ap); }
int sim_vprintf(const char *f, va_list ap) { return vfprintf(f_out, f, ap); }
int sim_puts(const char *s) { if (fputs(s, f_out) == EOF) return EOF; return fputc('\n', f_out); }
int sim_putchar(int c) { return fputc(c, f_out); }
int sim_getchar() { return fgetc(f_in); }
int sim_scanf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfscanf(f_in, f, ap); va_end(ap); return r; }
void sim_perror(const char *s) { fprintf(f_err, "%s: %s\n", s, strerror(errno)); }
int sim_fflush(FILE *f) { if (!f) { return fflush(f_out); } int r = fflush(f); note_memstream(f); return r; }
FILE *sim_open_memstream(char **b, size_t *n) { FILE *f = open_memstream(b, n); if (f) memstreams[f] = b; return f; }
int sim_vasprintf(char **o, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c); if (n < 0) return -1; char *p = (char *) sim_malloc((size_t) n + 1); if (!p) return -1; vsnprintf(p, (size_t) n + 1, f, ap); *o = p; return n; }
int sim_asprintf(char **o, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim_asprintf_chk(char **o, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vasprintf(o, f, ap); va_end(ap); return r; }
int sim_vasprintf_chk(char **o, int, const char *f, va_list ap) { return sim_vasprintf(o, f, ap); }
ssize_t sim_getdelim(char **l, size_t *n, int d, FILE *f) {
    size_t k = 0; for (;;) {
        if (!*l || k + 1 >= *n) { size_t m = *l ? *n * 2 : 0; if (m < 120) m = 120; char *q = (char *) sim_realloc(*l, m); if (!q) return -1; *l = q; *n = m; }
        int c = fgetc(f); if (c == EOF) break; (*l)[k++] = (char) c; if (c == d) break;
    }
    (*l)[k] = 0; return k ? (ssize_t) k : -1;
}
ssize_t sim_getline(char **l, size_t *n, FILE *f) { return sim_getdelim(l, n, '\n', f); }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { return sim_realloc(p, a * b); }
void *sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
int sim_atexit(void (*f)(void)) { atexits.push_back(f); return 0; }
long sim_syscall(long n, long a, long b, long c) { if (n == SYS_getrandom) return sim_getrandom((void *) a, (size_t) b, (unsigned) c); if (n == SYS_gettid) return 1000 + cur->id; errno = ENOSYS; return -1; }
void sim_arc4random_buf(void *b, size_t n) { u8 *p = (u8 *) b; while (n) { ssize_t r = deliver(p, n, false); if (r <= 0) end_proc(X_ABORT, 134, "arc4random without entropy"); p += r; n -= r; } }
int sim_vdprintf(int fd, const char *f, va_list ap) { char *p = nullptr; int n = vasprintf(&p, f, ap); if (n < 0) return -1; int k = 0; while (k < n) { ssize_t r = sim_write(fd, p + k, n - k); if (r < 0) { free(p); return -1; } k += r; } free(p); return n; }
int sim_dprintf(int fd, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
int sim_dprintf_chk(int fd, int, const char *f, ...) { va_list ap; va_start(ap, f); int r = sim_vdprintf(fd, f, ap); va_end(ap); return r; }
static ssize_t fd_rd(void *c, char *b, size_t n) { return sim_read((int) (long) c, b, n); }
static ssize_t fd_wr(void *c, const char *b, size_t n) { ssize_t r = sim_write((int) (long) c, b, n); return r < 0 ? 0 : r; }
static int fd_cl(void *c) { return sim_close((int) (long) c); }
FILE *sim_fdopen(int fd, const char *m) { if (fd == 0) return f_in; if (fd == 1) return f_out; if (fd == 2) return f_err; cookie_io_functions_t ci = {fd_rd, fd_wr, 0, fd_cl}; return fopencookie((void *) (long) fd, m, ci); }
int sim_mtx_trylock(void *m) { return sim_pthread_mutex_trylock(m) ? thrd_busy : thrd_success; }
int sim_thrd_detach(u64 t) { return sim_pthread_detach((pthread_t) t) ? thrd_error : thrd_success; }
u64 sim_thrd_current() { return (u64) sim_pthread_self(); }
void sim_thrd_exit(int r) { sim_pthread_exit((void *) (intptr_t) r); }
int sim_cnd_init(void *) { return thrd_success; }
void sim_cnd_destroy(void *) {}
int sim_cnd_wait(void *c, void *m) { sim_pthread_cond_wait(c, m); return thrd_success; }
int sim_cnd_signal(void *c) { sim_pthread_cond_signal(c); return thrd_success; }
int sim_cnd_broadcast(void *c) { sim_pthread_cond_broadcast(c); return thrd_success; }
int sim_pthread_setname_np(pthread_t, const char *) { return 0; }
int sim_pthread_attr_getstacksize(const void *, size_t *n) { *n = 8 << 20; return 0; }
}
namespace sim { static void forget_sync() { mtxs.clear(); onces.clear(); bars.clear(); sems.clear(); next_key = 0; } }
#include "runner.inc"
