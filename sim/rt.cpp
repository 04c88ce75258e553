// Simulator runtime. Not instrumented. See DESIGN.md.
#include "rt.h"
#include "shared.h"
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <clocale>
#include <climits>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <xmmintrin.h>
#include <fenv.h>

const char *policy_name[] = {"serial", "random", "pct", "conflict", "funcentry", "roundrobin", "sync", "hold", "replay"};
const char *vkind_name[] = {"none", "result-mismatch", "crash", "deadlock", "livelock", "input-modified", "memory-error", "guard-overwritten", "leak", "model-mismatch", "process-exit", "timeout", "harness", "reference-crash", "environment-changed"};

u64 mix(u64 a, u64 b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); r.next(); return r.next(); }

// ------------------------------------------------------------------ address space
static const uintptr_t ARENA = 0x200000000000ull, ARENA_SZ = 1ull << 31;
static const uintptr_t SNAP  = 0x210000000000ull;                 // mirror of the arena: contents callers put into inputs
static const uintptr_t SHARE = 0x220000000000ull;                 // shadow of the arena, 1 byte / 8 bytes
static const uintptr_t GLO   = 0x400000ull, GLO_SZ = 64ull << 20; // program image
static const uintptr_t SHGLO = 0x230000000000ull;
static const uintptr_t STK   = 0x240000000000ull, STK_SZ = 64ull << 20;
// shadow byte: bits0-2 owner (thread id modulo 7; 7 = nobody), 3 addressable, 4 written, 5 read by several, 6 conflict, 7 caller input
enum { S_OWN = 7, S_ADDR = 8, S_W = 16, S_MULTI = 32, S_CONF = 64, S_IN = 128 };

enum { T_NEW, T_RUN, T_BLOCKED, T_STALLED, T_COND, T_DONE, T_FROZEN };
struct Thr {
    uintptr_t slo, ssz;
    u64 steps, next_stop;
    int id, own, state;
    const void *wait_addr;
    u64 stall_until;
    u64 slice_start;
    uintptr_t dirty_a; u32 dirty_n; u64 dirty_pc;
    u64 last_pc;
    int fut;
    pthread_t pt;
    i64 prio;
    size_t tpos;
    int opid;
    u64 events; bool thawed;           // shared-state events so far; has already been frozen once
    std::function<void()> body;
    std::function<bool()> cond;
    std::vector<SwitchRec> plan;
    void *altstk;
};
static Thr thr[MAXT + 1];
static Thr boot;                       // used when no simulated thread runs
Thr *cur = &boot;
static int nthr = 0;
static int main_fut = 0;
static bool active = false, shadow_on = false, multi = false;
static SchedCfg cfg;
static Rng srng(1), mrng(1);
static u64 gbase = 0;                  // steps of finished slices
static u64 slice_base = 0;
static std::vector<u64> pct_points; static size_t pct_i = 0; static i64 pct_low = 0;
RunStats stats;
std::vector<SwitchRec> sched_log;
bool fail_expected_exit = false;
u64 *shared_pairs = nullptr; u8 *shared_sites = nullptr;
static u8 run_sites[1 << 20];          // sites seen in conflicts in this run (private, so the run stays a function of its seed)
Shared *SH = nullptr;
static bool in_violation = false;
static uintptr_t hold_a = 0; static int hold_t = -1;       // hold policy: granule at which a thread is held between its read and what it does next

static inline u64 gnow() { return gbase + (cur->steps - slice_base); }
static u64 clock_skip = 0;               // simulated time jumped over while every thread was stalled
static inline u64 vnow() { return gnow() + clock_skip; }
u64 sim_now() { return vnow(); }
u64 cur_steps() { return cur->steps; }
int sim_tid() { return cur == &boot ? -1 : cur->id; }

// ------------------------------------------------------------------ violations
static void flush_shared() {
    if (!SH) return;
    stats.steps = gnow();
    SH->stats = stats;
    size_t n = sched_log.size() < SH_MAXLOG ? sched_log.size() : SH_MAXLOG;
    for (size_t i = 0; i < n; i++) SH->log[i] = sched_log[i];
    SH->nlog = (u32) n; SH->log_overflow = sched_log.size() > SH_MAXLOG;
    SH->alloc_hash = arena_event_hash();
}
void rt_flush() { flush_shared(); }

void violation(int kind, const std::string &text) {
    if (!in_violation && SH) {
        in_violation = true;
        SH->vkind = kind;
        snprintf(SH->vtext, sizeof SH->vtext, "%s", text.c_str());
        SH->vtid = cur->id; SH->vop = cur->opid; SH->vstep = gnow(); SH->vpc = cur->last_pc;
        flush_shared();
    }
    if (!SH || getenv("SIM_DEBUG")) fprintf(stderr, "violation outside run: %s %s\n", vkind_name[kind], text.c_str());
    _exit(3);
}
static std::string fmt(const char *f, ...) { char b[600]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

static void abnormal_exit(const char *why) {
    if (fail_expected_exit) { if (SH) { SH->failstop = 1; snprintf(SH->vtext, sizeof SH->vtext, "%s", why); SH->vop = cur->opid; flush_shared(); } _exit(4); }
    violation(V_CRASH, why);
}

static void on_signal(int sig, siginfo_t *si, void *uc_) {
    ucontext_t *uc = (ucontext_t *) uc_;
    u64 pc = (u64) uc->uc_mcontext.gregs[REG_RIP];
    cur->last_pc = pc;
    if (sig == SIGXCPU) violation(V_TIMEOUT, "no progress: a call burns processor time without completing");
    std::string t = fmt("signal %d (%s) at pc=0x%llx", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : "signal", (unsigned long long) (pc < GLO + GLO_SZ ? pc : 0));
    abnormal_exit(t.c_str());
}
void rt_install_signals() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU}) sigaction(s, &sa, nullptr);
    stack_t ss; ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
}

// ------------------------------------------------------------------ futex hand-over
static void fwait(int *f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELEASE); }
static void fwake(int *f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static inline void upd_stop(Thr *t);

static void slice_begin(Thr *t) {
    cur = t; slice_base = t->steps; t->slice_start = t->steps; upd_stop(t);
}
static void slice_end() { gbase += cur->steps - slice_base; slice_base = cur->steps; }

static inline void upd_stop(Thr *t) {
    u64 lim = t->slice_start + (multi ? cfg.fair : (u64) 1 << 62);
    u64 cap = t->steps + (cfg.step_cap > gnow() ? cfg.step_cap - gnow() : 0) + 1;
    if (cap < lim) lim = cap;
    u64 s = ~0ull;
    if (multi) switch (cfg.policy) {
        case POL_RANDOM: { double u = srng.uni(); if (u < 1e-12) u = 1e-12; double iv = cfg.interval; if (cfg.burst > 0 && (stats.preempts % cfg.burst) == 0) iv = cfg.gap; s = t->steps + 1 + (u64) (-iv * log(u)); break; }
        case POL_ROUNDROBIN: s = t->steps + 1 + (u64) cfg.interval; break;
        case POL_PCT: while (pct_i < pct_points.size() && pct_points[pct_i] <= gnow()) pct_i++;
            if (pct_i < pct_points.size()) s = t->steps + (pct_points[pct_i] - gnow()); break;
        case POL_REPLAY: while (t->tpos < t->plan.size() && t->plan[t->tpos].step <= t->steps) t->tpos++;
            if (t->tpos < t->plan.size()) s = t->plan[t->tpos].step; break;
    }
    if (cfg.policy == POL_REPLAY && multi) lim = cap;     // fairness hand-overs are in the trace
    if (multi && cfg.policy != POL_REPLAY && stats.preempts >= (u64) cfg.max_preempt) s = ~0ull;
    if (multi && t->id == cfg.freeze_tid && !t->thawed && cfg.freeze_step < s) s = cfg.freeze_step > t->steps ? cfg.freeze_step : t->steps + 1;
    t->next_stop = s < lim ? s : lim;
}

// every other thread must finish while one is delayed indefinitely; only then does it go on
static Thr *thaw(Thr *self) {
    Thr *f = nullptr; for (int i = 0; i < nthr; i++) if (thr[i].state == T_FROZEN) f = &thr[i];
    if (!f) return nullptr;
    for (int i = 0; i < nthr; i++) if (&thr[i] != f && thr[i].state != T_DONE)
        violation(V_DEADLOCK, fmt("T%d (op %d, pc=0x%llx) cannot go on while T%d is delayed inside op %d at pc=0x%llx", i, thr[i].opid, (unsigned long long) thr[i].last_pc, f->id, f->opid, (unsigned long long) f->last_pc));
    f->state = T_RUN; return f;
}
static bool runnable(Thr *t) {
    if (t->state == T_RUN) return true;
    if (t->state == T_COND && t->cond()) { t->state = T_RUN; return true; }
    if (t->state == T_STALLED && vnow() >= t->stall_until) { t->state = T_RUN; return true; }
    return false;
}
// choose the next thread; `self_ok`: current thread may continue
static Thr *pick(Thr *self, bool self_ok) {
    if (cfg.policy == POL_REPLAY) {
        for (auto &r : self->plan) if (r.step == self->steps) { Thr *t = &thr[r.to]; if (r.to < nthr) { if (t->state == T_STALLED) t->state = T_RUN; if (runnable(t)) return t; } break; }
        if (self_ok && runnable(self)) return self;
        for (int i = 0; i < nthr; i++) if (runnable(&thr[i]) && (self_ok || &thr[i] != self)) return &thr[i];
    }
    Thr *c[MAXT]; int n = 0;
    for (int i = 0; i < nthr; i++) { if (&thr[i] == self && !self_ok) continue; if (runnable(&thr[i])) c[n++] = &thr[i]; }
    if (n == 0) {                                  // wake the earliest stalled thread
        Thr *b = nullptr;
        for (int i = 0; i < nthr; i++) if (thr[i].state == T_STALLED && (!b || thr[i].stall_until < b->stall_until)) b = &thr[i];
        if (b) { if (b->stall_until > vnow()) { stats.clock_skipped += b->stall_until - vnow(); clock_skip += b->stall_until - vnow(); } b->state = T_RUN; return b; }
        return self->state == T_RUN ? nullptr : thaw(self);
    }
    if (cfg.policy == POL_PCT) { Thr *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
    return c[srng.below(n)];
}
static void note_switch(Thr *a, Thr *b) {
    sched_log.push_back({a->id, a->steps, b->id});
    stats.switches++;
    u64 h = mix(a->last_pc * 31 + a->id, b->last_pc * 17 + b->id);
    stats.sched_hash = mix(stats.sched_hash, h);
    u64 ph = mix(a->last_pc, b->last_pc);
    stats.pair_hash ^= ph;
    if (shared_pairs) { u64 bit = ph & ((1u << 20) - 1); if (!((shared_pairs[bit >> 6] >> (bit & 63)) & 1)) { shared_pairs[bit >> 6] |= 1ull << (bit & 63); stats.npairs++; } }
}
static void hand_over(Thr *a, Thr *b) {
    if (a == b) { upd_stop(a); return; }
    note_switch(a, b);
    slice_end();
    slice_begin(b);
    fwake(&b->fut);
    if (a->state != T_DONE) fwait(&a->fut);
}
static void deadlock(Thr *t) {
    std::string s = "all live threads wait for each other:";
    for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCKED || thr[i].state == T_COND) s += fmt(" T%d(op %d, pc=0x%llx)", i, thr[i].opid, (unsigned long long) thr[i].last_pc);
    violation(V_DEADLOCK, s);
}
static void preempt(Thr *t, bool may_stall) {
    if (may_stall && cfg.p_stall > 0 && srng.chance(cfg.p_stall)) {
        t->state = T_STALLED; t->stall_until = vnow() + 1 + srng.below(cfg.stall_len ? cfg.stall_len : 1); stats.stalls++;
    }
    Thr *n = pick(t, false);
    if (!n) { t->state = T_RUN; n = t; }
    if (n != t) stats.preempts++;
    hand_over(t, n);
}
static void block_on(const void *addr) {
    Thr *t = cur;
    if (!active || t == &boot) { fprintf(stderr, "blocked outside simulation\n"); violation(V_DEADLOCK, "single thread waits for itself"); }
    t->steps++; t->state = T_BLOCKED; t->wait_addr = addr; stats.blocked++;
    Thr *n = pick(t, false);
    if (!n) deadlock(t);
    hand_over(t, n);
}
static void wake_all(const void *addr) { for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_addr == addr) thr[i].state = T_RUN; }
static bool wake_one(const void *addr) { std::vector<int> v; for (int i = 0; i < nthr; i++) if (thr[i].state == T_BLOCKED && thr[i].wait_addr == addr) v.push_back(i); if (v.empty()) return false; thr[v[0]].state = T_RUN; return true; }

__attribute__((noinline)) static void slow(Thr *t) {
    if (gnow() >= cfg.step_cap) for (int i = 0; i < nthr; i++) if (thr[i].state == T_FROZEN) violation(V_LIVELOCK, fmt("T%d (op %d, pc=0x%llx) makes no progress while T%d is delayed inside op %d at pc=0x%llx", t->id, t->opid, (unsigned long long) t->last_pc, i, thr[i].opid, (unsigned long long) thr[i].last_pc));
    if (multi && t->id == cfg.freeze_tid && !t->thawed && t->steps >= cfg.freeze_step) {
        t->thawed = true; t->state = T_FROZEN; stats.frozen++; Thr *n = pick(t, false); if (n != t) stats.preempts++; hand_over(t, n); return;
    }
    if (gnow() >= cfg.step_cap) violation(V_LIVELOCK, fmt("step bound %llu exceeded", (unsigned long long) cfg.step_cap));
    if (!multi) { upd_stop(t); return; }
    if (cfg.policy == POL_REPLAY) {
        if (t->tpos < t->plan.size() && t->plan[t->tpos].step == t->steps) { Thr *n = pick(t, true); if (n != t) stats.preempts++; hand_over(t, n); return; }
        upd_stop(t); return;
    }
    if (t->steps - t->slice_start >= cfg.fair) { stats.fairness++; if (cfg.policy == POL_PCT) t->prio = --pct_low; Thr *n = pick(t, false); if (!n) { t->slice_start = t->steps; upd_stop(t); return; } hand_over(t, n); return; }
    if (cfg.policy == POL_PCT) { t->prio = --pct_low; pct_i++; Thr *n = pick(t, true); if (n && n != t) { stats.preempts++; hand_over(t, n); } else upd_stop(t); return; }
    preempt(t, true);
}
static inline void event(Thr *t) {          // touches state that other threads may see
    stats.events++; t->events++;
    if (__builtin_expect(multi && t->id == cfg.freeze_tid && t->events == cfg.freeze_event, 0)) { cfg.freeze_step = t->steps + cfg.freeze_delta; if (t->next_stop > cfg.freeze_step) t->next_stop = cfg.freeze_step; }
}
static inline void step(Thr *t) { if (__builtin_expect(++t->steps >= t->next_stop, 0)) slow(t); }

// ------------------------------------------------------------------ inputs / memory errors
struct InRange { uintptr_t a; size_t n; };
static std::vector<InRange> inranges;
static inline u8 *shp(uintptr_t a) { return (u8 *) (SHARE + ((a - ARENA) >> 3)); }
static void report_input(uintptr_t a, u32 n, u64 pc) {
    violation(V_INPUT, fmt("a caller input object was changed by a store at pc=0x%llx (simulated observer sees different bytes at arena+0x%llx, size %u)", (unsigned long long) pc, (unsigned long long) (a - ARENA), n));
}
static inline void check_dirty(Thr *t) {
    uintptr_t a = t->dirty_a; u32 n = t->dirty_n; t->dirty_a = 0; stats.dirty_checks++;
    for (auto &r : inranges) { uintptr_t lo = a > r.a ? a : r.a, hi = a + n < r.a + r.n ? a + n : r.a + r.n;
        if (lo < hi && memcmp((void *) lo, (void *) (lo - ARENA + SNAP), hi - lo)) report_input(lo, (u32) (hi - lo), t->dirty_pc); }
}
void input_register(const void *p, size_t n) {
    uintptr_t a = (uintptr_t) p; if (!n || a < ARENA || a >= ARENA + ARENA_SZ) return;
    inranges.push_back({a, n}); memcpy((void *) (a - ARENA + SNAP), p, n);
    for (uintptr_t g = a & ~7ull; g < a + n; g += 8) *shp(g) |= S_IN;
}
void input_rebase(const void *p, size_t n) { uintptr_t a = (uintptr_t) p; memcpy((void *) (a - ARENA + SNAP), p, n); }
void input_unregister_all() { for (auto &r : inranges) for (uintptr_t g = r.a & ~7ull; g < r.a + r.n; g += 8) *shp(g) &= ~S_IN; inranges.clear(); }
bool input_check_all(std::string &why) {
    for (auto &r : inranges) if (memcmp((void *) r.a, (void *) (r.a - ARENA + SNAP), r.n)) { why = fmt("caller input at arena+0x%llx (%zu bytes) differs from what the caller put there", (unsigned long long) (r.a - ARENA), r.n); return false; }
    return true;
}
void guard_poison(const void *p, size_t n) { uintptr_t a = (uintptr_t) p; for (uintptr_t g = a; g < a + n; g += 8) *shp(g) = 0; }
void guard_clear(const void *p, size_t n) { uintptr_t a = (uintptr_t) p; for (uintptr_t g = a; g < a + n; g += 8) *shp(g) = S_ADDR | S_OWN; }
static bool memerr_fatal = true;
static void memory_error(uintptr_t a, unsigned sz, bool w, u64 pc) {
    std::string d; arena_block_of((void *) a, d);
    violation(V_MEMERR, fmt("%s of %u bytes outside live memory at pc=0x%llx: %s", w ? "write" : "read", sz, (unsigned long long) pc, d.c_str()));
}
void sim_enable_shadow(bool on) { shadow_on = on; }

// ------------------------------------------------------------------ the access seam
// A thread that has just used shared state is held there; the first thread that then writes the same state lets it go on
// (after a reader was held: check-then-act and read-modify-write), or it is held for a while (after a writer: half-finished updates).
static void hold(Thr *t, uintptr_t a, bool w) {
    a &= ~(uintptr_t) 7;
    if (hold_t >= 0 && thr[hold_t].state != T_STALLED) hold_t = -1;
    if (hold_t >= 0) {
        if (hold_t == t->id || !w || a != hold_a) return;
        Thr *h = &thr[hold_t]; hold_t = -1; u64 later = srng.chance(.5) ? 0 : srng.below(srng.chance(.5) ? 10 : 2000); h->stall_until = vnow() + later;
        if (!later) { h->state = T_RUN; stats.preempts++; hand_over(t, h); }
        return;
    }
    if (stats.preempts >= (u64) cfg.max_preempt || stats.stalls >= 2 * (u64) cfg.max_preempt || !srng.chance(cfg.p)) return;
    t->state = T_STALLED; t->stall_until = vnow() + 1 + cfg.stall_len; stats.stalls++; hold_t = w ? -1 : t->id; hold_a = a;
    Thr *n = pick(t, false); if (!n) { t->state = T_RUN; hold_t = -1; return; }
    if (n != t) stats.preempts++;
    hand_over(t, n);
}
__attribute__((noinline)) static void conflict(Thr *t, u64 pc, uintptr_t a, bool w) {
    stats.conflicts++;
    if (pc < GLO + GLO_SZ) { u8 *q = &run_sites[pc & 0xFFFFF]; if (!*q) { *q = 1; if (shared_sites && !shared_sites[pc & 0xFFFFF]) { shared_sites[pc & 0xFFFFF] = 1; stats.conflict_sites_new++; } } }
    if (cfg.policy == POL_CONFLICT && multi && stats.preempts < (u64) cfg.max_preempt && srng.chance(cfg.p)) preempt(t, true);
    if (cfg.policy == POL_HOLD && multi) hold(t, a, w);
}
static inline __attribute__((always_inline)) void acc(uintptr_t a, unsigned sz, bool w, u64 pc) {
    Thr *t = cur;
    if (a - t->slo < t->ssz) return;                     // own stack: invisible to other threads
    t->last_pc = pc;
    if (__builtin_expect(t->dirty_a != 0, 0)) check_dirty(t);
    if (__builtin_expect(shadow_on, 1)) {
        u8 *sh; u8 s;
        if (a - ARENA < ARENA_SZ) {
            sh = shp(a); s = *sh;
            if (__builtin_expect(!(s & S_ADDR), 0)) memory_error(a, sz, w, pc);
            if (__builtin_expect((s & S_IN) && w, 0)) { t->dirty_a = a; t->dirty_n = sz; t->dirty_pc = pc; }
            if (sz > 8 || ((a & 7) + sz > 8)) { u8 s2 = *shp(a + sz - 1); if (!(s2 & S_ADDR)) memory_error(a, sz, w, pc); }
        } else if (a - GLO < GLO_SZ) {
            sh = (u8 *) (SHGLO + ((a - GLO) >> 3)); s = *sh; if (!s) s = S_OWN | S_ADDR; if (w) event(t);
        } else { step(t); return; }
        if (multi) {
            unsigned me = (unsigned) t->own;
            if (s & S_CONF) { step(t); conflict(t, pc, a, w); return; }
            unsigned own = s & S_OWN;
            if (own == me && !(s & S_MULTI)) { if (w && !(s & S_W)) *sh = s | S_W; }
            else if (own == S_OWN) *sh = (u8) ((s & ~S_OWN) | me | (w ? S_W : 0));
            else if (w || (s & S_W)) { *sh = s | S_CONF | (w ? S_W : 0); step(t); conflict(t, pc, a, w); return; }
            else if (!(s & S_MULTI)) *sh = s | S_MULTI;
            if (cfg.use_sites && run_sites[pc & 0xFFFFF]) { step(t); conflict(t, pc, a, w); return; }
        }
    }
    step(t);
}
#define PC ((u64) __builtin_return_address(0))
extern "C" {
#define RW(n) void __tsan_read##n(void *a) { acc((uintptr_t) a, n, false, PC); } void __tsan_write##n(void *a) { acc((uintptr_t) a, n, true, PC); } \
  void __tsan_read##n##_pc(void *a, void *p) { acc((uintptr_t) a, n, false, (u64) p); } void __tsan_write##n##_pc(void *a, void *p) { acc((uintptr_t) a, n, true, (u64) p); } \
  void __tsan_unaligned_read##n(void *a) { acc((uintptr_t) a, n, false, PC); } void __tsan_unaligned_write##n(void *a) { acc((uintptr_t) a, n, true, PC); } \
  void __tsan_volatile_read##n(void *a) { acc((uintptr_t) a, n, false, PC); } void __tsan_volatile_write##n(void *a) { acc((uintptr_t) a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range(uintptr_t a, size_t n, bool w, u64 pc) {
    if (!n) return;
    if (a - cur->slo < cur->ssz) return;
    size_t i = 0;
    while (i < n) { unsigned c = (unsigned) (n - i < 8 ? n - i : 8 - ((a + i) & 7)); if (c > n - i) c = (unsigned) (n - i); acc(a + i, c, w, pc); i += c; }
}
void __tsan_read_range(void *a, long n) { range((uintptr_t) a, n, false, PC); }
void __tsan_write_range(void *a, long n) { range((uintptr_t) a, n, true, PC); }
void __tsan_func_entry(void *pc) {
    Thr *t = cur; stats.func_entries++;
    if (cfg.policy == POL_FUNC && multi && t != &boot) { t->last_pc = PC; step(t); if (stats.preempts < (u64) cfg.max_preempt && srng.chance(cfg.p)) preempt(t, true); }
    else step(t);
}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void *a, void *b) {}
void __tsan_vptr_read(void *a) {}
void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
}

// ------------------------------------------------------------------ sync seam
static AllocSite lsites[16]; static u32 nlsites; static u64 lsite_base;            // where synchronisation happens within one call
void lock_sites_reset() { nlsites = 0; lsite_base = stats.events; }
u32 lock_sites(AllocSite *o) { memcpy(o, lsites, nlsites * sizeof(AllocSite)); return nlsites; }
static void lock_site(u64 pc) {
    u32 k = (u32) (stats.events - lsite_base), i = 0; while (i < nlsites && lsites[i].pc != pc) i++;
    if (i == nlsites) { if (nlsites == 16) return; lsites[nlsites++] = {pc, k, k, k, 0}; }
    AllocSite &a = lsites[i]; a.last = k; a.count++; if (mix(k, 17) % a.count == 0) a.mid = k;
}
static void sync_point(const void *addr, u64 pc, bool release = false) {
    Thr *t = cur; if (addr && pc > 16) { event(t); if (!release) lock_site(pc); } if (t == &boot) return;
    t->last_pc = pc; stats.sync_ops++;
    if (t->dirty_a) check_dirty(t);
    step(t);
    if (multi && cfg.policy == POL_HOLD && addr && pc > 16) hold(t, (uintptr_t) addr, srng.chance(.5));
    if (multi && (cfg.policy == POL_SYNC || cfg.policy == POL_CONFLICT) && stats.preempts < (u64) cfg.max_preempt && srng.chance(cfg.policy == POL_SYNC ? cfg.p : 0.3)) preempt(t, true);
}
struct Mu { int owner = -1; int count = 0; int readers = 0; bool recursive = false; };
static std::map<const void *, Mu> mus;
static std::map<const void *, int> onces;
static std::map<const void *, long> sems;
struct Bar { int need = 0, in = 0; u64 gen = 0; };
static std::map<const void *, Bar> bars;
static int critical_anon;
static void mu_lock(const void *m, u64 pc, bool recursive = false) {
    sync_point(m, pc);
    int me = cur->id;
    Mu &u = mus[m]; if (recursive) u.recursive = true;
    if (u.owner == me && u.count > 0) { if (u.recursive) { u.count++; return; } }
    while (u.count > 0 || u.readers > 0) block_on(m);
    u.owner = me; u.count = 1;
    Thr *t = cur; if (t == &boot) return; step(t);           // a thread may be delayed right behind the acquisition, however little it does there
    if (multi && cfg.policy == POL_SYNC && stats.preempts < (u64) cfg.max_preempt && srng.chance(.25 * cfg.p)) preempt(t, true);
}
static bool mu_try(const void *m, u64 pc) {
    sync_point(m, pc); Mu &u = mus[m];
    if (u.count > 0 || u.readers > 0) { if (u.owner == cur->id && u.recursive) { u.count++; return true; } return false; }
    u.owner = cur->id; u.count = 1; if (cur != &boot) step(cur); return true;
}
static void mu_unlock(const void *m, u64 pc) {
    Mu &u = mus[m]; if (u.readers > 0 && u.count == 0) { if (--u.readers == 0) wake_all(m); sync_point(m, pc, true); return; }
    if (u.count > 0 && --u.count == 0) { u.owner = -1; wake_all(m); }
    sync_point(m, pc, true);
}
static void rd_lock(const void *m, u64 pc) { sync_point(m, pc); Mu &u = mus[m]; while (u.count > 0) block_on(m); u.readers++; if (cur != &boot) step(cur); }

struct TaskTeam;
// ------------------------------------------------------------------ ambient state of the calling thread and process
static u64 env_seed = 0; static bool env_on = false;
static struct { unsigned csr; uint16_t cw; int omp; unsigned fl; } env_was[MAXT + 2];
static void env_touch(const char *what) { stats.env_calls++; if (env_on && cur != &boot) violation(V_FP, fmt("a library call changes or writes to %s, which belongs to its caller and to every other thread (after pc=0x%llx)", what, (unsigned long long) cur->last_pc)); }
void env_setup(u64 seed) { env_seed = seed; env_on = seed != 0; }
int omp_now();
void env_begin(u64 k) {               // what earlier code of the caller may have left behind
    int s = cur == &boot ? MAXT + 1 : cur->id; Rng r(mix(env_seed, k)); static const int E[] = {0, ENOMEM, EDOM, ERANGE, EINTR, EAGAIN, EINVAL, ENOENT};
    fexcept_t fl; feclearexcept(FE_ALL_EXCEPT); (void) fl; unsigned c = _mm_getcsr(), m = r.chance(.3) ? 0 : (unsigned) r.below(64); _mm_setcsr((c & ~63u) | m); 
    fenv_t e; fegetenv(&e); e.__status_word = (unsigned short) ((e.__status_word & ~63) | m); fesetenv(&e);
    uint16_t cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); env_was[s] = {_mm_getcsr() & 0xFFC0u, cw, omp_now(), m & 61u}; errno = E[r.below(8)]; stats.env_faults++;
}
void env_end() {
    int s = cur == &boot ? MAXT + 1 : cur->id; uint16_t cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); unsigned csr = _mm_getcsr() & 0xFFC0u;
    if (csr != env_was[s].csr || cw != env_was[s].cw) violation(V_FP, fmt("the call returned with another floating-point mode (MXCSR 0x%x, was 0x%x; x87 control word 0x%x, was 0x%x)", csr, env_was[s].csr, cw, env_was[s].cw));
    fenv_t e; fegetenv(&e); unsigned f1 = _mm_getcsr() & 63u, f2 = e.__status_word & 63u, m = env_was[s].fl;
    if ((f1 & m) != m || (f2 & m) != m) violation(V_FP, fmt("the call cleared floating-point exception flags which its caller had not tested yet (raised before: 0x%x, after: SSE 0x%x, x87 0x%x)", m, f1, f2));
    if (omp_now() != env_was[s].omp) violation(V_FP, fmt("the call returned with another default number of OpenMP threads (%d, was %d)", omp_now(), env_was[s].omp));
}
extern "C" {
// --- OpenMP critical / atomic
void sim_GOMP_critical_start() { mu_lock(&critical_anon, PC); }
void sim_GOMP_critical_end() { mu_unlock(&critical_anon, PC); }
void sim_GOMP_critical_name_start(void **p) { mu_lock(p, PC); }
void sim_GOMP_critical_name_end(void **p) { mu_unlock(p, PC); }
static int atomic_anon;
void sim_GOMP_atomic_start() { mu_lock(&atomic_anon, PC); }
void sim_GOMP_atomic_end() { mu_unlock(&atomic_anon, PC); }
// --- OpenMP locks
void sim_omp_init_lock(void *l) { mus.erase(l); }
void sim_omp_destroy_lock(void *l) { mus.erase(l); }
void sim_omp_set_lock(void *l) { mu_lock(l, PC); }
void sim_omp_unset_lock(void *l) { mu_unlock(l, PC); }
int sim_omp_test_lock(void *l) { return mu_try(l, PC); }
void sim_omp_init_nest_lock(void *l) { mus.erase(l); }
void sim_omp_destroy_nest_lock(void *l) { mus.erase(l); }
void sim_omp_set_nest_lock(void *l) { mu_lock(l, PC, true); }
void sim_omp_unset_nest_lock(void *l) { mu_unlock(l, PC); }
int sim_omp_test_nest_lock(void *l) { return mu_try(l, PC); }
// --- pthread
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { mus.erase(m); return pthread_mutex_init(m, a); }
int sim_pthread_mutex_destroy(pthread_mutex_t *m) { mus.erase(m); return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { mu_lock(m, PC, m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP); return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return mu_try(m, PC) ? 0 : EBUSY; }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { mu_unlock(m, PC); return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { mus.erase(m); memset(m, 0, sizeof *m); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *m) { mus.erase(m); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *m) { rd_lock(m, PC); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *m) { mu_lock(m, PC); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *m) { mu_unlock(m, PC); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t *m, int) { mus.erase((void *) m); return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *m) { mus.erase((void *) m); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *m) { mu_lock((void *) m, PC); return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *m) { return mu_try((void *) m, PC) ? 0 : EBUSY; }
int sim_pthread_spin_unlock(pthread_spinlock_t *m) { mu_unlock((void *) m, PC); return 0; }
static void once_do(const void *o, void (*f)(void), u64 pc) {
    sync_point(o, pc); int &s = onces[o];
    if (s == 2) return;
    if (s == 0) { s = 1; f(); onces[o] = 2; wake_all(o); sync_point(o, pc); return; }
    while (onces[o] != 2) block_on(o);
}
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { once_do(o, f, PC); return 0; }
void sim_call_once(void *o, void (*f)(void)) { once_do(o, f, PC); }
int sim_mtx_init(void *m, int type) { mus.erase(m); mus[m].recursive = (type & 1); return 0; }
void sim_mtx_destroy(void *m) { mus.erase(m); }
int sim_mtx_lock(void *m) { mu_lock(m, PC); return 0; }
int sim_mtx_trylock(void *m) { return mu_try(m, PC) ? 0 : 1; }
int sim_mtx_unlock(void *m) { mu_unlock(m, PC); return 0; }
int sim_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { u64 pc = PC; Mu &u = mus[m]; u.count = 0; u.owner = -1; wake_all(m); cur->last_pc = pc; block_on(c); mu_lock(m, pc); return 0; }
int sim_pthread_cond_signal(pthread_cond_t *c) { wake_one(c); sync_point(c, PC); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { wake_all(c); sync_point(c, PC); return 0; }
int sim_sem_init(sem_t *s, int, unsigned v) { sems[s] = v; return 0; }
int sim_sem_destroy(sem_t *s) { sems.erase(s); return 0; }
int sim_sem_wait(sem_t *s) { sync_point(s, PC); while (sems[s] <= 0) block_on(s); sems[s]--; return 0; }
int sim_sem_trywait(sem_t *s) { sync_point(s, PC); if (sems[s] <= 0) { errno = EAGAIN; return -1; } sems[s]--; return 0; }
int sim_sem_post(sem_t *s) { sems[s]++; wake_all(s); sync_point(s, PC); return 0; }
int sim_sched_yield() { if (multi && cur != &boot && cfg.policy != POL_REPLAY && srng.chance(0.5)) { cur->steps++; preempt(cur, false); } else { sync_point(nullptr, PC); } return 0; }
int sim_usleep(unsigned) { return sim_sched_yield(); }
unsigned sim_sleep(unsigned) { sim_sched_yield(); return 0; }
int sim_nanosleep(const struct timespec *, struct timespec *) { return sim_sched_yield(); }
}
// --- simulated OpenMP team (driver): each GOMP_parallel runs its team as simulated threads
struct WS { long next, end, incr, chunk; int arrived = 0; };         // one worksharing construct
struct Team { int n = 1; void (*fn)(void *) = nullptr; void *data = nullptr; std::vector<WS> ws; int arrived = 0; u64 gen = 0; int done = 0; void *cp = nullptr; };
static Team *team_of[MAXT + 2]; static int team_tid[MAXT + 2]; static size_t team_ws[MAXT + 2]; static int cur_ws[MAXT + 2];
static Team fake;                                                       // the caller's own parallel region, when its threads form an OpenMP team
static Team solo[MAXT + 2];                                            // the implicit team of a thread outside parallel regions
static int omp_default = 4;
int omp_now() { return omp_default; }
void sim_set_omp_threads(int n) { omp_default = n; }
void team_setup(int n) { fake = Team(); fake.n = n; for (int i = 0; i < MAXT + 2; i++) { team_of[i] = nullptr; team_tid[i] = 0; team_ws[i] = 0; cur_ws[i] = 0; } if (n > 0) omp_default = n; }
static void spawn_thread(int id, std::function<void()> f);
static inline int slot() { return cur == &boot ? MAXT + 1 : cur->id; }
void team_member(int num) { int s = slot(); team_of[s] = &fake; team_tid[s] = num; team_ws[s] = 0; cur_ws[s] = 0; }
static Team *my_team() { int s = slot(); return team_of[s] ? team_of[s] : &solo[s]; }
static void team_barrier(Team *tm) {
    if (!tm || tm->n <= 1) return;
    u64 g = tm->gen; if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; wake_all(tm); sync_point(tm, 1); return; }
    while (tm->gen == g) block_on(tm);
}
// next worksharing construct of the calling thread; `fresh` tells the first thread to arrive
static WS &ws_enter(bool &fresh) { Team *t = my_team(); int s = slot(); size_t i = team_ws[s]++; fresh = i >= t->ws.size(); if (fresh) t->ws.resize(i + 1); cur_ws[s] = (int) i; return t->ws[i]; }
static void run_team(void (*fn)(void *), void *data, unsigned nt, const WS *loop, u64 pc) {
    Thr *self = cur; int me = slot(); int n = nt ? (int) nt : omp_default; if (n > MAXT) n = MAXT;
    if (self == &boot || team_of[me]) n = 1;                             // nested regions are serialised, as by default
    Team tm; tm.fn = fn; tm.data = data; if (loop) tm.ws.push_back(*loop);
    std::vector<int> ids; if (n > 1) for (int i = 0; i < MAXT && (int) ids.size() < n - 1; i++) if (&thr[i] != self && (i >= nthr || thr[i].state == T_DONE)) ids.push_back(i);
    tm.n = (int) ids.size() + 1;
    Team *sv = team_of[me]; int svt = team_tid[me], svc = cur_ws[me]; size_t svw = team_ws[me];
    team_of[me] = &tm; team_tid[me] = 0; team_ws[me] = loop ? 1 : 0; cur_ws[me] = 0;
    int k = 1; for (int id : ids) { team_of[id] = &tm; team_tid[id] = k++; team_ws[id] = loop ? 1 : 0; cur_ws[id] = 0;
        spawn_thread(id, [&tm, fn, data, id]() { fn(data); tm.done++; team_of[id] = nullptr; wake_all(&tm.done); }); }
    if (tm.n > 1) { multi = true; slice_end(); self->slice_start = self->steps; upd_stop(self); }
    sync_point(&tm, pc);
    fn(data); tm.done++;
    while (tm.done < tm.n) block_on(&tm.done);
    team_of[me] = sv; team_tid[me] = svt; team_ws[me] = svw; cur_ws[me] = svc;
    sync_point(&tm, pc);
}
extern "C" {
int sim_omp_get_thread_num() { return team_tid[slot()]; }
int sim_omp_get_num_threads() { return my_team()->n; }
int sim_omp_get_max_threads() { return omp_default; }
int sim_omp_get_thread_limit() { return 1 << 20; }
int sim_omp_get_num_procs() { return 8; }
int sim_omp_get_level() { return team_of[slot()] != nullptr; }
int sim_omp_in_parallel() { return my_team()->n > 1; }
int sim_omp_get_dynamic() { return 0; }
void sim_omp_set_dynamic(int) { env_touch("the OpenMP settings"); }
void sim_omp_set_num_threads(int n) { if (n >= 1) omp_default = n; }
double sim_omp_get_wtime() { return sim_now() * 1e-9; }
void sim_GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags) { run_team(fn, data, nt, nullptr, PC); }
void sim_GOMP_barrier() { sync_point(my_team(), PC); team_barrier(my_team()); }
bool sim_GOMP_single_start() { sync_point(my_team(), PC); bool f; ws_enter(f); return f; }
void *sim_GOMP_single_copy_start() { sync_point(my_team(), PC); bool f; ws_enter(f); if (f) return nullptr; Team *t = my_team(); team_barrier(t); void *p = t->cp; team_barrier(t); return p; }
void sim_GOMP_single_copy_end(void *p) { Team *t = my_team(); t->cp = p; team_barrier(t); team_barrier(t); }
// explicit tasks run at once (a legal schedule of theirs)
void sim_GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool ifc, unsigned flags, void **dep, int prio) {
    sync_point(nullptr, PC);
    if (cpy) { std::vector<char> buf(size + align); char *a = (char *) (((uintptr_t) buf.data() + align - 1) / align * align); cpy(a, data); fn(a); } else fn(data);
}
void sim_GOMP_taskwait() { sync_point(nullptr, PC); }
void sim_GOMP_taskyield() { sync_point(nullptr, PC); }
void sim_GOMP_taskgroup_start() {} void sim_GOMP_taskgroup_end() { sync_point(nullptr, PC); }
static bool loop_next(long *s, long *e) {
    Team *t = my_team(); sync_point(t, PC); WS &w = t->ws[cur_ws[slot()]];
    if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false;
    long c = w.chunk > 0 ? w.chunk : 1; *s = w.next; *e = w.next + c * w.incr;
    if (w.incr > 0 ? *e > w.end : *e < w.end) *e = w.end; w.next = *e; return true;
}
static bool loop_start(long st, long en, long in, long ch, long *s, long *e) {
    sync_point(my_team(), PC); bool f; WS &w = ws_enter(f); if (f) { w.next = st; w.end = en; w.incr = in; w.chunk = ch; }
    return loop_next(s, e);
}
#define LOOPS(n) bool sim_GOMP_loop_##n##_start(long a, long b, long c, long d, long *s, long *e) { return loop_start(a, b, c, d, s, e); } \
  bool sim_GOMP_loop_##n##_next(long *s, long *e) { return loop_next(s, e); }
LOOPS(dynamic) LOOPS(guided) LOOPS(static) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define LOOPR(n) bool sim_GOMP_loop_##n##_start(long a, long b, long c, long *s, long *e) { return loop_start(a, b, c, 1, s, e); } \
  bool sim_GOMP_loop_##n##_next(long *s, long *e) { return loop_next(s, e); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
typedef unsigned long long ull;
static bool ull_out(bool r, long s, long e, ull *a, ull *b) { if (r) { *a = (ull) s; *b = (ull) e; } return r; }
#define LOOPU(n) bool sim_GOMP_loop_ull_##n##_start(bool up, ull a, ull b, ull c, ull d, ull *s, ull *e) { long x, y; return ull_out(loop_start((long) a, (long) b, (long) c, (long) d, &x, &y), x, y, s, e); } \
  bool sim_GOMP_loop_ull_##n##_next(ull *s, ull *e) { long x, y; return ull_out(loop_next(&x, &y), x, y, s, e); }
LOOPU(dynamic) LOOPU(guided) LOOPU(static) LOOPU(nonmonotonic_dynamic) LOOPU(nonmonotonic_guided)
#define LOOPUR(n) bool sim_GOMP_loop_ull_##n##_start(bool up, ull a, ull b, ull c, ull *s, ull *e) { long x, y; return ull_out(loop_start((long) a, (long) b, (long) c, 1, &x, &y), x, y, s, e); } \
  bool sim_GOMP_loop_ull_##n##_next(ull *s, ull *e) { long x, y; return ull_out(loop_next(&x, &y), x, y, s, e); }
LOOPUR(runtime) LOOPUR(maybe_nonmonotonic_runtime) LOOPUR(nonmonotonic_runtime)
void sim_GOMP_loop_end_nowait() {}
void sim_GOMP_loop_end() { team_barrier(my_team()); }
unsigned sim_GOMP_sections_next() { Team *t = my_team(); sync_point(t, PC); WS &w = t->ws[cur_ws[slot()]]; return w.next < w.end ? (unsigned) ++w.next : 0; }
unsigned sim_GOMP_sections_start(unsigned n) { bool f; WS &w = ws_enter(f); if (f) { w.next = 0; w.end = n; w.incr = 1; } return sim_GOMP_sections_next(); }
void sim_GOMP_sections_end() { team_barrier(my_team()); }
void sim_GOMP_sections_end_nowait() {}
void sim_GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { WS w{0, (long) n, 1, 1}; run_team(fn, d, nt, &w, PC); }
#define PLOOP(n) void sim_GOMP_parallel_loop_##n(void (*fn)(void *), void *d, unsigned nt, long st, long en, long in, long ch, unsigned fl) { WS w{st, en, in, ch}; run_team(fn, d, nt, &w, PC); }
PLOOP(dynamic) PLOOP(guided) PLOOP(static) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(n) void sim_GOMP_parallel_loop_##n(void (*fn)(void *), void *d, unsigned nt, long st, long en, long in, unsigned fl) { WS w{st, en, in, 1}; run_team(fn, d, nt, &w, PC); }
PLOOPR(runtime) PLOOPR(maybe_nonmonotonic_runtime) PLOOPR(nonmonotonic_runtime)
}
// --- atomics (tsan ABI)
template <class T> static inline void apoint(volatile T *a, bool w, u64 pc) { acc((uintptr_t) a, sizeof(T), w, pc); sync_point((void *) a, pc); }
typedef unsigned __int128 u128;
extern "C" {
#define ATOM(bits, T) \
T __tsan_atomic##bits##_load(const volatile T *a, int) { apoint((volatile T *) a, false, PC); return *a; } \
void __tsan_atomic##bits##_store(volatile T *a, T v, int) { apoint(a, true, PC); *a = v; } \
T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { apoint(a, true, PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { apoint(a, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { apoint(a, true, PC); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { apoint(a, true, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64) ATOM(128, u128)
void __tsan_atomic_thread_fence(int) { sync_point(nullptr, PC); }
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------ allocator seam
struct Hdr { u64 magic; u64 size; u64 cap; u32 seq; int tag; };   // 32 bytes before user data
static const u64 LIVE = 0x51AB1E0FA110C8EDull, DEAD = 0xDEADF2EEDEADF2EEull;
static const u8 RZ = 0xCB;
static uintptr_t bump = ARENA + 4096;
static std::map<u64, std::vector<uintptr_t>> freelist;
static std::map<uintptr_t, Hdr *> blocks;         // user address -> header, live and dead (for diagnostics)
static MemCfg mcfg;
static u64 live_blocks, live_bytes, alloc_cnt, alloc_failed, ahash; static u32 aseq;
static i64 fail_idx = -1; static bool fail_later = false;
static int alloc_tag;
void set_alloc_tag(int t) { alloc_tag = t; }
u64 arena_live_blocks() { return live_blocks; } u64 arena_live_bytes() { return live_bytes; }
u64 arena_alloc_count() { return alloc_cnt; } u64 arena_failed_count() { return alloc_failed; }
u64 arena_event_hash() { return ahash; }
u64 heap_bytes_peak() { return bump - ARENA; }
void arena_reset_cfg(const MemCfg &c) { mcfg = c; mrng = Rng(c.seed * 77 + 5); }
void arena_fail_at(i64 idx, bool later) { fail_idx = idx; fail_later = later; alloc_cnt = 0; }
bool arena_contains(const void *p) { uintptr_t a = (uintptr_t) p; return a - ARENA < ARENA_SZ; }
static void fill(void *p, size_t n) {
    switch (mcfg.fill) {
        case 0: memset(p, 0, n); break;
        case 1: memset(p, 0xFF, n); break;
        case 2: { u64 *q = (u64 *) p; for (size_t i = 0; i + 8 <= n; i += 8) *q++ = mrng.next(); for (size_t i = n & ~7ull; i < n; i++) ((u8 *) p)[i] = (u8) mrng.next(); break; }
        case 3: { double *q = (double *) p; for (size_t i = 0; i + 8 <= n; i += 8) *q++ = (mrng.uni() - 0.5) * 2e3; for (size_t i = n & ~7ull; i < n; i++) ((u8 *) p)[i] = 0x41; break; }
        case 4: break;
        case 5: { u32 *q = (u32 *) p; for (size_t i = 0; i + 4 <= n; i += 4) *q++ = (u32) mrng.below(4); break; }
    }
}
static u64 alloc_pc; static AllocSite asites[64]; static u32 nasites; static u64 asite_base;
void arena_sites_reset() { nasites = 0; asite_base = alloc_cnt; }
u32 arena_sites(AllocSite *o) { memcpy(o, asites, nasites * sizeof(AllocSite)); return nasites; }
static void note_site(u32 k) {          // where the allocations of a call come from
    u32 i = 0; while (i < nasites && asites[i].pc != alloc_pc) i++;
    if (i == nasites) { if (nasites == 64) return; asites[nasites++] = {alloc_pc, k, k, k, 0}; }
    AllocSite &a = asites[i]; a.last = k; a.count++; if (mix(k, 17) % a.count == 0) a.mid = k;
}
static void *lib_alloc(size_t n, bool zero) {
    u64 idx = alloc_cnt++; note_site((u32) (idx - asite_base));
    if (fail_idx >= 0 && ((i64) idx == fail_idx || (fail_later && (i64) idx >= fail_idx))) { alloc_failed++; stats.failed_allocs++; errno = ENOMEM; return nullptr; }
    return arena_alloc(n, zero);
}
void *arena_alloc(size_t n, bool zero) {
    stats.mallocs++;
    if (n > ARENA_SZ / 4) { errno = ENOMEM; return nullptr; }
    u64 cap = (n + 15) & ~15ull; if (!cap) cap = 16;
    uintptr_t u = 0;
    auto it = freelist.find(cap);
    if (it != freelist.end() && !it->second.empty() && mrng.chance(mcfg.reuse)) {
        auto &v = it->second; size_t k = mrng.chance(0.7) ? v.size() - 1 : mrng.below(v.size()); u = v[k]; v[k] = v.back(); v.pop_back(); stats.recycled++;
    }
    if (!u) {
        uintptr_t need = 32 + cap + 32;
        if (bump + need >= ARENA + ARENA_SZ) { errno = ENOMEM; return nullptr; }
        u = bump + 32; bump += need;
    }
    Hdr *h = (Hdr *) (u - 32); h->magic = LIVE; h->size = n; h->cap = cap; h->seq = aseq++; h->tag = alloc_tag;
    blocks[u] = h;
    memset((void *) (u + n), RZ, cap - n + 32);
    if (zero) memset((void *) u, 0, n); else fill((void *) u, n);
    for (uintptr_t g = u; g < u + ((n + 7) & ~7ull); g += 8) *shp(g) = S_ADDR | S_OWN;
    live_blocks++; live_bytes += n; ahash = mix(ahash, n * 2 + 1);
    return (void *) u;
}
static bool rz_ok(uintptr_t u, Hdr *h) { for (u64 i = h->size; i < h->cap + 32; i++) if (*(u8 *) (u + i) != RZ) return false; return true; }
void arena_free(void *p) {
    if (!p) return;
    uintptr_t u = (uintptr_t) p; u64 pc = cur->last_pc;
    auto it = blocks.find(u);
    if (it == blocks.end() && u - ARENA >= ARENA_SZ && u - STK >= STK_SZ * (MAXT + 1) && u - GLO >= GLO_SZ) { free(p); return; }      // from libc itself (asprintf, getline, ...)
    if (it == blocks.end()) violation(V_MEMERR, fmt("free of a pointer that was never allocated (last pc=0x%llx)", (unsigned long long) pc));
    Hdr *h = it->second;
    if (h->magic == DEAD) violation(V_MEMERR, fmt("block of %llu bytes freed twice (last pc=0x%llx)", (unsigned long long) h->size, (unsigned long long) pc));
    if (h->magic != LIVE || !rz_ok(u, h)) violation(V_MEMERR, fmt("write past the end of a heap block of %llu bytes (found on free, last pc=0x%llx)", (unsigned long long) h->size, (unsigned long long) pc));
    h->magic = DEAD; live_blocks--; live_bytes -= h->size; ahash = mix(ahash, h->size * 2);
    for (uintptr_t g = u; g < u + ((h->size + 7) & ~7ull); g += 8) *shp(g) = 0;
    if (mcfg.poison_free) { int f = mcfg.fill; if (f == 4 || f == 0) memset(p, 0xF7, h->size); else fill(p, h->size); }
    freelist[h->cap].push_back(u);
}
bool arena_check_all(std::string &why) {
    for (auto &b : blocks) if (b.second->magic == LIVE) { if (!rz_ok(b.first, b.second)) { why = fmt("write past the end of a live heap block of %llu bytes", (unsigned long long) b.second->size); return false; } }
        else if (b.second->magic != DEAD) { why = "heap block header overwritten"; return false; }
    return true;
}
bool arena_block_of(const void *p, std::string &d) {
    uintptr_t a = (uintptr_t) p; auto it = blocks.upper_bound(a + 32);
    Hdr *best = nullptr; uintptr_t bu = 0;
    if (it != blocks.begin()) { --it; bu = it->first; best = it->second; }
    if (!best) { d = "no heap block nearby"; return false; }
    d = fmt("offset %lld of a %s block of %llu bytes", (long long) (a - bu), best->magic == LIVE ? "live" : "freed", (unsigned long long) best->size);
    return true;
}

extern "C" {
static void alloc_point(u64 pc) { alloc_pc = pc; Thr *t = cur; if (t == &boot) return; t->last_pc = pc; if (t->dirty_a) check_dirty(t); step(t); }
void *sim_malloc(size_t n) { alloc_point(PC); return lib_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) { alloc_point(PC); if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return lib_alloc(a * b, true); }
void sim_free(void *p) { alloc_point(PC); arena_free(p); }
void *sim_realloc(void *p, size_t n) {
    alloc_point(PC);
    if (!p) return lib_alloc(n, false);
    if (!n) { arena_free(p); return nullptr; }
    auto it = blocks.find((uintptr_t) p);
    if (it == blocks.end() && !arena_contains(p)) return realloc(p, n);
    if (it == blocks.end() || it->second->magic != LIVE) violation(V_MEMERR, "realloc of an invalid pointer");
    void *q = lib_alloc(n, false); if (!q) return nullptr;
    memcpy(q, p, it->second->size < n ? it->second->size : n);
    arena_free(p); return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return sim_realloc(p, a * b); }
void *sim_aligned_alloc(size_t al, size_t n) { alloc_point(PC); if (al <= 16) return lib_alloc(n, false); 
    // over-aligned: pad the bump pointer so that a fresh block gets the alignment
    uintptr_t u = (bump + 32 + al - 1) / al * al; bump = u - 32; double r = mcfg.reuse; mcfg.reuse = 0; void *p = lib_alloc(n, false); mcfg.reuse = r; return p; }
int sim_posix_memalign(void **out, size_t al, size_t n) { *out = sim_aligned_alloc(al, n); return *out ? 0 : ENOMEM; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) sim_malloc(n); if (p) memcpy(p, s, n); return p; }

static void copy_pts(uintptr_t a, size_t n, bool w, u64 pc) {      // announce a block access, 8 bytes at a time at most 64 yields
    range(a, n, w, pc);
}
void *sim_memset(void *d, int c, size_t n) {
    u64 pc = PC; uintptr_t a = (uintptr_t) d;
    if (n == 0) return d;
    if (a - cur->slo < cur->ssz) return memset(d, c, n);
    size_t i = 0; while (i < n) { size_t k = n - i < 8 ? n - i : 8 - ((a + i) & 7); if (k > n - i) k = n - i; acc(a + i, (unsigned) k, true, pc); memset((char *) d + i, c, k); i += k; }
    return d;
}
void *sim_memcpy(void *d, const void *s, size_t n) {
    u64 pc = PC; uintptr_t a = (uintptr_t) d, b = (uintptr_t) s; size_t i = 0;
    while (i < n) { size_t k = n - i < 8 ? n - i : 8 - ((a + i) & 7); if (k > n - i) k = n - i; acc(b + i, (unsigned) k, false, pc); acc(a + i, (unsigned) k, true, pc); memcpy((char *) d + i, (char *) s + i, k); i += k; }
    return d;
}
void *sim_memmove(void *d, const void *s, size_t n) {
    u64 pc = PC; copy_pts((uintptr_t) s, n, false, pc); copy_pts((uintptr_t) d, n, true, pc); return memmove(d, s, n);
}
int sim_memcmp(const void *d, const void *s, size_t n) { u64 pc = PC; copy_pts((uintptr_t) s, n, false, pc); copy_pts((uintptr_t) d, n, false, pc); return memcmp(d, s, n); }
// --- clock, randomness, environment
time_t sim_time(time_t *t) { time_t v = (time_t) (1700000000 + vnow() / 1000000 + (time_t) (mcfg.seed % 1000) * 86400); if (t) *t = v; return v; }
clock_t sim_clock() { return (clock_t) (vnow()); }
int sim_clock_gettime(clockid_t, struct timespec *ts) { u64 n = vnow(); ts->tv_sec = 1700000000 + n / 1000000; ts->tv_nsec = (n % 1000000) * 1000; return 0; }
int sim_gettimeofday(struct timeval *tv, void *) { u64 n = vnow(); tv->tv_sec = 1700000000 + n / 1000000; tv->tv_usec = n % 1000000; return 0; }
int sim_rand() { env_touch("the random-number stream"); return (int) (mrng.next() & 0x7FFFFFFF); }
long sim_random() { env_touch("the random-number stream"); return (long) (mrng.next() & 0x7FFFFFFF); }
double sim_drand48() { env_touch("the random-number stream"); return mrng.uni(); }
void sim_srand(unsigned) { env_touch("the random-number stream"); } void sim_srandom(unsigned) { env_touch("the random-number stream"); } void sim_srand48(long) { env_touch("the random-number stream"); }
char *sim_getenv(const char *n) {
    if (!env_seed || !n) return nullptr;
    static const char *V[] = {"0", "1", "2", "16", "true", "off", "/nonexistent", ""}; u64 h = env_seed; for (; *n; n++) h = mix(h, (u8) *n);
    return h % 3 == 0 ? nullptr : (char *) V[h / 3 % 8];
}
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
// --- process-wide state of the caller (renamed in the library's objects only)
static int swallow(const char *f, va_list ap) { env_touch("standard output or another stream"); return vsnprintf(nullptr, 0, f, ap); }
int simlib_printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = swallow(f, ap); va_end(ap); return n; }
int simlib_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int n = swallow(f, ap); va_end(ap); return n; }
int simlib_vprintf(const char *f, va_list ap) { return swallow(f, ap); }
int simlib_vfprintf(FILE *, const char *f, va_list ap) { return swallow(f, ap); }
int simlib_puts(const char *) { env_touch("standard output"); return 1; }
int simlib_putchar(int c) { env_touch("standard output"); return c; }
int simlib_fputs(const char *, FILE *) { env_touch("a stream"); return 1; }
int simlib_fputc(int c, FILE *) { env_touch("a stream"); return c; }
int simlib_putc(int c, FILE *) { env_touch("a stream"); return c; }
size_t simlib_fwrite(const void *, size_t, size_t n, FILE *) { env_touch("a stream"); return n; }
void simlib_perror(const char *) { env_touch("standard error"); }
ssize_t simlib_write(int, const void *, size_t n) { env_touch("a file descriptor"); return (ssize_t) n; }
int simlib_fflush(FILE *) { return 0; }
FILE *simlib_fopen(const char *, const char *) { env_touch("the file system"); return nullptr; }
int simlib_open(const char *, int, ...) { env_touch("the file system"); return -1; }
int simlib_unlink(const char *) { env_touch("the file system"); return -1; }
int simlib_remove(const char *) { env_touch("the file system"); return -1; }
int simlib_system(const char *) { env_touch("other processes"); return -1; }
int simlib_fork() { env_touch("other processes"); return -1; }
int simlib_chdir(const char *) { env_touch("the working directory"); return 0; }
unsigned simlib_umask(unsigned) { env_touch("the file mode mask"); return 022; }
int simlib_setenv(const char *, const char *, int) { env_touch("the environment variables"); return 0; }
int simlib_unsetenv(const char *) { env_touch("the environment variables"); return 0; }
int simlib_putenv(char *) { env_touch("the environment variables"); return 0; }
char *simlib_setlocale(int c, const char *l) { if (l) env_touch("the locale"); return setlocale(c, nullptr); }
sighandler_t simlib_signal(int, sighandler_t) { env_touch("the signal handlers"); return SIG_DFL; }
int simlib_sigaction(int, const struct sigaction *a, struct sigaction *o) { if (a) env_touch("the signal handlers"); if (o) memset(o, 0, sizeof *o); return 0; }
int simlib_sigprocmask(int, const sigset_t *a, sigset_t *o) { if (a) env_touch("the signal mask"); if (o) sigemptyset(o); return 0; }
unsigned simlib_alarm(unsigned) { env_touch("the process timers"); return 0; }
int simlib_atexit(void (*)(void)) { return 0; }
void simlib_omp_set_nested(int) { env_touch("the OpenMP settings"); }
void simlib_omp_set_max_active_levels(int) { env_touch("the OpenMP settings"); }
void simlib_omp_set_schedule(int, int) { env_touch("the OpenMP settings"); }
// --- process end
void sim_abort() { cur->last_pc = PC; abnormal_exit("the library called abort()"); _exit(5); }
void sim_exit(int c) { cur->last_pc = PC; if (SH) SH->exit_code = c; if (SH && SH->allow_exit) { flush_shared(); _exit(6); } if (fail_expected_exit) abnormal_exit("the library called exit()"); violation(V_EXIT, fmt("the library called exit(%d)", c)); }
void sim__exit(int c) { sim_exit(c); }
void sim___stack_chk_fail() { violation(V_MEMERR, fmt("write past the end of a local array (stack canary overwritten) in the function returning to pc=0x%llx", (unsigned long long) PC)); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { cur->last_pc = PC; const char *b = strrchr(f, '/'); abnormal_exit(fmt("assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l).c_str()); _exit(5); }
}

// ------------------------------------------------------------------ running
static void *thread_main(void *p) {
    Thr *t = (Thr *) p;
    stack_t ss; ss.ss_sp = t->altstk; ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    fwait(&t->fut);
    t->body();
    if (t->dirty_a) check_dirty(t);
    t->steps++;
    t->state = T_DONE;
    bool live = false; for (int i = 0; i < nthr; i++) if (thr[i].state != T_DONE) live = true;
    if (!live) { slice_end(); cur = &boot; fwake(&main_fut); return nullptr; }
    Thr *n = pick(t, false);
    if (!n) deadlock(t);
    hand_over(t, n);
    return nullptr;
}
static void init_thr(int i, std::function<void()> f) {
    Thr &t = thr[i];
    t.id = i; t.own = i % 7; t.slo = STK + i * STK_SZ; t.ssz = STK_SZ; t.state = T_RUN; t.fut = 0; t.body = std::move(f);
    t.dirty_a = 0; t.opid = -1; t.wait_addr = nullptr; t.last_pc = 0; t.prio = (i64) srng.below(1 << 20) + 1;
    t.tpos = 0; t.next_stop = ~0ull; t.events = 0; t.thawed = false;
    if (!t.altstk) t.altstk = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, (void *) (t.slo + 65536), STK_SZ - 65536);
    if (pthread_create(&t.pt, &a, thread_main, &t)) { violation(V_HARNESS, "pthread_create failed"); }
    pthread_attr_destroy(&a);
}
static void spawn_thread(int id, std::function<void()> f) {
    if (id < nthr) pthread_join(thr[id].pt, nullptr);
    u64 st = id < nthr ? thr[id].steps : 0; 
    if (id >= nthr) { for (int i = nthr; i < id; i++) { thr[i].state = T_DONE; thr[i].id = i; } }
    thr[id].steps = st; thr[id].plan.clear();
    if (cfg.policy == POL_REPLAY) for (auto &r : cfg.trace) if (r.tid == id) thr[id].plan.push_back(r);
    init_thr(id, std::move(f));
    if (id >= nthr) nthr = id + 1;
}
bool sim_run(std::vector<std::function<void()>> bodies, const SchedCfg &c) {
    slice_end();
    cfg = c; srng = Rng(c.seed); nthr = 0; active = true; multi = bodies.size() > 1;
    pct_points.clear(); pct_i = 0; pct_low = 0; hold_t = -1; hold_a = 0;
    if (c.policy == POL_PCT) { for (int i = 0; i < c.pct_d; i++) pct_points.push_back(gbase + 1 + srng.below(c.est_steps + 1)); std::sort(pct_points.begin(), pct_points.end()); }
    cfg.step_cap = gbase + c.step_cap;
    for (size_t i = 0; i < bodies.size(); i++) {
        thr[i].steps = 0; thr[i].plan.clear();
        if (c.policy == POL_REPLAY) for (auto &r : c.trace) if (r.tid == (int) i) thr[i].plan.push_back(r);
        init_thr((int) i, bodies[i]); nthr++;
    }
    Thr *first;
    if (c.policy == POL_REPLAY) { first = &thr[0]; for (auto &r : c.trace) if (r.tid == -1 && r.to < nthr) first = &thr[r.to]; }
    else if (c.policy == POL_PCT) { first = &thr[0]; for (int i = 1; i < nthr; i++) if (thr[i].prio > first->prio) first = &thr[i]; }
    else first = &thr[srng.below(nthr)];
    if (multi) sched_log.push_back({-1, 0, first->id});
    main_fut = 0;
    slice_begin(first);
    fwake(&first->fut);
    fwait(&main_fut);
    for (int i = 0; i < nthr; i++) pthread_join(thr[i].pt, nullptr);
    active = false; multi = false; nthr = 0; cur = &boot; slice_base = boot.steps;
    return true;
}
void sim_op_begin(int id) { cur->opid = id; }
void sim_reset_counters() { stats = RunStats(); sched_log.clear(); gbase = 0; clock_skip = 0; slice_base = cur->steps; }
void sim_op_end() { if (cur->dirty_a) check_dirty(cur); }
void sim_yield_point() { if (cur != &boot) sync_point(nullptr, 2); }
void sim_wait_until(std::function<bool()> cond) {
    Thr *t = cur; if (t == &boot) return;
    if (cond()) { sync_point(nullptr, 3); return; }
    t->cond = cond; t->state = T_COND; t->steps++; t->last_pc = 3;
    Thr *n = pick(t, false); if (!n) deadlock(t);
    hand_over(t, n);
}
// polls `cond`, which runs library code as this simulated thread; stalls a little after each failed look
void sim_poll_until(const std::function<bool()> &cond) {
    Thr *t = cur; int k = 0;
    while (!cond()) {
        if (t == &boot) violation(V_HARNESS, "poll outside a simulated thread");
        t->steps++; t->last_pc = 4;
        bool live = false; for (int i = 0; i < nthr; i++) if (&thr[i] != t && (thr[i].state == T_STALLED || runnable(&thr[i]))) live = true;
        if (!live) deadlock(t);                   // everybody else has finished or is blocked
        t->state = T_STALLED; t->stall_until = vnow() + 1 + (cfg.policy == POL_REPLAY ? 0 : srng.below(200ull << (k < 11 ? k++ : 11)));
        Thr *n = pick(t, false);
        hand_over(t, n);
    }
}
void sim_thread_dirty_stack(u64 seed) {
    const size_t N = 3u << 20; volatile u64 *p = (volatile u64 *) __builtin_alloca(N); Rng r(seed); int mode = (int) (seed % 4);
    u64 a = r.next(); double d = r.uni() * 100 - 50; u64 db; memcpy(&db, &d, 8);
    for (size_t i = 0; i < N / 8; i++) p[i] = mode == 0 ? ~0ull : mode == 1 ? a : mode == 2 ? db : (a * (i + 1));
}
void rt_init() {
    auto mm = [](uintptr_t a, size_t n) { void *p = mmap((void *) a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *) a) { perror("mmap"); exit(2); } };
    mm(ARENA, ARENA_SZ); mm(SNAP, ARENA_SZ); mm(SHARE, ARENA_SZ >> 3); mm(SHGLO, GLO_SZ >> 3); mm(STK, STK_SZ * (MAXT + 1));
    for (int i = 0; i <= MAXT; i++) mprotect((void *) (STK + i * STK_SZ), 65536, PROT_NONE);
    boot.id = MAXT; boot.own = 7; boot.slo = 0; boot.ssz = 0; boot.next_stop = ~0ull; boot.opid = -1; cur = &boot;
    rt_install_signals();
}
void input_drop(const void *p) {
    uintptr_t a = (uintptr_t) p;
    for (size_t i = 0; i < inranges.size(); i++) if (inranges[i].a == a) { for (uintptr_t g = a & ~7ull; g < a + inranges[i].n; g += 8) *shp(g) &= ~S_IN; inranges[i] = inranges.back(); inranges.pop_back(); return; }
}
