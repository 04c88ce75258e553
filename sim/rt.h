// Deterministic simulator runtime: scheduler, memory-access seam, allocator seam, sync seam.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <map>
#include <set>

typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;

struct Rng {                       // splitmix64 / xorshift-multiply; one per stream
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int) below((u64) (b - a + 1)); }
    double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return uni() < p; }
};
u64 mix(u64 a, u64 b);

enum { MAXT = 17 };                // simulated threads

enum Policy { POL_SERIAL = 0, POL_RANDOM, POL_PCT, POL_CONFLICT, POL_FUNC, POL_ROUNDROBIN, POL_SYNC, POL_HOLD, POL_REPLAY, POL_N };
extern const char *policy_name[];

struct SwitchRec { int tid; u64 step; int to; };     // thread `tid` at its own step `step` hands over to `to`

struct SchedCfg {
    int policy = POL_SERIAL;
    u64 seed = 1;
    double interval = 1000;        // mean interval of random preemption (steps)
    double p = 0.1;                // probability used by directed policies
    double p_stall = 0.0;          // probability that a preempted thread is stalled
    u64 stall_len = 20000;         // global steps
    int pct_d = 3;                 // number of PCT change points
    u64 est_steps = 100000;        // estimate of total steps
    int max_preempt = 2000;        // preemption budget
    u64 step_cap = 200000000ull;   // whole run
    u64 fair = 3000000;            // longest uninterrupted slice while others are runnable
    bool use_sites = false;
    int burst = 0; double gap = 0; // random policy: after every `burst` preemptions wait about `gap` steps
    int freeze_tid = -1; u64 freeze_step = ~0ull, freeze_event = 0, freeze_delta = 0;      // delay this thread, there, until all others have finished
    std::vector<SwitchRec> trace;  // POL_REPLAY
};

struct MemCfg {
    u64 seed = 1;
    int fill = 0;                  // 0 zero, 1 0xFF (NaN), 2 random bytes, 3 large doubles, 4 stale/recycled contents, 5 small ints
    double reuse = 0.0;            // probability that a freed block of the right size is recycled at once
    bool poison_free = false;      // overwrite freed blocks
};

enum VKind { V_NONE = 0, V_MISMATCH, V_CRASH, V_DEADLOCK, V_LIVELOCK, V_INPUT, V_MEMERR, V_GUARD, V_LEAK, V_MODEL, V_EXIT, V_TIMEOUT, V_HARNESS, V_REFCRASH, V_FP };
extern const char *vkind_name[];

// ---- memory seam
void *arena_alloc(size_t n, bool zero);           // simulated heap (library side and caller objects)
void arena_free(void *p);
void arena_reset_cfg(const MemCfg &c);
u64 arena_live_blocks(); u64 arena_live_bytes();
u64 arena_event_hash();
void arena_fail_at(i64 idx, bool all_later);      // idx-th next allocation fails (0-based); -1 disables
u64 arena_alloc_count(); u64 arena_failed_count();
bool arena_check_all(std::string &why);           // redzones of all live blocks
bool arena_contains(const void *p);
bool arena_block_of(const void *p, std::string &desc);
void set_alloc_tag(int tag);
void input_register(const void *p, size_t n);     // snapshot + watch
void input_unregister_all();
void input_rebase(const void *p, size_t n);
bool input_check_all(std::string &why);
void guard_poison(const void *p, size_t n);       // make simulated memory unaddressable for the library
void guard_clear(const void *p, size_t n);
u64 heap_bytes_peak();

// ---- scheduler
struct RunStats {
    u64 steps, switches, preempts, stalls, conflicts, blocked, fairness, sync_ops, pair_hash, sched_hash, mallocs, recycled, failed_allocs, dirty_checks, func_entries, clock_skipped, events, frozen, env_calls, env_faults;
    u64 conflict_sites_new;
    u32 npairs;
};
struct AllocSite { u64 pc; u32 first, last, mid, count; };
void lock_sites_reset(); u32 lock_sites(AllocSite *out);
void arena_sites_reset(); u32 arena_sites(AllocSite *out);
extern RunStats stats;
extern std::vector<SwitchRec> sched_log;
bool sim_run(std::vector<std::function<void()>> bodies, const SchedCfg &cfg);   // false: stopped on violation
void sim_enable_shadow(bool on);
int sim_tid();
u64 sim_now();                                   // global step counter = simulated time
void sim_yield_point();                          // harness-level yield
void sim_op_begin(int opid); void sim_op_end();
void sim_wait_until(std::function<bool()> cond); // harness-level blocking wait
void sim_poll_until(const std::function<bool()> &cond);   // the same, by calling library code again and again
void team_setup(int n); void team_member(int num);            // the simulated threads are members of one OpenMP team of the caller
void env_setup(u64 seed); void env_begin(u64 k); void env_end();
void sim_barrier_reset();
[[noreturn]] void violation(int kind, const std::string &text);
extern bool fail_expected_exit;                  // abnormal termination is acceptable in this run
void rt_init();
void sim_reset_counters();
void rt_install_signals();
extern "C" void sim_thread_dirty_stack(u64 seed);
u64 cur_steps();
extern u64 *shared_pairs;                        // bitmap, shared with parent: (preempted pc, resumed pc) pairs
extern u8 *shared_sites;                         // shared with parent: pcs seen in conflicts
std::string sym(u64 pc);
void set_probe_region(const void *lo, size_t n);
