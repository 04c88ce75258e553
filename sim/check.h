// Expected results, workload generators, judgement, minimisation.
#pragma once
#include "spec.h"
struct Outcome { int done = 0, vkind = 0, failstop = 0, vtid = -1, vop = -1; u64 vpc = 0, sched_hash = 0, alloc_hash = 0, steps = 0; std::string text; u64 result_hash = 0; };
struct RefVal { int vkind = 0; std::string text; std::vector<double> v; u64 steps = 0, allocs = 0, events = 0; std::vector<AllocSite> sites, locks; };
struct Exp { int mode = 0; std::string key; Spec ref; double cval = 0; int ordA = 0, ordB = 0; double tol = 0; };   // mode 0 unchecked, 1 bitwise, 2 within tolerance, 3 constant
struct Deriv { bool valid = true; std::string why; std::vector<Exp> e; };
struct WCtx { u64 wseed = 0; int lmax = 2; WorldSpec w; std::vector<Op> pool; std::map<std::string, RefVal> refs; u64 widx = 0; u64 refwork = 0, reflimit = 0; double refend = 0; };      // reflimit: simulated steps that new references may take (0: any number)
Deriv derive(const Spec &s, const WorldSpec &w);
Outcome run_spec(const Spec &s);                       // one simulated execution in its own process
const RefVal &get_ref(WCtx &c, const Exp &e);
// runs the spec and judges it; returns violation kind (0 = property held)
struct Verdict { int kind = 0; int item = -1; std::string text; Outcome o; bool info = true; };
Verdict judge(WCtx &c, const Spec &s);
bool relevant(const std::string &prop, int vkind);
Op ref_op(Op o);
bool contrast_world(const std::string &prop, u64 widx);
void build_pool(WCtx &c, const std::string &prop, Rng &r, bool thorough);
bool gen_spec(WCtx &c, const std::string &prop, Rng &r, bool thorough, u64 runidx, Spec &s);
u64 ref_steps(WCtx &c, const Op &o);
std::string item_text(const WorldSpec &w, const Item &it);
struct Counters {
    u64 runs, refs, nontrivial, steps, switches, preempts, stalls, conflicts, dirty_checks, mallocs, recycled, failed_allocs, blocked, failstops, sync_ops, fairness, npairs, nsites, func_entries, clock_skipped;
    u64 irrelevant, invalid, ops, threads_hist[8], pol[POL_N], kind_done[K_NKINDS], itype_done[I_NT], fills[6], rounds, dirty_stacks, poison, failed_runs, unchecked, selfcheck, lsum[16], known, model[6], worlds, driver_files, frozen, env_calls, env_faults, amb_runs, team_runs;
};
extern Counters *CN;
