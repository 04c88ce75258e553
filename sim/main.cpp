// Runner: worker processes, simulated executions in forked children, gating, minimisation, replay.
#include "check.h"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <ctime>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <fstream>
#include <sstream>
#include <set>
#include <unordered_set>

Counters *CN = nullptr;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
template <class T> static T *shared(size_t n = 1) { void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return (T *) p; }

// ------------------------------------------------------------------ executing one spec in its own process
static std::string scratch;
static int pre_req[2], pre_rep[2]; static char *pre_text; static const size_t PRE_CAP = 16u << 20;
static void child_entry(const Spec &s) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    rlimit l{(rlim_t) s.cpu, (rlim_t) s.cpu + 10}; setrlimit(RLIMIT_CPU, &l); l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
    run_child(s);
}
static void pre_server() {          // a process in which the library has never been initialised
    prctl(PR_SET_PDEATHSIG, SIGKILL); close(pre_req[1]); close(pre_rep[0]);
    char c;
    while (read(pre_req[0], &c, 1) == 1) {
        Spec s; int st = 0;
        if (spec_parse(pre_text, s)) { pid_t p = fork(); if (p == 0) child_entry(s); waitpid(p, &st, 0); }
        if (write(pre_rep[1], &st, sizeof st) != sizeof st) break;
    }
    _exit(0);
}
Outcome run_spec(const Spec &s) {
    Outcome o; SH->done = SH->vkind = SH->failstop = SH->exit_code = 0; SH->vtext[0] = 0; SH->vtid = SH->vop = -1; SH->nlog = SH->log_overflow = 0; SH->nops = 0; memset(&SH->stats, 0, sizeof SH->stats); SH->alloc_hash = 0; memset(SH->extra, 0, sizeof SH->extra);
    int st = 0;
    if (s.preinit) {
        std::string t = spec_text(s, true); if (t.size() + 1 > PRE_CAP) { o.vkind = V_HARNESS; o.text = "spec too large"; return o; }
        memcpy(pre_text, t.c_str(), t.size() + 1); char c = 1; if (write(pre_req[1], &c, 1) != 1 || read(pre_rep[0], &st, sizeof st) != sizeof st) { o.vkind = V_HARNESS; o.text = "server lost"; return o; }
    } else { fflush(stdout); pid_t p = fork(); if (p == 0) child_entry(s); if (p < 0) { o.vkind = V_HARNESS; o.text = "fork failed"; return o; } waitpid(p, &st, 0); }
    o.done = SH->done; o.vkind = SH->vkind; o.failstop = SH->failstop; o.text = SH->vtext; o.vtid = SH->vtid; o.vop = SH->vop; o.vpc = SH->vpc;
    o.sched_hash = SH->stats.sched_hash; o.alloc_hash = SH->alloc_hash; o.steps = SH->stats.steps;
    if (!o.done && !o.vkind && !o.failstop) { o.vkind = V_CRASH; char b[100]; snprintf(b, sizeof b, "simulated process ended abnormally (status 0x%x)", st); o.text = b; if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.vkind = V_TIMEOUT; }
    if (o.vkind) o.done = 0;
    const RunStats &q = SH->stats; Counters &c = *CN;
    if (!s.onmain) { c.steps += q.steps; c.switches += q.switches; c.preempts += q.preempts; c.stalls += q.stalls; c.conflicts += q.conflicts; c.dirty_checks += q.dirty_checks; c.recycled += q.recycled; c.failed_allocs += q.failed_allocs; c.failed_runs += q.failed_allocs > 0; c.blocked += q.blocked; c.sync_ops += q.sync_ops; c.fairness += q.fairness; c.npairs += q.npairs; c.nsites += q.conflict_sites_new; }
    c.mallocs += q.mallocs; c.func_entries += q.func_entries; c.clock_skipped += q.clock_skipped; c.frozen += q.frozen; c.env_calls += q.env_calls; c.env_faults += q.env_faults; c.amb_runs += s.amb != 0; c.team_runs += s.omp > 0;
    return o;
}
static std::vector<SwitchRec> last_log() { return std::vector<SwitchRec>(SH->log, SH->log + SH->nlog); }

// ------------------------------------------------------------------ symbolised signature
static std::string exe_path;
std::string sym(u64 pc) {
    if (!pc || pc < 0x400000) return "?";
    char cmd[600]; snprintf(cmd, sizeof cmd, "addr2line -f -s -e %s 0x%llx 2>/dev/null", exe_path.c_str(), (unsigned long long) (pc - 1)); FILE *f = popen(cmd, "r"); if (!f) return "?";
    char a[200] = "", b[200] = ""; if (!fgets(a, sizeof a, f)) a[0] = 0; if (!fgets(b, sizeof b, f)) b[0] = 0; pclose(f);
    a[strcspn(a, "\n")] = 0; b[strcspn(b, "\n")] = 0; return std::string(a) + " " + b;
}
static std::string with_symbols(std::string t) {
    size_t p = 0; while ((p = t.find("pc=0x", p)) != std::string::npos) { u64 pc = strtoull(t.c_str() + p + 3, nullptr, 16); size_t e = t.find_first_not_of("0123456789abcdef", p + 5); std::string s = sym(pc); t.insert(e == std::string::npos ? t.size() : e, " (" + s + ")"); p += 5; }
    return t;
}

// ------------------------------------------------------------------ known findings
struct Known { std::string prop, kind, needle; };
static std::vector<Known> known;
static bool is_known(const std::string &prop, int kind, const std::string &text, std::string &which) {
    for (auto &k : known) if (k.prop == prop && k.kind == vkind_name[kind] && text.find(k.needle) != std::string::npos) { which = k.needle; return true; }
    return false;
}

// ------------------------------------------------------------------ minimisation
static int same_kind(int a, int b) { return a == b; }
static bool try_spec(WCtx &c, Spec s, int kind, int tries, Rng &r, double deadline, Spec &out, Verdict &vout) {
    bool one = !s.team();
    for (int k = 0; k < (one ? 1 : tries); k++) {
        if (now() > deadline) return false;
        Spec t = s; if (k) { t.sc.seed = r.next() >> 1; if (k % 3 == 2) { t.sc.policy = 1 + (int) r.below(POL_REPLAY - 1); if (t.sc.policy == POL_CONFLICT || t.sc.policy == POL_FUNC || t.sc.policy == POL_SYNC || t.sc.policy == POL_HOLD) t.sc.p = .02 + r.uni() * .6; if (t.sc.interval < 1) t.sc.interval = 1 + r.below(2000); } }
        Verdict v = judge(c, t); if (v.kind && same_kind(v.kind, kind)) { out = t; vout = v; return true; }
    }
    return false;
}
static Spec drop_item(const Spec &s, size_t t, size_t i) { Spec q = s; q.th[t].erase(q.th[t].begin() + i); if (t == 0 && (int) i < q.failitem) q.failitem--; return q; }
static Spec drop_thread(const Spec &s, size_t t) { Spec q = s; q.th.erase(q.th.begin() + t); return q; }
static Spec minimise(WCtx &c, Spec s, Verdict &v, double seconds) {
    double dl = now() + seconds; Rng r(s.sc.seed + 99); Spec out; Verdict vo; bool progress = true; int kind = v.kind;
    auto attempt = [&](const Spec &q, int tries) { if (q.nitems() == 0 || q.th.empty()) return false; if (try_spec(c, q, kind, tries, r, dl, out, vo)) { s = out; v = vo; return true; } return false; };
    while (progress && now() < dl) {
        progress = false;
        for (size_t t = 0; t < s.th.size() && s.th.size() > 1; t++) { bool owns = s.failk >= 0 && t == 0; if (!owns && attempt(drop_thread(s, t), 10)) { progress = true; t--; } }
        for (size_t t = 0; t < s.th.size(); t++) for (size_t ch = s.th[t].size() / 2; ch >= 2 && now() < dl; ch /= 2) for (size_t i = 0; i < s.th[t].size();) {
            Spec q = s; std::vector<Item> v; size_t n = 0; for (size_t k = 0; k < s.th[t].size(); k++) { bool in = k >= i && k < i + ch && s.th[t][k].t != I_BAR && !(s.failk >= 0 && t == 0 && (int) k == s.failitem); if (in) { n++; if (t == 0 && (int) k < s.failitem) q.failitem--; } else v.push_back(s.th[t][k]); }
            q.th[t] = v; if (n > 1 && attempt(q, 5)) progress = true; else i += ch; }
        for (size_t t = 0; t < s.th.size(); t++) for (size_t i = s.th[t].size(); i-- > 0;) { if (s.th[t][i].t == I_BAR) continue; if (s.failk >= 0 && t == 0 && (int) i == s.failitem) continue; if (attempt(drop_item(s, t, i), 8)) progress = true; }
        // barriers: dropped from every thread at once when nothing separates them
        size_t nb = 0; if (!s.th.empty()) for (auto &i : s.th[0]) nb += i.t == I_BAR;
        for (size_t b = nb; b-- > 0;) { Spec q = s; bool ok = true; for (auto &t : q.th) { size_t k = 0; bool f = false; for (size_t i = 0; i < t.size(); i++) if (t[i].t == I_BAR && k++ == b) { t.erase(t.begin() + i); f = true; break; } ok &= f; } if (ok && attempt(q, 6)) progress = true; }
    }
    auto simple = [&](std::function<void(Spec &)> f) { Spec q = s; f(q); if (spec_text(q, false) != spec_text(s, false)) attempt(q, 4); };
    simple([](Spec &q) { q.mc.fill = 0; q.mc.reuse = 0; q.mc.poison_free = false; });
    simple([](Spec &q) { q.mc.reuse = 0; }); simple([](Spec &q) { q.mc.poison_free = false; }); simple([](Spec &q) { q.dirty = 0; }); simple([](Spec &q) { q.layout = 0; if (q.watch & 2) q.watch = 0; }); simple([](Spec &q) { q.outfill = 0; }); simple([](Spec &q) { q.shord = 0; }); simple([](Spec &q) { q.sc.p_stall = 0; }); simple([](Spec &q) { q.omp = 0; });
    for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) if (s.th[t][i].op.flags) simple([&](Spec &q) { q.th[t][i].op.flags = 0; });
    for (size_t t = 0; t < s.th.size(); t++) for (size_t i = 0; i < s.th[t].size(); i++) { Item &it = s.th[t][i];
        if (it.t == I_GAREP || it.t == I_GESOP || it.t == I_GOC) while (it.x[2] > 1) { int o = it.x[2]; simple([&](Spec &q) { q.th[t][i].x[2] /= 2; }); if (s.th[t][i].x[2] == o) { simple([&](Spec &q) { q.th[t][i].x[2]--; }); if (s.th[t][i].x[2] == o) break; } }
        if (it.t == I_DRIVER) { for (int b = 0; b < 16; b++) if (s.th[t][i].x[1] >> b & 1) simple([&](Spec &q) { q.th[t][i].x[1] &= ~(1 << b); }); while (s.th[t][i].x[0] > 2) { int o = s.th[t][i].x[0]; simple([&](Spec &q) { q.th[t][i].x[0]--; }); if (s.th[t][i].x[0] == o) break; } } }
    return s;
}
// schedule -> explicit switch trace, then shrink the trace
static bool to_trace(WCtx &c, Spec &s, Verdict &v, double seconds) {
    if (!s.team() || s.rounds > 1) return true;
    double dl = now() + seconds; Verdict a = judge(c, s); if (!a.kind || !same_kind(a.kind, v.kind)) return false;
    if (SH->log_overflow) return true;                       // stays a seed-driven replay
    Spec q = s; q.sc.trace = last_log(); q.sc.policy = POL_REPLAY;
    Verdict b = judge(c, q); if (!b.kind || !same_kind(b.kind, v.kind)) return true;
    std::vector<SwitchRec> best = q.sc.trace; size_t chunk = best.size() / 2; if (!chunk) chunk = 1;
    while (now() < dl) {
        bool any = false;
        for (size_t i = 0; i < best.size() && now() < dl;) {
            Spec t = q; t.sc.trace = best; size_t e = std::min(best.size(), i + chunk); t.sc.trace.erase(t.sc.trace.begin() + i, t.sc.trace.begin() + e);
            Verdict w = judge(c, t); if (w.kind && same_kind(w.kind, v.kind)) { best = t.sc.trace; any = true; b = w; } else i += chunk;
        }
        if (chunk == 1 && !any) break; if (chunk > 1) chunk /= 2;
    }
    q.sc.trace = best; Verdict w = judge(c, q); if (w.kind && same_kind(w.kind, v.kind)) { s = q; v = w; }
    return true;
}

// ------------------------------------------------------------------ workers
struct WorkerSh { Counters c; u64 hashes[1 << 18]; u32 nhash; int found, error, soft, done; char spec[8 << 20]; char text[4096]; char samples[3][6000]; int nsamples; int knownhits[64]; };
struct Global { int stop; u64 next_world; };
static Global *GL; static WorkerSh *WS; static int NW; static bool print_hashes = false;
static bool worker_setup() {         // false: the library does not survive its own initialisation
    char sd[200]; snprintf(sd, sizeof sd, "%s/sim-driver.%d", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp", (int) getpid()); scratch = sd; driver_dir(scratch);
    SH = shared<Shared>(); pre_text = shared<char>(PRE_CAP);
    if (pipe(pre_req) || pipe(pre_rep)) exit(2);
    pid_t p = fork(); if (p == 0) pre_server();
    sim_enable_shadow(false); int st = 0; p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); rlimit l{0, 0}; setrlimit(RLIMIT_CORE, &l); l = {15, 20}; setrlimit(RLIMIT_CPU, &l); libgrpp_init(); _exit(0); } waitpid(p, &st, 0);
    if (st) return false; libgrpp_init(); sim_reset_counters(); return true;
}
static WCtx make_ctx(const std::string &prop, u64 seed, u64 widx) {
    WCtx c; Rng r(mix(mix(seed, widx), 77)); c.wseed = r.next() >> 20; double u = r.uni(); c.lmax = u < .17 ? 1 : u < .62 ? 2 : u < .82 ? 3 : u < .93 ? 4 : 6; if (prop == "C05" || prop == "C11" || prop == "C04") c.lmax = u < .45 ? 1 : u < .85 ? 2 : 4; double pv = r.uni(); c.lmax += 16 * (pv < .62 ? 2 : pv < .82 ? 3 : pv < .93 ? 4 : 6); c.widx = widx; if (r.chance(prop == "C04" || prop == "C05" || prop == "C14" ? .02 : .09)) c.lmax = 512 + 7 + (int) r.below(4) + 16 * (2 + (int) r.below(9)); if (contrast_world(prop, widx)) c.lmax = 256 + (r.chance(.5) ? 5 : 6) + 16 * (2 + (int) r.below(3)); c.w = make_world(c.wseed, c.lmax); return c;
}
static void worker(int id, const std::string &prop, u64 seed, double wall, u64 maxworlds, int rpw, bool thorough) {
    WorkerSh &W = WS[id]; CN = &W.c; double t0 = now(); bool verbose = getenv("SIM_VERBOSE");
    if (!worker_setup()) {
        if (!__sync_lock_test_and_set(&GL->stop, 1)) { WCtx c = make_ctx(prop, seed, 0); Spec s; s.prop = prop; s.wseed = c.wseed; s.lmax = c.lmax; s.preinit = true; s.th.resize(1); Item i; i.t = I_INIT; s.th[0].push_back(i); s.sc.est_steps = 6200000; s.sc.step_cap = 400000000; s.sc.fair = 9000000; Verdict v = judge(c, s);
            if (v.kind) { s.expect = vkind_name[v.kind]; std::string x = with_symbols(v.text); snprintf(W.text, sizeof W.text, "%s: %s", vkind_name[v.kind], x.c_str()); snprintf(W.spec, sizeof W.spec, "# simulated execution that violates %s; replay with: check.py --replay THIS\n# %s\n%s", prop.c_str(), W.text, spec_text(s, true).c_str()); W.found = 1; } }
        driver_cleanup(scratch); W.done = 1; _exit(0);
    }
    for (u64 wi = 0;; wi++) {
        u64 widx = (u64) id + wi * NW; if (widx >= maxworlds || now() - t0 > wall || GL->stop) break;
        WCtx c = make_ctx(prop, seed, widx); Rng pr(mix(mix(seed, widx), 5)); W.c.worlds++;
        c.refend = t0 + wall + 10; c.reflimit = thorough ? 12000000000ull : 3000000000ull;      // an expensive world must not eat the time of the others
        build_pool(c, prop, pr, thorough);
        // an evaluation that fails by itself is found here too
        for (int k = 0; k < rpw; k++) {
            if (now() - t0 > wall || GL->stop) break;
            Rng r(mix(mix(seed, widx * 1000 + k), 11)); Spec s; if (!gen_spec(c, prop, r, thorough, widx * rpw + k, s)) continue;
            double ta = now(); c.refwork = 0; Verdict v = judge(c, s);
            if (verbose) fprintf(stderr, "[%d] world %llu run %d threads %zu items %d pol %s preempts %llu steps %llu %.3fs %s %s\n", id, (unsigned long long) widx, k, s.th.size(), s.nitems(), policy_name[s.sc.policy], (unsigned long long) SH->stats.preempts, (unsigned long long) SH->stats.steps, now() - ta, vkind_name[v.kind], v.text.c_str());
            if (print_hashes) { char b[200]; int n = snprintf(b, sizeof b, "run %llu %d %llx %llx %llx %llu %s\n", (unsigned long long) widx, k, (unsigned long long) v.o.sched_hash, (unsigned long long) v.o.alloc_hash, (unsigned long long) v.o.result_hash, (unsigned long long) v.o.steps, vkind_name[v.kind]); if (write(1, b, n) != n) _exit(2); }
            if (!v.kind && v.info) {
                u64 items = 0; for (auto &t : s.th) for (auto &i : t) items += i.t != I_BAR; if (s.driver()) W.c.driver_files += SH->extra[60]; bool nontriv = s.team() ? SH->stats.preempts > 0 || SH->stats.blocked > 0 : s.failk >= 0 ? SH->stats.failed_allocs > 0 : items >= 2;
                W.c.threads_hist[std::min<size_t>(s.driver() ? (size_t) s.th[0][0].x[0] : s.th.size(), 7)]++; W.c.pol[s.team() ? s.sc.policy : 0]++; W.c.fills[s.mc.fill]++; W.c.dirty_stacks += s.dirty; W.c.poison += s.mc.poison_free; W.c.ops += items; W.c.rounds += s.rounds;
                u64 h = mix(v.o.sched_hash, mix(std::hash<std::string>()(spec_text(s, false)), s.team() ? 0 : 1)); if (s.team()) h = mix(v.o.sched_hash, s.th.size() * 131 + s.wseed); if (nontriv && W.nhash < (1 << 18)) W.hashes[W.nhash++] = h; W.c.nontrivial += nontriv;
                if (W.nsamples < 3 && nontriv && (k % 5 == 1)) { std::string t = spec_text(s, false); char b[200]; snprintf(b, sizeof b, "# preemptions %llu, switches %llu, steps %llu, stalls %llu, failed allocations %llu\n", (unsigned long long) SH->stats.preempts, (unsigned long long) SH->stats.switches, (unsigned long long) SH->stats.steps, (unsigned long long) SH->stats.stalls, (unsigned long long) SH->stats.failed_allocs); t += b; snprintf(W.samples[W.nsamples++], 6000, "%s", t.c_str()); }
                if ((wi * rpw + k) % 40 == 7) {          // determinism self-check: the same spec again must be the same execution
                    Verdict v2 = judge(c, s); W.c.selfcheck++;
                    if (v2.kind || v2.o.sched_hash != v.o.sched_hash || v2.o.alloc_hash != v.o.alloc_hash || v2.o.result_hash != v.o.result_hash || v2.o.steps != v.o.steps) { snprintf(W.text, sizeof W.text, "run is not repeatable: world %llu run %d (%s)", (unsigned long long) widx, k, v2.text.c_str()); snprintf(W.spec, sizeof W.spec, "%s", spec_text(s, true).c_str()); W.soft = 1; continue; }
                }
            }
            if (!v.kind) continue;
            // ---- a violation: gate, minimise
            std::string vt = with_symbols(v.text), which; if (is_known(prop, v.kind, vt, which)) { W.c.known++; for (size_t q = 0; q < known.size() && q < 64; q++) if (known[q].prop == prop && known[q].needle == which) W.knownhits[q]++; continue; }
            if (v.kind == V_HARNESS) { snprintf(W.text, sizeof W.text, "harness: %s", v.text.c_str()); snprintf(W.spec, sizeof W.spec, "%s", spec_text(s, true).c_str()); W.error = 1; GL->stop = 1; break; }
            if (__sync_lock_test_and_set(&GL->stop, 1)) break;           // somebody else already reports
            c.reflimit = 0; c.refend = 0;
            Verdict v1 = judge(c, s);
            if (v1.kind != v.kind || v1.o.sched_hash != v.o.sched_hash || v1.o.steps != v.o.steps) { snprintf(W.text, sizeof W.text, "violation does not repeat: first %s '%s' then %s '%s'", vkind_name[v.kind], v.text.c_str(), vkind_name[v1.kind], v1.text.c_str()); snprintf(W.spec, sizeof W.spec, "%s", spec_text(s, true).c_str()); W.soft = 1; GL->stop = 0; continue; }
            Spec m = minimise(c, s, v, 60); to_trace(c, m, v, 60);
            Verdict f1 = judge(c, m), f2 = judge(c, m);
            if (!f1.kind || f1.kind != f2.kind || f1.text != f2.text) { m = s; m.sc = s.sc; f1 = judge(c, m); }
            m.expect = std::string(vkind_name[f1.kind]);
            std::string txt = with_symbols(f1.text); snprintf(W.text, sizeof W.text, "%s: %s", vkind_name[f1.kind], txt.c_str());
            std::ostringstream o; o << "# simulated execution that violates " << prop << "; replay with: check.py --replay THIS\n# " << W.text << "\n# found with seed " << seed << ", world " << widx << ", run " << k << "\n"; o << world_text(c.w);
            for (size_t t = 0; t < m.th.size(); t++) for (auto &i : m.th[t]) o << "# T" << t << ": " << item_text(c.w, i) << "\n";
            o << spec_text(m, true); snprintf(W.spec, sizeof W.spec, "%s", o.str().c_str()); W.found = 1; break;
        }
        if (W.found || W.error) break;
    }
    driver_cleanup(scratch); W.done = 1; _exit(0);
}
static std::string jesc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t"; else if ((unsigned char) ch < 32) r += ' '; else r += ch; } return r; }

int main(int argc, char **argv) {
    std::string prop = "C01", out, replay_out, replay, dump; u64 seed = 1, maxworlds = 1000000; double wall = 20; int rpw = 16; bool thorough = false; NW = 8;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--worlds") maxworlds = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") rpw = atoi(nx().c_str()); else if (a == "--workers") NW = atoi(nx().c_str()); else if (a == "--thorough") thorough = true; else if (a == "--hashes") print_hashes = true; else if (a == "--out") out = nx(); else if (a == "--replay-out") replay_out = nx(); else if (a == "--replay") replay = nx();
        else if (a == "--known") { std::ifstream f(nx()); std::string l; while (std::getline(f, l)) { if (l.empty() || l[0] == '#' || l.compare(0, 6, "fixed:") == 0) continue; std::istringstream is(l); Known k; std::getline(is, k.prop, '|'); std::getline(is, k.kind, '|'); std::getline(is, k.needle, '|'); known.push_back(k); } }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; } }
    char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; exe_path = b; }
    if (!getenv("SIM_NOREEXEC")) { setenv("SIM_NOREEXEC", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }      // same addresses in every process
    rt_init(); SH = nullptr; shared_pairs = shared<u64>(1 << 14); shared_sites = shared<u8>(1 << 20);
    if (!replay.empty()) {
        CN = shared<Counters>(); std::ifstream f(replay); std::stringstream ss; ss << f.rdbuf(); Spec s; if (!spec_parse(ss.str(), s)) { fprintf(stderr, "bad replay file\n"); return 2; }
        worker_setup(); WCtx c; c.wseed = s.wseed; c.lmax = s.lmax; c.w = make_world(s.wseed, s.lmax); Verdict v = judge(c, s);
        printf("%s %s\n", vkind_name[v.kind], with_symbols(v.text).c_str()); printf("hash %llx steps %llu\n", (unsigned long long) v.o.sched_hash, (unsigned long long) v.o.steps);
        driver_cleanup(scratch); return v.kind ? 1 : 0;
    }
    if (getenv("SIM_COST")) {
        CN = shared<Counters>(); worker_setup(); int lm = atoi(getenv("SIM_COST"));
        for (u64 wi = 0; wi < 40; wi++) { WCtx c; c.wseed = wi + 1000 * seed; c.lmax = lm; c.w = make_world(c.wseed, lm); Rng r(wi); for (int k = 0; k < K_NORM; k++) { Op o = gen_op(r, c.w, k, 1e30); double t = now(); u64 st = ref_steps(c, o); t = now() - t; auto &A = c.w.sh[o.a], &B = c.w.sh[o.b]; auto &P = c.w.pot[o.p % c.w.npot]; printf("%s %d %d %d %d %d %d %d %llu %.3f\n", kind_name[k], A.L, B.L, A.np, B.np, P.L, P.np, o.m, (unsigned long long) st, t); fflush(stdout); } }
        return 0;
    }
    GL = shared<Global>(); WS = shared<WorkerSh>(NW); double t0 = now(); std::vector<pid_t> pids;
    for (int i = 0; i < NW; i++) { pid_t p = fork(); if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(i, prop, seed, wall, maxworlds, rpw, thorough); } pids.push_back(p); }
    int bad = 0; for (auto p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
    double el = now() - t0;
    Counters T; memset(&T, 0, sizeof T); std::unordered_set<u64> hs; std::string samples; int found = -1, err = -1;
    for (int i = 0; i < NW; i++) { const u64 *a = (const u64 *) &WS[i].c; u64 *d = (u64 *) &T; for (size_t k = 0; k < sizeof(Counters) / 8; k++) d[k] += a[k]; for (u32 k = 0; k < WS[i].nhash; k++) hs.insert(WS[i].hashes[k]); if (WS[i].found) found = i; if (WS[i].error) err = i; }
    for (int i = 0; i < NW; i++) if (WS[i].soft && err < 0 && found < 0) err = i;
    std::vector<std::string> sm; for (int k = 0; k < 3; k++) for (int i = 0; i < NW && sm.size() < 3; i++) if (k < WS[i].nsamples) sm.push_back(WS[i].samples[k]);
    std::ostringstream j; j << "{\"property\":\"" << prop << "\",\"seed\":" << seed << ",\"wall\":" << el << ",\"workers\":" << NW;
#define J(f) j << ",\"" #f "\":" << T.f
    J(runs); J(refs); J(nontrivial); J(steps); J(switches); J(preempts); J(stalls); J(conflicts); J(dirty_checks); J(mallocs); J(recycled); J(failed_allocs); J(failed_runs); J(blocked); J(failstops); J(sync_ops); J(fairness); J(npairs); J(nsites); J(irrelevant); J(invalid); J(ops); J(rounds); J(dirty_stacks); J(poison); J(unchecked); J(selfcheck); J(known); J(worlds); J(func_entries); J(clock_skipped); J(driver_files); J(frozen); J(env_calls); J(env_faults); J(amb_runs); J(team_runs);
    j << ",\"distinct\":" << hs.size();
    j << ",\"kinds\":{"; bool first = true; for (int k = 0; k < K_NKINDS; k++) if (T.kind_done[k]) { j << (first ? "" : ",") << "\"" << kind_name[k] << "\":" << T.kind_done[k]; first = false; } j << "}";
    j << ",\"items\":{"; first = true; for (int k = 0; k < I_NT; k++) if (T.itype_done[k]) { j << (first ? "" : ",") << "\"" << itype_name[k] << "\":" << T.itype_done[k]; first = false; } j << "}";
    j << ",\"policies\":{"; first = true; for (int k = 0; k < POL_N; k++) if (T.pol[k]) { j << (first ? "" : ",") << "\"" << policy_name[k] << "\":" << T.pol[k]; first = false; } j << "}";
    j << ",\"threads\":["; for (int k = 0; k < 8; k++) j << (k ? "," : "") << T.threads_hist[k]; j << "],\"lsum\":["; for (int k = 0; k < 10; k++) j << (k ? "," : "") << T.lsum[k]; j << "],\"nuclear_models\":["; for (int k = 0; k < 6; k++) j << (k ? "," : "") << T.model[k]; j << "],\"fills\":["; for (int k = 0; k < 6; k++) j << (k ? "," : "") << T.fills[k]; j << "]";
    j << ",\"knownhits\":["; for (size_t q = 0; q < known.size() && q < 64; q++) { int s = 0; for (int i = 0; i < NW; i++) s += WS[i].knownhits[q]; j << (q ? "," : "") << s; } j << "]";
    j << ",\"samples\":["; for (size_t i = 0; i < sm.size(); i++) j << (i ? "," : "") << "\"" << jesc(sm[i]) << "\""; j << "]";
    j << ",\"found\":" << (found >= 0) << ",\"error\":" << (err >= 0 || bad > 0) << ",\"bad_workers\":" << bad;
    if (found >= 0) { j << ",\"text\":\"" << jesc(WS[found].text) << "\""; if (!replay_out.empty()) { std::ofstream f(replay_out); f << WS[found].spec; } }
    else if (err >= 0) { j << ",\"text\":\"" << jesc(WS[err].text) << "\""; if (!replay_out.empty()) { std::ofstream f(replay_out + ".error"); f << WS[err].spec; } }
    j << "}\n";
    if (out.empty()) fputs(j.str().c_str(), stdout); else { std::ofstream f(out); f << j.str(); }
    return found >= 0 ? 1 : err >= 0 || bad ? 2 : 0;
}
