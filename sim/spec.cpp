#include <cmath>
#include "spec.h"
#include <sstream>
#include <cstdio>
#include <unistd.h>
const char *itype_name[] = {"op", "init", "finalize", "is_initialized", "wait_initialized", "barrier", "set_order", "set_tolerance", "set_defaults", "recreate_shell",
    "grpp_new", "grpp_set_local", "grpp_add_averaged", "grpp_add_spin_orbit", "grpp_add_outercore", "grpp_delete", "grpp_eval", "grpp_gradient", "object_cycle", "fortran_init", "fortran_finalize", "sum_of_terms", "c_driver",
    "shell_new", "shell_copy", "shell_modify", "shell_delete", "potential_new", "potential_copy", "potential_delete", "eval_slots"};

std::string spec_text(const Spec &s, bool trace) {
    std::ostringstream o; o.precision(17);
    o << "property " << s.prop << "\nworld " << s.wseed << " " << s.lmax << " " << s.shord << "\n";
    o << "run " << s.preinit << " " << s.rounds << " " << s.outfill << " " << s.layout << " " << s.dirty << " " << s.watch << " " << s.failk << " " << s.failmode << " " << s.omp << " " << s.onmain << " " << s.failitem << " " << s.amb << "\n";
    o << "memory " << s.mc.seed << " " << s.mc.fill << " " << s.mc.reuse << " " << s.mc.poison_free << "\n";
    const SchedCfg &c = s.sc;
    o << "sched " << policy_name[c.policy] << " " << c.seed << " " << c.interval << " " << c.p << " " << c.p_stall << " " << c.stall_len << " " << c.pct_d << " " << c.est_steps << " " << c.max_preempt << " " << c.step_cap << " " << c.fair << " " << c.use_sites << " " << c.burst << " " << c.gap << " " << c.freeze_tid << " " << c.freeze_step << " " << c.freeze_event << " " << c.freeze_delta << "\n";
    for (size_t t = 0; t < s.th.size(); t++) { o << "thread " << t << "\n"; for (auto &i : s.th[t]) { o << "  " << itype_name[i.t] << " " << i.x[0] << " " << i.x[1] << " " << i.x[2] << " " << i.x[3] << " | " << op_text(i.op); if (i.t == I_GREF) for (auto &v : i.tl) { o << " " << v.size(); for (int k : v) o << " " << k; } o << "\n"; } }
    if (trace) for (auto &r : c.trace) o << "switch " << r.tid << " " << r.step << " " << r.to << "\n";
    if (!s.expect.empty()) o << "expect " << s.expect << "\n";
    o << "end\n";
    return o.str();
}
bool spec_parse(const std::string &text, Spec &s) {
    std::istringstream is(text); std::string l; int cur_t = -1; s = Spec();
    while (std::getline(is, l)) {
        if (l.empty() || l[0] == '#') continue;
        std::istringstream ls(l); std::string k; ls >> k;
        if (k == "property") ls >> s.prop;
        else if (k == "world") ls >> s.wseed >> s.lmax >> s.shord;
        else if (k == "run") ls >> s.preinit >> s.rounds >> s.outfill >> s.layout >> s.dirty >> s.watch >> s.failk >> s.failmode >> s.omp >> s.onmain >> s.failitem >> s.amb;
        else if (k == "memory") ls >> s.mc.seed >> s.mc.fill >> s.mc.reuse >> s.mc.poison_free;
        else if (k == "sched") { std::string p; SchedCfg &c = s.sc; ls >> p >> c.seed >> c.interval >> c.p >> c.p_stall >> c.stall_len >> c.pct_d >> c.est_steps >> c.max_preempt >> c.step_cap >> c.fair >> c.use_sites >> c.burst >> c.gap >> c.freeze_tid >> c.freeze_step >> c.freeze_event >> c.freeze_delta; for (int i = 0; i < POL_N; i++) if (p == policy_name[i]) c.policy = i; }
        else if (k == "thread") { ls >> cur_t; s.th.resize(cur_t + 1); }
        else if (k == "switch") { SwitchRec r; ls >> r.tid >> r.step >> r.to; s.sc.trace.push_back(r); }
        else if (k == "expect") { std::getline(ls, s.expect); while (!s.expect.empty() && s.expect[0] == ' ') s.expect.erase(0, 1); }
        else if (k == "end") return true;
        else if (cur_t >= 0) {
            Item it; bool ok = false; for (int i = 0; i < I_NT; i++) if (k == itype_name[i]) { it.t = i; ok = true; }
            if (!ok) return false;
            ls >> it.x[0] >> it.x[1] >> it.x[2] >> it.x[3]; std::string bar; ls >> bar; std::string rest; std::getline(ls, rest); op_parse(rest, it.op); if (it.t == I_GREF) { std::istringstream rs(rest); std::string w; for (int q = 0; q < 8; q++) rs >> w; for (auto &v : it.tl) { size_t n = 0; rs >> n; v.resize(n > 1000 ? 0 : n); for (int &k : v) rs >> k; } }
            s.th[cur_t].push_back(it);
        } else return false;
    }
    return true;
}
int item_values(const WorldSpec &w, const Item &it, int &narr, int &len) {
    narr = len = 0;
    switch (it.t) {
        case I_OP: case I_SEVAL: op_shape(w, it.op, narr, len); break;
        case I_ISINIT: narr = 1; len = 1; break;
        case I_GEVAL: { Op o = it.op; o.kind = K_FULL; op_shape(w, o, narr, len); break; }
        case I_GREF: { Op o = it.op; o.kind = it.op.m & 1 ? K_FULLG : K_FULL; op_shape(w, o, narr, len); break; }
        case I_GGRAD: { Op o = it.op; o.kind = K_FULLG; op_shape(w, o, narr, len); break; }
    }
    return narr * len;
}
std::vector<int> added_terms(const Item &it, int n) { std::vector<int> r; int c = it.x[2] < 1 ? 1 : it.x[2]; for (int k = 0; k < c; k++) r.push_back((it.x[1] + k * it.x[3]) % n); return r; }
static const double TOLS[4] = {1e-16, 1e-12, 1e-9, 1e-6};
extern "C" { void libgrpp_init_(); void libgrpp_finalize_(); void libgrpp_set_cartesian_order_(const int32_t *); void libgrpp_set_radial_tolerance_(const double *); void libgrpp_set_angular_screening_tolerance_(const double *); void libgrpp_set_modified_bessel_tolerance_(const double *); void libgrpp_set_default_parameters_(); }
void cart_list_for(int order, int L, int *l) {
    int n = 0;
    if (order == 3) { for (int z = L; z >= 0; z--) for (int x = L - z; x >= 0; x--) { l[n++] = x; l[n++] = L - z - x; l[n++] = z; } return; }
    for (int x = L; x >= 0; x--) for (int y = L - x; y >= 0; y--) { l[n++] = x; l[n++] = y; l[n++] = L - x - y; }
    if (order == 2) for (int i = 0, j = n / 3 - 1; i < j; i++, j--) for (int k = 0; k < 3; k++) std::swap(l[3 * i + k], l[3 * j + k]);
}
static int gen_reversed(int L, int *l) { cart_list_for(2, L, l); return (L + 1) * (L + 2) / 2; }
static int gen_cyclic(int L, int *l) { cart_list_for(3, L, l); return (L + 1) * (L + 2) / 2; }
void do_setting(const Item &it) {
    int32_t ord; double t;
    switch (it.t) {
        case I_ORDER: if (it.x[0] >= 2) { libgrpp_set_cartesian_generator(it.x[0] == 2 ? gen_reversed : gen_cyclic); break; } ord = it.x[0] ? LIBGRPP_CART_ORDER_TURBOMOLE : LIBGRPP_CART_ORDER_DIRAC; if (it.x[1]) libgrpp_set_cartesian_order_(&ord); else libgrpp_set_cartesian_order(ord); break;
        case I_TOL: t = TOLS[it.x[1] & 3];
            if (it.x[2]) { if (it.x[0] == 0) libgrpp_set_radial_tolerance_(&t); else if (it.x[0] == 1) libgrpp_set_angular_screening_tolerance_(&t); else libgrpp_set_modified_bessel_tolerance_(&t); }
            else { if (it.x[0] == 0) libgrpp_set_radial_tolerance(t); else if (it.x[0] == 1) libgrpp_set_angular_screening_tolerance(t); else libgrpp_set_modified_bessel_tolerance(t); } break;
        case I_DEFAULTS: if (it.x[0]) libgrpp_set_default_parameters_(); else libgrpp_set_default_parameters(); break;
    }
}
void set_order(int q) { Item o; o.t = I_ORDER; o.x[0] = q; do_setting(o); }
struct OutBuf { std::vector<double *> arr; int len = 0; std::vector<double> snap; bool done = false; };
static void fill_out(double *p, int n, int mode, u64 seed) {
    Rng r(seed); u64 nan = 0x7FF8DEADBEEF0000ull;
    for (int i = 0; i < n; i++) switch (mode) { case 0: p[i] = 0; break; case 1: memcpy(&p[i], &nan, 8); break; case 2: p[i] = 1e300; break; default: p[i] = (r.uni() - .5) * 100; }
}
static double prefill_val(int mode, u64 seed, int i) { Rng r(seed); double v = 0; u64 nan = 0x7FF8DEADBEEF0000ull; if (mode == 0) return 0; if (mode == 1) { memcpy(&v, &nan, 8); return v; } if (mode == 2) return 1e300; for (int k = 0; k <= i; k++) v = (r.uni() - .5) * 100; return v; }

void input_drop(const void *p);
// many objects alive at the same time; each must keep what its creator asked for until it is deleted
static bool same_bits(double a, double b) { return a == b || (a != a && b != b); }
static void crowd(const WorldSpec &w, int seed, int n, int mode) {
    Rng r(mix(w.seed, seed)); std::vector<int> spec(n), ord(n); std::vector<void *> o(n); bool pot = mode & 1, copies = mode & 2; int m = pot ? w.npot : w.nsh; std::vector<void *> first(m, nullptr);
    auto mk = [&](int k) { return pot ? (void *) mk_pot(w.pot[k]) : (void *) mk_shell(w, w.sh[k]); };
    auto same = [&](int i, const char *when) { void *a = o[i], *b = first[spec[i]]; bool ok;
        if (pot) { auto x = (libgrpp_potential_t *) a, y = (libgrpp_potential_t *) b; size_t q = x->num_primitives; ok = x->L == y->L && x->J == y->J && x->num_primitives == y->num_primitives && !memcmp(x->powers, y->powers, 4 * q) && !memcmp(x->coeffs, y->coeffs, 8 * q) && !memcmp(x->alpha, y->alpha, 8 * q); }
        else { auto x = (libgrpp_shell_t *) a, y = (libgrpp_shell_t *) b; size_t q = x->num_primitives; ok = x->L == y->L && x->cart_size == y->cart_size && x->num_primitives == y->num_primitives && !memcmp(x->origin, y->origin, 24) && !memcmp(x->cart_list, y->cart_list, 12 * x->cart_size) && !memcmp(x->coeffs, y->coeffs, 8 * q) && !memcmp(x->alpha, y->alpha, 8 * q); }
        if (!ok) { char b[200]; snprintf(b, sizeof b, "object %d of %d alive at the same time differs from the first one made in the same way (%s)", i, n, when); violation(V_MISMATCH, b); } };
    // what the creating call was given must be what the object holds
    auto held = [&](int k, void *a) { bool ok;
        if (pot) { auto &p = w.pot[k]; auto x = (libgrpp_potential_t *) a; ok = x->L == p.L && x->J == p.J; int j = 0; for (int i = 0; ok && i < p.np; i++) if (fabs(p.co[i]) > 1e-14) { while (j < x->num_primitives && fabs(x->coeffs[j]) <= 1e-14) j++; ok = j < x->num_primitives && same_bits(x->coeffs[j], p.co[i]) && same_bits(x->alpha[j], p.al[i]) && x->powers[j] == p.pw[i]; j++; } while (ok && j < x->num_primitives) ok = fabs(x->coeffs[j++]) <= 1e-14; }
        else { auto &p = w.sh[k]; auto x = (libgrpp_shell_t *) a; ok = x->L == p.L && x->cart_size == (p.L + 1) * (p.L + 2) / 2; for (int q = 0; q < 3; q++) { volatile double t = w.cen[p.ctr][q] + p.dx[q]; ok = ok && same_bits(x->origin[q], t); }
            int j = 0; for (int i = 0; ok && i < p.np; i++) if (fabs(p.co[i]) > 1e-9) { while (j < x->num_primitives && !same_bits(x->alpha[j], p.al[i])) j++; ok = j < x->num_primitives && (w.norm ? x->coeffs[j] != 0 : same_bits(x->coeffs[j], p.co[i])); j++; } }
        if (!ok) { char b[200]; snprintf(b, sizeof b, "a new %s does not hold what it was given (spec %d, %d objects alive)", pot ? "potential" : "shell", k, n); violation(V_MISMATCH, b); } };
    for (int i = 0; i < n; i++) { spec[i] = (int) r.below(m); bool f = !first[spec[i]]; o[i] = f || !copies || r.chance(.3) ? mk(spec[i]) : pot ? (void *) libgrpp_shrink_potential((libgrpp_potential_t *) first[spec[i]]) : (void *) libgrpp_shell_deep_copy((libgrpp_shell_t *) first[spec[i]]); if (f) held(spec[i], first[spec[i]] = o[i]); else if (o[i] == first[spec[i]]) violation(V_MISMATCH, "two objects are the same object"); }
    std::vector<int> del(n); for (int i = 0; i < n; i++) del[i] = mode & 4 ? n - 1 - i : i; if (mode & 8) for (int i = n - 1; i > 0; i--) std::swap(del[i], del[r.below(i + 1)]);
    auto del1 = [&](int i) { if (pot) libgrpp_delete_potential((libgrpp_potential_t *) o[i]); else libgrpp_delete_shell((libgrpp_shell_t *) o[i]); };
    if (mode & 16) for (int q = 0; q < 2 * n && q < 400; q++) { int i = (int) r.below(n), k = (int) r.below(m); if (o[i] == first[spec[i]] || !first[k]) continue; del1(i); spec[i] = k; o[i] = copies && r.chance(.4) ? pot ? (void *) libgrpp_shrink_potential((libgrpp_potential_t *) first[k]) : (void *) libgrpp_shell_deep_copy((libgrpp_shell_t *) first[k]) : mk(k); held(k, o[i]); }      // deleted ones make room for others
    for (int i = 0; i < n; i++) same(i, "before any was deleted");
    for (int k = 0; k < n; k++) { int i = del[k]; if (o[i] == first[spec[i]]) continue; same(i, "while others were deleted"); if (pot) libgrpp_delete_potential((libgrpp_potential_t *) o[i]); else libgrpp_delete_shell((libgrpp_shell_t *) o[i]); }
    for (void *p : first) if (p) { if (pot) libgrpp_delete_potential((libgrpp_potential_t *) p); else libgrpp_delete_shell((libgrpp_shell_t *) p); }
}
// reference for an operator: its terms evaluated one by one and added up here 
static void sum_of_terms(World &W, const Item &it, std::vector<double *> &out) {
    const WorldSpec &w = W.s; bool g = it.op.m & 1; int na, len; { Op o = it.op; o.kind = g ? K_FULLG : K_FULL; op_shape(w, o, na, len); }
    libgrpp_shell_t *A = W.sh[it.op.a], *B = W.sh[it.op.b]; double *C = W.cen[it.op.c], *D = W.cen[it.op.d];
    for (auto p : out) for (int i = 0; i < len; i++) p[i] = 0;
    std::vector<double *> t(12); for (auto &p : t) p = (double *) arena_alloc(8 * len, true);
    double **tg = (double **) arena_alloc(96, false); for (int i = 0; i < 12; i++) tg[i] = t[i];
    auto add = [&](int from, int n, int to, double f) { for (int k = 0; k < n; k++) for (int i = 0; i < len; i++) out[to + k][i] += f * t[from + k][i]; };
    for (int l : it.tl[0]) { libgrpp_potential_t *p = mk_pot(w.pot[l % w.npot]); if (g) { libgrpp_type1_integrals_gradient(A, B, C, p, D, tg); add(0, 3, 0, 1); } else { libgrpp_type1_integrals(A, B, C, p, t[0]); add(0, 1, 0, 1); } libgrpp_delete_potential(p); }
    for (int l : it.tl[1]) { libgrpp_potential_t *p = mk_pot(w.pot[l % w.npot]); if (g) { libgrpp_type2_integrals_gradient(A, B, C, p, D, tg); add(0, 3, 0, 1); } else { libgrpp_type2_integrals(A, B, C, p, t[0]); add(0, 1, 0, 1); } libgrpp_delete_potential(p); }
    for (int l : it.tl[2]) { libgrpp_potential_t *p = mk_pot(w.pot[l % w.npot]); double f = 2.0 / (2 * p->L + 1); if (g) { libgrpp_spin_orbit_integrals_gradient(A, B, C, p, D, tg, tg + 3, tg + 6); add(0, 9, 3, f); } else { libgrpp_spin_orbit_integrals(A, B, C, p, t[0], t[1], t[2]); add(0, 3, 1, f); } libgrpp_delete_potential(p); }
    std::vector<int> oc = it.tl[3];
    if (!oc.empty()) {
        std::vector<libgrpp_potential_t *> P; std::vector<libgrpp_shell_t *> S;
        libgrpp_potential_t **pp = (libgrpp_potential_t **) arena_alloc(8 * oc.size(), false); libgrpp_shell_t **ss = (libgrpp_shell_t **) arena_alloc(8 * oc.size(), false);
        for (size_t i = 0; i < oc.size(); i++) { pp[i] = mk_pot(w.ocp[oc[i] % w.noc]); ss[i] = mk_shell(w, w.ocs[oc[i] % w.noc]); }
        if (g) { libgrpp_outercore_potential_integrals_gradient(A, B, C, (int) oc.size(), pp, ss, D, tg, tg + 3, tg + 6, tg + 9); add(0, 12, 0, 1); }
        else { libgrpp_outercore_potential_integrals(A, B, C, (int) oc.size(), pp, ss, t[0], t[1], t[2], t[3]); add(0, 4, 0, 1); }
        for (size_t i = 0; i < oc.size(); i++) { libgrpp_delete_potential(pp[i]); libgrpp_delete_shell(ss[i]); }
        arena_free(pp); arena_free(ss);
    }
    arena_free(tg); for (auto p : t) arena_free(p);
}
struct Slot { libgrpp_grpp_t *g = nullptr; };
void run_child(const Spec &s) {
    arena_reset_cfg(s.mc);
    if (s.driver()) driver_prepare(mix(s.wseed, s.th[0][0].x[2]), s.lmax);
    sim_enable_shadow(true);
    set_alloc_tag(1);
    World W; W.s = make_world(s.wseed, s.lmax);
    int nit = s.nitems();
    std::vector<OutBuf> ob(nit);
    SH->nops = nit;
    for (int i = 0; i < nit && i < SH_MAXOPS; i++) SH->op[i] = OpRes{};
    std::vector<int> base; { int k = 0; for (auto &t : s.th) { base.push_back(k); k += (int) t.size(); } }
    SchedCfg serial; serial.seed = 1;
    double *big = nullptr; size_t bign = 0;
    bool need_ops = true;
    auto RUN = [&](std::vector<std::function<void()>> b, const SchedCfg &c) { if (s.onmain) for (auto &f : b) f(); else sim_run(b, c); };
    RUN({[&]() {
        Op last = s.th[0].back().op; if (s.th[0].back().t == I_GREF) last.kind = K_T1; W.ord = s.shord; W.build(s.lean ? &last : nullptr);
        // outputs
        size_t tot = 0; for (auto &t : s.th) for (auto &i : t) { int na, ln; tot += item_values(W.s, i, na, ln); }
        if (s.layout == 1) { bign = tot; big = (double *) arena_alloc(8 * (tot ? tot : 1), false); }
        size_t off = 0; std::vector<std::pair<int, int>> order;      // in layout 1 blocks of different threads alternate
        size_t mx = 0; for (auto &t : s.th) mx = std::max(mx, t.size());
        for (size_t k = 0; k < mx; k++) for (size_t t = 0; t < s.th.size(); t++) if (k < s.th[t].size()) order.push_back({(int) t, (int) k});
        for (auto &pr : order) {
            int idx = base[pr.first] + pr.second; int na, ln; item_values(W.s, s.th[pr.first][pr.second], na, ln); ob[idx].len = ln;
            for (int a = 0; a < na; a++) { double *p; if (s.layout == 1) { p = big + off; off += ln; } else p = (double *) arena_alloc(8 * ln, false); fill_out(p, ln, s.outfill, s.mc.seed + idx * 16 + a); ob[idx].arr.push_back(p); }
        }
        if (s.watch & 1) W.watch_inputs();
    }}, serial);
    set_alloc_tag(2);
    std::vector<int> barrier_cnt(64, 0);
    std::vector<std::vector<Slot>> slots(s.th.size(), std::vector<Slot>(4));
    u64 live_round[64] = {0}, blk_round[64] = {0};
    int nth = (int) s.th.size();
    std::vector<libgrpp_shell_t *> ss(NSLOT, nullptr); std::vector<libgrpp_potential_t *> ps(NSLOT, nullptr);      // objects of the workload, by slot
    auto src_s = [&](int x) { return x >= 16 ? W.sh[x - 16] : ss[x]; }; auto src_p = [&](int x) { return x >= 16 ? W.pot[x - 16] : ps[x]; };
    env_setup(s.amb ? mix(s.amb, 3) : 0);
    auto body = [&](int t) {
        int k = 0; if (s.omp > 0) team_member(s.omp <= nth ? t : (t * 37 + 11) % s.omp);
        for (auto &it : s.th[t]) {
            int idx = base[t] + k; k++;
            OutBuf &o = ob[idx];
            sim_op_begin(idx);
            if (s.dirty) sim_thread_dirty_stack(s.mc.seed * 131 + idx);
            arena_sites_reset(); lock_sites_reset(); u64 st0 = cur_steps(), al0 = arena_alloc_count(), ev0 = stats.events;
            SH->op[idx].t_begin = sim_now(); SH->op[idx].status = 1;
            if (s.layout == 1 && s.rounds == 1) for (size_t a = 0; a < o.arr.size(); a++) for (int i : {0, o.len - 1}) { double v = prefill_val(s.outfill, s.mc.seed + idx * 16 + a, i); if (memcmp(&o.arr[a][i], &v, 8)) violation(V_GUARD, "the output block of a call not yet made was written by another call"); }
            if (s.failk >= 0 && idx == s.failitem) { arena_fail_at(s.failk, s.failmode); fail_expected_exit = true; }
            if (s.amb && it.t != I_BAR) env_begin(idx);
            bool wo = (s.watch & 2) && nth == 1;      // during this call the caller looks at every other output block
            if (wo) for (int q = 0; q < nit; q++) if (q != idx) for (auto p : ob[q].arr) input_register(p, 8 * ob[q].len);
            switch (it.t) {
                case I_OP: if (it.x[0] == 1 && !libgrpp_is_initialized()) { SH->op[idx].status = 3; break; } op_exec(W, it.op, o.arr.data()); break;
                case I_INIT: libgrpp_init(); break;
                case I_FINI: libgrpp_finalize(); break;
                case I_FINIT: libgrpp_init_(); break;
                case I_FFINI: libgrpp_finalize_(); break;
                case I_ISINIT: o.arr[0][0] = libgrpp_is_initialized() ? 1 : 0; break;
                case I_WAITINIT: sim_poll_until([]() { return libgrpp_is_initialized() != 0; }); break;
                case I_BAR: { int b = it.x[0] & 63; barrier_cnt[b]++; int want = it.x[1] > 0 ? it.x[1] : nth; sim_wait_until([&, b, want]() { return barrier_cnt[b] >= want; }); break; }
                case I_ORDER: case I_TOL: case I_DEFAULTS: do_setting(it); break;
                case I_RESHELL: libgrpp_delete_shell(W.sh[it.x[0]]); W.sh[it.x[0]] = mk_shell(W.s, W.s.sh[it.x[0]]); break;
                case I_GNEW: slots[t][it.x[0]].g = libgrpp_new_grpp(); break;
                case I_GLOC: libgrpp_grpp_set_local_potential(slots[t][it.x[0]].g, it.x[1] < 0 ? nullptr : mk_pot(W.s.pot[it.x[1] % W.s.npot])); break;
                case I_GAREP: for (int k : added_terms(it, W.s.npot)) libgrpp_grpp_add_averaged_potential(slots[t][it.x[0]].g, mk_pot(W.s.pot[k])); break;
                case I_GESOP: for (int k : added_terms(it, W.s.npot)) libgrpp_grpp_add_spin_orbit_potential(slots[t][it.x[0]].g, mk_pot(W.s.pot[k])); break;
                case I_GOC: for (int k : added_terms(it, W.s.noc)) { libgrpp_potential_t *p = mk_pot(W.s.ocp[k]); libgrpp_grpp_add_outercore_potential(slots[t][it.x[0]].g, p, mk_shell(W.s, W.s.ocs[k])); } break;
                case I_GDEL: libgrpp_delete_grpp(slots[t][it.x[0]].g); slots[t][it.x[0]].g = nullptr; break;
                case I_GEVAL: libgrpp_full_grpp_integrals(W.sh[it.op.a], W.sh[it.op.b], slots[t][it.x[0]].g, W.cen[it.op.c], o.arr[0], o.arr[1], o.arr[2], o.arr[3]); break;
                case I_GGRAD: { double **q = (double **) arena_alloc(96, false); for (int i = 0; i < 12; i++) q[i] = o.arr[i]; libgrpp_full_grpp_integrals_gradient(W.sh[it.op.a], W.sh[it.op.b], slots[t][it.x[0]].g, W.cen[it.op.c], W.cen[it.op.d], q, q + 3, q + 6, q + 9); arena_free(q); break; }
                case I_SNEW: ss[it.x[0]] = mk_shell(W.s, W.s.sh[it.x[1]]); break;
                case I_SCOPY: ss[it.x[0]] = libgrpp_shell_deep_copy(src_s(it.x[1])); break;
                case I_SMOD: if (it.x[1] == 0) libgrpp_shell_mult_normcoef(ss[it.x[0]]); else { if (it.x[1] == 2) ss[it.x[0]]->coeffs[0] = 0; libgrpp_shell_shrink(ss[it.x[0]]); } break;
                case I_SDEL: libgrpp_delete_shell(ss[it.x[0]]); ss[it.x[0]] = nullptr; break;
                case I_PNEW: ps[it.x[0]] = mk_pot(W.s.pot[it.x[1]]); break;
                case I_PCOPY: ps[it.x[0]] = libgrpp_shrink_potential(src_p(it.x[1])); break;
                case I_PDEL: libgrpp_delete_potential(ps[it.x[0]]); ps[it.x[0]] = nullptr; break;
                case I_SEVAL: op_exec(W, it.op, o.arr.data(), it.x[0] >= 0 ? ss[it.x[0]] : nullptr, it.x[1] >= 0 ? ss[it.x[1]] : nullptr, it.x[2] >= 0 ? ps[it.x[2]] : nullptr); break;
                case I_GREF: sum_of_terms(W, it, o.arr); break;
                case I_DRIVER: { int rc = driver_call(it.x[0] < 1 ? 1 : it.x[0], (u32) it.x[1]); int nf; driver_collect(o.snap, nf); o.snap.push_back(rc * 1e-3); SH->extra[60] = nf; break; }
                case I_OBJCYCLE: if (it.x[1] > 0) crowd(W.s, it.x[0], it.x[1], it.x[2]); else { World V; V.s = make_world(s.wseed + it.x[0], s.lmax); V.build(); V.destroy(); } break;
            }
            if (s.amb && it.t != I_BAR) env_end();
            sim_op_end();
            if (wo) for (int q = 0; q < nit; q++) if (q != idx) for (auto p : ob[q].arr) input_drop(p);
            if (s.failk >= 0 && idx == s.failitem) { arena_fail_at(-1, false); if (s.failmode >= 2) fail_expected_exit = false; }
            if (SH->op[idx].status != 3) SH->op[idx].status = 2; SH->op[idx].t_end = sim_now(); SH->op[idx].steps += cur_steps() - st0; SH->op[idx].allocs = arena_alloc_count() - al0; SH->op[idx].events = stats.events - ev0; SH->nlsites = lock_sites(SH->lsite); SH->nsites = arena_sites(SH->site);
            if (s.failk >= 0 && idx == s.failitem) SH->op[idx].allocs = arena_failed_count();
            if (it.t != I_DRIVER) o.snap.clear(); for (auto p : o.arr) o.snap.insert(o.snap.end(), p, p + o.len); o.done = true;
            sim_yield_point();
        }
    };
    for (int r = 0; r < s.rounds; r++) {
        std::fill(barrier_cnt.begin(), barrier_cnt.end(), 0);
        team_setup(s.omp);
        std::vector<std::function<void()>> bodies; for (int t = 0; t < nth; t++) bodies.push_back([&, t]() { body(t); });
        SchedCfg c = s.sc; c.seed = s.sc.seed + r;
        if (!s.team()) c.policy = POL_SERIAL;
        RUN(bodies, c);
        if (r < 64) { live_round[r] = arena_live_bytes(); blk_round[r] = arena_live_blocks(); }
    }
    std::string why;
    if ((s.watch & 1) && !input_check_all(why)) violation(V_INPUT, why);
    if (!arena_check_all(why)) violation(V_GUARD, why);
    for (int i = 0; i < nit; i++) if (ob[i].done && s.rounds == 1) { size_t q = 0; for (auto p : ob[i].arr) { if (memcmp(p, &ob[i].snap[q], 8 * ob[i].len)) { SH->vop = i; violation(V_GUARD, "the output block of a finished call was changed by another call"); } q += ob[i].len; } }
    u32 off = 0;
    for (int i = 0; i < nit && i < SH_MAXOPS; i++) { SH->op[i].off = off; SH->op[i].n = (u32) ob[i].snap.size(); if (off + ob[i].snap.size() > SH_MAXVALS) violation(V_HARNESS, "result area too small"); memcpy(SH->vals + off, ob[i].snap.data(), 8 * ob[i].snap.size()); off += (u32) ob[i].snap.size(); }
    SH->nvals = off;
    for (int r = 0; r < s.rounds && r < 32; r++) { SH->extra[r] = live_round[r]; SH->extra[32 + r] = blk_round[r]; }
    if (s.rounds >= 4) {
        bool grow = true; for (int r = s.rounds - 3; r < s.rounds; r++) if (blk_round[r] <= blk_round[r - 1] && live_round[r] <= live_round[r - 1]) grow = false;
        if (grow) { char b[200]; snprintf(b, sizeof b, "live memory grows with every repetition of the same history: %llu -> %llu -> %llu -> %llu bytes", (unsigned long long) live_round[s.rounds - 4], (unsigned long long) live_round[s.rounds - 3], (unsigned long long) live_round[s.rounds - 2], (unsigned long long) live_round[s.rounds - 1]); violation(V_LEAK, b); }
    }
    rt_flush();
    SH->done = 1;
    _exit(0);
}
