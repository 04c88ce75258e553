// Workload and fault generators, one per property.
#include "check.h"
#include <cmath>
static const std::vector<int> VAL = {K_T1, K_T2, K_SO, K_OC, K_NUC, K_FULL, K_OV, K_NUCW, K_KIN, K_MOM, K_T2, K_SO, K_NMOD, K_NUC, K_POTVAL, K_OBJ, K_SHRINK, K_OC};
static const std::vector<int> GRAD = {K_T1G, K_OVG, K_T2G, K_OCG, K_SOG, K_FULLG};
static const std::vector<int> FORT = {K_T1, K_T2, K_SO, K_OC, K_T1G, K_NUC, K_OV, K_NUCW, K_KIN, K_MOM, K_T2G, K_SOG, K_NMOD, K_NORM};
static const std::vector<int> CHEAP = {K_T1, K_T2, K_SO, K_OC, K_OV, K_T1G, K_OVG, K_NUC, K_T2G, K_OCG, K_NMOD};
static std::vector<int> cat(std::vector<int> a, const std::vector<int> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static Item op_item(Op o);
u64 ref_steps(WCtx &c, const Op &o) {
    Spec s; s.wseed = c.wseed; s.lmax = c.lmax; s.th.resize(1); Item it; it.op = o; s.th[0].push_back(it);
    Deriv d = derive(s, c.w); const RefVal &r = get_ref(c, d.e[0]); return r.vkind == V_TIMEOUT ? ~0ull >> 1 : r.steps;
}
// what a call is expected to cost: measured, but work done once per process in a changed tree must not keep calls out of the workloads
static u64 cost(WCtx &c, const Op &o) { u64 m = ref_steps(c, o); return m > 1000000000000ull ? m : std::min(m, (u64) (4 * exp(op_est(c.w, o))) + 60000); }
static const std::vector<int> &kinds_for(const std::string &p) {
    static const std::vector<int> all = cat(VAL, GRAD), c2 = cat(cat(GRAD, GRAD), {K_T2, K_OC, K_T1, K_OV, K_FULL});
    static const std::vector<int> c11 = cat(CHEAP, {K_FULL, K_SOG, K_KIN, K_MOM, K_NUCW, K_FULLG, K_OBJ, K_SHRINK, K_POTVAL, K_NORM});
    static const std::vector<int> c9 = {K_T1, K_T2, K_SO, K_OC, K_FULL, K_OV, K_KIN, K_MOM, K_NUC, K_T1G, K_OVG, K_T2G, K_OCG, K_SOG, K_FULLG, K_OVG, K_T1G};
    if (p == "C01") return VAL; if (p == "C02") return c2; if (p == "C13") return FORT; if (p == "C04" || p == "C05") return CHEAP; if (p == "C11") return c11; if (p == "C09") return c9;
    return all;
}
static u64 op_cap(const std::string &p, bool thorough) {
    if (p == "C04" || p == "C05") return 600000;
    if (p == "C11") return 1500000;
    if (p == "C10") return 3000000;
    if (p == "C08") return 4000000;
    return thorough ? 40000000 : 9000000;
}
bool contrast_world(const std::string &prop, u64 widx) { return prop == "C06" && widx % 4 == 2; }      // calls of the highest and of the lowest angular momenta side by side
void build_pool(WCtx &c, const std::string &prop, Rng &r, bool thorough) {
    const std::vector<int> &K = kinds_for(prop); c.pool.clear(); if (prop == "C14") { c.pool.push_back(gen_op(r, c.w, K_OV, 1e9)); return; }
    int nk = prop == "C06" || prop == "C07" || prop == "C03" || prop == "C08" ? 6 : 4; u64 cap = op_cap(prop, thorough); if ((prop == "C08" || prop == "C10") && c.widx % 6 == 4) cap *= 4; double want = cap * exp(-r.uni() * (thorough ? 2.5 : 3.5)); if (want < 150000) want = 150000;
    if (contrast_world(prop, c.widx)) {
        static const std::vector<int> H = {K_T2, K_T1, K_SO, K_OC, K_T2, K_OV, K_T2G, K_NUC, K_KIN, K_T1G};
        for (int i = 0; i < 3; i++) { int k = H[(c.widx / 4 * 3 + i) % H.size()];
            for (int j = 0; j < 3; j++) { Op best; double be = -1; double hc = 8 * (double) cap; for (int t = 0; t < 12; t++) { Op o = gen_op(r, c.w, k, 1e300); double e = op_est(c.w, o) + 1e-3 * (c.w.sh[o.a].L + c.w.sh[o.b].L); if (e > be && e < log((double) hc)) { be = e; best = o; } } if (be > 0 && ref_steps(c, best) <= hc) c.pool.push_back(best); }
            for (int j = 0; j < 3; j++) { Op o = gen_op(r, c.w, k, 60000.); if (op_est(c.w, o) < log((double) cap) + 1 && ref_steps(c, o) <= cap) c.pool.push_back(o); } }
        if (c.pool.size() >= 4) return; c.pool.clear();
    }
    if (c.w.high && cap > 1000000 && r.chance(.5)) {       // the highest angular momenta the documentation promises: most of these calls take far too long, but none may fail before its budget ends
        static const std::vector<int> X = {K_T2, K_SO, K_NUC, K_T2G, K_SOG, K_NUCW}; Op best; double be = -1; bool point = r.chance(.5);      // (point charges: the only nuclear model whose highest calls end in time)
        for (int t = 0; t < 30; t++) { Op o = gen_op(r, c.w, point ? K_NUC : X[r.below(X.size())], 1e300); if (point) o.m = 0; else if (o.kind == K_NUC || o.kind == K_NUCW) o.m = 1 + o.m % 2; int l = c.w.sh[o.a].L + c.w.sh[o.b].L; double e = o.kind == K_NUC || o.kind == K_NUCW ? l : std::max(c.w.sh[o.a].L, c.w.sh[o.b].L) + c.w.pot[o.p % c.w.npot].L; if (e > be) { be = e; best = o; } }
        Spec q; q.wseed = c.wseed; q.lmax = c.lmax; q.th.resize(1); q.th[0].push_back(op_item(best)); const RefVal &v = get_ref(c, derive(q, c.w).e[0]); if (v.vkind ? v.vkind != V_TIMEOUT : v.steps <= cap) for (int j = 0; j < 3; j++) c.pool.push_back(best);
    }
    for (int i = 0; i < nk; i++) {
        int k = K[(c.widx * 5 + i * 3 + r.below(2)) % K.size()];
        for (int j = 0; j < 3; j++) {
            for (int t = 0; t < 4; t++) { Op o = gen_op(r, c.w, k, want / (1 << t)); if (op_est(c.w, o) > log((double) cap) + 1) continue; if (k != K_NORM && ref_steps(c, o) > 3 * cap + 15000000) continue; if (k != K_NORM && cost(c, o) > cap) continue; c.pool.push_back(o); break; }
        }
    }
}
static const Op &pick(Rng &r, WCtx &c) { return c.pool[r.below(c.pool.size())]; }
static Item op_item(Op o) { Item i; i.t = I_OP; i.op = o; return i; }
static Item mk(int t, int a = 0, int b = 0, int cc = 0, int d = 0) { Item i; i.t = t; i.x[0] = a; i.x[1] = b; i.x[2] = cc; i.x[3] = d; return i; }
static void gen_sched(Rng &r, Spec &s, u64 est) {
    SchedCfg &c = s.sc; c = SchedCfg(); c.seed = r.next() >> 1; if (est < 500) est = 500; c.est_steps = est; c.step_cap = est * 20 + 60000000ull; c.fair = est + 3000000;
    double u = r.uni();
    if (u < .30) { c.policy = POL_RANDOM; c.interval = exp(log(3.0) + r.uni() * log(est / 6.0)); if (r.chance(.5)) { c.burst = 10 + (int) r.below(200); c.gap = est / (2.0 + r.below(8)); c.interval = 2 + r.below(200); } }
    else if (u < .45) { c.policy = POL_PCT; c.pct_d = 1 + (int) r.below(6); }
    else if (u < .53) { c.policy = POL_HOLD; c.p = exp(log(1e-2) + r.uni() * log(1e2)); c.use_sites = r.chance(.5); }
    else if (u < .71) { c.policy = POL_CONFLICT; c.p = exp(log(1e-3) + r.uni() * log(6e2)); c.use_sites = r.chance(.5); }
    else if (u < .82) { c.policy = POL_FUNC; c.p = exp(log(3e-4) + r.uni() * log(1e3)); }
    else if (u < .92) { c.policy = POL_ROUNDROBIN; c.interval = 1 + floor(exp(r.uni() * log(est / 4.0))); }
    else { c.policy = POL_SYNC; c.p = .2 + .7 * r.uni(); }
    if (r.chance(.35)) { c.p_stall = r.uni() * .5; c.stall_len = (u64) exp(log(100.0) + r.uni() * log((double) est)); }
    if (c.policy == POL_HOLD) { c.p_stall = 0; c.stall_len = (u64) exp(log(30.0) + r.uni() * log(est / 5.0)); }
    c.max_preempt = r.chance(.9) ? 1500 : 6000;
}
static void gen_mem(Rng &r, Spec &s, bool strong) {
    s.mc.seed = r.next() >> 33; s.mc.fill = strong ? (int) r.below(6) : (r.chance(.5) ? 0 : (int) r.below(6)); s.mc.reuse = r.chance(.4) ? 0 : r.chance(.5) ? 1.0 : r.uni(); s.mc.poison_free = r.chance(.4);
    s.outfill = (int) r.below(4);
}
static u64 spec_est(WCtx &c, const Spec &s) {
    Deriv d = derive(s, c.w); u64 n = 0, once = 0; int k = 0;
    for (auto &t : s.th) for (auto &i : t) { if (d.e[k].mode == 1 || d.e[k].mode == 2) { u64 m = get_ref(c, d.e[k]).steps, e = i.t == I_OP && i.op.kind != K_NORM ? std::min(m, cost(c, ref_op(i.op))) : m; n += e; once = std::max(once, m - e); } else n += i.t == I_INIT || i.t == I_FINIT ? (s.preinit ? 6200000 : 90000) : 300; k++; }
    return n + once;
}
static Op flagged(Rng &r, Op o, bool fortran) {
    double u = r.uni();
    if (fortran && kind_has_fortran(o.kind) && u < .25) o.flags = OF_FORTRAN; else if (u < .35) o.flags = OF_FRESH; else if (u < .45) o.flags = OF_COPY;
    if (o.kind == K_NORM) o.flags = OF_FORTRAN;
    if (r.chance(.15)) o.flags |= OF_ALIAS;
    return o;
}
// the same call with one operand replaced, preferably by one that hardly differs
static Op neighbour(Rng &r, const WorldSpec &w, Op o) {
    auto like_sh = [&](int i) { std::vector<int> v; for (int j = 0; j < w.nsh; j++) if (j != i) { auto &x = w.sh[i], &y = w.sh[j]; int d = x.L != y.L ? 9 : 0; d += x.np != y.np; d += x.ctr != y.ctr; for (int k = 0; k < 3; k++) d += x.dx[k] != y.dx[k]; for (int k = 0; k < std::min(x.np, y.np); k++) d += (x.al[k] != y.al[k]) + (x.co[k] != y.co[k]); if (d <= 1) v.push_back(j); } return v; };
    auto like_pot = [&](int i) { std::vector<int> v; for (int j = 0; j < w.npot; j++) if (j != i) { auto &x = w.pot[i], &y = w.pot[j]; int d = (x.L != y.L) + (x.np != y.np); for (int k = 0; k < std::min(x.np, y.np); k++) d += (x.al[k] != y.al[k]) + (x.co[k] != y.co[k]) + (x.pw[k] != y.pw[k]); if (d <= 1) v.push_back(j); } return v; };
    for (int t = 0; t < 6; t++) switch (r.below(5)) {
        case 0: case 1: { int &f = r.chance(.5) ? o.a : o.b; auto v = like_sh(f); if (v.empty() && t < 4) break; f = v.empty() ? (int) r.below(w.nsh) : v[r.below(v.size())]; return o; }
        case 2: { auto v = like_pot(o.p % w.npot); if (v.empty() && t < 4) break; o.p = v.empty() ? (int) r.below(w.npot) : v[r.below(v.size())]; return o; }
        case 3: o.c = (int) r.below(w.ncen); return o;
        case 4: std::swap(o.a, o.b); return o;
    }
    return o;
}
static void conc_ops(WCtx &c, Rng &r, Spec &s, int nth, int per, u64 budget, bool fortran, bool onlyf) {
    s.th.assign(nth, {}); int focus = r.chance(.5) ? pick(r, c).kind : -1; u64 used = 0; bool near = r.chance(.2);
    for (int k = 0; k < per; k++) for (int t = 0; t < nth; t++) {
        Op o; bool ok = false;
        for (int q = 0; q < 12 && !ok; q++) { o = pick(r, c); if (focus >= 0 && o.kind != focus) continue; if (near && (k || t) && r.chance(.6)) { const Item &e = k && r.chance(.5) ? s.th[t].empty() ? s.th[0][0] : s.th[t].back() : s.th[0][0]; if (e.op.kind != K_NORM) { o = neighbour(r, c.w, e.op); o.flags = 0; if (op_est(c.w, o) > log((double) budget)) continue; } } u64 st = cost(c, o); if (used + st > budget && used) continue; used += st; ok = true; }
        if (!ok) { if (s.th[t].empty()) { for (auto &p : c.pool) if (!ok || cost(c, p) < cost(c, o)) { o = p; ok = true; } } else continue; }
        if (onlyf) { o.flags = r.chance(.8) || o.kind == K_NORM ? OF_FORTRAN : 0; } else o = flagged(r, o, fortran && r.chance(.4));
        s.th[t].push_back(op_item(o));
    }
}
// many cheap calls on many different arguments: tables and caches fill up
static void long_history(WCtx &c, Rng &r, Spec &s, const std::vector<int> &K, int nth, int per, bool objs, bool onlyf) {
    std::vector<Op> ops; int want = r.chance(.12) ? 150 + (int) r.below(250) : 40 + (int) r.below(100), focus = r.chance(.5) ? (int) K[r.below(K.size())] : -1;
    for (int q = 0; q < 4 * want && (int) ops.size() < want; q++) { int k = focus >= 0 && r.chance(.8) ? focus : (int) K[r.below(K.size())]; if (k == K_NORM || k == K_FULL || k == K_FULLG) continue; Op o = gen_op(r, c.w, k, 30000); if (op_est(c.w, o) > log(60000.0) || cost(c, o) > 100000) continue; ops.push_back(o); }
    if (ops.size() < 5) for (auto &o : c.pool) ops.push_back(o);
    bool near = r.chance(.5);
    s.th.assign(nth, {}); u64 used = 0; size_t lim = SH_MAXOPS / nth - 4;
    for (int t = 0; t < nth; t++) for (int k = 0; k < per && s.th[t].size() < lim; k++) {
        if (objs && r.chance(.03)) { s.th[t].push_back(mk(I_RESHELL, (int) r.below(c.w.nsh))); continue; }
        if (objs && r.chance(.02)) { s.th[t].push_back(mk(I_OBJCYCLE, 1 + (int) r.below(50))); continue; }
        Op o = k && near && s.th[t].size() && s.th[t].back().t == I_OP && s.th[t].back().op.kind != K_NORM && r.chance(.5) ? neighbour(r, c.w, s.th[t].back().op) : ops[r.below(ops.size())]; o.flags = 0; if (op_est(c.w, o) > log(60000.0)) continue; u64 st = o.kind == K_NORM ? 200 : cost(c, o); if (used + st > 40000000) continue; used += st; o = flagged(r, o, true); if (onlyf && kind_has_fortran(o.kind) && r.chance(.7)) o.flags = OF_FORTRAN; s.th[t].push_back(op_item(o)); }
}
static int crowd_size(Rng &r) { return r.chance(.5) ? 5 + (int) r.below(60) : 65 + (int) r.below(r.chance(.7) ? 240 : 1200); }
static u64 budget(Rng &r, bool thorough) { double u = r.uni(); return u < .6 ? 2500000 : u < .92 ? 9000000 : thorough ? 90000000 : 25000000; }

static bool gen_spec0(WCtx &c, const std::string &prop, Rng &r, bool thorough, u64 ri, Spec &s) {
    s = Spec(); s.prop = prop; s.wseed = c.wseed; s.lmax = c.lmax; if (c.pool.empty()) return false;
    int nth = 2 + (int) r.below(2) + (r.chance(.2) ? (int) r.below(3) : 0); bool crowd = r.chance(.03); int many = 8 + (int) r.below(9);      // crowd: more threads than usual
    auto order_first = [&](double p) {             // another component order than the default is in force while the threads are at work
        if (!r.chance(p)) return; s.th[0].insert(s.th[0].begin(), mk(I_ORDER, 1 + (int) r.below(3))); for (auto &t : s.th) { t.insert(t.begin() + (&t == &s.th[0]), mk(I_BAR, 60)); for (auto &i : t) if (i.t == I_OP && !i.op.flags && r.chance(.4)) i.op.flags = OF_FRESH; } };
    if ((prop == "C01" || prop == "C02" || prop == "C13") && c.widx % 4 == 1 && ri % 5 == 0) {
        std::vector<int> K = kinds_for(prop); long_history(c, r, s, K, nth > 4 ? 4 : nth, 15 + (int) r.below(120), false, prop == "C13"); if (s.nitems() < 2) return false; gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C06" && c.widx % 3 == 1 && ri % 5 == 0) {
        s.dirty = r.chance(.3); long_history(c, r, s, kinds_for(prop), 1, 100 + (int) r.below(1500), true, false); if (s.nitems() < 2) return false; gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C01" || prop == "C02") {
        if (crowd) nth = many; conc_ops(c, r, s, nth, crowd ? 1 : 1 + (int) r.below(3), budget(r, thorough), prop == "C01", false); order_first(.1); gen_mem(r, s, false); s.layout = r.chance(.3); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C15") {                          // one thread is delayed indefinitely inside a call: the others must get through
        if (crowd) nth = many; s.th.resize(nth); Item first; u64 st = 2000, ev = 0; std::vector<AllocSite> locks; double u = r.uni();
        if (u < .06) first = mk(I_INIT); else if (u < .1) first = mk(I_OBJCYCLE, 1 + (int) r.below(30)); else if (u < .14) first = mk(I_ISINIT);
        else { first = op_item(flagged(r, pick(r, c), true)); Op q = ref_op(first.op); st = first.op.kind == K_NORM ? 200 : cost(c, q); if (first.op.kind != K_NORM) { Spec t; t.wseed = s.wseed; t.lmax = s.lmax; t.th.resize(1); t.th[0].push_back(op_item(q)); const RefVal &rv = get_ref(c, derive(t, c.w).e[0]); ev = rv.events; locks = rv.locks; } }
        s.th[0].push_back(first); u64 used = st;
        for (int t = 1; t < nth; t++) { int n = 1 + (int) r.below(3); for (int k = 0; k < n; k++) { Op o = k == 0 && first.t == I_OP && r.chance(locks.empty() ? .5 : .9) ? first.op : flagged(r, pick(r, c), true); u64 q = o.kind == K_NORM ? 200 : cost(c, ref_op(o)); if (used + q > 9000000 && k) continue; used += q; s.th[t].push_back(op_item(o)); if (r.chance(.1)) s.th[t].push_back(mk(I_OBJCYCLE, 1 + (int) r.below(9))); } }
        gen_mem(r, s, false); gen_sched(r, s, spec_est(c, s)); s.sc.freeze_tid = 0; s.sc.freeze_step = ~0ull >> 2;
        if (ev && r.chance(.8)) { s.sc.freeze_event = 1 + r.below(ev); s.sc.freeze_delta = r.chance(.3) ? 2 : r.chance(.5) ? r.below(6) : r.below(100); s.sc.freeze_step = st * 2; } else s.sc.freeze_step = 1 + r.below(st);
        if (!locks.empty() && r.chance(.6)) { auto &a = locks[r.below(locks.size())]; double v = r.uni(); s.sc.freeze_event = v < .4 ? a.first : v < .6 ? a.last : a.mid; s.sc.freeze_delta = r.chance(.6) ? 2 : r.below(20); s.sc.freeze_step = st * 2; }      // every place that synchronises, however rarely it is reached
        if (first.t != I_OP) s.sc.freeze_step = 1 + r.below(first.t == I_OBJCYCLE ? 2000 : 12);
        s.sc.step_cap = spec_est(c, s) * 8 + 20000000; return true;
    }
    if (prop == "C14") {
        s.th.resize(1); Item d; d.t = I_DRIVER; d.x[0] = crowd ? many : 2 + (int) r.below(5); d.x[1] = 1; d.x[2] = (int) (ri & 1);
        if (r.chance(.25)) for (int k = 1; k < 6; k++) if (r.chance(.4)) d.x[1] |= 1 << k;
        if (r.chance(.1)) d.x[1] |= 1 << (6 + (int) r.below(10));
        s.th[0].push_back(d); Exp e = derive(s, c.w).e[0]; u64 est = get_ref(c, e).steps; if (est > (thorough ? 400000000u : 90000000u)) return false;
        gen_mem(r, s, true); gen_sched(r, s, est ? est : 1000000); s.sc.step_cap += 10 * est; if (r.chance(.25)) { s.sc.policy = POL_SYNC; s.sc.p = .2 + .7 * r.uni(); } return true;
    }
    if (prop == "C13") {
        if (r.chance(.35)) nth = 1; else if (crowd) nth = many;
        conc_ops(c, r, s, nth, nth == 1 ? 4 + (int) r.below(5) : nth > 7 ? 1 : 1 + (int) r.below(3), budget(r, thorough), true, true); order_first(.15); gen_mem(r, s, true); s.layout = r.chance(.4); s.dirty = r.chance(.4); s.watch = r.chance(.4); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C03") {
        s.watch = 1;
        if (crowd) nth = many; if (r.chance(.25)) conc_ops(c, r, s, nth, crowd ? 1 : 2, budget(r, thorough), true, false);
        else { s.th.resize(1); int n = 3 + (int) r.below(8); for (int i = 0; i < n; i++) s.th[0].push_back(op_item(flagged(r, pick(r, c), true))); }
        gen_mem(r, s, false); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C06") {
        if (ri % 12 == 0) s.preinit = true;
        if (crowd) nth = many; int mode = crowd ? 3 : (int) r.below(4); s.dirty = r.chance(.7);
        if (mode < 3 || s.preinit) {
            s.th.resize(1); if (s.preinit) s.th[0].push_back(mk(I_INIT)); int n = 4 + (int) r.below(9); u64 used = 0; bool near = r.chance(.35);
            for (int i = 0; i < n; i++) {
                double u = r.uni();
                if (u < .12) s.th[0].push_back(mk(I_RESHELL, (int) r.below(c.w.nsh)));
                else if (u < .2) s.th[0].push_back(r.chance(.8) ? mk(I_OBJCYCLE, 1 + (int) r.below(50)) : mk(I_OBJCYCLE, (int) r.below(1000), crowd_size(r), (int) r.below(32)));
                else { bool nb = near && !s.th[0].empty() && s.th[0].back().t == I_OP && s.th[0].back().op.kind != K_NORM; Op o = nb ? neighbour(r, c.w, s.th[0].back().op) : pick(r, c); if (nb) { o.flags = 0; if (op_est(c.w, o) > log(9e6)) continue; } u64 st = cost(c, o); if (used + st > (contrast_world(prop, c.widx) ? 70000000u : 20000000u)) continue; used += st; int rep = r.chance(.15) ? 2 : 1; while (rep--) s.th[0].push_back(op_item(flagged(r, o, true))); }
            }
        } else {
            s.th.resize(nth);                     // the same history spread over threads, one at a time
            int rounds = 2 + (int) r.below(3); for (int q = 0; q < rounds; q++) { int who = (int) r.below(nth); for (int i = 0; i < 2; i++) s.th[who].push_back(op_item(flagged(r, pick(r, c), true))); for (auto &t : s.th) t.push_back(mk(I_BAR, q)); }
        }
        gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return s.nitems() > 0;
    }
    if (prop == "C07") {
        s.layout = r.chance(.75);
        if (crowd) nth = many; if (r.chance(.5)) conc_ops(c, r, s, nth, crowd ? 1 : 1 + (int) r.below(3), budget(r, thorough), true, false);
        else { s.th.resize(1); if (r.chance(.1)) s.th[0].push_back(mk(I_OBJCYCLE, (int) r.below(1000), crowd_size(r), (int) r.below(32))); int n = 3 + (int) r.below(6); for (int i = 0; i < n; i++) s.th[0].push_back(op_item(flagged(r, pick(r, c), true))); s.watch = s.layout ? 2 : 0; }
        gen_mem(r, s, true); s.outfill = 1 + (int) r.below(3); s.mc.poison_free = r.chance(.6); gen_sched(r, s, spec_est(c, s)); return true;
    }
    // one operator: created, filled term by term (single terms or bursts up to the capacity of its lists), evaluated now and then
    auto grpp_history = [&](std::vector<Item> &v, int slot, int n, bool grads, bool many) {
        v.push_back(mk(I_GNEW, slot)); bool loc = r.chance(.75), never = r.chance(.12); if (loc && !never) v.push_back(mk(I_GLOC, slot, (int) r.below(c.w.npot)));
        double bud = many ? 6e6 : 1.5e6, perpair = 0; std::vector<int> L[3]; size_t cap[3] = {4, 3, 3}; std::vector<std::pair<int, int>> cheap;
        if (many) for (auto &x : cap) x = r.chance(.06) ? 100 : r.chance(.4) ? 10 + r.below(30) : 3 + r.below(7); if (cap[2] > 30) cap[2] = 30;
        for (int i = 0; i < c.w.nsh; i++) for (int j = 0; j < c.w.nsh; j++) cheap.push_back({i, j});
        std::sort(cheap.begin(), cheap.end(), [&](std::pair<int, int> x, std::pair<int, int> y) { auto k = [&](std::pair<int, int> q) { auto &A = c.w.sh[q.first], &B = c.w.sh[q.second]; return (A.L + B.L) * 1000 + A.np * B.np; }; return k(x) < k(y); });
        auto pairw = [&](const Op &o, bool g) { double t = 0; for (int q = 0; q < 2; q++) for (int k : L[q]) { Op z = o; z.kind = g ? K_T2G : K_T2; z.p = 0; WorldSpec *w = &c.w; double e = op_est(*w, z); (void) w; t += exp(e + .5 * (c.w.pot[k].L - c.w.pot[0].L)); } return t + 3000.0 * L[2].size() * L[2].size(); };
        auto ev = [&]() {
            if (!loc && !r.chance(.35)) return; Op o; bool g = grads && r.chance(.35);
            for (int q = 0; q < 40; q++) { auto pr = q < 25 ? std::make_pair((int) r.below(c.w.nsh), (int) r.below(c.w.nsh)) : cheap[r.below(1 + cheap.size() / 4)]; if (q == 39) { pr = cheap[0]; g = false; } o.a = pr.first; o.b = pr.second; if (pairw(o, g) <= bud) break; }
            if (pairw(o, g) > 4 * bud) return;
            o.c = (int) r.below(c.w.ncen); int x = (int) r.below(4); o.d = x == 0 ? c.w.sh[o.a].ctr : x == 1 ? c.w.sh[o.b].ctr : x == 2 ? o.c : (int) r.below(c.w.ncen);
            Item i = mk(g ? I_GGRAD : I_GEVAL, slot); i.op = o; v.push_back(i); };
        (void) perpair;
        auto add = [&](int q) { size_t room = L[q].size() < cap[q] ? cap[q] - L[q].size() : 0; if (!room) return; int np = q == 2 ? c.w.noc : c.w.npot; size_t k = many && r.chance(.6) ? 1 + r.below(room) : 1; int from = (int) r.below(np), st = (int) r.below(np);
            if (many && q < 2 && k > 6) { for (int z = 0; z < 5; z++) { int y = (int) r.below(np); if (c.w.pot[y].L < c.w.pot[from].L) from = y; } st = 0; }
            Item i = mk(q == 0 ? I_GAREP : q == 1 ? I_GESOP : I_GOC, slot, from, (int) k, st); for (int z : added_terms(i, np)) L[q].push_back(z); v.push_back(i); };
        for (int i = 0; i < n; i++) { int q = (int) r.below(many ? 8 : 6); switch (q) {
            case 0: if (!never) { bool none = r.chance(.2); v.push_back(mk(I_GLOC, slot, none ? -1 : (int) r.below(c.w.npot))); loc = !none; } break;
            case 1: case 2: case 3: add(q - 1); break;
            case 6: add(0); break; case 7: add(1 + (int) r.below(2)); break;
            default: ev(); } }
        if (!loc && !never && r.chance(.6)) { v.push_back(mk(I_GLOC, slot, (int) r.below(c.w.npot))); loc = true; }
        ev(); };
    if (prop == "C08") {
        s.rounds = 5; int t1 = r.chance(.75) ? 1 : 2; s.th.resize(t1);
        for (int t = 0; t < t1; t++) {
            int n = 2 + (int) r.below(5); u64 used = 0;
            for (int i = 0; i < n; i++) {
                double u = r.uni();
                if (u < .15) s.th[t].push_back(r.chance(.8) ? mk(I_OBJCYCLE, 1 + (int) r.below(50)) : mk(I_OBJCYCLE, (int) r.below(1000), crowd_size(r), (int) r.below(32)));
                else if (u < .22 && t1 == 1) { int k = r.chance(.9) ? 1 : 2 + (int) r.below(8); while (k--) { s.th[t].push_back(mk(r.chance(.3) ? I_FFINI : I_FINI)); s.th[t].push_back(mk(r.chance(.3) ? I_FINIT : I_INIT)); } }
                else if (u < .3) s.th[t].push_back(mk(I_INIT));
                else if (u < .36 && t1 == 1) s.th[t].push_back(mk(I_RESHELL, (int) r.below(c.w.nsh)));
                else if (u < .52) { std::vector<Item> v; grpp_history(v, 0, 1 + (int) r.below(4), true, r.chance(.15)); for (auto &x : v) s.th[t].push_back(x); s.th[t].push_back(mk(I_GDEL, 0)); }
                else { Op o = pick(r, c); u64 st = cost(c, o); if (used + st > 5000000 && used) continue; used += st; s.th[t].push_back(op_item(flagged(r, o, true))); }
            }
            if (s.th[t].empty()) s.th[t].push_back(op_item(pick(r, c)));
        }
        gen_mem(r, s, false); s.mc.reuse = r.chance(.7) ? 1 : .5; s.mc.poison_free = r.chance(.5); gen_sched(r, s, spec_est(c, s)); s.sc.step_cap *= 6; return true;
    }
    if (prop == "C12") {
        int t1 = r.chance(.5) ? 1 : nth > 3 ? 3 : nth; s.th.resize(t1);
        for (int t = 0; t < t1; t++) {
            int ns = 1 + (int) r.below(t1 == 1 ? 3 : 2); std::vector<std::vector<Item>> h(ns); for (int k = 0; k < ns; k++) { grpp_history(h[k], k, 2 + (int) r.below(t1 == 1 ? 9 : 4), true, r.chance(.35)); if (r.chance(.4)) h[k].push_back(mk(I_GDEL, k)); }
            std::vector<size_t> p(ns, 0); for (;;) { std::vector<int> av; for (int k = 0; k < ns; k++) if (p[k] < h[k].size()) av.push_back(k); if (av.empty()) break; int k = av[r.below(av.size())]; s.th[t].push_back(h[k][p[k]++]); }
        }
        if (r.chance(.2)) { int m = 1 + (int) r.below(3); while (m--) { auto &t = s.th[r.below(t1)]; t.insert(t.begin() + r.below(t.size() + 1), mk(I_ORDER, (int) r.below(4), 0)); } }      // outercore shells of one operator in different orders
        if ((int) s.nitems() > SH_MAXOPS - 2) return false;
        gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return spec_est(c, s) < 60000000;
    }
    if (prop == "C16") {                          // ambient state: what the caller left behind must not matter, and must be left alone
        s.amb = 1 + (int) r.below(1 << 30); if (r.chance(.35)) nth = 1; s.preinit = ri % 20 == 0;
        if (s.preinit) { s.th.assign(nth, {}); for (auto &t : s.th) t.push_back(mk(r.chance(.2) ? I_FINIT : I_INIT)); for (auto &t : s.th) for (int k = 0; k < 2; k++) t.push_back(op_item(flagged(r, pick(r, c), true))); }
        else conc_ops(c, r, s, nth, nth == 1 ? 3 + (int) r.below(6) : 1 + (int) r.below(3), budget(r, thorough), true, false);
        for (auto &t : s.th) { for (size_t i = 0; i <= t.size(); i++) if (r.chance(.12)) { t.insert(t.begin() + i, r.chance(.6) ? mk(I_OBJCYCLE, 1 + (int) r.below(30)) : r.chance(.5) ? mk(I_ISINIT) : mk(I_INIT)); i++; } if (s.preinit && t[0].t != I_INIT && t[0].t != I_FINIT) t.insert(t.begin(), mk(I_INIT)); }
        if (nth == 1 && r.chance(.2)) { auto &t = s.th[0]; size_t i = r.below(t.size() + 1); if (!s.preinit || i > 0) { t.insert(t.begin() + i, mk(I_INIT)); t.insert(t.begin() + i, mk(I_FINI)); } }
        if (nth == 1 && r.chance(.25)) grpp_history(s.th[0], 0, 1 + (int) r.below(4), true, false);
        if (r.chance(nth > 1 ? .12 : .3)) { auto &t = s.th[r.below(nth)]; int n = 1 + (int) r.below(2); while (n--) { size_t i = r.below(t.size() + 1); if (s.preinit && !i) i = 1; t.insert(t.begin() + i, nth > 1 || r.chance(.5) ? mk(I_ORDER, (int) r.below(4), 0) : r.chance(.5) ? mk(I_DEFAULTS, r.chance(.25)) : mk(I_TOL, (int) r.below(3), (int) r.below(4), r.chance(.25))); if (t[i].t == I_ORDER && t[i].x[0] < 2) t[i].x[1] = r.chance(.3); } }
        gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C17") {                          // lives of objects: built, copied, changed, deleted, used, by several threads
        if (r.chance(.35)) nth = 1; s.th.resize(nth); int np = 2 + (int) r.below(nth == 1 ? 3 : 5); u64 used = 0;
        struct O { bool live = false; int idx = 0, np = 0; bool mod = false; }; O S[NSLOT], P[NSLOT]; static const std::vector<int> K = {K_OV, K_T1, K_OVG, K_T2, K_KIN, K_SO, K_MOM, K_T1G, K_NUC, K_POTVAL, K_POTVAL, K_T2G, K_SOG};
        if (r.chance(.4)) for (int i = 0; i < c.w.nsh; i++) if (r.chance(.4)) s.shord |= (u64) (1 + r.below(3)) << (2 * i);
        bool hall = r.chance(.12);                 // crowds of objects among the others
        for (int ph = 0; ph < np; ph++) {
            if (hall) for (auto &t : s.th) if (r.chance(.4)) t.push_back(mk(I_OBJCYCLE, (int) r.below(1000), nth == 1 ? crowd_size(r) : 5 + (int) r.below(r.chance(.7) ? 40 : 200), (int) r.below(16)));
            if (r.chance(.25)) { s.th[r.below(nth)].push_back(mk(I_ORDER, (int) r.below(4))); for (auto &t : s.th) t.push_back(mk(I_BAR, 20 + ph)); }
            int owner[2][NSLOT]; for (auto &q : owner) for (int &x : q) x = r.chance(.6) ? (int) r.below(nth) : -1;      // -1: everybody may use it, nobody may change it
            for (int t = 0; t < nth; t++) { int n = 1 + (int) r.below(nth == 1 ? 10 : 5); for (int k = 0; k < n; k++) {
                double u = r.uni(); int q = r.chance(.7) ? 0 : 1, z = (int) r.below(NSLOT); O *T = q ? P : S; int cnt = q ? c.w.npot : c.w.nsh; auto &v = s.th[t];
                auto usable = [&](int q2, int k2) { return (q2 ? P : S)[k2].live && (owner[q2][k2] == t || owner[q2][k2] == -1); };
                if (u < .55) {
                    if (owner[q][z] != t) { bool f = false; for (int y = 0; y < NSLOT && !f; y++) if (owner[q][(z + y) % NSLOT] == t) { z = (z + y) % NSLOT; f = true; } if (!f) continue; }
                    if (T[z].live) {
                        if (q == 0 && r.chance(.4)) { int m = (int) r.below(3); if (m == 2 && T[z].np < 2) m = 1; if (m == 2) T[z].np--; T[z].mod = true; v.push_back(mk(I_SMOD, z, m)); }
                        else if (r.chance(.6)) { v.push_back(mk(q ? I_PDEL : I_SDEL, z)); T[z].live = false; }
                    } else {
                        int src = -1; for (int y = 0, y0 = (int) r.below(NSLOT); y < NSLOT; y++) if ((y0 + y) % NSLOT != z && usable(q, (y0 + y) % NSLOT)) { src = (y0 + y) % NSLOT; break; }
                        double w = r.uni(); if (src >= 0 && w < .55) { v.push_back(mk(q ? I_PCOPY : I_SCOPY, z, src)); T[z] = T[src]; }
                        else { int j = (int) r.below(cnt); v.push_back(w < .75 ? mk(q ? I_PCOPY : I_SCOPY, z, 16 + j) : mk(q ? I_PNEW : I_SNEW, z, j)); T[z] = {true, j, q ? 1 : c.w.sh[j].nnz(), false}; }
                    }
                } else {
                    std::vector<int> ok; for (int y = 0; y < NSLOT; y++) if (usable(0, y)) ok.push_back(y); std::vector<int> okp; for (int y = 0; y < NSLOT; y++) if (usable(1, y)) okp.push_back(y);
                    int A = ok.empty() || r.chance(.15) ? -1 : ok[r.below(ok.size())], B = ok.empty() || r.chance(.3) ? -1 : ok[r.below(ok.size())], Q = okp.empty() || r.chance(.2) ? -1 : okp[r.below(okp.size())]; if (A < 0 && B < 0 && Q < 0) continue;
                    Op o; bool good = false; for (int y = 0; y < 12 && !good; y++) { o = gen_op(r, c.w, K[r.below(y < 6 ? K.size() : 3)], 300000); if (A >= 0) o.a = S[A].idx; if (B >= 0) o.b = S[B].idx; if (Q >= 0) o.p = P[Q].idx < 6 ? P[Q].idx : o.p; good = op_est(c.w, o) < log(1500000.0); }
                    if (!good) continue; o.d = r.chance(.5) ? c.w.sh[o.a].ctr : c.w.sh[o.b].ctr; if ((o.kind == K_T2G || o.kind == K_SOG || o.kind == K_SO || o.kind == K_T2) && cost(c, ref_op(o)) > 4000000) continue; if (o.kind == K_POTVAL && Q < 0) continue; u64 e = (u64) exp(op_est(c.w, o)); if (used + e > 8000000) continue; used += e; if (r.chance(.15)) o.flags = OF_COPY;
                    Item i = mk(I_SEVAL, A, B, Q); i.op = o; v.push_back(i);
                } } }
            for (auto &t : s.th) t.push_back(mk(I_BAR, ph + 1));
        }
        if (nth > 1 && r.chance(.3)) {             // a rush: everybody copies, uses and drops copies of the same few objects
            int cp = (int) r.below(c.w.npot), cs = (int) r.below(c.w.nsh), per = 2 + (int) r.below(12), q0 = r.chance(.5) ? 1 : 0; double bias = r.chance(.5) ? 1 : .6;
            for (int t = 0; t < nth && t < NSLOT; t++) for (int k = 0; k < per && s.nitems() + 3 * (nth - t) + 40 < SH_MAXOPS; k++) {
                int z = t, q = r.chance(bias) ? q0 : 1 - q0; O *T = q ? P : S; auto &v = s.th[t]; int src = 16 + (q ? cp : cs);
                if (T[z].live) { if (q && r.chance(.4)) { Op o = gen_op(r, c.w, K_POTVAL, 1e6); Item i = mk(I_SEVAL, -1, -1, z); i.op = o; v.push_back(i); } else { v.push_back(mk(q ? I_PDEL : I_SDEL, z)); T[z].live = false; } }
                else { v.push_back(mk(q ? I_PCOPY : I_SCOPY, z, src)); T[z] = {true, q ? cp : cs, q ? 1 : c.w.sh[cs].nnz(), false}; }
            }
            for (auto &t : s.th) t.push_back(mk(I_BAR, 60));
            for (int t = 0; t < nth; t++) { Op o = gen_op(r, c.w, K_POTVAL, 1e6); o.p = cp; s.th[t].push_back(op_item(o)); }
        }
        for (int z = 0; z < NSLOT; z++) { if (S[z].live && r.chance(.8)) { Op o = gen_op(r, c.w, K_OV, 1e6); o.a = o.b = S[z].idx; Item i = mk(I_SEVAL, z, r.chance(.5) ? z : -1, -1); i.op = o; s.th[r.below(nth)].push_back(i); } if (P[z].live && r.chance(.8)) { Op o = gen_op(r, c.w, K_POTVAL, 1e6); Item i = mk(I_SEVAL, -1, -1, z); i.op = o; s.th[r.below(nth)].push_back(i); } }
        if (s.nitems() > SH_MAXOPS - 2) return false; gen_mem(r, s, true); s.dirty = r.chance(.2); gen_sched(r, s, spec_est(c, s)); return s.nitems() > np * nth;
    }
    if (prop == "C04") {
        if (crowd) nth = many; double u = r.uni(); int base = u < .3 ? 0 : u < .85 ? 1 : 2;      // 0: cold start, 1: after a finalise, 2: already initialised
        int light = 0;
        if (base == 0) { s.preinit = true; }
        s.th.resize(nth); if (base == 1) for (int t = 0; t < nth; t++) { if (t == 0) s.th[t].push_back(mk(I_FINI)); s.th[t].push_back(mk(I_BAR, 1)); }
        int inits = 0;
        for (int t = 0; t < nth; t++) {
            auto &v = s.th[t]; int k = (int) r.below(base == 0 || base == 1 ? 6 : 4); if (t == nth - 1 && !inits) k = 0; auto op = [&]() { for (int q = 0; q < 20; q++) { Op o = pick(r, c); if (o.kind == K_NORM) continue; return o; } return pick(r, c); };
            int I = r.chance(.2) ? I_FINIT : I_INIT;
            switch (k) {
                case 0: case 1: v.push_back(mk(I)); v.push_back(op_item(flagged(r, op(), true))); v.push_back(mk(I_ISINIT)); inits++; break;
                case 2: v.push_back(mk(I_ISINIT)); { Item i = op_item(op()); i.x[0] = 1; v.push_back(i); } v.push_back(mk(I)); v.push_back(mk(I_ISINIT)); v.push_back(op_item(op())); inits++; break;
                case 3: v.push_back(mk(I)); v.push_back(mk(I_INIT)); v.push_back(op_item(op())); v.push_back(mk(I_INIT)); v.push_back(op_item(op())); inits++; break;
                case 4: v.push_back(mk(I_WAITINIT)); v.push_back(op_item(flagged(r, op(), true))); break;
                case 5: for (int q = 0; q < 3; q++) { Item i = op_item(op()); i.x[0] = 1; v.push_back(i); } v.push_back(mk(I_WAITINIT)); v.push_back(op_item(op())); break;
            }
        }
        if (!inits) s.th[0].push_back(mk(I_INIT));
        (void) light; gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); if (s.preinit || base == 1) { if (s.sc.policy == POL_RANDOM && s.sc.interval < 200) s.sc.burst = 50, s.sc.gap = s.sc.est_steps / 20.0; } return true;
    }
    if (prop == "C05") {
        s.preinit = ri % 10 == 0; if (r.chance(.3)) nth = 1; else if (crowd) nth = many; s.th.resize(nth); int st = s.preinit ? 0 : 1, np = 3 + (int) r.below(6); if (crowd) np = 3;
        if (r.chance(.15)) { int w = (int) r.below(nth); if (r.chance(.6)) s.th[w].push_back(mk(I_ORDER, (int) r.below(4))); if (r.chance(.5)) s.th[w].push_back(mk(I_TOL, (int) r.below(3), (int) r.below(4))); for (auto &t : s.th) t.push_back(mk(I_BAR, 42)); }
        if (!s.preinit && nth <= 3 && r.chance(.12)) {      // many in a row: repeated calls without effect, or a long life of cycles
            int w = (int) r.below(nth); auto &v = s.th[w]; bool f = r.chance(.4), cyc = r.chance(.4); int n = cyc ? 3 + (int) r.below(40) : r.chance(.5) ? 20 + (int) r.below(280) : 2 + (int) r.below(20);
            if (f) { v.push_back(mk(I_FINI)); st = 0; }
            for (int k = 0; k < n; k++) { if (cyc) { v.push_back(mk(st ? r.chance(.2) ? I_FFINI : I_FINI : r.chance(.2) ? I_FINIT : I_INIT)); st = !st; if (st && r.chance(.1)) v.push_back(op_item(flagged(r, pick(r, c), true))); } else v.push_back(mk(st ? I_INIT : I_FINI)); if (r.chance(.05)) v.push_back(mk(I_ISINIT)); }
            v.push_back(mk(I_ISINIT)); if (r.chance(.5)) { v.push_back(mk(st ? I_FINI : I_INIT)); st = !st; v.push_back(mk(I_ISINIT)); } for (auto &t : s.th) t.push_back(mk(I_BAR, 41));
        }
        for (int ph = 0; ph < np; ph++) {
            double u = r.uni(); bool last = ph == np - 1;
            if (last && st == 0) { int w = (int) r.below(nth); s.th[w].push_back(mk(I_INIT)); for (auto &t : s.th) t.push_back(mk(I_BAR, 40)); st = 1; u = .99; } else if (last) u = .99;
            if (u < .3) { int m = r.chance(.5) ? 1 : 1 + (int) r.below(nth); for (int k = 0; k < m; k++) { int w = (int) r.below(nth); s.th[w].push_back(mk(r.chance(.2) ? I_FFINI : I_FINI)); if (r.chance(.5)) s.th[w].push_back(mk(I_ISINIT)); if (r.chance(.2)) s.th[w].push_back(mk(I_FINI)); } st = 0; }
            else if (u < .65) { int m = r.chance(.5) ? 1 : 1 + (int) r.below(nth); for (int k = 0; k < m; k++) { int w = (int) r.below(nth); s.th[w].push_back(mk(r.chance(.2) ? I_FINIT : I_INIT)); if (r.chance(.5)) s.th[w].push_back(mk(I_ISINIT)); if (r.chance(.3)) s.th[w].push_back(mk(I_INIT)); if (r.chance(.3)) s.th[w].push_back(op_item(flagged(r, pick(r, c), true))); } st = 1; }
            else if (u < .72) { int w = (int) r.below(nth); int m = 2 + (int) r.below(4); for (int k = 0; k < m; k++) { bool f = r.chance(.5); s.th[w].push_back(mk(f ? I_FINI : I_INIT)); st = !f; s.th[w].push_back(mk(I_ISINIT)); } }
            else { for (auto &t : s.th) { t.push_back(mk(I_ISINIT)); if (st) { int m = 1 + (last ? 1 : (int) r.below(2)); for (int k = 0; k < m; k++) t.push_back(op_item(flagged(r, pick(r, c), true))); } } }
            for (auto &t : s.th) t.push_back(mk(I_BAR, ph + 1));
        }
        gen_mem(r, s, true); s.dirty = r.chance(.3); gen_sched(r, s, spec_est(c, s)); return s.nitems() < SH_MAXOPS;
    }
    if (prop == "C09") {
        if (r.chance(.4)) nth = 1; s.th.resize(nth); for (int i = 0; i < c.w.nsh; i++) if (r.chance(.5)) s.shord |= (u64) (1 + r.below(3)) << (2 * i); if (r.chance(.4)) for (int i = 0; i < c.w.noc; i++) if (r.chance(.6)) s.shord |= (u64) (1 + r.below(3)) << (32 + 2 * i);
        int np = 2 + (int) r.below(3); u64 used = 0;
        for (int ph = 0; ph < np; ph++) {
            int w = (int) r.below(nth);                                    // settings that must be known: one thread
            int m = (int) r.below(4);
            for (int k = 0; k < m; k++) { double u = r.uni();
                if (u < .4) s.th[w].push_back(mk(I_TOL, (int) r.below(3), (int) r.below(4), r.chance(.25)));
                else if (u < .6) s.th[w].push_back(mk(I_DEFAULTS, r.chance(.25)));
                else if (u < .85) s.th[w].push_back(mk(I_ORDER, (int) r.below(4)));
                else s.th[w].push_back(mk(I_RESHELL, (int) r.below(c.w.nsh))); }
            if (r.chance(.25)) { auto &v = s.th[w]; bool f = r.chance(.5); size_t i = v.size() - (m ? r.below(m + 1) : 0); v.insert(v.begin() + i, mk(r.chance(.2) ? I_FINIT : I_INIT)); if (f) v.insert(v.begin() + i, mk(r.chance(.2) ? I_FFINI : I_FINI)); }      // settings outlive initialisation and finalisation
            for (auto &t : s.th) t.push_back(mk(I_BAR, 2 * ph));
            int og = nth > 1 && r.chance(.7) ? (int) r.below(nth) : -1;      // this thread keeps changing the order meanwhile
            for (int t = 0; t < nth; t++) if (t == og) { int q = 2 + (int) r.below(8); for (int k = 0; k < q; k++) { s.th[t].push_back(mk(I_ORDER, (int) r.below(4), r.chance(.2))); if (s.th[t].back().x[0] > 1) s.th[t].back().x[1] = 0; } }
                else { int q = 1 + (int) r.below(2); for (int k = 0; k < q; k++) { Op o = pick(r, c); u64 stp = cost(c, o); if (used + stp > (thorough ? 60000000u : 12000000u) && used) continue; used += stp; double u = r.uni(); o.flags = u < .25 ? OF_COPY : u < .35 && og < 0 ? OF_FRESH : u < .42 && og < 0 && kind_has_fortran(o.kind) ? OF_FORTRAN : 0; s.th[t].push_back(op_item(o)); } }
            for (auto &t : s.th) t.push_back(mk(I_BAR, 2 * ph + 1));
            if (nth == 1 && r.chance(.3)) s.th[0].push_back(mk(I_OBJCYCLE, 1 + (int) r.below(20)));
        }
        gen_mem(r, s, false); gen_sched(r, s, spec_est(c, s)); if (nth > 1 && r.chance(.5)) { s.sc.policy = POL_RANDOM; s.sc.interval = 1 + s.sc.est_steps / (3.0 + r.below(60)); s.sc.burst = 0; s.sc.p_stall = .3; s.sc.stall_len = s.sc.est_steps / 4 + 10; } return s.nitems() < SH_MAXOPS;
    }
    if (prop == "C10" && r.chance(.15)) {          // the allocator refuses while several threads are at work
        conc_ops(c, r, s, nth, 1 + (int) r.below(2), 4000000, true, false); u64 na = 0; Deriv d = derive(s, c.w); for (auto &e : d.e) if (e.mode) na += get_ref(c, e).allocs + 8;
        s.failk = (int) r.below(na ? na : 1); s.failmode = r.chance(.5); s.watch = r.chance(.5); gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C10" && r.chance(.18)) {          // ... while an operator is put together, used, extended and deleted
        s.th.resize(1); auto &v = s.th[0]; grpp_history(v, 0, 2 + (int) r.below(7), true, r.chance(.5)); if (r.chance(.3)) { v.push_back(mk(I_GDEL, 0)); grpp_history(v, 0, 1 + (int) r.below(3), false, false); }
        if ((int) v.size() > 60) return false; std::vector<int> cand; for (size_t i = 0; i < v.size(); i++) { int y = v[i].t; cand.push_back((int) i); if (y == I_GAREP || y == I_GESOP || y == I_GOC || y == I_GLOC) for (int k = 0; k < 3; k++) cand.push_back((int) i); }
        s.failitem = cand[r.below(cand.size())]; Item &f = v[s.failitem]; u64 na = f.t == I_GNEW ? 5 : f.t == I_GLOC || f.t == I_GDEL ? 5 : f.t == I_GEVAL || f.t == I_GGRAD ? 40 : (f.x[2] < 1 ? 1 : f.x[2]) * (f.t == I_GOC ? 9 : 4) + 2;
        s.failk = (int) r.below(na); s.failmode = r.chance(.4); s.watch = r.chance(.3); gen_mem(r, s, true); gen_sched(r, s, spec_est(c, s)); return spec_est(c, s) < 60000000;
    }
    if (prop == "C10") {
        s.th.resize(1); double u = r.uni();
        Item first; u64 na = 0; std::vector<AllocSite> sites;
        if (u < .06) { s.preinit = true; first = mk(I_INIT); na = 14; }
        else if (u < .12) { first = mk(I_OBJCYCLE, 1 + (int) r.below(30)); na = 120; }
        else if (u < .17) { first = mk(I_RESHELL, (int) r.below(c.w.nsh)); na = 4; }
        else if (u < .20) { first = mk(I_GNEW, 0); na = 1; }
        else { Op o = flagged(r, pick(r, c), true); first = op_item(o); Op q = ref_op(o); Spec t; t.wseed = s.wseed; t.lmax = s.lmax; t.th.resize(1); t.th[0].push_back(op_item(q)); const RefVal &rv = get_ref(c, derive(t, c.w).e[0]); na = rv.allocs + (o.flags ? 12 : 0); if (o.flags == 0) sites = rv.sites; }
        if (na == 0) na = 1;
        s.failk = (int) r.below(r.chance(.5) ? na : std::min<u64>(na, 12)); if (!sites.empty() && r.chance(.7)) { auto &a = sites[r.below(sites.size())]; double v = r.uni(); s.failk = v < .35 ? a.first : v < .55 ? a.last : a.mid; }      // every place that allocates, however rarely it does
        s.failmode = r.chance(.5); s.th[0].push_back(first);
        if (s.preinit) { s.th[0].push_back(mk(I_ISINIT)); }
        if (first.t == I_GNEW) { s.th[0].push_back(mk(I_GLOC, 0, 0)); Item e = mk(I_GEVAL, 0); e.op = gen_op(r, c.w, K_T1, 1e6); e.op.kind = 0; e.op.p = e.op.m = 0; s.th[0].push_back(e); }
        else if (first.t == I_RESHELL) { for (int k = 0; k < 2; k++) { Op o = pick(r, c); if (o.kind != K_NORM) { o.a = first.x[0]; if (cost(c, o) > 3000000) continue; } s.th[0].push_back(op_item(o)); } }
        int n = 1 + (int) r.below(2); for (int i = 0; i < n; i++) s.th[0].push_back(op_item(flagged(r, r.chance(.5) && first.t == I_OP ? first.op : pick(r, c), true)));
        gen_mem(r, s, true); s.watch = first.t != I_RESHELL; gen_sched(r, s, spec_est(c, s)); return true;
    }
    if (prop == "C11") {
        nth = 2 + (int) r.below(4); if (crowd) nth = many; s.th.resize(nth); s.preinit = ri % 25 == 0; bool st = !s.preinit; int np = 2 + (int) r.below(4);
        for (int ph = 0; ph < np; ph++) {
            double u = r.uni(); bool life = !st || u < .55;
            for (auto &t : s.th) { int m = 1 + (int) r.below(3); if (!life && r.chance(.15)) { grpp_history(t, 1, 1 + (int) r.below(4), true, false); if (r.chance(.7)) t.push_back(mk(I_GDEL, 1)); m--; } for (int k = 0; k < m; k++) { double q = r.uni();
                if (life) t.push_back(q < .4 ? mk(r.chance(.2) ? I_FINIT : I_INIT) : q < .65 ? mk(r.chance(.2) ? I_FFINI : I_FINI) : q < .75 ? mk(I_ISINIT) : q < .85 ? mk(I_ORDER, (int) r.below(4)) : q < .92 ? mk(I_TOL, (int) r.below(3), (int) r.below(4)) : q < .95 ? mk(I_DEFAULTS) : mk(I_OBJCYCLE, 1 + (int) r.below(9)));
                else t.push_back(q < .2 ? mk(r.chance(.2) ? I_FINIT : I_INIT) : q < .28 ? mk(I_ISINIT) : q < .36 ? mk(I_ORDER, (int) r.below(2)) : q < .42 ? mk(I_TOL, (int) r.below(3), (int) r.below(4)) : q < .48 ? mk(I_OBJCYCLE, 1 + (int) r.below(9)) : op_item(flagged(r, pick(r, c), true))); } }
            for (auto &t : s.th) t.push_back(mk(I_BAR, 3 * ph + 1));
            if (life) { int w = (int) r.below(nth); s.th[w].push_back(mk(I_INIT)); for (auto &t : s.th) t.push_back(mk(I_BAR, 3 * ph + 2)); st = true; }
        }
        gen_mem(r, s, false); gen_sched(r, s, spec_est(c, s)); s.sc.p_stall = r.chance(.7) ? .1 + .6 * r.uni() : 0; s.sc.stall_len = (u64) exp(log(50.0) + r.uni() * log(1e6)); if (r.chance(.5)) { s.sc.policy = POL_SYNC; s.sc.p = .3 + .6 * r.uni(); }
        s.sc.step_cap += 200000000; return s.nitems() < SH_MAXOPS;
    }
    return false;
}

bool gen_spec(WCtx &c, const std::string &prop, Rng &r, bool thorough, u64 ri, Spec &s) {
    if (!gen_spec0(c, prop, r, thorough, ri, s)) return false;
    size_t vals = 0; for (auto &t : s.th) for (auto &i : t) { int a = 0, l = 0; if (i.t != I_DRIVER) { item_values(c.w, i, a, l); vals += (size_t) a * l; } }
    while (vals > SH_MAXVALS - 1000 && s.th.size() == 1 && s.failk < 0) { int a = 0, l = 0; item_values(c.w, s.th[0].back(), a, l); vals -= (size_t) a * l; s.th[0].pop_back(); }
    if (vals > SH_MAXVALS - 1000) return false;
    Rng q(r.next()); int n = (int) s.th.size();            // the caller's threads: unrelated ones, or the team of a parallel region, a small or a large one
    if (prop != "C14" && prop != "C10" && n > 1 && q.chance(.35)) s.omp = q.chance(.5) ? n : q.chance(.5) ? 64 : 256;
    return true;
}
