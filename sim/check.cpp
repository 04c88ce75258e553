#include "check.h"
#include <ctime>
#include <cmath>
#include <cstdio>
#include <sstream>

Op ref_op(Op o) { o.flags = 0; return o; }
// ------------------------------------------------------------------ what each call must return
static bool is_eval(int t) { return t == I_OP || t == I_GEVAL || t == I_GGRAD || t == I_GREF || t == I_DRIVER || t == I_SEVAL; }
static bool kind_grad(int k) { return k == K_T1G || k == K_T2G || k == K_SOG || k == K_OCG || k == K_FULLG || k == K_OVG; }
struct GSlot { bool live = false; int loc = -1; std::vector<int> a, s, o; };
struct OSlot { bool live = false; int idx = -1, np = 0; std::vector<Item> rec; int ord = 0; };                     // how the object in a slot came about
enum { MAXTERMS = 100 };      // capacity of the term lists of an operator

Deriv derive(const Spec &s, const WorldSpec &w) {
    Deriv d; int nth = (int) s.th.size(); std::vector<int> base; { int k = 0; for (auto &t : s.th) { base.push_back(k); k += (int) t.size(); } d.e.resize(k); }
    std::vector<size_t> pos(nth, 0);
    int tol[3] = {-1, -1, -1}, order = 0, initd = s.preinit ? 0 : 1;      // -2 unknown
    std::vector<int> shord; for (int i = 0; i < w.nsh; i++) shord.push_back(s.shord >> (2 * i) & 3);
    std::vector<std::vector<GSlot>> slots(nth, std::vector<GSlot>(4));
    std::vector<OSlot> os(NSLOT), op(NSLOT); auto bad = [&](const char *why) { if (d.valid) { d.valid = false; d.why = why; } };
    for (;;) {
        std::vector<std::pair<size_t, size_t>> rg; bool any = false;
        for (int t = 0; t < nth; t++) { size_t b = pos[t]; while (b < s.th[t].size() && s.th[t][b].t != I_BAR) b++; rg.push_back({pos[t], b}); if (pos[t] < s.th[t].size()) any = true; }
        if (!any) break;
        int ntol = 0, nord = 0, nini = 0, nfin = 0; std::vector<int> T(nth, 0), O(nth, 0), I(nth, 0), F(nth, 0);
        for (int t = 0; t < nth; t++) for (size_t k = rg[t].first; k < rg[t].second; k++) switch (s.th[t][k].t) {
            case I_TOL: T[t] = 1; break; case I_DEFAULTS: T[t] = O[t] = 1; break; case I_ORDER: O[t] = 1; break;
            case I_INIT: case I_FINIT: I[t] = 1; break; case I_FINI: case I_FFINI: F[t] = 1; break; }
        for (int t = 0; t < nth; t++) { ntol += T[t]; nord += O[t]; nini += I[t]; nfin += F[t]; }
        u32 touch[2][NSLOT] = {{0}}, wr[2][NSLOT] = {{0}};       // objects touched and changed by each thread between two barriers
        auto mark = [&](int q, int k, int t, bool w) { if (k < 0 || k >= NSLOT) { if (k < 16) bad("no such slot"); return; } touch[q][k] |= 1u << t; if (w) wr[q][k] |= 1u << t; };
        for (int t = 0; t < nth; t++) for (size_t k = rg[t].first; k < rg[t].second; k++) { const Item &it = s.th[t][k]; switch (it.t) {
            case I_SNEW: case I_SMOD: case I_SDEL: mark(0, it.x[0], t, true); break; case I_SCOPY: mark(0, it.x[0], t, true); mark(0, it.x[1], t, false); break;
            case I_PNEW: case I_PDEL: mark(1, it.x[0], t, true); break; case I_PCOPY: mark(1, it.x[0], t, true); mark(1, it.x[1], t, false); break;
            case I_SEVAL: if (it.x[0] >= 0) mark(0, it.x[0], t, false); if (it.x[1] >= 0) mark(0, it.x[1], t, false); if (it.x[2] >= 0) mark(1, it.x[2], t, false); break; } }
        for (int q = 0; q < 2; q++) for (int k = 0; k < NSLOT; k++) if (wr[q][k] && (touch[q][k] & (touch[q][k] - 1))) bad("an object is changed by one thread while another uses it");
        if (!d.valid) return d;
        int etol[3], eord = order, einit = initd; for (int k = 0; k < 3; k++) etol[k] = tol[k];
        std::vector<int> esh = shord;
        for (int t = 0; t < nth; t++) {
            int mt[3]; for (int k = 0; k < 3; k++) mt[k] = ntol - T[t] > 0 ? -2 : tol[k];
            int mo = nord - O[t] > 0 ? -2 : order; bool oth_i = nini - I[t] > 0, oth_f = nfin - F[t] > 0;
            int mi = (oth_f && initd != 0) ? -2 : (oth_i && initd != 1) ? -2 : initd; if (initd == -2) mi = -2;
            for (size_t k = rg[t].first; k < rg[t].second; k++) {
                const Item &it = s.th[t][k]; Exp &e = d.e[base[t] + k];
                switch (it.t) {
                    case I_TOL: mt[it.x[0] % 3] = ntol - T[t] > 0 ? -2 : (it.x[1] & 3); break;
                    case I_DEFAULTS: for (int q = 0; q < 3; q++) mt[q] = ntol - T[t] > 0 ? -2 : -1; mo = nord - O[t] > 0 ? -2 : 0; break;
                    case I_ORDER: mo = nord - O[t] > 0 ? -2 : it.x[0]; break;
                    case I_INIT: case I_FINIT: mi = oth_f ? -2 : 1; break;
                    case I_FINI: case I_FFINI: mi = oth_i ? -2 : 0; break;
                    case I_WAITINIT: if (oth_f) { d.valid = false; d.why = "waits while others finalise"; } if (mi != 1 && !oth_i && !(initd == 1)) { d.valid = false; d.why = "nobody initialises"; } mi = 1; break;
                    case I_ISINIT: if (mi >= 0) { e.mode = 3; e.cval = mi; } break;
                    case I_OBJCYCLE: if (it.x[1] > 0 && nord - O[t] > 0) bad("objects compared while others change the order"); break;
                    case I_RESHELL: esh[it.x[0]] = mo; shord[it.x[0]] = mo; break;
                    case I_GNEW: if (s.rounds > 1 && slots[t][it.x[0]].live) bad("operator lost"); slots[t][it.x[0]] = GSlot(); slots[t][it.x[0]].live = true; break;
                    case I_SNEW: { OSlot &o = os[it.x[0]]; if (o.live || mo < 0) bad("slot in use"); Item n = it; n.x[0] = 0; o = {true, it.x[1], w.sh[it.x[1]].nnz(), {n}, mo}; break; }
                    case I_SCOPY: { OSlot &o = os[it.x[0]]; if (o.live) bad("slot in use"); if (it.x[1] >= 16) { int j = it.x[1] - 16; if (shord[j] < 0) bad("unknown order"); Item n; n.t = I_SNEW; n.x[1] = j; o = {true, j, w.sh[j].nnz(), {n}, shord[j]}; } else { if (it.x[1] == it.x[0] || !os[it.x[1]].live) bad("copy of nothing"); o = os[it.x[1]]; } break; }
                    case I_SMOD: { OSlot &o = os[it.x[0]]; if (!o.live) bad("slot empty"); if (it.x[1] == 2 && --o.np < 1) bad("empty shell"); Item n = it; n.x[0] = 0; o.rec.push_back(n); break; }
                    case I_SDEL: if (!os[it.x[0]].live) bad("slot empty"); os[it.x[0]] = OSlot(); break;
                    case I_PNEW: { OSlot &o = op[it.x[0]]; if (o.live) bad("slot in use"); Item n = it; n.x[0] = 0; o = {true, it.x[1], 1, {n}}; break; }
                    case I_PCOPY: { OSlot &o = op[it.x[0]]; if (o.live) bad("slot in use"); if (it.x[1] >= 16) { Item n; n.t = I_PNEW; n.x[1] = it.x[1] - 16; o = {true, n.x[1], 1, {n}}; } else { if (it.x[1] == it.x[0] || !op[it.x[1]].live) bad("copy of nothing"); o = op[it.x[1]]; } break; }
                    case I_PDEL: if (!op[it.x[0]].live) bad("slot empty"); op[it.x[0]] = OSlot(); break;
                    case I_SEVAL: if (it.x[0] >= 0 && (!os[it.x[0]].live || os[it.x[0]].idx != it.op.a) || it.x[1] >= 0 && (!os[it.x[1]].live || os[it.x[1]].idx != it.op.b) || it.x[2] >= 0 && !op[it.x[2]].live) bad("slot empty"); break;
                    case I_GDEL: if (!slots[t][it.x[0]].live) bad("operator deleted twice"); slots[t][it.x[0]].live = false; break;
                    case I_GLOC: slots[t][it.x[0]].loc = it.x[1] < 0 ? -1 : it.x[1] % w.npot; break;
                    case I_GAREP: for (int q : added_terms(it, w.npot)) slots[t][it.x[0]].a.push_back(q); if (slots[t][it.x[0]].a.size() > MAXTERMS) { d.valid = false; d.why = "too many terms"; } break;
                    case I_GESOP: for (int q : added_terms(it, w.npot)) slots[t][it.x[0]].s.push_back(q); if (slots[t][it.x[0]].s.size() > MAXTERMS) { d.valid = false; d.why = "too many terms"; } break;
                    case I_GOC: for (int q : added_terms(it, w.noc)) slots[t][it.x[0]].o.push_back(q); if (slots[t][it.x[0]].o.size() > MAXTERMS) { d.valid = false; d.why = "too many terms"; } break;
                }
                if (!d.valid) return d;
                if (it.t >= I_GLOC && it.t <= I_GGRAD && !slots[t][it.x[0]].live && it.t != I_GNEW && it.t != I_GDEL) { d.valid = false; d.why = "operator used before creation"; }
                if (!is_eval(it.t)) continue;
                if (oth_f || F[t] && mi == -2) { d.valid = false; d.why = "evaluation while another thread finalises"; }
                bool cond = it.t == I_OP && it.x[0] == 1;
                bool needs_init = it.t != I_DRIVER && !(it.t == I_OP && (it.op.kind == K_NMOD || it.op.kind == K_POTVAL || it.op.kind == K_OBJ || it.op.kind == K_SHRINK || it.op.kind == K_NORM));
                if (needs_init && mi != 1 && !cond) { d.valid = false; d.why = "evaluation before initialisation"; }
                int oa, ob; bool own = it.t == I_OP && (it.op.flags & (OF_FRESH | OF_FORTRAN));
                oa = own || it.op.kind == K_NORM ? mo : shord[it.op.a]; ob = own ? mo : shord[it.op.b]; if (it.t == I_SEVAL) { if (it.x[0] >= 0) oa = os[it.x[0]].ord; if (it.x[1] >= 0) ob = os[it.x[1]].ord; }
                bool tolunk = mt[0] == -2 || mt[1] == -2 || mt[2] == -2;
                bool raw = it.t == I_OP && it.op.kind == K_OBJ && (mo || oa);      // reports component lists as they are
                if (tolunk || oa == -2 || ob == -2 || raw) { e.mode = 0; continue; }
                Item ri; Spec &r = e.ref; r.prop = s.prop; r.wseed = s.wseed; r.lmax = s.lmax; r.onmain = 1; r.lean = true; r.th.resize(1);
                r.outfill = 0; r.mc = MemCfg();
                for (int q = 0; q < 3; q++) if (mt[q] >= 0) { Item ti; ti.t = I_TOL; ti.x[0] = q; ti.x[1] = mt[q]; r.th[0].push_back(ti); }
                e.mode = 1; e.tol = 1e-11; std::string extra;
                if (it.t == I_OP) { ri.t = I_OP; ri.op = ref_op(it.op); if ((it.op.flags & OF_FORTRAN) && it.op.kind == K_OC) { e.mode = 2; e.tol = 1e-10; } }
                else if (it.t == I_SEVAL) {
                    ri = it; ri.op = ref_op(it.op); for (int q = 0; q < 3; q++) if (it.x[q] >= 0) { ri.x[q] = q == 1 ? 1 : 0; OSlot &o = q < 2 ? os[it.x[q]] : op[it.x[q]]; for (Item n : o.rec) { n.x[0] = q == 1 ? 1 : 0; r.th[0].push_back(n); extra += std::to_string(n.t) + ":" + std::to_string(n.x[0]) + "," + std::to_string(n.x[1]) + ";"; } }
                }
                else if (it.t == I_GREF) ri = it;
                else if (it.t == I_DRIVER) { ri = it; ri.x[0] = 1; e.mode = 2; e.tol = 1e-11; }
                else {
                    GSlot &g = slots[t][it.x[0]]; ri.t = I_GREF; ri.op = it.op; ri.op.m = it.t == I_GGRAD; ri.op.flags = 0; ri.op.p = 0; ri.op.kind = 0;
                    if (it.t == I_GEVAL) ri.op.d = 0;
                    if (g.loc >= 0) ri.tl[0] = {g.loc}; ri.tl[1] = g.a; ri.tl[2] = g.s; ri.tl[3] = g.o; e.mode = 2; e.tol = 1e-11;
                }
                if (s.shord >> 32 && it.t == I_OP && (it.op.kind == K_OC || it.op.kind == K_OCG || it.op.kind == K_FULL || it.op.kind == K_FULLG) && e.mode == 1) { e.mode = 2; e.tol = 1e-10; }      // outercore shells of other orders: sums in another sequence
                if (oa || ob) { e.ordA = oa; e.ordB = ob; if (e.mode == 1) { e.mode = 2; } }
                r.th[0].push_back(ri);
                char b[200]; snprintf(b, sizeof b, "%d,%d,%d|%d %d %d %d %d|", mt[0], mt[1], mt[2], ri.t, ri.x[0], ri.x[1], ri.x[2], ri.x[3]); e.key = std::string(b) + extra + op_text(ri.op); for (auto &v : ri.tl) { e.key += '/'; for (int q : v) e.key += std::to_string(q) + ','; }
            }
            if (T[t]) for (int k = 0; k < 3; k++) etol[k] = ntol > 1 ? -2 : mt[k];
            if (O[t]) eord = nord > 1 ? -2 : mo;
        }
        if (nini && nfin) { bool single = nth == 1; int cnt = 0, who = -1; for (int t = 0; t < nth; t++) if (I[t] || F[t]) { cnt++; who = t; } if (single || cnt == 1) { int st = initd; for (size_t k = rg[who].first; k < rg[who].second; k++) { int y = s.th[who][k].t; if (y == I_INIT || y == I_FINIT) st = 1; if (y == I_FINI || y == I_FFINI) st = 0; } einit = st; } else einit = -2; }
        else if (nini) einit = 1; else if (nfin) einit = 0;
        for (int k = 0; k < 3; k++) tol[k] = etol[k]; order = eord; initd = einit; (void) esh;
        for (int t = 0; t < nth; t++) pos[t] = rg[t].second < s.th[t].size() ? rg[t].second + 1 : rg[t].second;
        // all threads must have the same number of barriers
        bool bar[2] = {false, false}; for (int t = 0; t < nth; t++) bar[rg[t].second < s.th[t].size()] = true;
        if (bar[0] && bar[1]) { d.valid = false; d.why = "uneven barriers"; return d; }
    }
    if (s.rounds > 1) { for (auto &t : slots) for (auto &g : t) if (g.live) bad("operator kept"); for (int k = 0; k < NSLOT; k++) if (os[k].live || op[k].live) bad("object kept"); }
    return d;
}
// size of the numbers a call adds up: differences far below 1e-12 of it are rounding, not a wrong result
static double natural_scale(const WorldSpec &w, const Item &it, const Item &ref) {
    auto sum = [](const double *c, int n) { double t = 0; for (int i = 0; i < n; i++) t += fabs(c[i]); return t; };
    auto amax = [](const double *c, int n) { double t = 1; for (int i = 0; i < n; i++) t = std::max(t, c[i]); return t; };
    auto ssum = [&](const ShellSpec &s) { double t = 0; for (int i = 0; i < s.np; i++) t += fabs(s.co[i]) * (w.norm ? std::max(1., pow(2 * s.al[i] / M_PI, .75) * pow(4 * s.al[i], s.L / 2.)) : 1); return t; };
    auto &A = w.sh[it.op.a], &B = w.sh[it.op.b]; double ab = ssum(A) * ssum(B), al = std::max(amax(A.al, A.np), amax(B.al, B.np));
    auto P = [&](int i) { auto &p = w.pot[i % w.npot]; return sum(p.co, p.np) * (2 * p.L + 1) * (1 + p.L); };
    auto OC = [&](const std::vector<int> &o) { double t = 0; for (int i : o) for (int j : o) { auto &p = w.ocp[i % w.noc], &q = w.ocp[j % w.noc]; double si = ssum(w.ocs[i % w.noc]), sj = ssum(w.ocs[j % w.noc]); t += (sum(p.co, p.np) + sum(q.co, q.np)) * (1 + si * si) * (1 + sj * sj) * (2 * p.L + 1); } return t; };
    double t = 1 + fabs((double) w.charge[it.op.p % w.charge.size()]) + P(it.op.p); std::vector<int> all; for (int i = 0; i < w.noc; i++) all.push_back(i);
    if (it.t != I_OP) { t = 1; for (int q = 0; q < 3; q++) for (int i : ref.tl[q]) t += P(i); t += OC(ref.tl[3]); }
    else if (it.op.kind == K_FULL || it.op.kind == K_FULLG) { auto &g = w.grpp[it.op.p % w.ngrpp]; t += P(g.local); for (int i : g.arep) t += P(i); for (int i : g.esop) t += P(i); t += OC(g.oc); }
    else if (it.op.kind == K_OC || it.op.kind == K_OCG) t += OC(all);
    return t * ab * al;
}
static bool same_bits(double a, double b) { if (a == b) return true; return std::isnan(a) && std::isnan(b); }
const RefVal &get_ref(WCtx &c, const Exp &e) {
    auto it = c.refs.find(e.key); if (it != c.refs.end()) return it->second;
    static const RefVal too_much = [] { RefVal t; t.vkind = V_TIMEOUT; t.text = "reference budget spent"; return t; }();
    if (c.reflimit && c.refwork > c.reflimit) return too_much;
    if (c.refend > 0) { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); if (ts.tv_sec > c.refend) return too_much; }
    RefVal v; Spec rq = e.ref; rq.cpu = c.w.high ? 4 : 15; Outcome o = run_spec(rq); CN->refs++; c.refwork += o.vkind == V_TIMEOUT ? rq.cpu * 150000000ull : SH->op[e.ref.th[0].size() - 1].steps + 500000;
    if (!o.done) { v.vkind = o.vkind; v.text = o.text; }
    else { int k = (int) e.ref.th[0].size() - 1; v.v.assign(SH->vals + SH->op[k].off, SH->vals + SH->op[k].off + SH->op[k].n); v.steps = SH->op[k].steps; v.allocs = SH->op[k].allocs; v.events = SH->op[k].events; v.locks.assign(SH->lsite, SH->lsite + std::min<u32>(SH->nlsites, 16)); v.sites.assign(SH->site, SH->site + SH->nsites); }
    static bool vb = getenv("SIM_VERBOSE") != nullptr; if (vb && v.steps > 50000000) { Item it = e.ref.th[0].back(); fprintf(stderr, "costly reference: %llu steps, estimated %.3g: %s\n", (unsigned long long) v.steps, it.t == I_OP || it.t == I_SEVAL ? exp(op_est(c.w, it.op)) : 0., item_text(c.w, it).c_str()); }
    return c.refs[e.key] = v;
}
static void permute(const WorldSpec &w, const Item &it, const Exp &e, std::vector<double> &v, int narr) {
    int LA = w.sh[it.op.a].L, LB = w.sh[it.op.b].L, nA = (LA + 1) * (LA + 2) / 2, nB = (LB + 1) * (LB + 2) / 2;
    auto mk = [](int ord, int L) { int n = (L + 1) * (L + 2) / 2; std::vector<int> a(3 * n), b(3 * n), p(n); cart_list_for(ord, L, a.data()); cart_list_for(0, L, b.data()); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!memcmp(&a[3 * i], &b[3 * j], 12)) p[i] = j; return p; };
    std::vector<int> pa = mk(e.ordA, LA), pb = mk(e.ordB, LB); std::vector<double> o(v.size());
    if ((int) v.size() != narr * nA * nB) return;
    for (int k = 0; k < narr; k++) for (int i = 0; i < nA; i++) for (int j = 0; j < nB; j++) o[k * nA * nB + i * nB + j] = v[k * nA * nB + pa[i] * nB + pb[j]];
    v = o;
}
bool relevant(const std::string &p, int k) {
    if (k == V_NONE) return false;
    if (k == V_HARNESS) return true;
    if (p == "C03") return k == V_INPUT;
    if (p == "C07") return k == V_MEMERR || k == V_GUARD || k == V_MISMATCH;
    if (p == "C08") return k == V_LEAK || k == V_MEMERR || k == V_CRASH || k == V_GUARD;
    if (p == "C10") return k == V_MISMATCH || k == V_INPUT || k == V_MEMERR || k == V_GUARD;
    if (p == "C11" || p == "C15") return k == V_DEADLOCK || k == V_LIVELOCK || k == V_TIMEOUT || k == V_EXIT || k == V_CRASH;
    return k != V_LEAK && k != V_INPUT;
}
std::string item_text(const WorldSpec &w, const Item &it) {
    if (it.t == I_OP) return op_describe(w, it.op);
    if (it.t == I_SEVAL) { char q[100]; snprintf(q, sizeof q, " with objects in slots %d,%d,%d", it.x[0], it.x[1], it.x[2]); return op_describe(w, it.op) + q; }
    if (it.t == I_DRIVER) { char q[100]; snprintf(q, sizeof q, "C driver with a team of %d, options 0x%x, input %d", it.x[0], it.x[1], it.x[2]); return q; }
    char b[200]; snprintf(b, sizeof b, "%s(%d,%d,%d,%d)", itype_name[it.t], it.x[0], it.x[1], it.x[2], it.x[3]); return b;
}
Verdict judge(WCtx &c, const Spec &s) {
    Verdict v; Deriv d = derive(s, c.w);
    if (!d.valid) { v.info = false; v.text = d.why; CN->invalid++; return v; }
    // references first
    int idx = 0;
    std::vector<const Item *> items; for (auto &t : s.th) for (auto &i : t) items.push_back(&i);
    for (size_t i = 0; i < items.size(); i++) if (d.e[i].mode == 1 || d.e[i].mode == 2) {
        const RefVal &r = get_ref(c, d.e[i]);
        if (r.vkind == V_TIMEOUT) { v.info = false; v.text = "too expensive"; CN->invalid++; return v; }
        if (r.vkind) {          // the call fails even when it is the only one ever made
            v.kind = r.vkind == V_INPUT || r.vkind == V_HARNESS || r.vkind == V_MEMERR || r.vkind == V_GUARD ? r.vkind : V_REFCRASH; v.item = (int) i; v.text = "single call in a fresh process: " + r.text + " [" + item_text(c.w, *items[i]) + "]";
            if (relevant(s.prop, v.kind)) return v; v.kind = 0; v.info = false; CN->irrelevant++; return v;
        }
    }
    Outcome o = run_spec(s); v.o = o;
    CN->runs++;
    if (o.failstop) { CN->failstops++; return v; }
    if (!o.done) {
        v.kind = o.vkind; v.item = o.vop; v.text = o.text;
        if (o.vop >= 0 && o.vop < (int) items.size()) v.text += " [during " + item_text(c.w, *items[o.vop]) + "]";
        if (relevant(s.prop, v.kind)) return v;
        CN->irrelevant++; v.kind = 0; v.info = false; return v;
    }
    u64 rh = 7;
    for (size_t i = 0; i < items.size() && i < SH_MAXOPS; i++) {
        const Item &it = *items[i]; const Exp &e = d.e[i]; OpRes &r = SH->op[i];
        for (u32 k = 0; k < r.n; k++) { u64 b; memcpy(&b, &SH->vals[r.off + k], 8); rh = mix(rh, b); }
        if (r.status == 2) { CN->itype_done[it.t]++; if (it.t == I_OP || it.t == I_SEVAL) { CN->kind_done[it.op.kind]++; int l = c.w.sh[it.op.a].L + c.w.sh[it.op.b].L; CN->lsum[l & 15]++; if (it.op.kind == K_NUC) CN->model[it.op.m % 6]++; } }
        if (r.status != 2 || v.kind) continue;
        if (e.mode == 0) { if (is_eval(it.t)) CN->unchecked++; continue; }
        std::vector<double> ref; int narr, len; item_values(c.w, it, narr, len);
        if (e.mode == 3) ref = {e.cval}; else { ref = get_ref(c, e).v; if (e.ordA || e.ordB) permute(c.w, it, e, ref, narr); }
        if (ref.size() != r.n && it.t == I_DRIVER) { v.kind = V_MISMATCH; v.item = (int) i; char b[100]; snprintf(b, sizeof b, "the driver wrote other files or elements than the one-thread run (%u, must be %zu numbers)", r.n, ref.size()); v.text = b; continue; }
        if (ref.size() != r.n) { v.kind = V_HARNESS; v.item = (int) i; v.text = "reference has a different shape"; return v; }
        const double *g = SH->vals + r.off; double mx = 0; for (double x : ref) if (std::isfinite(x)) mx = std::max(mx, fabs(x));
        double ab = e.mode != 2 ? 0 : it.t == I_DRIVER ? 3e-10 : 1e-13 * natural_scale(c.w, it, e.ref.th[0].back());
        for (u32 k = 0; k < r.n; k++) {
            bool ok = same_bits(g[k], ref[k]);
            if (!ok && e.mode == 2) ok = std::isfinite(g[k]) && std::isfinite(ref[k]) && fabs(g[k] - ref[k]) <= e.tol * mx + ab;
            if (!ok) { char b[300]; snprintf(b, sizeof b, "element %u is %.17g, must be %.17g", k, g[k], ref[k]); v.kind = V_MISMATCH; v.item = (int) i; v.text = std::string(b) + " [" + item_text(c.w, it) + "]"; break; }
        }
    }
    v.o.result_hash = rh;
    if (v.kind && !relevant(s.prop, v.kind)) { CN->irrelevant++; v.kind = 0; v.info = false; }
    return v;
}
