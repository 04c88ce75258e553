#include <array>
#include "world.h"
#include <cmath>
#include <cstdio>
#include <sstream>
#include <algorithm>
const char *kind_name[] = {"type1", "type2", "spin_orbit", "outercore", "full_grpp", "overlap", "kinetic", "momentum", "nuclear", "nuclear_model_entry", "nuclear_model_functions", "potential_value", "shell_objects", "potential_shrink",
    "type1_gradient", "type2_gradient", "spin_orbit_gradient", "outercore_gradient", "full_grpp_gradient", "overlap_gradient", "gto_norm"};

extern "C" {   // Fortran entry points (declared by name and call convention only)
void libgrpp_type1_integrals_(...);
}
#define F(name) extern "C" void name(...)
F(libgrpp_type2_integrals_); F(libgrpp_spin_orbit_integrals_); F(libgrpp_outercore_potential_integrals_part_1_); F(libgrpp_outercore_potential_integrals_part_2_);
F(libgrpp_type1_integrals_gradient_); F(libgrpp_type2_integrals_gradient_); F(libgrpp_spin_orbit_integrals_gradient_);
F(libgrpp_overlap_integrals_); F(libgrpp_kinetic_energy_integrals_); F(libgrpp_momentum_integrals_);
F(libgrpp_nuclear_attraction_integrals_); F(libgrpp_nuclear_attraction_integrals_point_charge_); F(libgrpp_nuclear_attraction_integrals_charged_ball_);
F(libgrpp_nuclear_attraction_integrals_gaussian_model_); F(libgrpp_nuclear_attraction_integrals_fermi_model_); F(libgrpp_nuclear_attraction_integrals_fermi_bubble_model_);
F(radial_gto_norm_factor_); F(evaluate_overlap_integral_contracted_);
F(libgrpp_estimate_nuclear_rms_radius_johnson_1985_); F(libgrpp_estimate_nuclear_rms_radius_golovko_2008_); F(libgrpp_estimate_fermi_model_parameters_);
F(libgrpp_charge_density_ball_); F(libgrpp_charge_density_gaussian_); F(libgrpp_charge_density_fermi_); F(libgrpp_charge_density_fermi_bubble_);
F(libgrpp_coulomb_potential_point_); F(libgrpp_coulomb_potential_ball_); F(libgrpp_coulomb_potential_gaussian_); F(libgrpp_coulomb_potential_fermi_); F(libgrpp_coulomb_potential_fermi_bubble_);
F(libgrpp_rms_radius_fermi_); F(libgrpp_rms_radius_fermi_bubble_);

std::string op_text(const Op &o) { char b[160]; snprintf(b, sizeof b, "%s %d %d %d %d %d %d %d", kind_name[o.kind], o.a, o.b, o.c, o.p, o.d, o.m, o.flags); return b; }
bool op_parse(const std::string &s, Op &o) {
    std::istringstream is(s); std::string k; is >> k >> o.a >> o.b >> o.c >> o.p >> o.d >> o.m >> o.flags;
    for (int i = 0; i < K_NKINDS; i++) if (k == kind_name[i]) { o.kind = i; return true; }
    return false;
}

static double lu(Rng &r, double lo, double hi) { return lo * exp(r.uni() * log(hi / lo)); }
static int gen_np(Rng &r) { double u = r.uni(); return u < .37 ? 1 : u < .72 ? 2 : u < .9 ? 3 : u < .965 ? 4 + (int) r.below(3) : u < .985 ? 7 + (int) r.below(8) : 15 + (int) r.below(29); }
static ShellSpec gen_shell(Rng &r, const WorldSpec &w, int lmax) {
    ShellSpec s{}; double u = r.uni(); s.L = u < .22 ? 0 : u < .52 ? 1 : u < .75 ? 2 : 3 + (int) r.below(4); if (s.L > lmax) s.L = (int) r.below(lmax + 1); if (w.contrast && lmax > 2) { double v = r.uni(); s.L = v < .35 ? lmax : v < .5 ? lmax - 1 : v < .8 ? 0 : 1; }
    if (w.high && lmax > 6) { s.L = r.chance(.45) ? 7 + (int) r.below(lmax - 6) : (int) r.below(3); }
    s.ctr = (int) r.below(w.ncen); s.np = (w.contrast || w.high) && r.chance(.6) ? 1 : gen_np(r); double hi = r.chance(.15) ? 300 : 12, lo = r.chance(.15) ? .01 : .08;
    for (int i = 0; i < MAXP; i++) { s.al[i] = lu(r, lo, hi); s.co[i] = (r.uni() * 1.6 + .2) * (r.chance(.3) ? -1 : 1); }
    if (s.np > 1 && r.chance(.08)) s.co[r.below(s.np)] = 0;      // removed from private copies only
    if (s.np > 1 && r.chance(.04)) s.co[r.below(s.np)] = (r.uni() - .5) * 1e-15;      // below the threshold at which primitives are skipped
    return s;
}
// worlds whose objects differ by less than single precision (or a printed digit) can tell apart
static ShellSpec nudge_shell(Rng &r, ShellSpec s) {
    int i = (int) r.below(s.np); double u = r.uni();
    if (u < .5) s.al[i] *= 1 + (r.chance(.7) ? 3e-10 : 1e-7); else if (u < .75) s.dx[r.below(3)] += 2e-9; else s.co[i] *= 1 + 1e-9;
    return s;
}
static ShellSpec mutate_shell(Rng &r, ShellSpec s, const WorldSpec &w, int lmax) {
    if (s.np > 2 && r.chance(.25)) { s.al[1 + r.below(s.np - 2)] *= r.chance(.5) ? 1.41 : .7; return s; }      // same ends, another middle
    switch (r.below(9)) {
        case 0: s.al[r.chance(.5) ? r.below(s.np) : s.np - 1] *= 1.37; break;
        case 1: { int i = r.chance(.5) ? (int) r.below(s.np) : s.np - 1; s.co[i] = -s.co[i] * 0.83; break; }
        case 2: s.ctr = (s.ctr + 1) % w.ncen; break;
        case 3: s.L = s.L < lmax ? s.L + 1 : (s.L > 0 ? s.L - 1 : 0); break;
        case 4: s.np = s.np < 4 ? s.np + 1 : s.np - 1; break;
        case 5: s.al[0] *= r.chance(.5) ? 1.0000001 : 1 + 3e-10; break;
        case 6: std::swap(s.al[0], s.al[s.np - 1]); if (s.np == 1) s.al[0] *= .9; break;
        case 7: s.dx[r.below(3)] += r.chance(.4) ? 1e-5 : r.chance(.3) ? 2e-9 : 0.3; break;
        case 8: { int i = (int) r.below(s.np); s.co[i] *= 1 + 1e-9; break; }
    }
    return s;
}
static PotSpec gen_pot(Rng &r, int L) {
    PotSpec p{}; p.L = L; p.J = r.chance(.5) ? 0 : (int) r.below(2 * L + 2); p.np = 1 + (int) r.below(3); if (r.chance(.06)) p.np = 4 + (int) r.below(9); else if (r.chance(.015)) p.np = 13 + (int) r.below(31); bool mixed = r.chance(.5);
    double hi = r.chance(.12) ? 200 : 10, lo = r.chance(.1) ? .03 : .2;
    for (int i = 0; i < MAXP; i++) { p.pw[i] = mixed ? (int) r.below(3) : 2; p.al[i] = lu(r, lo, hi); p.co[i] = (r.uni() * 3 + .2) * (r.chance(.4) ? -1 : 1); }
    if (p.np > 1 && r.chance(.06)) p.co[r.below(p.np)] = 0;      // dropped by the constructor
    if (p.np == 1 && r.chance(.1)) p.co[0] = 0;                  // an empty potential
    if (p.np > 1 && r.chance(.02)) for (double &x : p.co) x = 0;
    return p;
}
static PotSpec nudge_pot(Rng &r, PotSpec p) { int q = (int) r.below(p.np); if (r.chance(.6)) p.al[q] *= 1 + 3e-10; else p.co[q] *= 1 + 1e-9; return p; }
static PotSpec mutate_pot(Rng &r, PotSpec p, int lp) {
    int q = r.chance(.5) ? (int) r.below(p.np) : p.np - 1;
    switch (r.below(6)) {
        case 0: p.al[q] *= 1.21; break;
        case 1: p.co[q] *= -.7; break;
        case 2: p.pw[q] = (p.pw[q] + 1) % 3; break;
        case 3: p.L = (p.L + 1) % (lp + 1); break;
        case 4: p.np = p.np < 4 ? p.np + 1 : p.np - 1; break;
        case 5: p.J++; break;
    }
    return p;
}
WorldSpec make_world(u64 seed, int lmax) {
    int lp = lmax >> 4 & 15 ? lmax >> 4 & 15 : 2; bool contrast = lmax & 256, high = lmax & 512; lmax &= 15; WorldSpec w; w.high = high; w.seed = seed; w.lmax = lmax; w.contrast = contrast; Rng r(seed);
    w.ncen = 3 + (int) r.below(2);
    for (int i = 0; i < w.ncen; i++) { std::array<double, 3> c; for (int k = 0; k < 3; k++) c[k] = floor((r.uni() * 4 - 2) * 64) / 64 + (r.chance(.3) ? 1e-3 : 0); if (i == 0 && r.chance(.4)) c = {0, 0, 0}; if (i == 1 && r.chance(.3)) { c = w.cen[0]; c[2] += 1.5; }
        if (i == 2 && r.chance(.2)) { c = w.cen[0]; c[r.below(3)] += 1e-6; } if (i == 3 && r.chance(.25)) { c = w.cen[0]; c[r.below(3)] += r.chance(.5) ? 15 : 40; } w.cen.push_back(c); }
    bool near = r.chance(.15); if (near && r.chance(.4)) { w.cen[2] = w.cen[0]; w.cen[2][r.below(3)] += 2e-9; }
    w.nsh = 5 + (int) r.below(3);
    for (int i = 0; i < w.nsh; i++) w.sh.push_back(i && r.chance(.55) ? (near && r.chance(.8) ? nudge_shell(r, w.sh[r.below(i)]) : mutate_shell(r, w.sh[r.chance(.5) ? i - 1 : r.below(i)], w, lmax)) : gen_shell(r, w, lmax));
    w.npot = 5 + (int) r.below(3);
    for (int i = 0; i < w.npot; i++) w.pot.push_back(i && r.chance(.55) ? (near && r.chance(.8) ? nudge_pot(r, w.pot[r.below(i)]) : mutate_pot(r, w.pot[r.below(i)], lp)) : gen_pot(r, (contrast || high) && r.chance(.45) ? lp : (int) r.below(lp + 1)));
    w.noc = 2 + (int) r.below(2);
    for (int i = 0; i < w.noc; i++) {
        int L = r.chance(.4) ? 0 : 1 + (int) r.below(high ? 10 : lp > 2 ? 3 : 2); PotSpec p = gen_pot(r, L); ShellSpec s = gen_shell(r, w, 0);
        if (i && r.chance(.6)) { p = mutate_pot(r, w.ocp[i - 1], 2); p.L = w.ocp[i - 1].L; L = p.L; }
        p.J = (L == 0 || r.chance(.5)) ? 2 * L + 1 : 2 * L - 1; s.L = L; s.np = 1 + (int) r.below(3); w.ocp.push_back(p); w.ocs.push_back(s);
    }
    w.ngrpp = 2;
    for (int i = 0; i < w.ngrpp; i++) {
        GrppSpec g; g.local = (int) r.below(w.npot); int na = (int) r.below(3); for (int k = 0; k < na; k++) g.arep.push_back((int) r.below(w.npot));
        int ns = (int) r.below(2) + (i == 0); for (int k = 0; k < ns; k++) g.esop.push_back((int) r.below(w.npot));
        int no = (int) r.below(w.noc + 1); if (i == 0 && !no) no = 1; for (int k = 0; k < no; k++) g.oc.push_back(k);
        w.grpp.push_back(g);
    }
    for (int i = 0; i < 3; i++) { std::array<double, 4> p = {lu(r, 2e-5, 2e-4), lu(r, 5e-5, 2e-4), lu(r, 5e-6, 2e-5), r.uni() * .5}; if (i && r.chance(.5)) { p = w.npar[0]; p[r.below(4)] *= 1.3; } w.npar.push_back(p); }
    for (int i = 0; i < 3; i++) w.charge.push_back(1 + (int) r.below(100));
    w.norm = r.chance(.5);                                    // normalised basis functions, as programs use them
    return w;
}
// exactly as many numbers as the callee may read
libgrpp_shell_t *mk_shell(const WorldSpec &w, const ShellSpec &s) {
    double *o = (double *) arena_alloc(24, false), *co = (double *) arena_alloc(8 * s.np, false), *al = (double *) arena_alloc(8 * s.np, false);
    for (int k = 0; k < 3; k++) o[k] = w.cen[s.ctr][k] + s.dx[k];
    memcpy(co, s.co, 8 * s.np); memcpy(al, s.al, 8 * s.np);
    libgrpp_shell_t *r = libgrpp_new_shell(o, s.L, s.np, co, al);
    arena_free(o); arena_free(co); arena_free(al); if (w.norm) libgrpp_shell_mult_normcoef(r); return r;
}
libgrpp_potential_t *mk_pot(const PotSpec &p) {
    int *pw = (int *) arena_alloc(4 * p.np, false); double *co = (double *) arena_alloc(8 * p.np, false), *al = (double *) arena_alloc(8 * p.np, false);
    memcpy(pw, p.pw, 4 * p.np); memcpy(co, p.co, 8 * p.np); memcpy(al, p.al, 8 * p.np);
    libgrpp_potential_t *r = libgrpp_new_potential(p.L, p.J, p.np, pw, co, al);
    arena_free(pw); arena_free(co); arena_free(al); return r;
}
static libgrpp_shell_t *mk_shell_ord(const WorldSpec &w, const ShellSpec &s, int q) { if (q) set_order(q); libgrpp_shell_t *r = mk_shell(w, s); if (q) set_order(0); return r; }
libgrpp_grpp_t *mk_grpp(const WorldSpec &w, const GrppSpec &g, u64 ord) {
    libgrpp_grpp_t *r = libgrpp_new_grpp();
    libgrpp_grpp_set_local_potential(r, mk_pot(w.pot[g.local]));
    for (int i : g.arep) libgrpp_grpp_add_averaged_potential(r, mk_pot(w.pot[i]));
    for (int i : g.esop) libgrpp_grpp_add_spin_orbit_potential(r, mk_pot(w.pot[i]));
    for (int i : g.oc) { libgrpp_shell_t *x = mk_shell_ord(w, w.ocs[i], ord >> (32 + 2 * i) & 3); libgrpp_grpp_add_outercore_potential(r, mk_pot(w.ocp[i]), x); }
    return r;
}
void World::build(const Op *only) {
    bool oc = !only || only->kind == K_OC || only->kind == K_OCG, full = !only || only->kind == K_FULL || only->kind == K_FULLG;
    for (auto &c : s.cen) { double *p = (double *) arena_alloc(24, false); memcpy(p, c.data(), 24); cen.push_back(p); }
    for (int i = 0; i < s.nsh; i++) sh.push_back(!only || only->a == i || only->b == i ? mk_shell_ord(s, s.sh[i], ord >> 2 * i & 3) : nullptr);
    for (int i = 0; i < s.npot; i++) pot.push_back(!only || only->p % s.npot == i ? mk_pot(s.pot[i]) : nullptr);
    for (auto &x : s.ocp) ocp.push_back(oc ? mk_pot(x) : nullptr);
    for (int i = 0; i < s.noc; i++) ocs.push_back(oc ? mk_shell_ord(s, s.ocs[i], ord >> (32 + 2 * i) & 3) : nullptr);
    ocp_arr = (libgrpp_potential_t **) arena_alloc(8 * ocp.size(), false); ocs_arr = (libgrpp_shell_t **) arena_alloc(8 * ocs.size(), false);
    for (size_t i = 0; i < ocp.size(); i++) { ocp_arr[i] = ocp[i]; ocs_arr[i] = ocs[i]; }
    if (full) for (auto &x : s.grpp) grpp.push_back(mk_grpp(s, x, ord));
    for (auto &x : s.npar) { double *p = (double *) arena_alloc(32, false); memcpy(p, x.data(), 32); npar.push_back(p); }
}
void World::destroy() {
    for (auto p : cen) arena_free(p);
    for (auto p : sh) if (p) libgrpp_delete_shell(p);
    for (auto p : pot) if (p) libgrpp_delete_potential(p);
    for (auto p : ocp) if (p) libgrpp_delete_potential(p);
    for (auto p : ocs) if (p) libgrpp_delete_shell(p);
    arena_free(ocp_arr); arena_free(ocs_arr);
    for (auto p : grpp) libgrpp_delete_grpp(p);
    for (auto p : npar) arena_free(p);
    cen.clear(); sh.clear(); pot.clear(); ocp.clear(); ocs.clear(); grpp.clear(); npar.clear();
}
static void w_shell(libgrpp_shell_t *s) {
    input_register(&s->L, sizeof s->L); input_register(&s->cart_size, sizeof s->cart_size); input_register(&s->cart_list, sizeof s->cart_list);
    input_register(&s->num_primitives, sizeof s->num_primitives); input_register(&s->coeffs, sizeof s->coeffs); input_register(&s->alpha, sizeof s->alpha); input_register(s->origin, sizeof s->origin);
    input_register(s->cart_list, sizeof(int) * 3 * s->cart_size); input_register(s->coeffs, 8 * s->num_primitives); input_register(s->alpha, 8 * s->num_primitives);
}
static void w_pot(libgrpp_potential_t *p) {
    input_register(&p->L, sizeof p->L); input_register(&p->J, sizeof p->J); input_register(&p->num_primitives, sizeof p->num_primitives);
    input_register(&p->powers, sizeof p->powers); input_register(&p->coeffs, sizeof p->coeffs); input_register(&p->alpha, sizeof p->alpha);
    input_register(p->powers, 4 * p->num_primitives); input_register(p->coeffs, 8 * p->num_primitives); input_register(p->alpha, 8 * p->num_primitives);
}
void World::watch_inputs() {
    for (auto p : cen) input_register(p, 24);
    for (auto p : npar) input_register(p, 32);
    for (auto p : sh) w_shell(p);
    for (auto p : ocs) w_shell(p);
    for (auto p : pot) w_pot(p);
    for (auto p : ocp) w_pot(p);
    input_register(ocp_arr, 8 * ocp.size()); input_register(ocs_arr, 8 * ocs.size());
    for (auto g : grpp) {
        input_register(&g->n_arep, sizeof(int)); input_register(&g->n_esop, sizeof(int)); input_register(&g->n_oc_shells, sizeof(int));
        input_register(&g->U_L, 8); input_register(&g->U_arep, 8); input_register(&g->U_esop, 8); input_register(&g->U_oc, 8); input_register(&g->oc_shells, 8);
        if (g->U_L) w_pot(g->U_L);
        if (g->n_arep) input_register(g->U_arep, 8 * g->n_arep);
        if (g->n_esop) input_register(g->U_esop, 8 * g->n_esop);
        if (g->n_oc_shells) { input_register(g->U_oc, 8 * g->n_oc_shells); input_register(g->oc_shells, 8 * g->n_oc_shells); }
        for (int i = 0; i < g->n_arep; i++) w_pot(g->U_arep[i]);
        for (int i = 0; i < g->n_esop; i++) w_pot(g->U_esop[i]);
        for (int i = 0; i < g->n_oc_shells; i++) { w_pot(g->U_oc[i]); w_shell(g->oc_shells[i]); }
    }
}
static int csz(int L) { return (L + 1) * (L + 2) / 2; }
void op_shape(const WorldSpec &w, const Op &o, int &narr, int &len) {
    int n = csz(w.sh[o.a].L) * csz(w.sh[o.b].L);
    len = n; narr = 1;
    switch (o.kind) {
        case K_SO: case K_MOM: narr = 3; break;
        case K_OC: case K_FULL: narr = 4; break;
        case K_T1G: case K_T2G: case K_OVG: narr = 3; break;
        case K_SOG: narr = 9; break;
        case K_OCG: case K_FULLG: narr = 12; break;
        case K_NMOD: len = 24; break;
        case K_POTVAL: len = 8; break;
        case K_OBJ: len = 8 + 3 * csz(w.sh[o.a].L) + 2 * MAXP; break;
        case K_SHRINK: len = 4 + 3 * MAXP; break;
        case K_NORM: len = 2; break;
    }
}
bool kind_has_fortran(int k) { switch (k) { case K_FULL: case K_OCG: case K_FULLG: case K_OVG: case K_POTVAL: case K_OBJ: case K_SHRINK: return false; } return true; }

struct FA { int32_t L, np; double *o, *co, *al; };            // Fortran argument block of a shell (fresh arrays)
struct FP { int32_t L, J, np; int32_t *pw; double *co, *al; };
static void *amem(const void *src, size_t n) { void *p = arena_alloc(n ? n : 8, false); memcpy(p, src, n); input_register(p, n); return p; }
static FA fa(const WorldSpec &w, const ShellSpec &s, const libgrpp_shell_t *g) { double o[3]; for (int k = 0; k < 3; k++) o[k] = w.cen[s.ctr][k] + s.dx[k]; return {s.L, s.np, (double *) amem(o, 24), (double *) amem(w.norm ? g->coeffs : s.co, 8 * s.np), (double *) amem(s.al, 8 * s.np)}; }
static FP fp(const PotSpec &p) { return {p.L, p.J, p.np, (int32_t *) amem(p.pw, 4 * p.np), (double *) amem(p.co, 8 * p.np), (double *) amem(p.al, 8 * p.np)}; }
void input_drop(const void *p);
static void ff(FA &a) { input_drop(a.o); input_drop(a.co); input_drop(a.al); arena_free(a.o); arena_free(a.co); arena_free(a.al); }
static void ff(FP &a) { input_drop(a.pw); input_drop(a.co); input_drop(a.al); arena_free(a.pw); arena_free(a.co); arena_free(a.al); }

static void nmod(const double *p, int Z, bool f, double *out) {
    double R = p[0], c = p[1], a = p[2], k = p[3], z = Z; int n = 0; int A = 2 * Z + Z / 4; 
    double rs[2] = {R * .7, R * 3};
    if (!f) {
        out[n++] = libgrpp_estimate_nuclear_rms_radius_johnson_1985(A); out[n++] = libgrpp_estimate_nuclear_rms_radius_golovko_2008(A);
        double cc = 0, aa = 0; int e = libgrpp_estimate_fermi_model_parameters(R * 5e-5 / R + R * .5 , &cc, &aa); out[n++] = e; out[n++] = cc; out[n++] = aa;
        for (double r : rs) { out[n++] = libgrpp_charge_density_ball(r, z, R); out[n++] = libgrpp_charge_density_gaussian(r, z, R); out[n++] = libgrpp_charge_density_fermi(r, z, c, a);
            out[n++] = libgrpp_coulomb_potential_ball(r, z, R); out[n++] = libgrpp_coulomb_potential_gaussian(r, z, R); out[n++] = libgrpp_coulomb_potential_fermi(r, z, c, a); }
        for (double r : rs) { out[n++] = libgrpp_coulomb_potential_point(r, z); out[n++] = libgrpp_charge_density_fermi_bubble(r, z, c, a, k); }
        out[n++] = libgrpp_coulomb_potential_fermi_bubble(rs[1], z, c, a, k); out[n++] = libgrpp_rms_radius_fermi_bubble(Z, c, a, k); out[n++] = libgrpp_rms_radius_fermi(Z, c, a);
    } else {
        int32_t A4 = A, Z4 = Z, e = 0; double cc = 0, aa = 0, R2 = R * 5e-5 / R + R * .5;
        libgrpp_estimate_nuclear_rms_radius_johnson_1985_(&A4, &out[n++]); libgrpp_estimate_nuclear_rms_radius_golovko_2008_(&A4, &out[n++]);
        libgrpp_estimate_fermi_model_parameters_(&R2, &cc, &aa, &e); out[n++] = e; out[n++] = cc; out[n++] = aa;
        for (double r : rs) { libgrpp_charge_density_ball_(&r, &z, &R, &out[n]); n++; libgrpp_charge_density_gaussian_(&r, &z, &R, &out[n]); n++; libgrpp_charge_density_fermi_(&r, &z, &c, &a, &out[n]); n++;
            libgrpp_coulomb_potential_ball_(&r, &z, &R, &out[n]); n++; libgrpp_coulomb_potential_gaussian_(&r, &z, &R, &out[n]); n++; libgrpp_coulomb_potential_fermi_(&r, &z, &c, &a, &out[n]); n++; }
        for (double r : rs) { libgrpp_coulomb_potential_point_(&r, &z, &out[n]); n++; libgrpp_charge_density_fermi_bubble_(&r, &z, &c, &a, &k, &out[n]); n++; }
        libgrpp_coulomb_potential_fermi_bubble_(&rs[1], &z, &c, &a, &k, &out[n]); n++; libgrpp_rms_radius_fermi_bubble_(&Z4, &c, &a, &k, &out[n]); n++; libgrpp_rms_radius_fermi_(&Z4, &c, &a, &out[n]); n++;
    }
}
static void exec_fortran(World &w, const Op &o, double **out) {
    const WorldSpec &s = w.s; FA A = fa(s, s.sh[o.a], w.sh[o.a]), B = fa(s, s.sh[o.b], w.sh[o.b]); FP P = fp(s.pot[o.p % s.npot]);
    double *C = w.cen[o.c], *D = w.cen[o.d]; int32_t Z = s.charge[o.p % s.charge.size()], M = o.m; double *np = w.npar[o.p % w.npar.size()];
    if (o.flags & OF_ALIAS) for (double **x : {&C, &D}) for (double *h : {B.o, A.o}) if (!memcmp(*x, h, 24)) *x = h;
    int narr, len; op_shape(s, o, narr, len);
#define AB A.o, &A.L, &A.np, A.co, A.al, B.o, &B.L, &B.np, B.co, B.al
    switch (o.kind) {
        case K_T1: libgrpp_type1_integrals_(AB, C, &P.np, P.pw, P.co, P.al, out[0]); break;
        case K_T2: libgrpp_type2_integrals_(AB, C, &P.L, &P.np, P.pw, P.co, P.al, out[0]); break;
        case K_SO: libgrpp_spin_orbit_integrals_(AB, C, &P.L, &P.np, P.pw, P.co, P.al, out[0], out[1], out[2]); break;
        case K_OC: {
            for (int k = 0; k < 4; k++) memset(out[k], 0, 8 * len);
            int n = o.p == 5 ? 0 : 1 + o.p % s.noc;
            for (int i = 0; i < n; i++) { FP p = fp(s.ocp[i]); FA c = fa(s, s.ocs[i], w.ocs[i]);
                libgrpp_outercore_potential_integrals_part_1_(AB, C, &p.L, &p.J, &p.np, p.pw, p.co, p.al, &c.np, c.co, c.al, out[0], out[1], out[2], out[3]); ff(p); ff(c); }
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { FP p = fp(s.ocp[i]), q = fp(s.ocp[j]); FA c = fa(s, s.ocs[i], w.ocs[i]), d = fa(s, s.ocs[j], w.ocs[j]);
                libgrpp_outercore_potential_integrals_part_2_(AB, C, &p.L, &p.J, &p.np, p.pw, p.co, p.al, &c.np, c.co, c.al, &q.L, &q.J, &q.np, q.pw, q.co, q.al, &d.np, d.co, d.al, out[0], out[1], out[2], out[3]); ff(p); ff(q); ff(c); ff(d); }
            break; }
        case K_T1G: libgrpp_type1_integrals_gradient_(AB, C, &P.np, P.pw, P.co, P.al, D, out[0], out[1], out[2]); break;
        case K_T2G: libgrpp_type2_integrals_gradient_(AB, C, &P.L, &P.np, P.pw, P.co, P.al, D, out[0], out[1], out[2]); break;
        case K_SOG: libgrpp_spin_orbit_integrals_gradient_(AB, C, &P.L, &P.np, P.pw, P.co, P.al, D, out[0], out[1], out[2], out[3], out[4], out[5], out[6], out[7], out[8]); break;
        case K_OV: libgrpp_overlap_integrals_(AB, out[0]); break;
        case K_KIN: libgrpp_kinetic_energy_integrals_(AB, out[0]); break;
        case K_MOM: libgrpp_momentum_integrals_(AB, out[0], out[1], out[2]); break;
        case K_NUC: libgrpp_nuclear_attraction_integrals_(AB, C, &Z, &M, M == 3 || M == 4 ? np + 1 : np, out[0]); break;
        case K_NUCW: switch (o.m % 5) {
            case 0: libgrpp_nuclear_attraction_integrals_point_charge_(AB, C, &Z, out[0]); break;
            case 1: libgrpp_nuclear_attraction_integrals_charged_ball_(AB, C, &Z, &np[0], out[0]); break;
            case 2: libgrpp_nuclear_attraction_integrals_gaussian_model_(AB, C, &Z, &np[0], out[0]); break;
            case 3: libgrpp_nuclear_attraction_integrals_fermi_model_(AB, C, &Z, &np[1], &np[2], out[0]); break;
            case 4: libgrpp_nuclear_attraction_integrals_fermi_bubble_model_(AB, C, &Z, &np[1], &np[2], &np[3], out[0]); break; } break;
        case K_NMOD: nmod(np, Z, true, out[0]); break;
        case K_NORM: { radial_gto_norm_factor_(&A.L, &A.np, A.co, A.al, &out[0][0]); int32_t z0 = 0; evaluate_overlap_integral_contracted_(A.o, &A.L, &z0, &z0, &A.np, A.co, A.al, B.o, &z0, &B.L, &z0, &B.np, B.co, B.al, &out[0][1]); break; }
    }
    ff(A); ff(B); ff(P);
}
void op_exec(World &w, const Op &o, double **out, libgrpp_shell_t *ga, libgrpp_shell_t *gb, libgrpp_potential_t *gp) {
    const WorldSpec &s = w.s;
    if ((o.flags & OF_FORTRAN) || o.kind == K_NORM) { exec_fortran(w, o, out); return; }
    bool fresh = o.flags & OF_FRESH, copy = o.flags & OF_COPY;
    int pi = o.p % s.npot;
    libgrpp_shell_t *A = fresh ? mk_shell(s, s.sh[o.a]) : copy ? libgrpp_shell_deep_copy(ga ? ga : w.sh[o.a]) : ga ? ga : w.sh[o.a];
    libgrpp_shell_t *B = fresh ? mk_shell(s, s.sh[o.b]) : copy ? libgrpp_shell_deep_copy(gb ? gb : w.sh[o.b]) : gb ? gb : w.sh[o.b];
    libgrpp_potential_t *P = fresh ? mk_pot(s.pot[pi]) : copy ? libgrpp_shrink_potential(gp ? gp : w.pot[pi]) : gp ? gp : w.pot[pi];
    double *C = w.cen[o.c], *D = w.cen[o.d]; int Z = s.charge[o.p % s.charge.size()]; double *np = w.npar[o.p % w.npar.size()];
    int gi = o.p % s.ngrpp, noc = o.p == 5 ? 0 : 1 + o.p % s.noc;
    libgrpp_grpp_t *G = w.grpp.empty() ? nullptr : w.grpp[gi];
    bool ownG = false; if (fresh && (o.kind == K_FULL || o.kind == K_FULLG)) { G = mk_grpp(s, s.grpp[gi]); ownG = true; }
    if (o.flags & OF_ALIAS) for (double **x : {&C, &D}) for (libgrpp_shell_t *h : {B, A}) if (!memcmp(*x, h->origin, 24)) *x = h->origin;
    double **g = nullptr;
    double **g1 = nullptr, **g2 = nullptr, **g3 = nullptr;
    auto tri = [&](int k) { double **r = (double **) arena_alloc(24, false); r[0] = out[k]; r[1] = out[k + 1]; r[2] = out[k + 2]; return r; };
    switch (o.kind) {
        case K_T1: libgrpp_type1_integrals(A, B, C, P, out[0]); break;
        case K_T2: libgrpp_type2_integrals(A, B, C, P, out[0]); break;
        case K_SO: libgrpp_spin_orbit_integrals(A, B, C, P, out[0], out[1], out[2]); break;
        case K_OC: libgrpp_outercore_potential_integrals(A, B, C, noc, w.ocp_arr, w.ocs_arr, out[0], out[1], out[2], out[3]); break;
        case K_FULL: libgrpp_full_grpp_integrals(A, B, G, C, out[0], out[1], out[2], out[3]); break;
        case K_OV: libgrpp_overlap_integrals(A, B, out[0]); break;
        case K_KIN: libgrpp_kinetic_energy_integrals(A, B, out[0]); break;
        case K_MOM: libgrpp_momentum_integrals(A, B, out[0], out[1], out[2]); break;
        case K_NUC: libgrpp_nuclear_attraction_integrals(A, B, C, Z, o.m, o.m == 3 || o.m == 4 ? np + 1 : np, out[0]); break;
        case K_NUCW: switch (o.m % 5) {
            case 0: libgrpp_nuclear_attraction_integrals_point_charge(A, B, C, Z, out[0]); break;
            case 1: libgrpp_nuclear_attraction_integrals_charged_ball(A, B, C, Z, np[0], out[0]); break;
            case 2: libgrpp_nuclear_attraction_integrals_gaussian_model(A, B, C, Z, np[0], out[0]); break;
            case 3: libgrpp_nuclear_attraction_integrals_fermi_model(A, B, C, Z, np[1], np[2], out[0]); break;
            case 4: libgrpp_nuclear_attraction_integrals_fermi_bubble_model(A, B, C, Z, np[1], np[2], np[3], out[0]); break; } break;
        case K_NMOD: nmod(np, Z, false, out[0]); break;
        case K_POTVAL: for (int i = 0; i < 8; i++) out[0][i] = libgrpp_potential_value(P, .05 + .31 * i); break;
        case K_OBJ: {
            double *q = out[0]; int n = 0; libgrpp_shell_t *x = (o.m & 1) ? libgrpp_shell_deep_copy(A) : mk_shell(s, s.sh[o.a]);
            if (o.m & 2) libgrpp_shell_mult_normcoef(x);
            if (o.m & 4) { x->coeffs[0] = 0.0; libgrpp_shell_shrink(x); }
            q[n++] = x->L; q[n++] = libgrpp_get_shell_size(x); q[n++] = x->num_primitives; q[n++] = x->cart_size;
            int *cl = libgrpp_generate_shell_cartesians(s.sh[o.a].L);
            for (int i = 0; i < 3 * csz(s.sh[o.a].L); i++) q[n++] = x->cart_list[i] + 100 * cl[i];
            extern void arena_free_lib(void *); arena_free_lib(cl);
            for (int i = 0; i < 3; i++) q[n++] = x->origin[i];
            for (int i = 0; i < x->num_primitives; i++) { q[n++] = x->coeffs[i]; q[n++] = x->alpha[i]; }
            int narr, len; op_shape(s, o, narr, len); while (n < len) q[n++] = 0;
            libgrpp_delete_shell(x); break; }
        case K_SHRINK: {
            double *q = out[0]; int n = 0; libgrpp_potential_t *x = libgrpp_shrink_potential(P);
            q[n++] = x->L; q[n++] = x->J; q[n++] = x->num_primitives; q[n++] = libgrpp_potential_value(x, .4);
            for (int i = 0; i < x->num_primitives; i++) { q[n++] = x->powers[i]; q[n++] = x->coeffs[i]; q[n++] = x->alpha[i]; }
            while (n < 4 + 3 * MAXP) q[n++] = 0; libgrpp_delete_potential(x); break; }
        case K_T1G: g = tri(0); libgrpp_type1_integrals_gradient(A, B, C, P, D, g); break;
        case K_T2G: g = tri(0); libgrpp_type2_integrals_gradient(A, B, C, P, D, g); break;
        case K_OVG: g = tri(0); libgrpp_overlap_integrals_gradient(A, B, D, g); break;
        case K_SOG: g = tri(0); g1 = tri(3); g2 = tri(6); libgrpp_spin_orbit_integrals_gradient(A, B, C, P, D, g, g1, g2); break;
        case K_OCG: g = tri(0); g1 = tri(3); g2 = tri(6); g3 = tri(9); libgrpp_outercore_potential_integrals_gradient(A, B, C, noc, w.ocp_arr, w.ocs_arr, D, g, g1, g2, g3); break;
        case K_FULLG: g = tri(0); g1 = tri(3); g2 = tri(6); g3 = tri(9); libgrpp_full_grpp_integrals_gradient(A, B, G, C, D, g, g1, g2, g3); break;
    }
    if (g) arena_free(g); if (g1) arena_free(g1); if (g2) arena_free(g2); if (g3) arena_free(g3);
    if (fresh || copy) { libgrpp_delete_shell(A); libgrpp_delete_shell(B); libgrpp_delete_potential(P); }
    if (ownG) libgrpp_delete_grpp(G);
}
void arena_free_lib(void *p) { arena_free(p); }

// rough cost of a call (natural logarithm of the number of memory accesses), fitted to measurements
static double semi_est(int l, int P, int nn, int np, bool grad) { return 10 + .9 * l + .5 * P + .36 * log((double) nn) + .4 * log((double) np) + (grad ? 1.0 : 0); }
double op_est(const WorldSpec &w, const Op &o) {
    auto &A = w.sh[o.a], &B = w.sh[o.b]; auto &P = w.pot[o.p % w.npot]; int l = A.L + B.L, nn = A.np * B.np;
    switch (o.kind) {
        case K_T2: case K_SO: return semi_est(l, P.L, nn, P.np, false);
        case K_T2G: case K_SOG: return semi_est(l, P.L, nn, P.np, true);
        case K_FULL: case K_FULLG: { double t = 20000; auto &g = w.grpp[o.p % w.ngrpp]; for (auto *v : {&g.arep, &g.esop}) for (int i : *v) t += exp(semi_est(l, w.pot[i].L, nn, w.pot[i].np, o.kind == K_FULLG)); return log(t); }
        case K_NUC: case K_NUCW: return o.m == 0 ? w.high ? 9 + .3 * l : 9 : 12.7 + .5 * l + log((double) nn);
        case K_T1: case K_OC: return 9 + (w.high ? .4 : .6) * l + .6 * log((double) nn); case K_T1G: case K_OCG: return 10 + (w.high ? .4 : .6) * l + .7 * log((double) nn);
        case K_MOM: case K_OVG: case K_KIN: return w.high ? 9 + .2 * l : 9;
    }
    return 9;
}
Op gen_op(Rng &r, const WorldSpec &w, int kind, double cap) {
    Op o; o.kind = kind; Op best; double be = 1e9;
    for (int t = 0; t < 40; t++) {
        o.a = (int) r.below(w.nsh); o.b = (int) r.below(w.nsh); o.c = (int) r.below(w.ncen); o.p = (int) r.below(6);
        o.m = kind == K_NUC ? (int) r.below(6) : kind == K_NUCW ? (int) r.below(5) : (int) r.below(8);
        double e = op_est(w, o); if (e < be) { be = e; best = o; } if (e <= log(cap)) { best = o; break; }
    }
    o = best;
    // differentiation point: usually one of the three centres involved
    int x = (int) r.below(5); o.d = x == 0 ? w.sh[o.a].ctr : x == 1 ? w.sh[o.b].ctr : x == 2 ? o.c : x == 3 ? w.sh[o.a].ctr : (int) r.below(w.ncen);
    if (kind == K_OVG && r.chance(.8)) o.d = r.chance(.5) ? w.sh[o.a].ctr : w.sh[o.b].ctr;
    return o;
}
std::string op_describe(const WorldSpec &w, const Op &o) {
    char b[300]; snprintf(b, sizeof b, "%s%s A=shell%d(L=%d,np=%d,c%d) B=shell%d(L=%d,np=%d,c%d) centre=%d pot=%d point=%d model=%d%s%s%s", (o.flags & OF_FORTRAN) ? "fortran:" : "", kind_name[o.kind], o.a, w.sh[o.a].L, w.sh[o.a].np, w.sh[o.a].ctr, o.b, w.sh[o.b].L, w.sh[o.b].np, w.sh[o.b].ctr, o.c, o.p, o.d, o.m, (o.flags & OF_FRESH) ? " fresh-objects" : "", (o.flags & OF_COPY) ? " on-copies" : "", (o.flags & OF_ALIAS) ? " aliased-origins" : "");
    return b;
}
std::string world_text(const WorldSpec &w) {
    std::string s; char b[400]; if (w.norm) s += "# basis functions are normalised\n";
    for (size_t i = 0; i < w.cen.size(); i++) { snprintf(b, sizeof b, "# centre %zu: %.17g %.17g %.17g\n", i, w.cen[i][0], w.cen[i][1], w.cen[i][2]); s += b; }
    for (size_t i = 0; i < w.sh.size(); i++) { auto &x = w.sh[i]; snprintf(b, sizeof b, "# shell %zu: L=%d centre=%d shift=(%g,%g,%g)", i, x.L, x.ctr, x.dx[0], x.dx[1], x.dx[2]); s += b; for (int k = 0; k < x.np; k++) { snprintf(b, sizeof b, " (%.17g*exp(-%.17g r2))", x.co[k], x.al[k]); s += b; } s += "\n"; }
    for (size_t i = 0; i < w.pot.size(); i++) { auto &x = w.pot[i]; snprintf(b, sizeof b, "# potential %zu: L=%d J=%d", i, x.L, x.J); s += b; for (int k = 0; k < x.np; k++) { snprintf(b, sizeof b, " (%.17g r^%d exp(-%.17g r2))", x.co[k], x.pw[k] - 2, x.al[k]); s += b; } s += "\n"; }
    for (size_t i = 0; i < w.ocp.size(); i++) { snprintf(b, sizeof b, "# outercore %zu: L=%d 2J=%d pot np=%d shell np=%d\n", i, w.ocp[i].L, w.ocp[i].J, w.ocp[i].np, w.ocs[i].np); s += b; }
    for (size_t i = 0; i < w.grpp.size(); i++) { auto &g = w.grpp[i]; snprintf(b, sizeof b, "# operator %zu: local=%d", i, g.local); s += b; for (int k : g.arep) { snprintf(b, sizeof b, " arep=%d", k); s += b; } for (int k : g.esop) { snprintf(b, sizeof b, " so=%d", k); s += b; } for (int k : g.oc) { snprintf(b, sizeof b, " oc=%d", k); s += b; } s += "\n"; }
    return s;
}
