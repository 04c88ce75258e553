// Workload: generated molecules/operators ("world") and API calls ("ops") on them.
#pragma once
#include <array>
#include "rt.h"
extern "C" {
#include "libgrpp.h"
}
enum Kind { K_T1, K_T2, K_SO, K_OC, K_FULL, K_OV, K_KIN, K_MOM, K_NUC, K_NUCW, K_NMOD, K_POTVAL, K_OBJ, K_SHRINK,
            K_T1G, K_T2G, K_SOG, K_OCG, K_FULLG, K_OVG, K_NORM, K_NKINDS };
extern const char *kind_name[];
enum { OF_FRESH = 1, OF_FORTRAN = 2, OF_COPY = 4, OF_ALIAS = 8 };      // own freshly created objects / Fortran entry point / evaluate on deep copies / pass a shell's own origin where the coordinates coincide
struct Op { int kind = 0, a = 0, b = 0, c = 0, p = 0, d = 0, m = 0, flags = 0; };
std::string op_text(const Op &o); bool op_parse(const std::string &s, Op &o);

enum { MAXP = 44 };
struct ShellSpec { int L, ctr, np; double co[MAXP], al[MAXP], dx[3]; int nnz() const { int n = 0; for (int i = 0; i < np; i++) n += co[i] > 1e-9 || co[i] < -1e-9; return n; } };
struct PotSpec { int L, J, np; int pw[MAXP]; double co[MAXP], al[MAXP]; };
struct GrppSpec { int local; std::vector<int> arep, esop; std::vector<int> oc; };
struct WorldSpec {
    u64 seed = 1; bool norm = false, contrast = false, high = false; int lmax = 2, ncen = 3, nsh = 5, npot = 5, noc = 3, ngrpp = 2;
    std::vector<std::array<double, 3>> cen;
    std::vector<ShellSpec> sh; std::vector<PotSpec> pot;      // semilocal / local potentials
    std::vector<PotSpec> ocp; std::vector<ShellSpec> ocs;
    std::vector<GrppSpec> grpp;
    std::vector<std::array<double, 4>> npar;                  // nuclear model parameters R, c, a, k
    std::vector<int> charge;
};
WorldSpec make_world(u64 seed, int lmax);      // lmax: highest shell L + 16 * highest potential L (0 = 2) + 256: only the highest and the lowest
struct World {
    WorldSpec s; u64 ord = 0;                                 // orders the objects are created under: 2 bits each, outercore shells from bit 32
    std::vector<double *> cen;                                // in simulated memory
    std::vector<libgrpp_shell_t *> sh; std::vector<libgrpp_potential_t *> pot;
    std::vector<libgrpp_potential_t *> ocp; std::vector<libgrpp_shell_t *> ocs;
    libgrpp_potential_t **ocp_arr = nullptr; libgrpp_shell_t **ocs_arr = nullptr;
    std::vector<libgrpp_grpp_t *> grpp;
    std::vector<double *> npar;
    std::vector<double *> raw;                                // argument arrays for Fortran calls
    void build(const Op *only = nullptr); void destroy();      // only: just what this call uses
    void watch_inputs();
};
libgrpp_shell_t *mk_shell(const WorldSpec &w, const ShellSpec &s);
libgrpp_potential_t *mk_pot(const PotSpec &p);
libgrpp_grpp_t *mk_grpp(const WorldSpec &w, const GrppSpec &g, u64 ord = 0);
void set_order(int order);      // 0 the default
void op_shape(const WorldSpec &w, const Op &o, int &narr, int &len);
void op_exec(World &w, const Op &o, double **out, libgrpp_shell_t *a = nullptr, libgrpp_shell_t *b = nullptr, libgrpp_potential_t *p = nullptr);
Op gen_op(Rng &r, const WorldSpec &w, int kind, double cap); double op_est(const WorldSpec &w, const Op &o);
bool kind_has_fortran(int kind);
std::string world_text(const WorldSpec &w);
std::string op_describe(const WorldSpec &w, const Op &o);
