// The repository's C driver as one simulated program: generated input files, simulated OpenMP team, matrices read back.
#include "spec.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
#include <algorithm>
#include <sys/stat.h>
extern "C" int driver_main(int, char **) __attribute__((weak));
void sim_set_omp_threads(int n);
bool driver_available() { return driver_main != nullptr; }
static const char *FLAGS[] = {"--grpp", "--overlap", "--kinetic", "--momentum", "--coulomb-point", "--overlap-grad", "--grad-type1", "--grad-type2", "--grad-spin-orbit", "--grad-outercore", "--grpp-grad", "--coulomb-gauss", "--coulomb-ball", "--coulomb-fermi", "--coulomb-fermi-bubble", "--coulomb-point-num"};
static int basis_dim = 0;
static std::string dir;
void driver_dir(const std::string &d) { dir = d; }
static std::vector<std::string> files() { std::vector<std::string> v; DIR *d = opendir("."); if (!d) return v; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(d); std::sort(v.begin(), v.end()); return v; }
// molecule, basis and pseudopotentials of one input: everything follows from the seed
static void write_inputs(u64 seed, int lmax) {
    Rng r(mix(seed, 1414)); static const char *SY[] = {"H", "He", "Li", "B", "O", "Ne"}; static const int Z[] = {1, 2, 3, 5, 8, 10};
    int natom = 1 + (int) r.below(3); std::vector<int> el; for (int i = 0; i < natom; i++) el.push_back((int) r.below(6));
    FILE *f = fopen("molecule.xyz", "w"); fprintf(f, "%d\n\n", natom);
    for (int i = 0; i < natom; i++) fprintf(f, "%s %.10f %.10f %.10f\n", SY[el[i]], (r.uni() - .5) * 3, r.chance(.2) ? 0.0 : (r.uni() - .5) * 3, r.chance(.2) ? 0.0 : (r.uni() - .5) * 3);
    fclose(f);
    std::vector<int> nsh(6, 0), dim(6, 0);
    FILE *b = fopen("basis.inp", "w"), *e = fopen("ecp.inp", "w");
    for (int k = 0; k < 6; k++) {
        int nb = 1 + (int) r.below(lmax >= 2 && natom < 3 && r.chance(.3) ? 3 : 2); fprintf(b, "* %d %d\n", Z[k], nb);
        for (int L = 0; L < nb; L++) { int np = 1 + (int) r.below(2), nc = L == 0 && natom < 3 ? 1 + (int) r.below(2) : 1; fprintf(b, "%d %d\n", np, nc);
            for (int p = 0; p < np; p++) { fprintf(b, "%.6f", exp(log(.3) + r.uni() * log(10.0))); for (int c = 0; c < nc; c++) fprintf(b, " %.6f", .2 + r.uni()); fprintf(b, "\n"); }
            nsh[k] += nc; dim[k] += nc * (L + 1) * (L + 2) / 2; }
        int nl = 1 + (int) r.below(3), noc = nl >= 2 && r.chance(.6) ? 1 : 0; if (nl >= 3 && noc && r.chance(.3)) noc = 2;
        fprintf(e, "* %d %d %d\n", Z[k], noc, nl);
        for (int o = 0; o < noc; o++) { int np = 1 + (int) r.below(2), nc = o == 0 ? 1 : 2; fprintf(e, "%d %d\n", np, nc); for (int p = 0; p < np; p++) { fprintf(e, "%.6f", exp(log(.5) + r.uni() * log(8.0))); for (int c = 0; c < nc; c++) fprintf(e, " %.6f", .2 + r.uni()); fprintf(e, "\n"); } }
        for (int L = 0; L < nl; L++) { int np = 1 + (int) r.below(2), oc = L < noc ? (L == 0 ? 1 : 2) : 0; fprintf(e, "%d %d\n", np, oc);
            for (int p = 0; p < np; p++) { fprintf(e, "%d %.6f %.6f %.6f", 1 + (int) r.below(2), exp(log(.4) + r.uni() * log(8.0)), (r.uni() - .5) * 4, (r.uni() - .5) * 2); for (int c = 0; c < oc; c++) fprintf(e, " %.6f", (r.uni() - .5) * 2); fprintf(e, "\n"); } }
    }
    fclose(b); fclose(e); basis_dim = 0; for (int i : el) basis_dim += dim[i];
}
void driver_prepare(u64 seed, int lmax) {
    if (mkdir(dir.c_str(), 0700) && access(dir.c_str(), W_OK)) violation(V_HARNESS, "no scratch directory");
    if (chdir(dir.c_str())) violation(V_HARNESS, "cannot enter the scratch directory");
    for (auto &x : files()) unlink(x.c_str());
    write_inputs(seed, lmax & 15);
    int n = open("/dev/null", O_WRONLY); if (n >= 0 && !getenv("SIM_DRIVER_OUT")) { fflush(stdout); dup2(n, 1); close(n); }
}
int driver_call(int team, u32 mask) {
    if (!driver_main) { violation(V_HARNESS, "the driver is not part of this build"); }
    std::vector<std::string> a = {"driver"}; for (int i = 0; i < 16; i++) if (mask >> i & 1) a.push_back(FLAGS[i]);
    static std::vector<char *> p; p.clear(); static std::vector<std::string> keep; keep = a; for (auto &s : keep) p.push_back(&s[0]); p.push_back(nullptr);
    sim_set_omp_threads(team);
    return driver_main((int) keep.size(), p.data());
}
// every matrix file, densely: name hash in [0,1), then basis_dim x basis_dim numbers
void driver_collect(std::vector<double> &v, int &nfiles) {
    nfiles = 0; v.clear();
    for (auto &x : files()) {
        if (x.find("libgrpp_c_") != 0) continue;
        nfiles++; u64 h = 0; for (char c : x) h = mix(h, (u8) c); v.push_back((double) (h >> 40) / (1 << 24));
        FILE *f = fopen(x.c_str(), "r"); if (!f) continue; std::vector<double> m(basis_dim * basis_dim, 0.0), w; char t[200];
        double bad = 0; std::string all; char buf[4096]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) all.append(buf, n); fclose(f);
        size_t pos = 0; while (pos < all.size()) { size_t q = all.find('\n', pos); if (q == std::string::npos) q = all.size(); std::string l = all.substr(pos, q - pos); pos = q + 1; int i, j; double d; if (sscanf(l.c_str(), "%d%d%lf", &i, &j, &d) == 3 && i >= 1 && j >= 1 && i <= basis_dim && j <= basis_dim) m[(i - 1) * basis_dim + j - 1] = d; else if (sscanf(l.c_str(), "%d", &i) == 1 && l.find_first_of(".E") == std::string::npos && i == basis_dim) ; else bad++; }
        (void) t; v.push_back(bad); v.insert(v.end(), m.begin(), m.end());
    }
}
void driver_cleanup(const std::string &d) { if (chdir(d.c_str())) return; for (auto &x : files()) unlink(x.c_str()); if (chdir("/")) return; rmdir(d.c_str()); }
