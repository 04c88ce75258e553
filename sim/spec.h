// A simulated execution, completely described: replay files are exactly this, as text.
#pragma once
#include "world.h"
#include "shared.h"
enum IType { I_OP, I_INIT, I_FINI, I_ISINIT, I_WAITINIT, I_BAR, I_ORDER, I_TOL, I_DEFAULTS, I_RESHELL,
             I_GNEW, I_GLOC, I_GAREP, I_GESOP, I_GOC, I_GDEL, I_GEVAL, I_GGRAD, I_OBJCYCLE, I_FINIT, I_FFINI, I_GREF, I_DRIVER, I_SNEW, I_SCOPY, I_SMOD, I_SDEL, I_PNEW, I_PCOPY, I_PDEL, I_SEVAL, I_NT };
enum { NSLOT = 8 };
extern const char *itype_name[];
struct Item { int t = I_OP; Op op; int x[4] = {0, 0, 0, 0}; std::vector<int> tl[4]; };      // tl: terms of sum_of_terms (local, averaged, spin-orbit, outercore)
std::vector<int> added_terms(const Item &it, int n);   // indices an add_* item adds: x[1], then x[2]-1 more in steps of x[3]
struct Spec {
    std::string prop = "C01"; u64 wseed = 1; int lmax = 2; u64 shord = 0;
    bool preinit = false;              // start from an uninitialised process
    int rounds = 1, outfill = 0, layout = 0, dirty = 0, watch = 0, failk = -1, failmode = 0, failitem = 0, omp = 0, amb = 0, onmain = 0; bool lean = false; int cpu = 60;      // lean: build only the objects of the last call
    std::vector<std::vector<Item>> th;
    SchedCfg sc; MemCfg mc;
    std::string expect;                // violation kind recorded by the run that produced the file
    bool driver() const { return !th.empty() && !th[0].empty() && th[0][0].t == I_DRIVER; }
    bool team() const { return th.size() > 1 || driver() && th[0][0].x[0] > 1; }
    int nitems() const { int n = 0; for (auto &t : th) n += (int) t.size(); return n; }
};
std::string spec_text(const Spec &s, bool trace);
bool spec_parse(const std::string &text, Spec &s);
bool driver_available(); void driver_dir(const std::string &d); void driver_prepare(u64 seed, int lmax); int driver_call(int team, u32 mask); void driver_collect(std::vector<double> &v, int &nfiles); void driver_cleanup(const std::string &d);
void run_child(const Spec &s);         // in a forked process; never returns
void cart_list_for(int order, int L, int *list);   // independent re-statement of the component orders
int item_values(const WorldSpec &w, const Item &it, int &narr, int &len);
