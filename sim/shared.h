// Memory shared between the runner (parent) and one simulated process (forked child).
#pragma once
#include "rt.h"
enum { SH_MAXLOG = 60000, SH_MAXOPS = 2048, SH_MAXVALS = 1 << 19 };
struct OpRes { int status; u32 off, n; u64 steps; u64 allocs; u64 events; u64 t_begin, t_end; i64 live_delta; };
struct Shared {
    int done, vkind, failstop, allow_exit, exit_code, vtid, vop;
    u64 vstep, vpc;
    char vtext[2048];
    RunStats stats;
    u64 alloc_hash;
    u32 nlog, log_overflow;
    SwitchRec log[SH_MAXLOG];
    u32 nops, nvals;
    OpRes op[SH_MAXOPS];
    double vals[SH_MAXVALS];
    u64 extra[64];
    u32 nlsites; AllocSite lsite[16]; u32 nsites; AllocSite site[64];       // of the last item that ran
};
extern Shared *SH;
void rt_flush();
