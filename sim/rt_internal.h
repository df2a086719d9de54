#pragma once
#include "sim.h"
#include <string>
#include <vector>
namespace sim {
struct SchedEntry { int16_t tid; int16_t to; int32_t forced; uint64_t local; };
struct RunConfig {
    uint64_t seed = 0;
    bool verbose = false;
    unsigned wall_s = 60;
    bool has_sched = false;
    std::vector<SchedEntry> sched;
    std::vector<int> ops_off;
};
static const unsigned MAX_SCHED = 40000, MAX_COVER = 512, MAX_TAGS = 96;
struct Result {
    int violated;
    char kind[64];
    char msg[6000];
    char stack[800];
    int vthread;
    uint64_t race_pc[2];
    uint64_t hash, schedhash, steps, switches, threads, sim_ns;
    unsigned nops;
    unsigned nsched, sched_overflow;
    SchedEntry sched[MAX_SCHED];
    unsigned ncover;
    uint64_t cover[MAX_COVER];
    unsigned ntags;
    struct { char name[48]; uint64_t n; } tags[MAX_TAGS];
    unsigned nnotes;
    char notes[65536];
};
void run_child(ScenarioFn fn, const RunConfig &cfg, Result *res);
void rt_init();
void rt_parent(bool on);          // the bookkeeping of the driver stays out of the simulated heap
std::vector<std::pair<std::string, std::pair<ScenarioFn, std::string>>> &scenarios();
std::vector<InitFn> &inits();
}
