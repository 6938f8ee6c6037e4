#pragma once
#include "core.h"
struct Report {
    enum { CAP = 1 << 18, MCAP = 1 << 13 };
    volatile int valid;
    char prop[8], kind[64], msg[1800];
    uint64_t seed_index, loghash, steps;
    uint32_t n[NSTREAMS], nm[NSTREAMS];
    uint32_t marks[NSTREAMS][MCAP];
    uint32_t data[CAP];
};
struct Shared {
    enum { COV = 1 << 20, NPROBE = 512, NSIGS = 1 << 22, NW = 16 };
    uint8_t cov[COV];
    struct { uint64_t hash, n; char name[48]; } probe[NPROBE];
    uint64_t sig[NSIGS];
    uint64_t nsig, nsig_overflow;
    uint64_t counters[NW][K_N];
    volatile int stop;
    volatile int nondet;
    uint64_t max_steps;
    uint64_t done_runs;
    struct { volatile uint64_t seed_index; volatile uint64_t started; } slot[NW];
    uint64_t sample_seed[64];
};
extern Shared* g_sh;
extern Report* g_report;
extern const char* g_prop_id;
extern uint64_t g_seed_index;
void seams_init();
void print_known(const char* prop);
void stuck_handler();
void stuck_limit(unsigned s);
