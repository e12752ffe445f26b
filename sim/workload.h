// workload.h - plans (what the simulated clients do) and the registry of workloads.
#pragma once
#include "sim.h"
#include <string>
#include <vector>

struct PlanRng {
    uint64_t s;
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int) below((uint64_t) (hi - lo + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
};

struct Op { int client = 0, code = 0, a = 0, b = 0, c = 0; };

struct Plan {
    int p[16] = {0};              // workload parameters
    std::vector<Op> ops;          // what each client does, in client program order
};

struct Workload {
    const char* name;
    const char* property;         // properties it serves: "C01,C05"
    unsigned weight;
    unsigned fault_mask;          // 1: allocation failures, 2: thread creation failures, 4: spurious wake-ups
    void (*gen)(PlanRng&, Plan&);
    void (*run)(const Plan&);
    Workload* next;
    static Workload*& head();
    Workload(const char* n, const char* pr, unsigned w, unsigned f, void (*g)(PlanRng&, Plan&), void (*r)(const Plan&))
        : name{n}, property{pr}, weight{w}, fault_mask{f}, gen{g}, run{r}, next{head()} { head() = this; }
};
#define WORKLOAD(ident, props, weight, faults) \
    static void ident##_gen(PlanRng&, Plan&); static void ident##_run(const Plan&); \
    static Workload ident##_wl{#ident, props, weight, faults, ident##_gen, ident##_run};

enum { F_ALLOC = 1, F_THREAD = 2, F_WAKE = 4, F_NEEDFAULT = 8 };
