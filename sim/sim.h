// sim.h - interface of the deterministic simulator (runtime in rt.cc), as seen by workloads and the driver.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sim {

    // ---------------------------------------------------------------- configuration of one run
    enum Strategy : uint32_t { ST_RANDOM = 0, ST_PCT = 1, ST_RR = 2, ST_STARVE = 3, ST_SERIAL = 4, ST_COUNT = 5 };

    // One recorded decision.  kind: 'S' = switch to thread val, 'C' = choice val, 'W' = spurious wake-up
    struct Decision { uint64_t ev; uint32_t kind; uint32_t val; };

    struct Fault { uint32_t kind; uint32_t pad; uint64_t ordinal; };   // kind: 'A' alloc failure, 'T' thread creation failure

    constexpr uint32_t MAX_DEC = 1u << 20;
    constexpr uint32_t MAX_FAULTS = 16;
    constexpr uint32_t MAX_THREADS = 250;
    constexpr uint32_t MAX_PROBES = 64;

    struct Config {
        uint64_t seed = 0;            // schedule/fault PRNG
        uint32_t replay = 0;          // 1: follow decisions/faults given, draw nothing
        uint32_t strategy = 0;
        uint32_t p_sync = 200;        // per mille: switch probability at a synchronisation event
        uint64_t mem_gap = 0;         // mean number of memory events between preemptions (0: none)
        uint32_t pct_depth = 3;
        uint64_t pct_span = 20000;
        uint32_t starve_tid = 1;
        uint32_t writer_pref = 0;     // read lock waits if a writer is waiting
        uint32_t p_spurious = 0;      // per mille
        uint32_t cores = 4;
        uint64_t max_events = 0;
        uint32_t n_faults = 0;
        Fault faults[MAX_FAULTS];
    };

    enum Outcome : uint32_t { OUT_NONE = 0, OUT_OK = 1, OUT_VIOLATION = 2, OUT_ERROR = 3, OUT_LIMIT = 4 };   // LIMIT: run abandoned at a limit of the simulator

    // Results of one run; lives in memory shared between the driver and the forked child.
    struct Result {
        uint32_t outcome;
        char cls[48];                 // violation class
        char key[512];                // call-site / operation key
        char msg[4096];               // human readable
        uint64_t events, sync_events, mem_events, switches, preemptions, threads, allocs;
        uint64_t hash;                // hash of full event log (determinism)
        uint64_t ilv_hash;            // hash of interleaving of sync events
        uint64_t spurious, alloc_faults, thread_faults, starved, races_checked;
        uint64_t thread_creates, fault_allocs_seen, lock_contended, blocked, max_live;
        uint64_t ops_done, ops_failed;
        uint64_t probes[MAX_PROBES];
        uint64_t n_dec;
        Decision dec[MAX_DEC];
        uint64_t n_pcs; uint64_t pcs[64];   // program counters relevant to the report
        uint64_t n_fpcs; uint64_t fpcs[16];  // where the last fault was injected
    };

    // ---------------------------------------------------------------- driver side
    void init_process();                                    // once, before any fork
    void run(const Config& cfg, Result* res, const Decision* dec, uint64_t n_dec, void (*body)(void*), void* arg);  // in child; does not return

    // ---------------------------------------------------------------- workload side
    [[noreturn]] void fail(const char* cls, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void probe(unsigned idx);                               // reach probe
    uint64_t now();                                         // global event sequence number
    void op_done(bool ok);
    void arm_faults(bool on);                               // allocation/thread faults fire only while armed
    bool faults_fired();                                    // did any alloc/thread fault fire so far?
    uint64_t fault_count();
    uint64_t allocs_seen();                                 // allocations made so far while armed
    void set_cores(unsigned n);
    void label(const char* what);                             // name of the operation this thread is in
    void yield();                                           // explicit scheduling point
    unsigned self();
    bool active();
    bool want(const char* property);                        // is this the property being decided (workload names decide all)?
    void set_want(const char* property);

    // Oracle code: no preemption, no race recording while alive.
    struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };
}
