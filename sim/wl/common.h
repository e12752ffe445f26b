// common.h - helpers shared by the workloads.
#pragma once
#include "workload.h"
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

// Runs each client of the plan as a simulated thread; client k executes its operations in plan order.
// one(op) must not throw.
template<typename F>
void run_clients(const Plan& plan, int n, F&& one) {
    std::vector<std::thread> ts;
    { sim::Quiet q; ts.reserve((size_t) n); }
    for (int k = 0; k < n; ++k) {
        ts.emplace_back([&plan, &one, k] {
            for (const auto& op : plan.ops) if (op.client == k) one(op);
        });
    }
    for (auto& t : ts) t.join();
}

// Runs f; if armed, allocations and thread creations may fail meanwhile.  If f then reports that they did, f is run again
// undisturbed, and must succeed.
template<typename F>
void attempt(bool armed, const char* key, F&& f) {
    if (!armed) { f(); return; }
    uint64_t f0 = sim::fault_count(); std::string why;
    sim::arm_faults(true);
    try { f(); sim::arm_faults(false); return; }
    catch (const std::bad_alloc& e) { sim::arm_faults(false); sim::Quiet q; why = e.what(); }
    catch (const std::system_error& e) { sim::arm_faults(false); sim::Quiet q; why = e.what(); }
    catch (...) { sim::arm_faults(false); throw; }
    { sim::Quiet q; if (sim::fault_count() == f0) sim::fail("unexpected-error", key, "lack of resources was reported although nothing failed: %s", why.c_str()); sim::probe(63); }
    f();
}

inline std::string to_s(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }

// Linearizability of a short history against a sequential model: does some order of the operations that respects real
// time (event numbers) make every recorded result right?  State must be copyable and give a string fingerprint.
struct LinRec { int code, client; long a, b; long res, res2; bool failed; uint64_t start, end; };
template<typename State, typename Apply>
bool linearizable(const std::vector<LinRec>& h, const State& init, Apply&& apply) {
    if (h.size() > 60) return true;
    std::set<std::string> seen;
    std::function<bool(uint64_t, const State&)> go = [&](uint64_t done, const State& s) -> bool {
        if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (!seen.insert(std::to_string(done) + "|" + s.print()).second) return false;
        uint64_t min_end = ~0ull; for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1)) min_end = std::min(min_end, h[i].end);
        for (size_t i = 0; i < h.size(); ++i) if (!(done >> i & 1) && h[i].start <= min_end) { State t = s; if (apply(t, h[i]) && go(done | 1ull << i, t)) return true; }
        return false;
    };
    return go(0, init);
}
