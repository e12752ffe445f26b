// Requests that meet failing allocations or thread creations: they report an error and leave the system as usable and
// consistent as before, so that asking again succeeds.
#include "msrun.h"
#include <sys/sysinfo.h>

using namespace ms;

WORKLOAD(resource, "C12", 10, F_ALLOC | F_THREAD | F_WAKE | F_NEEDFAULT)
static void resource_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.chance(65) ? 1 : 2; bool pauli = p.p[0] == PAULI || p.p[0] == PAULI_TX;
    static const int codes[] = {O_MM, O_MM, O_MM_CALL, O_LM, O_LM, O_LM_CALL, O_PLM, O_PLM, O_PLM_RAW, O_PLM_RAW, O_GENDICT, O_GENDICT, O_OSG, O_FIND_MM, O_FIND_LM, O_FIND_PLM, O_SCAN, O_MULT};
    static const int pcodes[] = {O_PMM, O_PLMNN, O_COMM, O_ACOMM, O_PCOMM, O_PACOMM, O_PPLM};
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) {
        Op o; o.client = k; o.code = pauli && r.chance(50) ? pcodes[r.below(7)] : codes[r.below(17)]; o.a = r.range(0, 5); o.b = (int) r.below(8000); o.c = (int) r.below(3) * 16 + (r.chance(65) ? 0 : 12 + r.range(0, 3)); p.ops.push_back(o); } }
}
static void resource_run(const Plan& p) {
    std::optional<MsRun> run; size_t budget = 150 / (size_t) std::max(1, get_nprocs()); { sim::Quiet q; run.emplace(p.p[0], p.p[1]); run->prepare(p); run->armed = true; }
    run_clients(p, p.p[2], [&](const Op& op) {
        Op o = op; { sim::Quiet q; if (o.c % 16 < 12) { if (budget >= 16) budget -= 16; else o.c = o.c / 16 * 16 + 15; } }
        run->one(o);
    });
    sim::Quiet q; sim::label("final");
    run->check_request_history(); run->check_entries(); run->check_table();
}
