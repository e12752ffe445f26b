// Concurrent requests for operator matrices: entries, symbol table, one matrix per request.
#include "msrun.h"

using namespace ms;

static int pick_matrix_op(PlanRng& r, int kind) {
    bool pauli = kind == PAULI || kind == PAULI_TX;
    int x = r.range(0, 99);
    if (pauli && x < 45) { static const int c[] = {O_PMM, O_PLMNN, O_COMM, O_ACOMM, O_PCOMM, O_PACOMM, O_PPLM}; return c[r.below(7)]; }
    if (x < 55) { static const int c[] = {O_MM, O_MM_CALL}; return c[r.below(2)]; }
    if (x < 75) { static const int c[] = {O_LM, O_LM_CALL}; return c[r.below(2)]; }
    if (x < 83) return O_PLM;
    if (x < 90) return O_PLM_RAW;
    if (x < 95) return O_GENDICT;
    return O_SCAN;
}
static Op rnd_op(PlanRng& r, int client, int code) { Op o; o.client = client; o.code = code; o.a = r.range(0, 5); o.b = (int) r.below(8000); o.c = (int) r.below(48); return o; }

// few clients, matrices built with worker threads: entries
WORKLOAD(matrix_build, "C01", 10, F_WAKE)
static void matrix_build_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(1, 2); int n = r.range(1, 3);
    for (int k = 0; k < nc; ++k) for (int i = 0; i < n; ++i) { Op o = rnd_op(r, k, pick_matrix_op(r, p.p[0])); o.c -= o.c % 16; o.c += r.chance(85) ? 0 : 12 + r.range(0, 3); p.ops.push_back(o); }
}
static void matrix_build_run(const Plan& p) {
    std::optional<MsRun> run; { sim::Quiet q; run.emplace(p.p[0], p.p[1]); run->prepare(p); }
    run_clients(p, p.p[2], [&](const Op& o) { run->one(o); });
    sim::Quiet q; run->check_entries();
}

// matrices released one by one: a released one is missing, the others stay
static void check_deletion(MatrixSystem& sys, PlanRng r) {
    auto lock = sys.get_write_lock(); ptrdiff_t n = (ptrdiff_t) sys.size(); std::vector<const SymbolicMatrix*> at; for (ptrdiff_t i = 0; i < n; ++i) at.push_back(&sys[i]);
    for (ptrdiff_t i : {(ptrdiff_t) -1, n, n + 3}) { if (sys.delete_matrix(lock, i)) sim::fail("bad-release", "index", "matrix %ld was released, there are %ld", (long) i, (long) n); bool threw = false; try { (void) sys[i]; } catch (const Moment::errors::missing_component&) { threw = true; } if (!threw) sim::fail("bad-release", "lookup", "matrix %ld was found, there are %ld", (long) i, (long) n); }
    std::vector<char> gone((size_t) n);
    for (ptrdiff_t k = 0; k < n; ++k) {
        auto i = (ptrdiff_t) r.below((uint64_t) n); if (sys.delete_matrix(lock, i) == (bool) gone[(size_t) i]) sim::fail("bad-release", "twice", "matrix %ld could %sbe released", (long) i, gone[(size_t) i] ? "" : "not "); gone[(size_t) i] = 1;
        for (ptrdiff_t j = 0; j < n; ++j) { const SymbolicMatrix* m = nullptr; try { m = &sys[j]; } catch (const Moment::errors::missing_component&) {} if (m != (gone[(size_t) j] ? nullptr : at[(size_t) j])) sim::fail("bad-release", "others", "after matrix %ld was released, matrix %ld is %s", (long) i, (long) j, m ? "there" : "missing"); }
    }
}

// more clients, few distinct requests: one matrix each, symbol table, entries
WORKLOAD(matrix_race, "C03,C01,C02", 10, F_WAKE)
static void matrix_race_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(2, 4);
    std::vector<Op> menu; int nm = r.range(2, 4); for (int i = 0; i < nm; ++i) menu.push_back(rnd_op(r, 0, pick_matrix_op(r, p.p[0])));
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 4); for (int i = 0; i < n; ++i) {
        Op o = menu[r.below(menu.size())]; o.client = k; if (r.chance(60)) { o.c -= o.c % 16; o.c += 15; }
        int x = r.range(0, 99);
        if (x < 25) { if (o.code == O_MM || o.code == O_MM_CALL) o.code = O_FIND_MM; else if (o.code == O_LM || o.code == O_LM_CALL) o.code = O_FIND_LM; else if (o.code == O_PLM) o.code = O_FIND_PLM; }
        else if (x < 35) { if (o.code == O_MM) o.code = O_MM_CALL; else if (o.code == O_MM_CALL) o.code = O_PMM; else if (o.code == O_LM) o.code = O_LM_CALL; else if (o.code == O_PLM) o.code = O_PPLM; }
        else if (x < 43) o.code = O_SCAN; else if (x < 50) o.code = O_OSG;
        if ((o.code == O_PMM || o.code == O_PPLM) && r.chance(60)) o.c %= 16;
        p.ops.push_back(o); } }
}
static void matrix_race_run(const Plan& p) {
    std::optional<MsRun> run; { sim::Quiet q; run.emplace(p.p[0], p.p[1]); run->prepare(p); }
    run_clients(p, p.p[2], [&](const Op& o) { run->one(o); });
    sim::Quiet q;
    if (sim::want("C03")) run->check_request_history();
    if (sim::want("C02")) run->check_table();
    if (sim::want("C01")) run->check_entries();
    if (sim::want("C03")) check_deletion(*run->sc.sys, PlanRng{p.ops.size() * 17 + (uint64_t) p.p[1]});
}

// symbol registration: matrices and dictionaries that share symbols, readers in between
WORKLOAD(symbols, "C02", 10, F_WAKE)
static void symbols_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(2, 3);
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) { int x = r.range(0, 99); Op o = rnd_op(r, k, x < 38 ? pick_matrix_op(r, p.p[0]) : x < 50 ? O_GENDICT : x < 62 ? O_INDEX : x < 80 ? O_SCAN : O_LM); p.ops.push_back(o); } }
}
static void symbols_run(const Plan& p) {
    std::optional<MsRun> run; { sim::Quiet q; run.emplace(p.p[0], p.p[1]); run->prepare(p); }
    run_clients(p, p.p[2], [&](const Op& o) { run->one(o); });
    sim::Quiet q; run->check_table();
}
