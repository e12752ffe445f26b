// Numeric bases of a matrix, built on first use and cached: concurrent first uses, failing allocations, growing tables.
#include "msrun.h"
#include "basis_check.h"

using namespace ms;
using namespace basis_check;

namespace {
    enum { Q_BASIS = 0, Q_GROW_DICT = 1, Q_GROW_MM = 2 };
}

WORKLOAD(bases, "C05", 10, F_ALLOC | F_WAKE)
static void bases_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(1, 4); p.p[3] = r.chance(45); p.p[4] = r.range(0, 3) ; p.p[5] = (int) r.below(8000); p.p[6] = r.range(0, 5);
    p.p[7] = r.range(0, 4); p.p[8] = (int) r.below(8000); p.p[9] = (int) r.below(1 << 30);
    int f0 = (int) r.below(B_FORMS);
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) {
        int x = r.range(0, 99);
        if (p.p[3] && x < 18) p.ops.push_back({k, r.chance(60) ? Q_GROW_DICT : Q_GROW_MM, r.range(0, 7), 0, 0});
        else { int f = r.chance(40) ? f0 : (int) r.below(B_FORMS); if (r.chance(20)) f = f0 ^ 4; p.ops.push_back({k, Q_BASIS, f, (int) r.below(2), 0}); } } }
}
static void bases_run(const Plan& p) {
    std::optional<MsRun> run; std::vector<const SymbolicMatrix*> ms; bool grow = p.p[3];
    struct Seen { const void* re = nullptr; const void* im = nullptr; uint64_t n = 0; bool threw = false; }; std::vector<std::array<Seen, B_FORMS>> seen;
    {
        sim::Quiet q; run.emplace(p.p[0], p.p[1]);
        // the two matrices under test, made single-threaded
        auto& sys = *run->sc.sys;
        auto make = [&](int what, int b) -> const SymbolicMatrix& {
            Op o; o.a = p.p[6]; o.b = b; o.c = 15; size_t l = (size_t) run->level(o);
            switch (what) {
                case 0: return sys.MomentMatrix.create(l, MTP::Never).second;
                case 1: return sys.LocalizingMatrix.create(LocalizingMatrixIndex{l, run->seq(run->word(o))}, MTP::Never).second;
                case 2: { auto rp = run->raw_poly(o); auto [off, m] = sys.create_and_register_localizing_matrix(l, rp, MTP::Never); (void) off; return m; }
                case 3: { sys.generate_dictionary(2); Polynomial sp = run->symbol_poly(o); return sys.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{l, sp}, MTP::Never).second; }
                default: { auto* ps = run->sc.pauli(); if (!ps) return sys.MomentMatrix.create(0, MTP::Never).second; if (b % 2) return ps->CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{l, 0, run->seq(run->word(o))}, MTP::Never).second; return ps->AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{l, 0, run->seq(run->word(o))}, MTP::Never).second; }
            }
        };
        ms.push_back(&make(p.p[4], p.p[5])); ms.push_back(&make(p.p[7], p.p[8])); if (ms[0] == ms[1]) ms.pop_back(); seen.resize(ms.size());
    }
    auto one = [&](const Op& op) {
        auto& sys = *run->sc.sys;
        if (op.code != Q_BASIS) {
            sim::label("grow");
            if (op.code == Q_GROW_DICT) sys.generate_dictionary((size_t) (op.a % (run->maxl + 1) + 1)); else sys.MomentMatrix.create((size_t) (op.a % (run->maxl + 1)), op.a > 4 ? MTP::Always : MTP::Never);
            sim::Quiet q; sim::op_done(true); return;
        }
        sim::label(form_names[op.a]); size_t which = (size_t) op.b % ms.size(); const auto& m = *ms[which];
        const void *re = nullptr, *im = nullptr; bool threw = false, oom = false; uint64_t s = 0;
        std::optional<MatrixSystem::ReadLock> lock; if (grow) { lock.emplace(sys.get_read_lock()); }
        sim::arm_faults(true);
        try {
            switch (op.a) {
#define FORM(n, F) case n: { auto b = m.Basis.F(); re = &b.first; im = &b.second; s = touch_e(b.first) + touch_e(b.second); break; }
                FORM(B_DENSE, Dense) FORM(B_DENSE_C, DenseComplex) FORM(B_SPARSE, Sparse) FORM(B_SPARSE_C, SparseComplex)
                FORM(B_MONO, DenseMonolithic) FORM(B_MONO_C, DenseMonolithicComplex) FORM(B_SMONO, SparseMonolithic) FORM(B_SMONO_C, SparseMonolithicComplex)
#undef FORM
            }
        } catch (const errors::bad_basis_error&) { threw = true; }
        catch (const std::bad_alloc&) { oom = true; }
        sim::arm_faults(false);
        lock.reset();
        sim::Quiet q; volatile uint64_t sink = s; (void) sink; sim::op_done(!oom);
        if (oom) { if (!sim::faults_fired()) sim::fail("unexpected-error", form_names[op.a], "a basis request failed with bad_alloc although no allocation failed"); sim::probe(1); return; }
        auto& z = seen[which][(size_t) op.a];
        if (z.n && (z.threw != threw || z.re != re || z.im != im)) sim::fail("basis-changed", form_names[op.a], "two requests for the same basis got different answers");
        z.re = re; z.im = im; z.threw = threw; ++z.n; sim::probe(0);
    };
    run_clients(p, p.p[2], one);
    sim::Quiet q; sim::label("final");
    const auto& st = run->sc.sys->Symbols(); size_t nre = st.Basis.RealSymbolCount(), nim = st.Basis.ImaginarySymbolCount();
    for (size_t i = 0; i < ms.size(); ++i) { Expect e = expect(st, *ms[i]);
        for (int f = 0; f < B_FORMS; ++f) check_form(*ms[i], f, e, nre, nim, [&](const void* re, const void* im, bool threw) {
            auto& z = seen[i][(size_t) f];
            if (z.n && (z.threw != threw || z.re != re || z.im != im)) sim::fail("basis-changed", form_names[f], "a later request for the same basis got a different answer");
        }); }
    uint32_t lcg = (uint32_t) p.p[9] * 2654435761u + 12345; auto rnd = [&] { lcg = lcg * 1664525u + 1013904223u; return (unsigned) (lcg >> 9); };
    check_polynomials(st, run->sc.sys->polynomial_factory(), rnd);
}
