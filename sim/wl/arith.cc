// Arithmetic on matrices of a shared system: products with words and polynomials, sums, copies, numeric matrices.
#include "msrun.h"
#include "matrix/composite_matrix.h"
#include "matrix/value_matrix.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "scenarios/imported/imported_context.h"
#include <cmath>
#include <sys/sysinfo.h>
#include <deque>

using namespace ms;

namespace {
    enum { A_SEQ, A_MONO, A_POLY, A_RAW, A_ADD, A_ADD_MONO, A_ADD_POLY, A_CLONE, A_READ, A_LM, A_VALUE, A_GENDICT, A_N };
    using Lin = std::vector<std::pair<W, cplx>>;            // linear combination of words
    struct Src {                                            // a matrix of the system and what its cells stand for
        const SymbolicMatrix* m = nullptr; ptrdiff_t off = -1; size_t d = 0; int depth = 0; bool has_ops = false, is_value = false;
        std::vector<W> w; cplx g{1, 0};                     // has_ops: cell = g * w
        std::vector<Terms> t; const char* made = "";        // as moments
    };
    struct Arith {
        MsRun run; Scenario& sc; const Model& md; std::deque<Src> all; size_t mt_budget = 0;
        Arith(int kind, int size) : run{kind, size}, sc{run.sc}, md{sc.m} {}
        Terms terms(const Lin& l) const { Terms t; for (auto& [w, c] : l) add_term(t, md.alias(w), c); return t; }
        void note(Src s) { if (s.has_ops) { s.t.resize(s.d * s.d); for (size_t i = 0; i < s.t.size(); ++i) add_term(s.t[i], md.alias(s.w[i]), s.g); } all.push_back(std::move(s)); }
        // the matrix a creation request gives, as a source
        void note_made(const Op& op, const SymbolicMatrix* m, ptrdiff_t off) {
            for (auto& s : all) if (s.m == m) return;
            size_t l = (size_t) run.level(op), n = sc.pauli() ? run.nb(op) : 0; auto R = (op.code == O_PMM || op.code == O_COMM || op.code == O_ACOMM) && n ? nn_words(sc, l, n) : row_words(sc, l, "rows");
            Src s; s.m = m; s.off = off; s.d = R.size(); s.has_ops = true; s.made = "created"; W a = run.word(op); s.w.resize(s.d * s.d);
            for (size_t r = 0; r < s.d; ++r) for (size_t c = 0; c < s.d; ++c) { W x = md.conj(R[r]), e;
                switch (op.code) { case O_MM: case O_PMM: e = md.mul(x, R[c]); break; case O_LM: e = md.mul(md.mul(x, a), R[c]); break;
                    default: { W y = md.mul(x, R[c]); W p = md.mul(y, a), q = md.mul(a, y); if ((p == q) != (op.code == O_ACOMM)) e.zero = true; else e = p; } }
                s.w[r + c * s.d] = e; }
            if (op.code == O_COMM || op.code == O_ACOMM) s.g = 2.0; note(std::move(s));
        }
        ptrdiff_t create(const Op& op, const SymbolicMatrix*& m) {
            auto& sys = *sc.sys; size_t l = (size_t) run.level(op), n = run.nb(op); auto pol = run.policy(op); auto took = [&](auto&& p) { m = &static_cast<const SymbolicMatrix&>(p.second); return (ptrdiff_t) p.first; };
            switch (op.code) {
                case O_LM: { std::optional<OperatorSequence> q; { sim::Quiet z; q = run.seq(run.word(op)); } return took(sys.LocalizingMatrix.create(LocalizingMatrixIndex{l, *q}, pol)); }
                case O_PMM: if (sc.pauli() && n) return took(sc.pauli()->PauliMomentMatrices.create(Pauli::MomentMatrixIndex{l, n}, pol)); return took(sys.MomentMatrix.create(l, pol));
                case O_COMM: { std::optional<OperatorSequence> q; { sim::Quiet z; q = run.seq(run.word(op)); } return took(sc.pauli()->CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{l, n, *q}, pol)); }
                case O_ACOMM: { std::optional<OperatorSequence> q; { sim::Quiet z; q = run.seq(run.word(op)); } return took(sc.pauli()->AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{l, n, *q}, pol)); }
                default: return took(sys.MomentMatrix.create(l, pol));
            }
        }
        static cplx weight(const Op& op) { static const cplx ws[] = {{1, 0}, {1, 0}, {-1, 0}, {2, 0}, {0.5, 0}, {0, 1}, {0, -2}, {1, 1}, {0, 0}}; return ws[(size_t) (op.b / 97) % 9]; }

        void one(const Op& op) {
            static const char* names[] = {"times-word", "times-symbol", "times-polynomial", "times-raw-polynomial", "plus-matrix", "plus-symbol", "plus-polynomial", "copy", "read", "create", "numeric", "generate-dictionary"};
            const char* key = names[op.code]; sim::label(key); auto& sys = *sc.sys; MTP pol = run.policy(op); bool pre = op.a / 8 % 2; uint64_t sink = 0;
            if (op.code == A_LM) { Op o = op; { sim::Quiet q; if (mt_budget < 3) o.c = o.c / 16 * 16 + 15; else if (pol != MTP::Never) mt_budget -= 3; } o.code = sc.pauli() ? (op.b % 5 == 0 ? O_COMM : op.b % 5 == 1 ? O_ACOMM : op.b % 5 == 2 ? O_PMM : O_LM) : O_LM; const SymbolicMatrix* m = nullptr; ptrdiff_t off = -1; attempt(run.armed, key, [&] { off = create(o, m); }); sim::Quiet q; note_made(o, m, off); sim::op_done(true); return; }
            if (op.code == A_GENDICT) { attempt(run.armed, key, [&] { sys.generate_dictionary((size_t) (op.a % 3) + 1); }); sim::op_done(true); return; }
            if (op.code == A_READ) { auto lk = sys.get_read_lock(); const SymbolicMatrix* m = nullptr; { sim::Quiet q; m = all[(size_t) op.b % all.size()].m; } sink += MsRun::touch(*m); volatile uint64_t v = sink; (void) v; sim::op_done(true); return; }
            // sums and copies may be worked out under the read lock, products register symbols
            std::optional<MaintainsMutex::WriteLock> wl; std::optional<MaintainsMutex::ReadLock> rl;
            bool light = (op.code == A_ADD || op.code == A_ADD_MONO || op.code == A_ADD_POLY || op.code == A_CLONE) && op.a % 2; if (light) rl.emplace(sys.get_read_lock()); else wl.emplace(sys.get_write_lock());
            const Src* s = nullptr; const Src* s2 = nullptr; std::optional<OperatorSequence> sq; std::optional<Polynomial> sp; std::optional<RawPolynomial> rp; std::optional<Monomial> mo; Lin lin; cplx wt{1, 0}; Src out; out.made = key; Eigen::MatrixXcd ev;
            {
                sim::Quiet q; const auto& st = sys.Symbols(); size_t k = (size_t) op.b % all.size(); bool mult = op.code <= A_RAW; for (size_t i = 0; mult && i < all.size() && all[k].depth >= 2; ++i) k = (k + 1) % all.size(); s = &all[k]; out.d = s->d; out.depth = s->depth + mult;
                W w = run.word(op); wt = weight(op);
                auto lin_of = [&](const Monomial& m) { Terms t = value_of(st, m, key); for (auto& [x, c] : t) { W y; y.w = x; lin.emplace_back(y, c); } };
                switch (op.code) {
                    case A_SEQ: sq = run.seq(w); lin.emplace_back(w, wt); break;
                    case A_MONO: case A_ADD_MONO: mo = Monomial{(symbol_name_t) ((size_t) (op.b / 7) % st.size()), wt, op.c / 16 % 2 == 1}; lin_of(*mo); break;
                    case A_POLY: case A_ADD_POLY: { Polynomial::storage_t v; int n = op.b / 13 % 4; for (int i = 0; i < n; ++i) v.emplace_back((symbol_name_t) ((size_t) (op.b / (7 + 4 * i)) % st.size()), i == 0 && wt == cplx{0, 0} ? cplx{1, 0} : i % 2 ? cplx{0.5, 0} : wt, op.c / 16 % 2 == 1); sp = sys.polynomial_factory()(std::move(v)); for (const auto& m : *sp) lin_of(m); break; }
                    case A_RAW: { rp.emplace(); for (auto& [x, c] : run.poly(op)) { rp->emplace_back(run.seq(x), c); lin.emplace_back(x, c); } break; }
                    case A_ADD: s2 = &all[(size_t) (op.b / 31) % all.size()]; if (s2->d != s->d && op.b / 5 % 4) { for (auto& x : all) if (x.d == s->d) s2 = &x; } break;
                    case A_VALUE: { size_t d = out.d; ev = Eigen::MatrixXcd::Zero((Eigen::Index) d, (Eigen::Index) d); PlanRng r{(uint64_t) op.b}; for (size_t i = 0; i < d; ++i) for (size_t j = 0; j <= i; ++j) { cplx x{(double) r.range(-2, 2), (double) (op.b % 3 ? r.range(-1, 1) : 0)}; if (i == j && op.b % 5 < 2) x = x.real(); if (r.chance(40)) x = 0; ev((Eigen::Index) i, (Eigen::Index) j) = x; ev((Eigen::Index) j, (Eigen::Index) i) = op.b % 5 < 2 ? std::conj(x) : op.b % 5 == 2 ? -std::conj(x) : i == j ? x : cplx{(double) r.range(-1, 1), 0}; if (i == j && op.b % 5 == 2) ev((Eigen::Index) i, (Eigen::Index) i) = cplx{0, x.imag()}; } break; }
                }
            }
            if (op.code <= A_RAW) {     // words too long for the library's 64-bit hash are out of scope; bound the threads of one run
                sim::Quiet q; size_t x = 0, y = 0; for (auto& w : s->w) x = std::max(x, w.w.size()); for (auto& t : s->t) for (auto& [k, v] : t) x = std::max(x, k.size()); for (auto& [w, c] : lin) y = std::max(y, w.w.size());
                if ((double) (x + y) * std::log2(std::max<double>(2.0, (double) sc.sys->Context().size() + 1)) > 60) { sim::op_done(false); return; }
                size_t need = 3 * std::max<size_t>(1, lin.size()); if (need > mt_budget) pol = MTP::Never; else if (pol != MTP::Never) mt_budget -= need;
            }
            std::unique_ptr<SymbolicMatrix> res; bool refused = false; const auto& f = sys.polynomial_factory(); std::string what;
            try {
                attempt(run.armed, key, [&] { switch (op.code) {
                    case A_SEQ: res = pre ? s->m->pre_multiply(*sq, wt, f, sys.Symbols(), pol) : s->m->post_multiply(*sq, wt, f, sys.Symbols(), pol); break;
                    case A_MONO: res = pre ? s->m->pre_multiply(*mo, f, sys.Symbols(), pol) : s->m->post_multiply(*mo, f, sys.Symbols(), pol); break;
                    case A_POLY: res = pre ? s->m->pre_multiply(*sp, f, sys.Symbols(), pol) : s->m->post_multiply(*sp, f, sys.Symbols(), pol); break;
                    case A_RAW: res = pre ? s->m->pre_multiply(*rp, f, sys.Symbols(), pol) : s->m->post_multiply(*rp, f, sys.Symbols(), pol); break;
                    case A_ADD: res = s->m->add(*s2->m, f, pol); break;
                    case A_ADD_MONO: res = s->m->add(*mo, f, pol); break;
                    case A_ADD_POLY: res = s->m->add(*sp, f, pol); break;
                    case A_CLONE: res = s->m->clone(pol); break;
                    case A_VALUE: { bool real = ev.imag().isZero(0.0); if (op.b % 2) { if (real) { Eigen::MatrixXd x = ev.real(); res = std::make_unique<ValueMatrix>(sys.Context(), sys.Symbols(), 1.0, x); } else res = std::make_unique<ValueMatrix>(sys.Context(), sys.Symbols(), 1.0, ev); }
                        else { if (real) { Eigen::MatrixXd y = ev.real(); Eigen::SparseMatrix<double> x = y.sparseView(); res = std::make_unique<ValueMatrix>(sys.Context(), sys.Symbols(), 1.0, x); } else { Eigen::SparseMatrix<cplx> x = ev.sparseView(); res = std::make_unique<ValueMatrix>(sys.Context(), sys.Symbols(), 1.0, x); } } break; }
                } });
            }
            catch (const errors::cannot_multiply_exception& e) { refused = true; sim::Quiet q; if (op.code > A_RAW || s->has_ops || (s->is_value && op.code != A_MONO && op.code != A_POLY)) sim::fail("unexpected-error", key, "%s of a matrix (%s) refused: %s", key, s->made, e.what()); }
            catch (const errors::cannot_add_exception& e) { refused = true; sim::Quiet q; if (op.code != A_ADD || s->d == s2->d) sim::fail("unexpected-error", key, "%s of a matrix (%s) refused: %s", key, s->made, e.what()); }
            catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", key, "%s of a matrix (%s) failed: %s", key, s->made, e.what()); }
            if (!refused) {
                sim::Quiet q;
                if (op.code == A_ADD && s->d != s2->d) sim::fail("wrong-dimension", key, "matrices of dimension %zu and %zu were added", s->d, s2->d);
                if (!res) sim::fail("no-result", key, "no matrix was returned");
                size_t n = out.d * out.d; bool ops = s->has_ops && op.code <= A_RAW && lin.size() <= 1; out.t.resize(n);
                if (op.code == A_VALUE) { out.is_value = true; for (size_t r = 0; r < out.d; ++r) for (size_t c = 0; c < out.d; ++c) if (ev((Eigen::Index) r, (Eigen::Index) c) != cplx{0, 0}) out.t[r + c * out.d][{}] = ev((Eigen::Index) r, (Eigen::Index) c); }
                else if (op.code == A_CLONE) { out = *s; out.made = key; out.is_value = false; }
                else if (op.code == A_ADD) for (size_t i = 0; i < n; ++i) { out.t[i] = s->t[i]; for (auto& [k, v] : s2->t[i]) out.t[i][k] += v; }
                else if (op.code >= A_ADD) for (size_t i = 0; i < n; ++i) { out.t[i] = s->t[i]; for (auto& [k, v] : terms(lin)) out.t[i][k] += v; }
                else if (s->has_ops) { std::vector<W> w1; for (size_t i = 0; i < n; ++i) for (auto& [x, c] : lin) { W y = pre ? md.mul(x, s->w[i]) : md.mul(s->w[i], x); add_term(out.t[i], md.alias(y), c * s->g); if (ops) w1.push_back(y); }
                    if (ops && !lin.empty()) { out.has_ops = true; out.w = std::move(w1); out.g = lin[0].second * s->g; } else if (lin.empty()) { out.has_ops = res->has_unaliased_operator_matrix(); W z; z.zero = true; out.w.assign(n, z); } }
                else for (size_t i = 0; i < n; ++i) for (auto& [k, v] : s->t[i]) { if (std::abs(v) < 1e-9) continue; if (!k.empty() && !(lin.size() == 1 && lin[0].first.w.empty()) && !lin.empty()) sim::fail("unexpected-product", key, "a %s matrix without operators (%d) was multiplied by %zu terms, first %s * %g%+gi", s->made, (int) s->m->has_unaliased_operator_matrix(), lin.size(), str(lin[0].first).c_str(), lin[0].second.real(), lin[0].second.imag()); for (auto& [x, c] : lin) { if (k.empty()) add_term(out.t[i], md.alias(x), c * v); else { W y; y.w = k; add_term(out.t[i], y, c * v); } } }
                out.m = res.get(); if (op.code == A_CLONE && !s->m->has_unaliased_operator_matrix()) out.has_ops = false;
            }
            if (refused) { sim::op_done(false); sim::probe(1); return; }
            sink += MsRun::touch(*res); if (light) { rl.reset(); wl.emplace(sys.get_write_lock()); }
            out.off = sys.push_back(*wl, std::move(res)); volatile uint64_t v = sink; (void) v;
            sim::Quiet q; out.has_ops &= out.m->has_unaliased_operator_matrix(); sim::probe(out.has_ops ? 2 : 3); all.push_back(std::move(out)); sim::op_done(true);
        }

        void check(const Src& s) {
            const auto& st = sc.sys->Symbols(); const char* key = s.made; size_t d = s.d; const auto& m = *s.m;
            if (m.Dimension() != d) sim::fail("wrong-matrix", key, "matrix has dimension %zu, expected %zu", m.Dimension(), d);
            if (s.off < 0 || (size_t) s.off >= sc.sys->size() || &(*sc.sys)[s.off] != s.m) sim::fail("wrong-offset", key, "the matrix reported at %ld is not there", (long) s.off);
            auto* pm = dynamic_cast<const PolynomialMatrix*>(&m); auto* mm = dynamic_cast<const MonomialMatrix*>(&m); std::set<symbol_name_t> inc;
            for (size_t r = 0; r < d; ++r) for (size_t c = 0; c < d; ++c) {
                Terms g = pm ? value_of(st, pm->SymbolMatrix(r, c), key) : value_of(st, mm->SymbolMatrix(r, c), key);
                if (!same_terms(s.t[r + c * d], g)) sim::fail("wrong-cell", key, "cell (%zu,%zu) stands for %s, expected %s", r, c, str(g).c_str(), str(s.t[r + c * d]).c_str());
                if (s.has_ops) { W o = from(m.unaliased_operator_matrix()(std::array<size_t, 2>{r, c})), e = s.w[r + c * d]; Terms x, y; if (!o.zero) add_term(x, o, mm->global_factor()); if (!e.zero) add_term(y, e, s.g); if (!same_terms(x, y)) sim::fail("wrong-operator", key, "operator cell (%zu,%zu) is %s, expected %s", r, c, str(o).c_str(), str(s.w[r + c * d]).c_str()); }
                if (pm) { const Monomial* last = nullptr; for (const auto& x : pm->SymbolMatrix(r, c)) { if (x.id == 0 || x.factor == cplx{0, 0}) sim::fail("not-canonical", key, "cell (%zu,%zu) holds a term that is zero", r, c); if (last && !sc.sys->polynomial_factory().less(*last, x)) sim::fail("not-canonical", key, "terms of cell (%zu,%zu) are not in order", r, c); last = &x; } }
                if (pm) for (const auto& x : pm->SymbolMatrix(r, c)) inc.insert(x.id); else inc.insert(mm->SymbolMatrix(r, c).id);
            }
            bool herm = true; for (size_t r = 0; r < d && herm; ++r) for (size_t c = 0; c <= r && herm; ++c) { Terms t; for (auto& [k, v] : s.t[r + c * d]) { W w; w.w = k; add_term(t, md.alias(md.conj(w)), std::conj(v)); } if (!same_terms(t, s.t[c + r * d])) herm = false; }
            if (m.Hermitian() && !herm) sim::fail("hermitian-flag", key, "matrix says it is hermitian, its entries are not");
            if (herm && !m.Hermitian() && (pm || (s.has_ops && s.g.imag() == 0 && s.g.real() != 0))) sim::fail("hermitian-flag", key, "matrix says it is not hermitian, its entries are");
            if (inc != m.IncludedSymbols()) sim::fail("wrong-summary", key, "the matrix lists %zu symbols as included, its cells hold %zu", m.IncludedSymbols().size(), inc.size());
        }
    };
}

// small real or imaginary parts of factors are dropped within the tolerance given, and no others
static void check_cleaning(PlanRng r) {
    const double eps = std::numeric_limits<double>::epsilon();
    for (int rep = 0; rep < 8; ++rep) {
        Polynomial::storage_t s; std::vector<cplx> want; double tol = std::pow(2.0, r.range(0, 40));
        for (int k = r.range(1, 4); k > 0; --k) { double big = r.chance(50) ? -1.5 : 2, small = eps * tol * (r.chance(60) ? 0.5 : 2) * (r.chance(50) ? 1 : -1); bool real = r.chance(50); cplx f = real ? cplx{big, small} : cplx{small, big}; if (r.chance(15)) f = {big, big}; s.emplace_back((symbol_name_t) (s.size() + 1), f);
            cplx w = f; if (std::abs(f.real()) < eps * tol) w.real(0); else if (std::abs(f.imag()) < eps * tol) w.imag(0); want.push_back(w); }
        Polynomial p{s}; p.real_or_imaginary_if_close(tol); size_t i = 0;
        if (p.size() != want.size()) sim::fail("wrong-cleaning", "size", "cleaning factors changed the number of terms");
        for (const auto& x : p) { if (x.factor != want[i]) sim::fail("wrong-cleaning", "factor", "a factor became %g%+gi, expected %g%+gi, within %g eps", x.factor.real(), x.factor.imag(), want[i].real(), want[i].imag(), tol); ++i; }
    }
}

// polynomials: every operation on them gives what the same operation gives on coefficients of real and imaginary parts of symbols
namespace {
    struct PolyModel {
        using Val = std::map<symbol_name_t, std::pair<cplx, cplx>>;    // coefficients of the real and imaginary part of each symbol
        const SymbolTable& st;
        static Val tidy(Val v) { for (auto i = v.begin(); i != v.end();) if (i->second.first == cplx{} && i->second.second == cplx{}) i = v.erase(i); else ++i; return v; }
        void add(Val& v, const Monomial& m, cplx f = 1) const { if (m.id == 0) return; const auto& s = st[m.id]; auto& e = v[m.id]; cplx c = m.factor * f; if (!s.is_antihermitian()) e.first += c; if (!s.is_hermitian()) e.second += (m.conjugated ? -c : c) * cplx{0, 1}; }
        Val val(const Polynomial& p) const { Val v; for (const auto& m : p) add(v, m); return tidy(std::move(v)); }
        static Val conj(Val v) { for (auto& [k, e] : v) e = {std::conj(e.first), std::conj(e.second)}; return v; }
        static Val lin(const Val& a, cplx x, const Val& b, cplx y) { Val v; for (auto& [k, e] : a) { v[k].first += x * e.first; v[k].second += x * e.second; } for (auto& [k, e] : b) { v[k].first += y * e.first; v[k].second += y * e.second; } return tidy(std::move(v)); }
    };
}
static void check_polynomials(PlanRng r, const SymbolTable& st, const PolynomialFactory& f, const char* key) {
    using Val = PolyModel::Val; PolyModel M{st}; size_t n = st.size(); if (n < 2) return;
    static const cplx fs[] = {{1, 0}, {1, 0}, {-1, 0}, {0.5, 0}, {-2, 0}, {0, 1}, {0, -1}, {1, 1}, {1, -1}, {-0.5, 2}};
    auto mono = [&](bool zeros) { return Monomial{(symbol_name_t) (r.chance(zeros ? 10 : 0) ? 0 : 1 + (long) r.below(std::min<size_t>(n - 1, r.chance(70) ? 5 : 40))), r.chance(zeros ? 6 : 0) ? cplx{0, 0} : fs[r.below(10)], r.chance(40)}; };
    auto canon = [&](const Polynomial& p, const char* what) {
        const Monomial* last = nullptr;
        for (const auto& m : p) { const auto& s = st[m.id]; if (m.id == 0 || m.factor == cplx{0, 0}) sim::fail("not-canonical", key, "%s holds a term that is zero", what); if (m.conjugated && (s.is_hermitian() || s.is_antihermitian())) sim::fail("not-canonical", key, "%s holds the conjugate of a symbol that is real or imaginary", what);
            if (last && !f.less(*last, m)) sim::fail("not-canonical", key, "terms of %s are not in order", what); last = &m; } };
    auto same = [&](const Polynomial& p, const Val& want, const char* what, bool canonical = true) { if (canonical) canon(p, what); if (M.val(p) != want) sim::fail("wrong-polynomial", key, "%s is not what it should be, by the coefficients of its symbols", what); };
    auto make = [&](Val& v) { Polynomial::storage_t d; for (int k = r.range(0, 6); k > 0; --k) { d.push_back(mono(true)); if (r.chance(30)) { auto m = d.back(); m.conjugated = !m.conjugated; if (r.chance(60)) m.factor = (r.chance(50) ? 1. : -1.) * std::conj(m.factor); d.push_back(m); } } for (auto& m : d) M.add(v, m); v = PolyModel::tidy(std::move(v)); return f(std::move(d)); };
    for (int rep = 0; rep < 12; ++rep) {
        Val a, b; Polynomial p = make(a), q = make(b); same(p, a, "a polynomial"); same(q, b, "a polynomial"); cplx c = fs[r.below(10)]; Monomial m = mono(true), m2 = mono(true); Val mv, mv2; M.add(mv, m); M.add(mv2, m2); mv = PolyModel::tidy(std::move(mv)); mv2 = PolyModel::tidy(std::move(mv2));
        same(f.sum(p, q), PolyModel::lin(a, 1, b, 1), "the sum of two polynomials"); same(f.sum(p, m), PolyModel::lin(a, 1, mv, 1), "the sum of polynomial and monomial"); same(f.sum(m, m2), PolyModel::lin(mv, 1, mv2, 1), "the sum of two monomials");
        { Polynomial x{p}; f.append(x, q); same(x, PolyModel::lin(a, 1, b, 1), "a polynomial appended to another"); } { Polynomial x{p}; f.append(x, x); same(x, PolyModel::lin(a, 2, b, 0), "a polynomial appended to itself"); }
        same(f.scale(p, c), PolyModel::lin(a, c, b, 0), "a scaled polynomial"); same(f.scale(p, 0), {}, "a polynomial scaled by zero"); same(p * c, PolyModel::lin(a, c, b, 0), "a scaled polynomial");
        same(p.conjugate(st), PolyModel::conj(a), "a conjugated polynomial"); same(p.Real(f), PolyModel::lin(a, 0.5, PolyModel::conj(a), 0.5), "the real part"); same(p.Imaginary(f), PolyModel::lin(a, cplx{0, -0.5}, PolyModel::conj(a), cplx{0, 0.5}), "the imaginary part");
        { auto x = p.fix_cc(st, true); same(x, a, "a polynomial made canonical again"); }
        bool h = a == PolyModel::conj(a), ah = a == PolyModel::lin(PolyModel::conj(a), -1, b, 0); Polynomial pc = r.chance(50) ? p.conjugate(st) : q; Val pv = M.val(pc); bool cj = PolyModel::conj(a) == pv;
        if (p.is_hermitian(st, 1.0) != h || f.is_hermitian(p) != h) sim::fail("hermitian-flag", key, "a polynomial of %zu terms is%s hermitian, and says otherwise", p.size(), h ? "" : " not");
        if (p.is_antihermitian(st, 1.0) != ah || f.is_antihermitian(p) != ah) sim::fail("hermitian-flag", key, "a polynomial of %zu terms is%s anti-hermitian, and says otherwise", p.size(), ah ? "" : " not");
        if (p.is_conjugate(st, pc) != cj || pc.is_conjugate(st, p) != cj) sim::fail("hermitian-flag", key, "two polynomials are%s each other's conjugate, and say otherwise", cj ? "" : " not");
        if ((p == q) != (a == b) || (p != q) != (a != b) || !(p == Polynomial{p})) sim::fail("wrong-polynomial", key, "two polynomials are%s the same, and say otherwise", a == b ? "" : " not");
        bool rf = true; for (const auto& x : p) if (x.factor.imag() != 0) rf = false; if (p.real_factors() != rf) sim::fail("wrong-polynomial", key, "a polynomial of %zu terms has%s only real factors, and says otherwise", p.size(), rf ? "" : " not");
        size_t deg = 0; for (auto& [k, e] : a) if (k > 1 && st[k].has_sequence()) deg = std::max(deg, st[k].sequence().size());
        if (f.maximum_degree(p) != deg) sim::fail("wrong-degree", key, "a polynomial is of degree %zu, and says %zu", deg, f.maximum_degree(p));
        bool ok = true; Monomial one; try { one = static_cast<Monomial>(p); } catch (const std::logic_error&) { ok = false; } if (ok != (p.size() <= 1)) sim::fail("wrong-polynomial", key, "a polynomial of %zu terms was%s taken for a monomial", p.size(), ok ? "" : " not"); if (ok) { Val v; M.add(v, one); if (PolyModel::tidy(v) != a) sim::fail("wrong-polynomial", key, "a polynomial of one term changed on becoming a monomial"); }
        if (p.empty() != a.empty()) sim::fail("wrong-polynomial", key, "a polynomial is%s zero, and says otherwise", a.empty() ? "" : " not");
    }
}

// polynomials made before their symbols turned out to be real or imaginary, brought up to date
static void check_later(PlanRng& r, SymbolTable& st) {
    ByIDPolynomialFactory f{st, 1.0}; static const cplx fs[] = {{1, 0}, {1, 0}, {-1, 0}, {0.5, 0}, {0, 1}, {1, 1}}; std::vector<Polynomial> ps; size_t n = st.size(); if (n < 2) return;
    for (int k = 0; k < 6; ++k) { Polynomial::storage_t d; for (size_t id = 1; id < n; ++id) { if (!r.chance(60)) continue; d.emplace_back((symbol_name_t) id, fs[r.below(6)], r.chance(40)); if (r.chance(50)) d.emplace_back((symbol_name_t) id, fs[r.below(6)], !d.back().conjugated); } ps.push_back(f(std::move(d))); }
    DynamicBitset<uint64_t> re{n, true}, im{n, true};
    for (size_t id = 2; id < n; ++id) { if (st[id].is_hermitian() || st[id].is_antihermitian() || !r.chance(70)) continue; if (r.chance(60)) im.unset(id); else re.unset(id); }
    st.merge_in(re, im); PolyModel M{st};
    for (const auto& p : ps) { auto want = M.val(p); Polynomial q = p.fix_cc(st, true), q2{p}; q2.fix_cc_in_place(st, true);
        if (M.val(q) != want || M.val(q2) != want) sim::fail("wrong-polynomial", "later", "a polynomial changed its meaning on being made canonical again");
        if (q != f(Polynomial::storage_t{p.begin(), p.end()}) || q != q2) sim::fail("not-canonical", "later", "a polynomial made canonical again is not the canonical one: %zu terms", q.size()); }
}

WORKLOAD(arith, "C13", 10, F_WAKE)
static void arith_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(1, 3); p.p[3] = r.range(0, 5); p.p[4] = (int) r.below(8000);
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 4); for (int i = 0; i < n; ++i) { int x = r.range(0, 99); Op o; o.client = k; o.code = x < 22 ? A_SEQ : x < 36 ? A_MONO : x < 46 ? A_POLY : x < 56 ? A_RAW : x < 66 ? A_ADD : x < 72 ? A_ADD_MONO : x < 79 ? A_ADD_POLY : x < 83 ? A_CLONE : x < 87 ? A_READ : x < 92 ? A_LM : x < 98 ? A_VALUE : A_GENDICT; o.a = r.range(0, 15); o.b = (int) r.below(8000); o.c = (int) r.below(48); if (r.chance(60)) o.c -= o.c % 16; p.ops.push_back(o); } }
}
static void arith_run(const Plan& p) {
    std::optional<Arith> a; { sim::Quiet q; a.emplace(p.p[0], p.p[1]); a->mt_budget = (p.p[15] ? 150 : 230) / (size_t) std::max(1, get_nprocs()); Op o; o.a = p.p[3]; o.b = p.p[4]; o.c = 15; for (int code : {O_MM, O_LM}) { o.code = code; const SymbolicMatrix* m = nullptr; ptrdiff_t off = a->create(o, m); a->note_made(o, m, off); o.c = 15 + 16 * (p.p[3] % 3); o.a = p.p[3] + 1; } }
    a->run.armed = p.p[15];
    run_clients(p, p.p[2], [&](const Op& o) { a->one(o); });
    sim::Quiet q; for (auto& s : a->all) a->check(s); check_symbols(a->sc, "table"); check_cleaning(PlanRng{(uint64_t) p.p[4]});
    { PlanRng r{(uint64_t) p.p[4] * 7 + p.ops.size()}; const auto& st = a->sc.sys->Symbols(); check_polynomials(r, st, a->sc.sys->polynomial_factory(), "polynomials"); check_polynomials(r, st, ByHashPolynomialFactory{st, 1.0}, "polynomials-by-hash"); check_polynomials(r, st, ByIDPolynomialFactory{st, 1.0}, "polynomials-by-id");
      Imported::ImportedContext cx{}; SymbolTable own{cx}; for (int k = r.range(1, 6); k > 0; --k) { int z = r.range(0, 3); own.create(z != 1, z != 2); } check_polynomials(r, own, ByIDPolynomialFactory{own, 1.0}, "polynomials"); check_polynomials(r, own, ByHashPolynomialFactory{own, 1.0}, "polynomials-by-hash"); check_later(r, own); }
}

WORKLOAD(resource_arith, "C12", 5, F_ALLOC | F_THREAD | F_WAKE | F_NEEDFAULT)
static void resource_arith_gen(PlanRng& r, Plan& p) { arith_gen(r, p); p.p[15] = 1; }
static void resource_arith_run(const Plan& p) { arith_run(p); }
