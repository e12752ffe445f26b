// Systems without operators: matrices of bare symbols imported by several clients, whose types constrain the symbols.
#include "common.h"
#include "basis_check.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "symbolic/polynomial_factory.h"

using namespace Moment;
using namespace basis_check;
using Imported::ImportedMatrixSystem;

namespace {
    enum { I_IMPORT, I_READ, I_BASIS, I_SUM };
    enum { T_COMPLEX, T_HERMITIAN, T_REAL, T_SYMMETRIC };
    const char* const type_names[] = {"import complex", "import hermitian", "import real", "import symmetric"};

    struct Cell { long id = 0; double f = 0; bool conj = false; };
    struct Mat { size_t d = 1; int type = 0; std::vector<Cell> cells; const Cell& at(size_t r, size_t c) const { return cells[c * d + r]; } Cell& at(size_t r, size_t c) { return cells[c * d + r]; } };

    Mat make(uint64_t seed, int dim, int type, int mode, int pool) {
        PlanRng r{seed * 0x51ed2701u + 77}; Mat m; m.d = (size_t) dim; m.type = type; m.cells.resize(m.d * m.d);
        static const double fs[] = {1, 1, 1, -1, 0.5, -2};
        auto cell = [&]() { Cell c; c.id = (long) r.below((uint64_t) pool); if (r.chance(8)) c.id += 40 + (long) r.below(60); if (!c.id) return c; c.f = fs[r.below(6)]; c.conj = r.chance(30); return c; };
        for (size_t i = 0; i < m.d; ++i) for (size_t j = 0; j < m.d; ++j) m.at(i, j) = cell();
        if (type == T_HERMITIAN || type == T_SYMMETRIC) {
            for (size_t i = 0; i < m.d; ++i) for (size_t j = i + 1; j < m.d; ++j) {
                Cell u = m.at(i, j); Cell& l = m.at(j, i); l = u; if (!u.id) continue;
                if (type == T_HERMITIAN) l.conj = !u.conj;
                if (r.chance(15)) { l.conj = u.conj; if (r.chance(40)) l.f = -u.f; } else if (type == T_SYMMETRIC && r.chance(30)) l.conj = !l.conj;
            }
            if (mode == 1 && m.d > 1) {     // spoil one mirrored pair
                size_t i = r.below(m.d - 1), j = i + 1; Cell& l = m.at(j, i);
                switch (r.below(3)) { case 0: l.f = -l.f; break; case 1: if (l.id) l.id = 1 + (l.id % (pool > 1 ? pool : 2)); break; default: l.f *= 2; }
            }
        }
        return m;
    }

    // What a sequence of accepted imports says about the symbols.
    struct Status { bool real = false, imag = false; bool operator==(const Status&) const = default; };   // known to be real; known to be imaginary
    struct Model {
        bool purely_real = false; std::vector<Status> s{{true, true}, {true, false}};
        Status at(long id) const { return (size_t) id < s.size() ? s[(size_t) id] : Status{purely_real, false}; }
        // the import's constraints; empty if the import contradicts itself or what is known
        std::optional<Model> with(const Mat& m) const {
            Model o = *this; bool cplx_type = m.type == T_COMPLEX || m.type == T_HERMITIAN, herm = m.type == T_HERMITIAN || m.type == T_SYMMETRIC;
            if (purely_real && cplx_type) return {};
            for (auto& c : m.cells) if ((size_t) c.id >= o.s.size()) o.s.resize((size_t) c.id + 1, Status{purely_real, false});
            auto real = [&](long id) { o.s[(size_t) id].real = true; }; auto imag = [&](long id) { o.s[(size_t) id].imag = true; };
            if (!cplx_type) for (auto& c : m.cells) real(c.id);
            if (herm) {
                for (size_t i = 0; i < m.d; ++i) {
                    real(m.at(i, i).id);
                    for (size_t j = i + 1; j < m.d; ++j) {
                        auto &u = m.at(i, j), &l = m.at(j, i); if (u.id != l.id || std::abs(u.f) != std::abs(l.f)) return {};
                        bool same = u.f == l.f; if (!u.id) continue;
                        // u = l*: the same, or a symbol equal to plus or minus its own conjugate, or one that must vanish
                        if (u.conj != l.conj) { if (!same) return {}; if (m.type == T_SYMMETRIC) real(u.id); }
                        else if (same) real(u.id); else imag(u.id);
                    } }
            }
            for (size_t k = 1; k < o.s.size(); ++k) if (o.s[k].real && o.s[k].imag) return {};
            return o;
        }
    };

    std::vector<Status> read_status(const SymbolTable& st, const char* key) {
        std::vector<Status> v; size_t re = 0, im = 0;
        for (size_t k = 0; k < st.size(); ++k) {
            const auto& x = st[k]; if (x.Id() != (long) k) sim::fail("wrong-symbol", key, "symbol %zu says it is symbol %ld", k, (long) x.Id());
            v.push_back({x.is_hermitian(), x.is_antihermitian()}); if (!k) { auto [a, b] = x.basis_key(); if (a >= 0 || b >= 0) sim::fail("wrong-symbol", key, "zero has a basis element"); continue; }
            auto [a, b] = x.basis_key();
            if ((a >= 0) != !x.is_antihermitian() || (b >= 0) != !x.is_hermitian()) sim::fail("wrong-symbol", key, "symbol %zu has basis elements (%ld, %ld), but is %s%s", k, (long) a, (long) b, x.is_hermitian() ? "Hermitian " : "", x.is_antihermitian() ? "anti-Hermitian" : "");
            if (a >= 0) { if ((size_t) a >= st.Basis.RealSymbolCount() || st.Basis.RealSymbols()[(size_t) a] != k) sim::fail("wrong-symbol", key, "real basis element %ld does not lead back to symbol %zu", (long) a, k); ++re; }
            if (b >= 0) { if ((size_t) b >= st.Basis.ImaginarySymbolCount() || st.Basis.ImaginarySymbols()[(size_t) b] != k) sim::fail("wrong-symbol", key, "imaginary basis element %ld does not lead back to symbol %zu", (long) b, k); ++im; }
            if (a >= 0 && st.Basis.imaginary_from_real(a) != b) sim::fail("wrong-symbol", key, "real basis element %ld of symbol %zu is paired with imaginary element %ld instead of %ld", (long) a, k, (long) st.Basis.imaginary_from_real(a), (long) b);
            if (b >= 0 && st.Basis.real_from_imaginary(b) != a) sim::fail("wrong-symbol", key, "imaginary basis element %ld of symbol %zu is paired with real element %ld instead of %ld", (long) b, k, (long) st.Basis.real_from_imaginary(b), (long) a);
        }
        if (re != st.Basis.RealSymbolCount() || im != st.Basis.ImaginarySymbolCount()) sim::fail("wrong-symbol", key, "%zu real and %zu imaginary symbols, but %zu and %zu basis elements", re, im, st.Basis.RealSymbolCount(), st.Basis.ImaginarySymbolCount());
        return v;
    }

    // cell value as coefficients of Re s and Im s
    using Parts = std::map<std::pair<long, bool>, cplx>;
    void put(Parts& p, long id, cplx f, bool conj, Status s) { if (!id) return; if (!s.imag) p[{id, false}] += f; if (!s.real) p[{id, true}] += f * cplx{0, conj ? -1.0 : 1.0}; }
    bool same(const Parts& a, const Parts& b) { for (auto& [k, v] : a) { auto i = b.find(k); if (std::abs(v - (i == b.end() ? cplx{} : i->second)) > 1e-9) return false; } for (auto& [k, v] : b) if (!a.count(k) && std::abs(v) > 1e-9) return false; return true; }

    struct Entry { int kind = 0; Mat m; size_t x = 0, y = 0; };      // what index i holds: an import, or the sum of two earlier ones
    void parts_of(const std::vector<Entry>& es, size_t i, size_t r, size_t c, const std::vector<Status>& st, Parts& out) {
        const auto& e = es[i]; if (e.kind == 0) { auto& x = e.m.at(r, c); put(out, x.id, x.f, x.conj, st[(size_t) x.id]); return; }
        parts_of(es, e.x, r, c, st, out); parts_of(es, e.y, r, c, st, out);
    }
    void check_matrix(const SymbolicMatrix& m, const std::vector<Entry>& es, size_t i, const std::vector<Status>& st, const SymbolTable& table, const char* key) {
        const Entry* e = &es[i]; while (e->kind) e = &es[e->x];
        if (m.Dimension() != e->m.d) sim::fail("wrong-matrix", key, "matrix %zu has dimension %zu instead of %zu", i, m.Dimension(), e->m.d);
        std::set<long> ids; bool complex_f = false; std::set<ptrdiff_t> re, im;
        for (size_t r = 0; r < e->m.d; ++r) for (size_t c = 0; c < e->m.d; ++c) {
            Parts want, got; parts_of(es, i, r, c, st, want);
            auto one = [&](const Monomial& x) { ids.insert((long) x.id); if (x.id < 0 || (size_t) x.id >= st.size()) sim::fail("wrong-matrix", key, "matrix %zu names symbol %ld, of %zu", i, (long) x.id, st.size()); put(got, (long) x.id, x.factor, x.conjugated, st[(size_t) x.id]); if (std::abs(x.factor.imag()) > 1e-12) complex_f = true; };
            if (m.is_monomial()) one(static_cast<const MonomialMatrix&>(m).SymbolMatrix(r, c)); else for (const auto& x : static_cast<const PolynomialMatrix&>(m).SymbolMatrix(r, c)) one(x);
            if (!same(want, got)) { std::string s; for (auto& [k, v] : want) s += " " + to_s(v.real()) + "," + to_s(v.imag()) + (k.second ? "Im#" : "Re#") + std::to_string(k.first); s += " but holds"; for (auto& [k, v] : got) s += " " + to_s(v.real()) + "," + to_s(v.imag()) + (k.second ? "Im#" : "Re#") + std::to_string(k.first); sim::fail("wrong-matrix", key, "matrix %zu cell (%zu,%zu) should be%s", i, r, c, s.c_str()); }
            for (auto& [k, v] : got) if (std::abs(v) > 1e-9) { auto [a, b] = table[(size_t) k.first].basis_key(); if (k.second) im.insert(b); else re.insert(a); }
        }
        std::set<long> inc; for (auto x : m.IncludedSymbols()) inc.insert((long) x); if (inc != ids) sim::fail("wrong-matrix", key, "matrix %zu lists %zu symbols, its cells hold %zu", i, inc.size(), ids.size());
        if (m.HasComplexCoefficients() != complex_f) sim::fail("wrong-matrix", key, "matrix %zu: complex coefficients reported wrongly", i);
        for (auto x : re) if (!m.RealBasisIndices().count((size_t) x)) sim::fail("wrong-matrix", key, "matrix %zu depends on real basis element %ld, which it does not list", i, (long) x);
        for (auto x : im) if (!m.ImaginaryBasisIndices().count((size_t) x)) sim::fail("wrong-matrix", key, "matrix %zu depends on imaginary basis element %ld, which it does not list", i, (long) x);
        if (m.is_monomial() && (m.RealBasisIndices().size() != re.size() || m.ImaginaryBasisIndices().size() != im.size())) sim::fail("wrong-matrix", key, "matrix %zu lists %zu real and %zu imaginary basis elements, but depends on %zu and %zu", i, m.RealBasisIndices().size(), m.ImaginaryBasisIndices().size(), re.size(), im.size());
        if (m.HasComplexBasis() != !m.ImaginaryBasisIndices().empty()) sim::fail("wrong-matrix", key, "matrix %zu: complex basis reported wrongly", i);
        if (m.BasisKey().size() != ids.size()) sim::fail("wrong-matrix", key, "matrix %zu: basis keys of %zu symbols instead of %zu", i, m.BasisKey().size(), ids.size());
        for (auto& [k, v] : m.BasisKey()) if (v != table[(size_t) k].basis_key()) sim::fail("wrong-matrix", key, "matrix %zu: basis key of symbol %ld is out of date", i, (long) k);
        if (e == &es[i] && m.Hermitian() != (e->m.type == T_HERMITIAN || e->m.type == T_SYMMETRIC)) sim::fail("wrong-matrix", key, "matrix %zu: Hermiticity reported wrongly", i);
    }
}

WORKLOAD(imports, "C14", 10, F_WAKE)
static void imports_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.chance(15); int nc = p.p[1] = r.range(1, 4); p.p[2] = r.range(3, 9); bool conflict = r.chance(50);
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 5); for (int i = 0; i < n; ++i) {
        int x = r.range(0, 99); Op o; o.client = k;
        if (x < 55) { o.code = I_IMPORT; o.a = (int) r.below(8000); o.b = r.range(1, 3); o.c = (int) (r.below(4) * 2 + (conflict && r.chance(30))); if (p.p[0] && r.chance(85)) o.c |= 4; }
        else if (x < 72) o.code = I_READ;
        else if (x < 90) { o.code = I_BASIS; o.a = (int) r.below(B_FORMS); o.b = r.range(0, 5); }
        else { o.code = I_SUM; o.a = r.range(0, 5); o.b = r.range(0, 5); }
        p.ops.push_back(o); } }
}
static void imports_run(const Plan& p) {
    struct Done { size_t before, after; bool ok; size_t index; Mat m; };
    struct Snap { size_t n; std::vector<Status> st; };
    std::vector<Done> done; std::vector<Snap> snaps; std::map<size_t, Entry> sums; std::map<size_t, const SymbolicMatrix*> refs;
    size_t known = 0; std::optional<ImportedMatrixSystem> sys_; { sim::Quiet q; sys_.emplace((bool) p.p[0]); } auto& sys = *sys_;
    auto one = [&](const Op& op) {
        switch (op.code) {
            case I_IMPORT: {
                Mat m; std::unique_ptr<SquareMatrix<Monomial>> in; size_t before; int type = op.c / 2 % 4;
                { sim::Quiet q; m = make((uint64_t) op.a, op.b, type, op.c & 1, p.p[2]); std::vector<Monomial> data; for (auto& c : m.cells) data.emplace_back(c.id, c.f, c.conj); in = std::make_unique<SquareMatrix<Monomial>>(m.d, std::move(data)); before = known; }
                sim::label(type_names[type]); bool ok = false; size_t index = 0; const SymbolicMatrix* ref = nullptr; std::string why;
                try { auto [i, x] = sys.import_matrix(std::move(in), type == T_COMPLEX || type == T_HERMITIAN, type == T_HERMITIAN || type == T_SYMMETRIC); ok = true; index = i; ref = &x; }
                catch (const Imported::errors::bad_import_matrix& e) { why = e.what(); }
                size_t after = 0; if (!ok) { auto l = sys.get_read_lock(); after = sys.size(); }
                sim::Quiet q; sim::op_done(ok); sim::probe(ok ? 0 : 1); done.push_back({before, after, ok, index, m});
                if (ok) { known = std::max(known, index + 1); if (refs.count(index)) sim::fail("import-lost", type_names[type], "two matrices were reported at index %zu", index); refs[index] = ref; }
                break; }
            case I_READ: {
                sim::label("read"); auto lock = sys.get_read_lock(); { sim::Quiet q; snaps.push_back({sys.size(), read_status(sys.Symbols(), "read")}); }
                uint64_t t = 0; for (size_t i = 0; i < sys.size(); ++i) { t += sys[i].RealBasisIndices().size() + sys[i].ImaginaryBasisIndices().size(); for (auto& [k, v] : sys[i].BasisKey()) t += (uint64_t) k + (uint64_t) v.first; } t += sys.Symbols().Basis.RealSymbolCount(); volatile uint64_t sink = t; (void) sink;
                lock.unlock(); sim::Quiet q; sim::op_done(true); sim::probe(2); break; }
            case I_BASIS: {
                sim::label(form_names[op.a]); auto lock = sys.get_read_lock(); if (!sys.size()) { sim::op_done(true); break; }
                const auto& m = sys[(size_t) op.b % sys.size()];
                try { switch (op.a) {
#define FORM(n, F) case n: (void) m.Basis.F(); break;
                    FORM(B_DENSE, Dense) FORM(B_DENSE_C, DenseComplex) FORM(B_SPARSE, Sparse) FORM(B_SPARSE_C, SparseComplex)
                    FORM(B_MONO, DenseMonolithic) FORM(B_MONO_C, DenseMonolithicComplex) FORM(B_SMONO, SparseMonolithic) FORM(B_SMONO_C, SparseMonolithicComplex)
#undef FORM
                } } catch (const errors::bad_basis_error&) { }
                { sim::Quiet q; const auto& st = sys.Symbols(); check_form(m, op.a, expect(st, m), st.Basis.RealSymbolCount(), st.Basis.ImaginarySymbolCount(), [](const void*, const void*, bool) { }); }
                lock.unlock(); sim::Quiet q; sim::op_done(true); sim::probe(3); break; }
            default: {
                sim::label("sum"); auto lock = sys.get_write_lock(); size_t n = sys.size(), x = 0, y = 0; bool go = false;
                if (n) { x = (size_t) op.a % n; y = (size_t) op.b % n; go = sys[x].Dimension() == sys[y].Dimension(); }
                if (go) { auto m = sys[x].add(sys[y], sys.polynomial_factory(), Multithreading::MultiThreadPolicy::Never); auto* ref = m.get(); size_t index = (size_t) sys.push_back(lock, std::move(m));
                    sim::Quiet q; Entry e; e.kind = 1; e.x = x; e.y = y; sums[index] = e; refs[index] = ref; sim::probe(4); }
                lock.unlock(); sim::Quiet q; sim::op_done(true); }
        }
    };
    run_clients(p, p.p[1], one);
    sim::Quiet q; sim::label("final"); const auto& st = sys.Symbols();
    // replay the accepted imports in index order
    std::vector<Entry> es(sys.size()); for (auto& e : es) e.kind = -1;
    for (auto& d : done) if (d.ok) { if (d.index >= es.size() || d.index < d.before) sim::fail("import-lost", "final", "an import was reported at index %zu; the system held %zu matrices before it and %zu at the end", d.index, d.before, es.size()); es[d.index].kind = 0; es[d.index].m = d.m; }
    for (auto& [i, e] : sums) es.at(i) = e;
    std::vector<Model> models; { Model m; m.purely_real = p.p[0]; models.push_back(m); }
    for (size_t i = 0; i < es.size(); ++i) {
        if (es[i].kind < 0) sim::fail("import-lost", "final", "nobody asked for matrix %zu", i);
        if (refs[i] != &sys[i]) sim::fail("import-lost", "final", "matrix %zu is not the one handed out", i);
        if (es[i].kind == 1) { models.push_back(models.back()); continue; }
        auto m = models.back().with(es[i].m); if (!m) sim::fail("bad-accept", type_names[es[i].m.type], "the import at index %zu was accepted although it contradicts itself or the imports before it", i);
        models.push_back(*m);
    }
    for (auto& d : done) if (!d.ok && models[d.after].with(d.m)) sim::fail("bad-refusal", type_names[d.m.type], "an import was refused although it is compatible with all imports accepted by then");
    for (auto& s : snaps) if (s.st != models[s.n].s) {
        size_t k = 0; while (k < s.st.size() && k < models[s.n].s.size() && s.st[k] == models[s.n].s[k]) ++k;
        sim::fail("wrong-status", "read", "a reader that saw %zu matrices saw %zu symbols, expected %zu; symbol %zu differs", s.n, s.st.size(), models[s.n].s.size(), k); }
    auto final_st = read_status(st, "final");
    if (final_st != models.back().s) { auto& w = models.back().s; size_t k = 0; while (k < final_st.size() && k < w.size() && final_st[k] == w[k]) ++k;
        sim::fail("wrong-status", "final", "the accepted imports imply %zu symbols, there are %zu; symbol %zu is%s%s, expected%s%s", w.size(), final_st.size(), k, k < final_st.size() && final_st[k].real ? " real" : "", k < final_st.size() && final_st[k].imag ? " imaginary" : "", k < w.size() && w[k].real ? " real" : "", k < w.size() && w[k].imag ? " imaginary" : ""); }
    for (size_t i = 0; i < es.size(); ++i) { check_matrix(sys[i], es, i, final_st, st, "final");
        Expect e = expect(st, sys[i]); for (int f = 0; f < B_FORMS; ++f) check_form(sys[i], f, e, st.Basis.RealSymbolCount(), st.Basis.ImaginarySymbolCount(), [](const void*, const void*, bool) { }); }
}
