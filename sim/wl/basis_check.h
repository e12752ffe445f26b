// Numeric bases of matrices compared with the definition: shared by the workloads that look at them.
#pragma once
#include "common.h"
#include <Eigen/Dense>
#include <Eigen/SparseCore>
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "symbolic/symbol_table.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/polynomial_to_basis.h"
#include "symbolic/polynomial_to_basis_mask.h"
#include <map>

namespace basis_check {
    using namespace Moment;
    using cplx = std::complex<double>;
    enum { B_DENSE, B_DENSE_C, B_SPARSE, B_SPARSE_C, B_MONO, B_MONO_C, B_SMONO, B_SMONO_C, B_FORMS };
    inline const char* const form_names[] = {"dense", "dense-complex", "sparse", "sparse-complex", "monolithic", "monolithic-complex", "sparse-monolithic", "sparse-monolithic-complex"};
    inline bool is_real_form(int f) { return f % 2 == 0; }

    template<typename M> cplx el(const M& m, long r, long c) { return cplx(m.coeff(r, c)); }
    // element k of the real/imaginary part of a basis at cell (r, c)
    template<typename P> struct Cellular { const P& p; size_t re() const { return p.first.size(); } size_t im() const { return p.second.size(); } cplx re(size_t k, long r, long c) const { return el(p.first[k], r, c); } cplx im(size_t k, long r, long c) const { return el(p.second[k], r, c); }
        bool dims(long d) const { for (auto& x : p.first) if (x.rows() != d || x.cols() != d) return false; for (auto& x : p.second) if (x.rows() != d || x.cols() != d) return false; return true; } };
    template<typename P> struct Mono { const P& p; long d; size_t re() const { return (size_t) p.first.rows(); } size_t im() const { return (size_t) p.second.rows(); } cplx re(size_t k, long r, long c) const { return el(p.first, (long) k, c * d + r); } cplx im(size_t k, long r, long c) const { return el(p.second, (long) k, c * d + r); }
        bool dims(long dd) const { return p.first.cols() == dd * dd && p.second.cols() == dd * dd; } };

    struct Expect { std::vector<std::vector<std::pair<ptrdiff_t, cplx>>> re, im; size_t d = 0; ptrdiff_t max_re = -1, max_im = -1; bool complex_coefs = false; };
    inline void add(std::vector<std::pair<ptrdiff_t, cplx>>& v, ptrdiff_t k, cplx x) { for (auto& p : v) if (p.first == k) { p.second += x; return; } v.emplace_back(k, x); }
    // from the definition: a cell holding factor * s (or s*) is factor * (Re s +- i Im s)
    inline Expect expect(const SymbolTable& st, const SymbolicMatrix& m) {
        Expect e; e.d = m.Dimension(); e.re.resize(e.d * e.d); e.im.resize(e.d * e.d);
        auto one = [&](size_t r, size_t c, const Monomial& x) {
            if (x.id < 0 || (size_t) x.id >= st.size()) sim::fail("bad-symbol", "basis", "a matrix cell names symbol %ld", (long) x.id);
            auto [kr, ki] = st[(size_t) x.id].basis_key(); if (x.id && x.factor.imag() != 0) e.complex_coefs = true;
            if (kr >= 0) { add(e.re[r * e.d + c], kr, x.factor); e.max_re = std::max(e.max_re, kr); }
            if (ki >= 0) { add(e.im[r * e.d + c], ki, x.factor * cplx{0, x.conjugated ? -1.0 : 1.0}); e.max_im = std::max(e.max_im, ki); }
        };
        for (size_t r = 0; r < e.d; ++r) for (size_t c = 0; c < e.d; ++c) {
            if (m.is_monomial()) one(r, c, static_cast<const MonomialMatrix&>(m).SymbolMatrix(r, c));
            else for (const auto& x : static_cast<const PolynomialMatrix&>(m).SymbolMatrix(r, c)) one(r, c, x);
        }
        return e;
    }
    template<typename B> void check(const B& b, const Expect& e, bool real_form, size_t nre, size_t nim, const char* key) {
        if (!b.dims((long) e.d)) sim::fail("wrong-basis", key, "a basis element has the wrong shape");
        if ((ptrdiff_t) b.re() <= e.max_re || (ptrdiff_t) b.im() <= e.max_im || b.re() > nre || b.im() > nim) sim::fail("wrong-basis", key, "the basis has %zu real and %zu imaginary elements; the matrix needs %ld and %ld, the table has %zu and %zu", b.re(), b.im(), (long) e.max_re + 1, (long) e.max_im + 1, nre, nim);
        for (size_t r = 0; r < e.d; ++r) for (size_t c = 0; c < e.d; ++c) {
            auto& xr = e.re[r * e.d + c]; auto& xi = e.im[r * e.d + c];
            auto want = [](const std::vector<std::pair<ptrdiff_t, cplx>>& v, size_t k) { for (auto& p : v) if (p.first == (ptrdiff_t) k) return p.second; return cplx{0, 0}; };
            for (size_t k = 0; k < b.re(); ++k) { cplx w = want(xr, k); if (real_form) w = w.real(); if (std::abs(b.re(k, (long) r, (long) c) - w) > 1e-9) sim::fail("wrong-basis", key, "real element %zu at (%zu,%zu) is %g%+gi, the matrix cell says %g%+gi", k, r, c, b.re(k, (long) r, (long) c).real(), b.re(k, (long) r, (long) c).imag(), w.real(), w.imag()); }
            for (size_t k = 0; k < b.im(); ++k) { cplx w = want(xi, k); if (std::abs(b.im(k, (long) r, (long) c) - w) > 1e-9) sim::fail("wrong-basis", key, "imaginary element %zu at (%zu,%zu) is %g%+gi, the matrix cell says %g%+gi", k, r, c, b.im(k, (long) r, (long) c).real(), b.im(k, (long) r, (long) c).imag(), w.real(), w.imag()); }
        }
    }
    template<typename T> uint64_t touch_e(const Eigen::MatrixBase<T>& m) { double s = 0; if (m.size()) s = std::abs(m(0, 0)) + std::abs(m(m.rows() - 1, m.cols() - 1)); return (uint64_t) s; }
    template<typename T> uint64_t touch_e(const Eigen::SparseMatrix<T>& m) { double s = (double) m.nonZeros(); for (int k = 0; k < m.outerSize(); k += 3) for (typename Eigen::SparseMatrix<T>::InnerIterator it(m, k); it; ++it) s += std::abs(it.value()); return (uint64_t) s; }
    template<typename T> uint64_t touch_e(const std::vector<T>& v) { uint64_t s = 0; for (size_t i = 0; i < v.size(); i += 1 + v.size() / 4) s += touch_e(v[i]); return s; }
    // all eight forms of a matrix's basis against its cells; pick(form, re, im, threw) sees each answer
    template<typename F> void check_form(const SymbolicMatrix& m, int f, const Expect& e, size_t nre, size_t nim, F&& pick) {
        const void *re = nullptr, *im = nullptr; bool threw = false; long d = (long) e.d; (void) d;
        try {
            switch (f) {
#define FORM(n, F, C) case n: { auto b = m.Basis.F(); re = &b.first; im = &b.second; check(C, e, is_real_form(f), nre, nim, form_names[f]); break; }
                FORM(B_DENSE, Dense, Cellular<decltype(b)>{b}) FORM(B_DENSE_C, DenseComplex, Cellular<decltype(b)>{b}) FORM(B_SPARSE, Sparse, Cellular<decltype(b)>{b}) FORM(B_SPARSE_C, SparseComplex, Cellular<decltype(b)>{b})
                FORM(B_MONO, DenseMonolithic, (Mono<decltype(b)>{b, d})) FORM(B_MONO_C, DenseMonolithicComplex, (Mono<decltype(b)>{b, d})) FORM(B_SMONO, SparseMonolithic, (Mono<decltype(b)>{b, d})) FORM(B_SMONO_C, SparseMonolithicComplex, (Mono<decltype(b)>{b, d}))
#undef FORM
            }
        } catch (const errors::bad_basis_error&) { threw = true; }
        if (threw && (!is_real_form(f) || !e.complex_coefs)) sim::fail("unexpected-error", form_names[f], "the basis was refused although all coefficients are real");
        if (!threw && is_real_form(f) && e.complex_coefs) sim::fail("wrong-basis", form_names[f], "a real basis was made for a matrix with complex coefficients");
        pick(re, im, threw);
    }

    // Polynomials as vectors over basis elements, from the definition: f X + g X* = (f+g) Re X + i(f-g) Im X.
    using cmap = std::map<ptrdiff_t, cplx>;
    struct Coefs { cmap re, im; };
    inline Coefs coefs(const SymbolTable& st, const Polynomial& p) {
        Coefs c; for (const auto& x : p) { auto [kr, ki] = st[(size_t) x.id].basis_key(); if (kr >= 0) c.re[kr] += x.factor; if (ki >= 0) c.im[ki] += x.factor * cplx{0, x.conjugated ? -1.0 : 1.0}; }
        return c;
    }
    inline cplx at(const cmap& m, ptrdiff_t k) { auto i = m.find(k); return i == m.end() ? cplx{} : i->second; }
    inline bool differs(cplx a, cplx b) { return std::abs(a - b) > 1e-9; }
    // scale of the coefficients seen: 0 whole, 1 real part, 2 imaginary part
    template<typename V> void check_vec(const V& v, const cmap& want, size_t n, int part, const char* key, bool shape = true) {
        if (shape && (size_t) v.size() != n) sim::fail("wrong-vector", key, "the vector has %ld entries, the table has %zu such basis elements", (long) v.size(), n);
        for (ptrdiff_t k = 0; k < (ptrdiff_t) n; ++k) { cplx w = at(want, k); if (part == 1) w = w.real(); if (part == 2) w = w.imag(); cplx g = k < v.size() ? cplx(v.coeff(k)) : cplx{};
            if (differs(g, w)) sim::fail("wrong-vector", key, "entry %ld is %g%+gi, the polynomial says %g%+gi", (long) k, g.real(), g.imag(), w.real(), w.imag()); }
    }
    template<typename Rnd> void check_polynomials(const SymbolTable& st, const PolynomialFactory& pf, Rnd&& rnd) {
        const size_t n = st.size(), nre = st.Basis.RealSymbolCount(), nim = st.Basis.ImaginarySymbolCount(); const double tol = pf.zero_tolerance;
        static const cplx F[] = {{1, 0}, {-1, 0}, {0.5, 0}, {0, 1}, {0, -2}, {1, 1}, {1, -1}, {-0.5, 2}, {3, 0}};
        std::vector<Polynomial> ps; std::vector<Coefs> cs;
        for (int i = 0; i < 6; ++i) {
            Polynomial::storage_t s; int terms = rnd() % 5;
            for (int t = 0; t < terms; ++t) { symbol_name_t id = (symbol_name_t) (rnd() % n); if (rnd() % 4 == 0) id = (symbol_name_t) (rnd() % std::min<size_t>(n, 6)); cplx f = F[rnd() % 9]; bool cj = rnd() % 2; s.emplace_back(id, f, cj);
                if (rnd() % 2) s.emplace_back(id, rnd() % 3 == 0 ? F[rnd() % 9] : rnd() % 2 ? std::conj(f) : -std::conj(f) * (rnd() % 2 ? 1.0 : -1.0) * (rnd() % 3 == 0 ? cplx{0, 1} : cplx{1, 0}), !cj); }
            ps.push_back(pf(std::move(s))); cs.push_back(coefs(st, ps.back()));
        }
        PolynomialToBasisVec rv{st, tol}; PolynomialToComplexBasisVec cv{st, tol}; PolynomialToBasisMask mk{st, tol}; BasisVecToPolynomial rp{pf}; ComplexBasisVecToPolynomial cp{pf};
        auto mono = cv(std::span<const Polynomial>(ps));
        if ((size_t) mono.real.rows() != nre || (size_t) mono.imaginary.rows() != nim || (size_t) mono.real.cols() != ps.size() || (size_t) mono.imaginary.cols() != ps.size()) sim::fail("wrong-vector", "columns", "the table of vectors has the wrong shape");
        for (size_t i = 0; i < ps.size(); ++i) {
            const auto& p = ps[i]; const auto& c = cs[i];
            auto both = rv(p); check_vec(both.real_part.real, c.re, nre, 1, "real-part"); check_vec(both.real_part.imaginary, c.im, nim, 1, "real-part");
            check_vec(both.imaginary_part.real, c.re, nre, 2, "imaginary-part"); check_vec(both.imaginary_part.imaginary, c.im, nim, 2, "imaginary-part");
            { auto r = rv.Real(p); check_vec(r.real, c.re, nre, 1, "only-real"); check_vec(r.imaginary, c.im, nim, 1, "only-real"); }
            { auto r = rv.Imaginary(p); check_vec(r.real, c.re, nre, 2, "only-imaginary"); check_vec(r.imaginary, c.im, nim, 2, "only-imaginary"); }
            { auto r = cv(p); check_vec(r.real, c.re, nre, 0, "complex"); check_vec(r.imaginary, c.im, nim, 0, "complex"); }
            { ComplexBasisVector r{both}; check_vec(r.real, c.re, nre, 0, "complex-of-parts"); check_vec(r.imaginary, c.im, nim, 0, "complex-of-parts"); }
            for (int part = 0; part < 2; ++part) for (size_t k = 0; k < (part ? nim : nre); ++k) { cplx g = part ? mono.imaginary.coeff((long) k, (long) i) : mono.real.coeff((long) k, (long) i), w = at(part ? c.im : c.re, (ptrdiff_t) k);
                if (differs(g, w)) sim::fail("wrong-vector", "columns", "%s entry %zu of column %zu is %g%+gi, the polynomial says %g%+gi", part ? "imaginary" : "real", k, i, g.real(), g.imag(), w.real(), w.imag()); }
            // rows of triplets: real parts in one row, imaginary parts in another, imaginary basis elements right of the real ones
            for (int merged = 0; merged < 2; ++merged) for (int without = 0; without < 3; ++without) {
                long row = without == 1 ? -1 : 1, irow = without == 2 ? -1 : 2; std::vector<Eigen::Triplet<double>> a, b; if (merged) rv.add_triplet_row(p, row, irow, a); else rv.add_triplet_row(p, row, irow, a, b);
                if (merged) for (size_t q = 0; q < a.size();) if (a[q].row() >= (long) nre) { b.emplace_back(a[q].row() - (long) nre, a[q].col(), a[q].value()); a.erase(a.begin() + (long) q); } else ++q;
                if (merged && nre <= 1) continue;   // the two rows are not told apart
                for (int im = 0; im < 2; ++im) { auto& t = im ? b : a; long r = im ? irow : row; std::map<long, double> got; for (auto& x : t) { if (x.row() != r || x.col() >= (long) (nre + nim)) sim::fail("wrong-vector", "triplets", "an entry lies at (%ld,%ld)", (long) x.row(), (long) x.col()); if (got.count(x.col())) sim::fail("wrong-vector", "triplets", "two entries for column %ld", (long) x.col()); got[x.col()] = x.value(); }
                    for (size_t k = 0; k < nre + nim && r >= 0; ++k) { cplx w = k < nre ? at(c.re, (ptrdiff_t) k) : at(c.im, (ptrdiff_t) (k - nre)); double x = im ? w.imag() : w.real(), g = got.count((long) k) ? got[(long) k] : 0; if (differs(g, x)) sim::fail("wrong-vector", "triplets", "the %s row has %g in column %zu, the polynomial says %g", im ? "imaginary" : "real", g, k, x); } }
            }
            // masks: which basis elements the polynomial depends on
            { auto [mr, mi] = mk(p); for (int part = 0; part < 2; ++part) for (size_t k = 0; k < (part ? nim : nre); ++k) { bool g = (part ? mi : mr).test((symbol_name_t) k), w = differs(at(part ? c.im : c.re, (ptrdiff_t) k), 0); if (g != w) sim::fail("wrong-mask", part ? "imaginary" : "real", "%s basis element %zu is %smarked, its coefficient is %szero", part ? "imaginary" : "real", k, g ? "" : "not ", w ? "not " : ""); }
              auto [sr, si] = PolynomialToBasisMask::masks_to_sets(mr, mi); auto same = [](const std::set<symbol_name_t>& s, const cmap& m) { size_t x = 0; for (auto& [k, v] : m) if (differs(v, 0)) { ++x; if (!s.count((symbol_name_t) k)) return false; } return x == s.size(); };
              if (!same(sr, c.re) || !same(si, c.im)) sim::fail("wrong-mask", "sets", "the listed basis elements are not those the polynomial depends on"); }
            if (p.size()) { const auto& m = *(p.begin() + (long) (rnd() % p.size())); auto [kr, ki] = st[(size_t) m.id].basis_key(); auto [mr, mi] = mk.empty_mask(); mk.set_bits(mr, mi, m);
                for (int part = 0; part < 2; ++part) for (size_t k = 0; k < (part ? nim : nre); ++k) if ((part ? mi : mr).test((symbol_name_t) k) != ((part ? ki : kr) == (ptrdiff_t) k)) sim::fail("wrong-mask", "monomial", "%s basis element %zu of a single moment", part ? "imaginary" : "real", k); }
            // and back: a vector over (Re X) and ((X - X*)/2) names the polynomial with those parts
            { complex_basis_vec_t re((long) nre), im((long) nim); basis_vec_t rre((long) nre), rim((long) nim); bool real = true;
              for (auto& [k, v] : c.re) { if (differs(v, 0)) { re.coeffRef(k) = v; rre.coeffRef(k) = v.real(); } real &= v.imag() == 0; }
              for (auto& [k, v] : c.im) { cplx w = v * cplx{0, -1}; if (differs(w, 0)) { im.coeffRef(k) = w; rim.coeffRef(k) = w.real(); } real &= w.imag() == 0; }
              auto back = cp(re, im); if (!back.approximately_equals(p, 10)) sim::fail("wrong-polynomial", "complex", "a polynomial turned into its basis vectors and back is another one");
              if (real) { auto b2 = rp(rre, rim); if (!b2.approximately_equals(p, 10)) sim::fail("wrong-polynomial", "real", "a polynomial turned into its basis vectors and back is another one"); }
              for (int part = 0; part < 2; ++part) { complex_basis_vec_t xr((long) nre + 1), xi((long) nim + 1); (part ? xi : xr).coeffRef((long) (part ? nim : nre)) = 1; bool threw = false; try { auto q = cp(xr, xi); (void) q; } catch (const errors::unknown_basis_elem&) { threw = true; } if (!threw) sim::fail("missing-error", part ? "imaginary" : "real", "a vector over a basis element that does not exist was accepted"); } }
        }
        for (int form = 0; form < 3; ++form) { Polynomial bad{Monomial{(symbol_name_t) n, 1.0}}; bool threw = false; try { if (form == 0) (void) rv(bad); else if (form == 1) (void) cv(bad); else (void) cv(std::span<const Polynomial>(&bad, 1)); } catch (const errors::unknown_symbol&) { threw = true; } if (!threw) sim::fail("missing-error", "symbol", "a polynomial of a symbol that does not exist was turned into a vector"); }
    }
}
