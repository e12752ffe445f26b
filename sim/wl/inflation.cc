// Inflation scenarios: factors of moments, products of symbols, moment matrices extended by scalars.
#include "msrun.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include <deque>
#include <sys/sysinfo.h>

using namespace ms;

namespace {
    enum { I_EXT, I_EXT_BAD, I_FIND, I_SUGGEST, I_PRODUCT, I_TABLE, I_MM, I_LM, I_GENDICT, I_SCAN, I_N };
    using Words = std::vector<std::vector<int>>;           // a product of moments: sorted canonical words
    struct Prod { bool zero = false; Words f; bool operator==(const Prod& o) const { return zero == o.zero && (zero || f == o.f); } };
    std::string str(const Prod& p) { if (p.zero) return "0"; std::string s; for (auto& w : p.f) { W x; x.w = w; s += ms::str(x); } return s.empty() ? "1" : s; }
    Prod times(const Prod& a, const Prod& b) { Prod c; c.zero = a.zero || b.zero; if (!c.zero) { c.f = a.f; c.f.insert(c.f.end(), b.f.begin(), b.f.end()); std::sort(c.f.begin(), c.f.end()); } return c; }

    struct Infl {
        MsRun run; Scenario& sc; const Model& md; Inflation::InflationMatrixSystem& sys; size_t mt_budget;
        struct Em { size_t level; std::vector<symbol_name_t> ext; const Inflation::ExtendedMatrix* m; const SymbolicMatrix* base; }; std::deque<Em> ems;
        explicit Infl(int size) : run{INFL, size}, sc{run.sc}, md{sc.m}, sys{static_cast<Inflation::InflationMatrixSystem&>(*sc.sys)}, mt_budget{230 / (size_t) std::max(1, get_nprocs())} {}

        // operators connected through shared copies of sources
        Words components(const std::vector<int>& w) const {
            Words o; std::vector<bool> done(w.size());
            auto sources = [&](int x) { std::vector<std::pair<int, int>> v; auto ob = (size_t) md.op_obs[(size_t) x]; for (size_t s = 0; s < md.obs_sources[ob].size(); ++s) v.push_back({md.obs_sources[ob][s], md.op_sources[(size_t) x][s]}); if (v.empty()) v.push_back({-1 - (int) ob, 0}); return v; };
            for (size_t i = 0; i < w.size(); ++i) if (!done[i]) {
                std::set<std::pair<int, int>> src; std::vector<int> c; auto take = [&](size_t k) { done[k] = true; c.push_back(w[k]); for (auto& z : sources(w[k])) src.insert(z); };
                take(i); for (bool more = true; more;) { more = false; for (size_t k = i + 1; k < w.size(); ++k) if (!done[k]) { bool hit = false; for (auto& z : sources(w[k])) hit |= src.count(z) > 0; if (hit) { take(k); more = true; } } }
                std::sort(c.begin(), c.end()); o.push_back(std::move(c)); }
            std::sort(o.begin(), o.end()); return o;
        }
        Prod prod_of_word(const W& w) const { Prod p; p.zero = w.zero; if (!w.zero) for (auto& c : components(w.w)) { W x; x.w = c; p.f.push_back(md.least(x).w); } std::sort(p.f.begin(), p.f.end()); return p; }
        Prod prod_of_symbol(symbol_name_t id) const {
            const auto& st = sys.Symbols(); if (id < 0 || (size_t) id >= st.size()) sim::fail("bad-symbol", "factors", "symbol %ld named, the table has %zu", (long) id, st.size());
            if (id == 0) { Prod p; p.zero = true; return p; }
            const auto& s = st[(size_t) id]; if (s.has_sequence()) return prod_of_word(from(s.sequence()));
            Prod p; const auto& ft = sys.Factors(); if ((size_t) id >= ft.size()) sim::fail("factor-table", "size", "symbol %ld has neither an operator word nor factors", (long) id);
            for (auto f : ft[(size_t) id].canonical.symbols) { Prod q; if (f < 0 || (size_t) f >= st.size() || !st[(size_t) f].has_sequence()) sim::fail("factor-table", "product", "symbol %ld has symbol %ld as a factor, which stands for no word", (long) id, (long) f); p = times(p, prod_of_symbol(f)); }
            return p;
        }
        std::vector<symbol_name_t> pick_ext(const Op& op) const {      // under a lock: the symbols to extend by
            PlanRng r{(uint64_t) (op.b % 97) * 31 + 5}; std::vector<symbol_name_t> e; int n = r.range(0, 3); size_t lim = std::min<size_t>(sys.Symbols().size(), op.b % 2 ? 9 : 40);
            for (int i = 0; i < n; ++i) e.push_back((symbol_name_t) (r.chance(8) ? r.below(2) : r.below(lim))); return e;
        }
        static std::string ekey(size_t l, const std::vector<symbol_name_t>& e) { std::string s = "EM" + std::to_string(l) + ":"; for (auto x : e) s += std::to_string(x) + ","; return s; }
        MTP policy(const Op& op, size_t need) { MTP p = run.policy(op); if (p == MTP::Never) return p; if (mt_budget < need) return MTP::Never; mt_budget -= need; return p; }

        void one(const Op& op) {
            static const char* names[] = {"extend", "extend-unknown", "find-extended", "suggest", "product", "factor-table"};
            if (op.code >= I_MM) { Op o = op; { sim::Quiet q; static const int code[] = {O_MM, O_LM, O_GENDICT, O_SCAN}; o.code = code[op.code - I_MM]; if (o.code == O_SCAN) { sim::op_done(true); o.code = O_OSG; } else if (policy(op, 3) == MTP::Never) o.c = o.c / 16 * 16 + 15; } run.one(o); return; }
            sim::label(names[op.code]); size_t l = (size_t) run.level(op); uint64_t sink = 0;
            switch (op.code) {
                case I_EXT: case I_EXT_BAD: {
                    std::vector<symbol_name_t> e; size_t slot = 0; MTP pol;
                    { auto lk = sys.get_read_lock(); sim::Quiet q; e = pick_ext(op); if (op.code == I_EXT_BAD) e.insert(e.begin() + (long) ((size_t) op.c / 3 % (e.size() + 1)), op.c % 2 ? -1 : (symbol_name_t) 100000 + op.b); }
                    { sim::Quiet q; pol = policy(op, 4); slot = run.hist.size(); run.hist.emplace_back(); auto& r = run.hist[slot]; r.code = O_N; r.op = op; r.op.code = O_N; r.also = {"MM" + std::to_string(l)}; r.key = op.code == I_EXT ? ekey(l, e) : ""; r.start = sim::now(); }
                    const Inflation::ExtendedMatrix* m = nullptr; ptrdiff_t off = -1; bool failed = false; std::string why;
                    try { attempt(run.armed, names[op.code], [&] { auto [o, em] = sys.ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{l, std::span<const symbol_name_t>{e}}, pol); off = (ptrdiff_t) o; m = &em; sink += MsRun::touch(em); }); }
                    catch (const std::exception& x) { sim::Quiet q; failed = true; why = x.what(); }
                    sim::Quiet q; auto& r = run.hist[slot]; r.end = sim::now();
                    if (failed != (op.code == I_EXT_BAD)) sim::fail("extension-refusal", names[op.code], "%s: extension by %s was %s %s", r.key.c_str(), ekey(l, e).c_str(), failed ? "refused:" : "accepted although a symbol does not exist", why.c_str());
                    r.failed = failed; r.created = !failed; r.off = off; r.addr = m ? static_cast<const SymbolicMatrix*>(m) : nullptr;
                    if (m) ems.push_back({l, e, m, nullptr}); break; }
                case I_FIND: {
                    auto lk = sys.get_read_lock(); std::vector<symbol_name_t> e; size_t slot; { sim::Quiet q; e = pick_ext(op); slot = run.hist.size(); run.hist.emplace_back(); auto& r = run.hist[slot]; r.code = O_FIND_MM; r.op = op; r.op.code = O_N; r.key = ekey(l, e); r.start = sim::now(); }
                    Inflation::ExtendedMatrixIndex ix{l, std::span<const symbol_name_t>{e}}; bool found = sys.ExtendedMatrices.contains(ix); ptrdiff_t off = sys.ExtendedMatrices.find_index(ix); const SymbolicMatrix* m = nullptr; if (off >= 0) { m = &sys[off]; sink += MsRun::touch(*m); }
                    sim::Quiet q; auto& r = run.hist[slot]; r.end = sim::now(); r.found = found; r.off = off; r.addr = m; break; }
                case I_SUGGEST: {
                    const MonomialMatrix* mm; { sim::Quiet q; if (policy(op, 3) == MTP::Never) {} }
                    { size_t slot; { sim::Quiet q; slot = run.hist.size(); run.hist.emplace_back(); auto& r = run.hist[slot]; r.code = O_N; r.op = op; r.op.code = O_N; r.key = "MM" + std::to_string(l); r.start = sim::now(); }
                      auto& m = sys.MomentMatrix(l, MTP::Never); mm = &static_cast<const MonomialMatrix&>(m); sim::Quiet q; auto& r = run.hist[slot]; r.end = sim::now(); r.created = true; r.addr = &static_cast<const SymbolicMatrix&>(m); }
                    auto lk = sys.get_read_lock(); std::set<symbol_name_t> got; attempt(run.armed, "suggest", [&] { got = sys.suggest_extensions(*mm); }); sim::Quiet q; check_suggestion(*mm, l, got); break; }
                case I_PRODUCT: { auto lk = sys.get_read_lock(); const auto& ft = sys.Factors(); symbol_name_t a, b; { sim::Quiet q; size_t n = std::min<size_t>(ft.size(), 60); a = (symbol_name_t) ((size_t) op.b % n); b = (symbol_name_t) ((size_t) (op.b / 61 + op.c) % n); }
                    symbol_name_t p = -1; try { p = ft.try_multiply(a, b); } catch (const Inflation::errors::unknown_symbol&) {}
                    sim::Quiet q; check_product(a, b, p); break; }
                case I_TABLE: { auto lk = sys.get_read_lock(); const auto& ft = sys.Factors(); for (const auto& e : ft) { sink += (uint64_t) e.id + e.canonical.symbols.size() + e.appearances + e.raw.sequences.size() + e.fundamental(); sink += (uint64_t) ft.find_index_by_factors(e.canonical.symbols).value_or(0); }
                    sim::Quiet q; if (!run.armed && ft.size() != sys.Symbols().size()) sim::fail("factor-table", "size", "%zu symbols, factors of %zu", sys.Symbols().size(), ft.size()); break; }
            }
            volatile uint64_t v = sink; (void) v; sim::op_done(true);
        }

        void check_product(symbol_name_t a, symbol_name_t b, symbol_name_t got) const {
            const auto& ft = sys.Factors(); auto syms = [&](symbol_name_t x) { return ft[(size_t) x].canonical.symbols; };
            if (got >= 0) { Prod e = times(prod_of_symbol(a), prod_of_symbol(b)), g = prod_of_symbol(got); if (!(e == g)) sim::fail("wrong-product", "symbol", "symbols %ld and %ld multiply to symbol %ld = %s, expected %s", (long) a, (long) b, (long) got, str(g).c_str(), str(e).c_str()); return; }
            // refused: no symbol may have these factors
            if (a == 0 || b == 0 || a == 1 || b == 1) sim::fail("wrong-product", "refused", "the product of symbols %ld and %ld was refused", (long) a, (long) b);
            auto f = syms(a), g = syms(b); f.insert(f.end(), g.begin(), g.end()); std::sort(f.begin(), f.end());
            for (const auto& e : ft) if (e.canonical.symbols == f) sim::fail("wrong-product", "refused", "the product of symbols %ld and %ld was refused, it is symbol %ld", (long) a, (long) b, (long) e.id);
        }
        // products of several symbols, and of polynomials
        void check_products(PlanRng r) const {
            const auto& ft = sys.Factors(); size_t n = std::min<size_t>(ft.size(), 40); if (n < 3) return; using Key = std::vector<symbol_name_t>;
            auto fac = [&](symbol_name_t x) { Key k = ft[(size_t) x].canonical.symbols; if (k == Key{1}) k.clear(); return k; };
            auto known = [&](Key k) { std::sort(k.begin(), k.end()); if (k.size() < 2) return true; for (const auto& e : ft) if (e.canonical.symbols == k) return true; return false; };
            auto join = [&](Key a, const Key& b) { a.insert(a.end(), b.begin(), b.end()); std::sort(a.begin(), a.end()); return a; };
            for (int rep = 0; rep < 30; ++rep) {
                Key list, all; bool zero = false; for (int k = r.range(1, 4); k > 0; --k) { symbol_name_t x = (symbol_name_t) (r.chance(4) ? 0 : r.chance(10) ? 1 : 1 + r.below(n - 1)); list.push_back(x); zero |= x == 0; if (x) all = join(all, fac(x)); }
                symbol_name_t p = -1; try { p = ft.try_multiply(list); } catch (const Inflation::errors::unknown_symbol&) {}
                std::string l; for (auto x : list) l += " #" + std::to_string(x);
                if (zero ? p != 0 : p < 0 ? known(all) : p == 0 || fac(p) != all) sim::fail("wrong-product", p < 0 ? "refused-list" : "list", "the product of symbols%s %s", l.c_str(), p < 0 ? "was refused" : ("was given as symbol " + std::to_string(p)).c_str());
            }
            const auto& pf = sys.polynomial_factory();
            for (int rep = 0; rep < 20; ++rep) {
                static const cplx cs[6] = {{1, 0}, {-1, 0}, {2, 0}, {0, 1}, {0.5, -1}, {-2, 1}};
                auto make = [&] { Polynomial::storage_t s; for (int k = r.range(0, 3); k > 0; --k) s.emplace_back((symbol_name_t) (r.chance(25) ? 1 : 1 + r.below(n - 1)), cs[r.below(6)]); return pf(std::move(s)); };
                Polynomial x = make(), y = make(); std::map<Key, cplx> want, got; bool ok = true;
                for (auto& a : x) for (auto& b : y) { Key k = join(fac(a.id), fac(b.id)); ok &= a.id == 1 || b.id == 1 || known(k); want[k] += a.factor * b.factor; }
                try { Polynomial z = ft.try_multiply(pf, x, y); for (auto& a : z) got[fac(a.id)] += a.factor; } catch (const Inflation::errors::unknown_symbol&) { if (ok) sim::fail("wrong-product", "refused-polynomial", "a product of polynomials was refused, although all of its moments have symbols"); continue; }
                if (!ok) sim::fail("wrong-product", "polynomial", "a product of polynomials was given, although some of its moments have no symbols");
                for (auto& [k, c] : want) if (std::abs(c - (got.count(k) ? got[k] : cplx{})) > 1e-9) sim::fail("wrong-product", "polynomial", "a product of polynomials has a wrong term");
                for (auto& [k, c] : got) if (std::abs(c) > 1e-9 && !want.count(k)) sim::fail("wrong-product", "polynomial", "a product of polynomials has a term too many");
            }
        }
        void check_suggestion(const MonomialMatrix& mm, size_t l, const std::set<symbol_name_t>& got) const {
            const auto& ft = sys.Factors(); const auto& st = sys.Symbols(); std::map<std::vector<symbol_name_t>, symbol_name_t> need;   // factors -> non-fundamental symbol of the matrix
            for (auto id : mm.IncludedSymbols()) { const auto& e = ft[(size_t) id]; if (e.canonical.symbols.size() > 1) { auto ix = ft.find_index_by_factors(e.canonical.symbols); if (ix && *ix == id) need[e.canonical.symbols] = id; } }
            std::vector<std::vector<symbol_name_t>> rows; for (const auto& s : sc.sys->Context().operator_sequence_generator(l)) { W a = md.alias(from(s)); auto x = st.where(sc.seq(a.w)); if (!x.found()) sim::fail("symbol-missing", "row", "row word %s of a generated moment matrix has no symbol", ms::str(a).c_str()); auto f = ft[(size_t) x->Id()].canonical.symbols; if (f == std::vector<symbol_name_t>{1}) f.clear(); rows.push_back(f); }
            auto covers = [&](symbol_name_t g, const std::vector<symbol_name_t>& f) { for (auto& r : rows) { auto j = r; j.push_back(g); std::sort(j.begin(), j.end()); if (j == f) return true; } return false; };
            for (auto g : got) {
                if (g < 2 || (size_t) g >= ft.size() || !ft[(size_t) g].fundamental()) sim::fail("wrong-suggestion", "kind", "symbol %ld is suggested as an extension, it is no single factor", (long) g);
                bool fac = false, use = false; for (auto& [f, id] : need) { fac |= std::find(f.begin(), f.end(), g) != f.end(); use |= covers(g, f); }
                if (!fac || !use) sim::fail("wrong-suggestion", "useless", "symbol %ld is suggested as an extension, but %s", (long) g, fac ? "gives no moment of the matrix" : "is a factor of nothing in the matrix");
            }
            for (auto& [f, id] : need) { bool can = false, is = false; for (auto g : f) can |= covers(g, f); for (auto g : got) is |= covers(g, f); if (can && !is) sim::fail("wrong-suggestion", "incomplete", "no suggested extension gives symbol %ld = %s, although one of its factors would", (long) id, str(prod_of_symbol(id)).c_str()); }
        }
        void check_factors() const {
            const auto& ft = sys.Factors(); const auto& st = sys.Symbols(); auto& ctx = sys.Context(); (void) ctx;
            if (ft.size() != st.size()) sim::fail("factor-table", "size", "%zu symbols, factors of %zu", st.size(), ft.size());
            std::map<std::vector<symbol_name_t>, symbol_name_t> first;
            for (size_t i = 0; i < ft.size(); ++i) {
                const auto& e = ft[i]; if ((size_t) e.id != i) sim::fail("factor-table", "order", "entry %zu of the factor table is for symbol %ld", i, (long) e.id);
                const auto& cs = e.canonical.symbols; if (cs.empty() || !std::is_sorted(cs.begin(), cs.end())) sim::fail("factor-table", "order", "the factors of symbol %zu are not in order", i);
                if (cs.size() != e.canonical.sequences.size()) sim::fail("factor-table", "entry", "symbol %zu has %zu factors, but %zu factor words", i, cs.size(), e.canonical.sequences.size());
                if (e.fundamental() != (cs.size() == 1)) sim::fail("factor-table", "entry", "symbol %zu has %zu factors and fundamental=%d", i, cs.size(), (int) e.fundamental());
                Words byseq, bysym; for (auto& s : e.canonical.sequences) { W x = from(s); byseq.push_back(x.w); } for (auto f : cs) { if (f < 0 || (size_t) f >= st.size() || !st[(size_t) f].has_sequence()) sim::fail("factor-table", "product", "symbol %zu has symbol %ld as a factor, which stands for no word", i, (long) f); bysym.push_back(from(st[(size_t) f].sequence()).w); if (ft[(size_t) f].canonical.symbols.size() != 1) sim::fail("factor-table", "product", "symbol %zu has symbol %ld as a factor, which has factors itself", i, (long) f); }
                std::sort(byseq.begin(), byseq.end()); std::sort(bysym.begin(), bysym.end()); if (byseq != bysym) sim::fail("factor-table", "entry", "the factor words and factor symbols of symbol %zu differ", i);
                if (st[i].has_sequence()) {
                    W w = from(st[i].sequence()); if (w.zero) continue;
                    Words raw = components(w.w), can; for (auto& c : raw) { W x; x.w = c; can.push_back(md.alias(x).w); } if (w.w.empty()) { raw = {{}}; can = {{}}; } std::sort(can.begin(), can.end());
                    Words r; for (auto& s : e.raw.sequences) r.push_back(from(s).w); std::sort(r.begin(), r.end());
                    if (r != raw) { Prod a, b; a.f = r; b.f = raw; sim::fail("wrong-factors", "raw", "symbol %zu %s is factorised as %s, expected %s", i, ms::str(w).c_str(), str(a).c_str(), str(b).c_str()); }
                    if (bysym != can) { Prod a, b; a.f = bysym; b.f = can; sim::fail("wrong-factors", "canonical", "symbol %zu %s has the factors %s, expected %s", i, ms::str(w).c_str(), str(a).c_str(), str(b).c_str()); }
                } else {
                    if (cs.size() < 2) sim::fail("factor-table", "product", "symbol %zu stands neither for a word nor for a product", i);
                    if (!st[i].is_hermitian() || st[i].basis_key().first < 0 || st[i].basis_key().second >= 0) sim::fail("factor-table", "product", "symbol %zu, a product of real moments, is not real", i);
                    auto it = first.find(cs); if (it != first.end()) sim::fail("product-duplicate", st[(size_t) it->second].has_sequence() ? "of-word" : "of-product", "symbol %zu was made for the product %s, which was symbol %ld already", i, str(prod_of_symbol((symbol_name_t) i)).c_str(), (long) it->second);
                }
                first.emplace(cs, (symbol_name_t) i);
                auto ix = ft.find_index_by_factors(cs); if (!ix || *ix < 0 || (size_t) *ix >= ft.size() || ft[(size_t) *ix].canonical.symbols != cs) sim::fail("factor-lookup", "entry", "looking up the factors of symbol %zu gives %ld", i, ix ? (long) *ix : -1l);
            }
            check_products(PlanRng{ft.size() * 977 + st.size()});
            size_t n = std::min<size_t>(ft.size(), 45);
            for (size_t a = 0; a < n; ++a) for (size_t b = 0; b <= a; ++b) { symbol_name_t p = -1; try { p = ft.try_multiply((symbol_name_t) (b % 2 ? a : b), (symbol_name_t) (b % 2 ? b : a)); } catch (const Inflation::errors::unknown_symbol&) {} check_product((symbol_name_t) a, (symbol_name_t) b, p); }
        }
        // outcome numbers of several variants at once: last variant fastest
        void check_outcome_numbers(PlanRng r) const {
            const auto& ctx = static_cast<const Inflation::InflationContext&>(sys.Context()); const auto& obs = ctx.Observables(); using namespace Inflation;
            for (int rep = 0; rep < 12; ++rep) {
                std::vector<OVIndex> ov; size_t total = 1; bool any = true; for (int k = r.range(0, 3); k > 0; --k) { auto o = (oper_name_t) r.below(obs.size()); ov.emplace_back(o, (oper_name_t) r.below((uint64_t) obs[(size_t) o].variant_count)); total *= obs[(size_t) o].outcomes; any &= obs[(size_t) o].outcomes > 0; }
                if (!any) continue;
                for (size_t n = 0; n < total; ++n) {
                    auto un = ctx.unflatten_outcome_index(ov, (oper_name_t) n); size_t left = n; bool ok = un.size() == ov.size();
                    for (size_t k = ov.size(); ok && k-- > 0;) { size_t m = obs[(size_t) ov[k].observable].outcomes; ok = un[k].observable_variant == ov[k] && (size_t) un[k].outcome == left % m; left /= m; }
                    if (!ok) sim::fail("wrong-outcome", "unwrap", "outcome number %zu of %zu variants is unwrapped wrongly", n, ov.size());
                    if (!un.empty()) if (size_t b = ctx.flatten_outcome_index(un); b != n) sim::fail("wrong-outcome", "wrap", "outcome number %zu of %zu variants becomes %zu when unwrapped and wrapped", n, ov.size(), b);
                }
            }
            int threw = 0; OVIndex bad{(oper_name_t) obs.size(), 0}; try { (void) ctx.unflatten_outcome_index(std::span<const OVIndex>(&bad, 1), 0); } catch (const Inflation::errors::bad_observable&) { threw |= 1; }
            for (int k = 0; k < 3; ++k) { OVOIndex x{k == 0 ? bad : OVIndex{0, k == 1 ? obs[0].variant_count : (oper_name_t) 0}, k == 2 ? (oper_name_t) obs[0].outcomes : (oper_name_t) 0}; try { (void) ctx.flatten_outcome_index(std::span<const OVOIndex>(&x, 1)); } catch (const Inflation::errors::bad_observable&) { threw |= 2 << k; } }
            if (threw != 15) sim::fail("missing-error", "outcome", "wrapping or unwrapping outcomes of an observable, variant or outcome that does not exist was not refused (%d)", threw);
        }
        void check_extended() const {
            const auto& st = sys.Symbols(); std::set<const void*> seen;
            for (auto& em : ems) if (seen.insert(em.m).second) {
                const auto& m = *em.m; auto rows = row_words(sc, em.level, "rows"); size_t d = rows.size(), n = d + em.ext.size();
                if (m.OriginalDimension != d || m.Dimension() != n) sim::fail("wrong-extension", "dimension", "a level-%zu matrix extended by %zu symbols has dimension %zu (%zu before)", em.level, em.ext.size(), m.Dimension(), (size_t) m.OriginalDimension);
                std::vector<Prod> side(n); for (size_t r = 0; r < d; ++r) side[r] = prod_of_word(rows[r]); for (size_t k = d; k < n; ++k) side[k] = prod_of_symbol(em.ext[k - d]);
                if (!m.Hermitian()) sim::fail("hermitian-flag", "extended", "an extended matrix says it is not Hermitian");
                std::set<symbol_name_t> inc, re;
                for (size_t r = 0; r < n; ++r) for (size_t c = 0; c < n; ++c) {
                    const Monomial x = m.SymbolMatrix(r, c); inc.insert(x.id); if (x.id > 0 && (size_t) x.id < st.size()) re.insert((symbol_name_t) st[(size_t) x.id].basis_key().first);
                    if (std::abs(x.factor - 1.0) > 1e-9 && x.id) sim::fail("wrong-extension", "factor", "cell (%zu,%zu) has weight %g%+gi", r, c, x.factor.real(), x.factor.imag());
                    Prod e, g = prod_of_symbol(x.id);
                    if (r < d && c < d) e = prod_of_word(md.mul(md.conj(rows[r]), rows[c])); else e = times(side[r], side[c]);
                    if (!(e == g)) sim::fail("wrong-extension", r < d && c < d ? "moments" : r < d || c < d ? "border" : "corner", "cell (%zu,%zu) of the matrix extended by %s stands for %s (symbol %ld), expected %s", r, c, ekey(em.level, em.ext).c_str(), str(g).c_str(), (long) x.id, str(e).c_str());
                    if (!(m.SymbolMatrix(c, r) == x)) sim::fail("wrong-extension", "symmetry", "cells (%zu,%zu) and (%zu,%zu) name different symbols", r, c, c, r);
                }
                if (inc != m.IncludedSymbols()) sim::fail("wrong-summary", "extended", "the matrix lists %zu symbols as included, its cells hold %zu others", m.IncludedSymbols().size(), inc.size());
                if (re != m.RealBasisIndices() || !m.ImaginaryBasisIndices().empty()) sim::fail("wrong-summary", "extended", "basis elements listed by the extended matrix differ from those of its cells");
            }
        }
    };
}

WORKLOAD(inflation, "C10", 10, F_WAKE)
static void inflation_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.range(0, N_NETS - 1); int nc = p.p[1] = r.range(1, 3); p.p[2] = r.range(0, 3);
    std::vector<Op> menu; for (int i = r.range(1, 4); i > 0; --i) { Op o; o.code = r.chance(60) ? (int) I_EXT : (int) r.below(I_N); o.a = r.range(0, 5); o.b = (int) r.below(8000); o.c = (int) r.below(48); if (r.chance(60)) o.c -= o.c % 16; menu.push_back(o); }
    for (int k = 0; k < nc; ++k) for (int i = r.range(1, 4); i > 0; --i) { Op o = menu[r.below(menu.size())]; if (r.chance(30)) { o.code = (int) r.below(I_N); o.b = (int) r.below(8000); } else if (o.code == I_EXT && r.chance(15)) o.code = I_FIND; o.client = k; if (r.chance(25)) o.c = (int) r.below(48); p.ops.push_back(o); }
}
static void inflation_run(const Plan& p) {
    std::optional<Infl> s; { sim::Quiet q; s.emplace(p.p[0]); if (p.p[2] % 4) s->sys.generate_dictionary((size_t) p.p[2]); }
    s->run.armed = p.p[15]; if (p.p[15]) s->mt_budget = s->mt_budget * 2 / 3;
    run_clients(p, p.p[1], [&](const Op& o) { s->one(o); });
    sim::Quiet q; s->check_factors(); s->check_outcome_numbers(PlanRng{(uint64_t) p.p[0] * 31 + p.ops.size()}); s->check_extended(); s->run.check_request_history(); check_symbols(s->sc, "table"); s->run.check_entries();
}
WORKLOAD(resource_inflation, "C12", 5, F_ALLOC | F_THREAD | F_WAKE | F_NEEDFAULT)
static void resource_inflation_gen(PlanRng& r, Plan& p) { inflation_gen(r, p); p.p[15] = 1; }
static void resource_inflation_run(const Plan& p) { inflation_run(p); }
