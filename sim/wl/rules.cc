// Rules on moments: rulebooks completed, merged and expanded, matrices rewritten by them.
#include "msrun.h"
#include "matrix/substituted_matrix.h"
#include "matrix_system/indices/substituted_matrix_index.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "symbolic/monomial_comparator_by_hash.h"
#include "symbolic/rules/moment_rulebook.h"
#include "symbolic/rules/moment_rulebook_to_basis.h"
#include <deque>
#include <sys/sysinfo.h>

using namespace ms;

namespace {
    enum { U_MM, U_LM, U_PLM, U_GENDICT, U_EXT, U_BOOK, U_MERGE, U_SUBST, U_SUBST_BAD, U_FIND, U_REDUCE, U_COMPARE, U_N };
    const char* const unames[] = {"moment-matrix", "localizing-matrix", "polynomial-matrix", "generate-dictionary", "extend", "add-rulebook", "merge-rulebook", "substitute", "substitute-missing", "find-substituted", "reduce", "compare-rulebooks"};
    using Var = std::pair<symbol_name_t, int>;                      // a symbol, or its conjugate
    using Vec = std::map<Var, cplx>;
    constexpr double TOL = 1e-8;

    // complex-linear span of rule polynomials and their conjugates, in echelon form
    struct Span {
        const SymbolTable* st = nullptr; std::map<Var, Vec> rows;   // pivot -> row with pivot coefficient one, no other pivot in it
        void put(Vec& v, const Monomial& m, cplx f = 1.0) const {
            if (m.id == 0) return; if (m.id < 0 || (size_t) m.id >= st->size()) sim::fail("bad-symbol", "polynomial", "symbol %ld named, the table has %zu", (long) m.id, st->size());
            const auto& s = (*st)[(size_t) m.id]; cplx c = m.factor * f; int cj = m.conjugated; if (cj && s.is_hermitian()) cj = 0; else if (cj && s.is_antihermitian()) { cj = 0; c = -c; } v[{m.id, cj}] += c; }
        Vec vec(const Polynomial& p) const { Vec v; for (const auto& m : p) put(v, m); clean(v); return v; }
        Vec conj(const Vec& a) const { Vec v; for (auto& [k, c] : a) put(v, Monomial{k.first, std::conj(c), k.second == 0}); clean(v); return v; }
        static void clean(Vec& v) { for (auto it = v.begin(); it != v.end();) if (std::abs(it->second) < TOL) it = v.erase(it); else ++it; }
        static void axpy(Vec& a, const Vec& b, cplx f) { for (auto& [k, c] : b) a[k] += f * c; clean(a); }
        Vec reduce(Vec v) const { Vec o = v; for (auto& [k, c] : v) { auto it = rows.find(k); if (it != rows.end()) axpy(o, it->second, -c); } return o; }
        bool zero(const Vec& v) const { return reduce(v).empty(); }
        void add_one(const Vec& p) { Vec v = reduce(p); if (v.empty()) return; auto piv = *v.rbegin(); for (auto& [k, c] : v) c /= piv.second; for (auto& [k, r] : rows) { auto it = r.find(piv.first); if (it != r.end()) { cplx f = it->second; axpy(r, v, -f); } } rows[piv.first] = std::move(v); }
        void add(const Polynomial& p) { Vec v = vec(p); add_one(v); add_one(conj(v)); }
        bool contradictory() const { return rows.count({1, 0}) > 0; }
    };
    std::string str(const Vec& v) { std::string s; for (auto& [k, c] : v) { char b[80]; snprintf(b, sizeof b, "%s(%g%+gi)#%ld%s", s.empty() ? "" : " + ", c.real(), c.imag(), (long) k.first, k.second ? "*" : ""); s += b; } return s.empty() ? "0" : s; }
    bool same(const Vec& a, const Vec& b) { Vec d = a; Span::axpy(d, b, -1.0); return d.empty(); }

    // polynomials in the factors of moments (inflation)
    using Mono = std::vector<symbol_name_t>; using FPoly = std::map<Mono, cplx>;
    FPoly fmul(const FPoly& a, const FPoly& b) { FPoly o; for (auto& [x, c] : a) for (auto& [y, d] : b) { Mono m = x; m.insert(m.end(), y.begin(), y.end()); std::sort(m.begin(), m.end()); o[m] += c * d; } return o; }
    void fadd(FPoly& a, const FPoly& b, cplx f) { for (auto& [m, c] : b) a[m] += f * c; }
    bool fzero(const FPoly& a) { for (auto& [m, c] : a) if (std::abs(c) > TOL) return false; return true; }

    struct Open : MatrixSystem { using MatrixSystem::replace_polynomial_factory; };
    struct Book { MomentRulebook* ptr = nullptr; std::vector<Polynomial> raw; Span span; bool used_started = false, used_done = false, tainted = false; };
    struct Rules {
        MsRun run; Scenario& sc; MatrixSystem& sys; Inflation::InflationMatrixSystem* infl; size_t mt_budget;
        std::map<size_t, Book> books; bool by_hash, exact; size_t failed_adds = 0; bool refresh_failed = false;
        struct Sub { size_t src, rb; const SymbolicMatrix* m; ptrdiff_t off; }; std::deque<Sub> subs;
        Rules(int kind, int size, bool hash, bool ex) : run{kind, size, ex ? 1.0 : 1e4}, sc{run.sc}, sys{*sc.sys}, infl{kind == INFL ? static_cast<Inflation::InflationMatrixSystem*>(sc.sys.get()) : nullptr}, mt_budget{230 / (size_t) std::max(1, get_nprocs())}, by_hash{hash && !run.sc.pauli()}, exact{ex} {
            if (by_hash) (sys.*(&Open::replace_polynomial_factory))(std::make_unique<ByHashPolynomialFactory>(sys.Symbols(), ex ? 1.0 : 1e4)); }
        const SymbolTable& st() const { return sys.Symbols(); }
        const PolynomialFactory& pf() const { return sys.polynomial_factory(); }

        MTP policy(const Op& op, size_t need) { MTP p = run.policy(op); if (p == MTP::Never) return p; if (mt_budget < need) return MTP::Never; mt_budget -= need; return p; }
        bool fundamental(symbol_name_t id) const { const auto& ft = infl->Factors(); return (size_t) id < ft.size() && ft[(size_t) id].canonical.symbols.size() == 1 && ft[(size_t) id].canonical.symbols[0] == id; }
        // under a lock
        symbol_name_t pick_symbol(PlanRng& r, size_t lim) const { size_t n = std::min(st().size(), lim); return (symbol_name_t) (n <= 2 ? 1 : r.chance(15) ? 1 : 2 + r.below(n - 2)); }
        cplx coef(PlanRng& r, bool plain) const { static const cplx cs[8] = {{1, 0}, {-1, 0}, {2, 0}, {0.5, 0}, {0, 1}, {0, -1}, {1, 1}, {0, 2}}; return cs[r.below(plain ? 4 : r.chance(85) ? 6 : 8)]; }
        std::vector<Polynomial> make_rules(const Op& op) const {
            PlanRng r{(uint64_t) (op.b % 997) * 131 + 7}; std::vector<Polynomial> o; int n = r.range(1, 3); bool plain = r.chance(40); size_t lim = op.b % 3 ? 8 : 40; if (op.code == U_BOOK && op.b % 7 == 3) return o;   // books may start without rules
            for (int i = 0; i < n; ++i) {
                Polynomial::storage_t s;
                if (infl) {
                    std::vector<symbol_name_t> f; size_t m = std::min<size_t>(st().size(), lim); for (size_t k = 2; k < m; ++k) if (fundamental((symbol_name_t) k)) f.push_back((symbol_name_t) k); if (f.empty()) break;
                    size_t at = r.below(f.size()); s.emplace_back(f[at], cplx{-1, 0}); int t = r.range(0, exact ? 6 : 9);
                    if (t < 7) { static const double v[4] = {0.5, 0.25, 0, 1}; double x = v[r.below(4)]; if (x != 0) s.emplace_back((symbol_name_t) 1, cplx{x, 0}); }
                    else { for (int k = r.range(1, 2); k > 0; --k) { if (at && r.chance(70)) s.emplace_back(f[r.below(at)], coef(r, true)); else s.emplace_back((symbol_name_t) 1, coef(r, true)); } }
                } else if (exact) {      // no rounding: a symbol is a number, or plus or minus another symbol
                    symbol_name_t id = pick_symbol(r, lim); if (id == 1) id = std::min<symbol_name_t>(2, (symbol_name_t) st().size() - 1); s.emplace_back(id, cplx{-1, 0}); static const double v[4] = {0.5, 0.25, 0, 1};
                    if (r.chance(60)) { double x = v[r.below(4)]; if (x != 0) s.emplace_back((symbol_name_t) 1, cplx{x, 0}); } else { symbol_name_t o2 = pick_symbol(r, lim); if (o2 != id && st()[(size_t) id].is_hermitian() == st()[(size_t) o2].is_hermitian()) s.emplace_back(o2, cplx{r.chance(70) ? 1.0 : -1.0, 0}); }
                } else {
                    int t = r.chance(30) ? 1 : r.range(1, 3); for (int k = 0; k < t; ++k) { symbol_name_t id = pick_symbol(r, lim); if (id == 1 && t == 1 && !r.chance(5)) id = pick_symbol(r, lim); s.emplace_back(id, coef(r, plain), r.chance(30)); if (r.chance(12)) s.emplace_back(id, coef(r, plain), true); }
                    if (r.chance(50)) s.emplace_back((symbol_name_t) 1, coef(r, plain));
                }
                o.push_back(pf()(std::move(s)));
            }
            if (!o.empty() && r.chance(8)) { Polynomial q = o[0]; if (r.chance(50)) pf().append(q, Polynomial{Monomial{1, 1.0}}); o.push_back(q); }
            return o;
        }
        Span span_of(const std::vector<Polynomial>& raw) const { Span s; s.st = &st(); for (auto& p : raw) s.add(p); return s; }

        size_t slot(const Op& op, int code, std::string key, std::vector<std::string> also = {}) { size_t s = run.hist.size(); run.hist.emplace_back(); auto& r = run.hist[s]; r.code = code; r.op = op; r.op.code = O_N; r.key = std::move(key); r.also = std::move(also); r.start = sim::now(); return s; }
        void close(size_t s, const SymbolicMatrix* m, ptrdiff_t off, bool failed) { auto& r = run.hist[s]; r.end = sim::now(); r.addr = m; r.off = off; r.created = m && !failed; r.failed = failed; run.refused += failed; }

        // the rules are put in all at once, in two parts, one by one, or as values of symbols
        static void give(MomentRulebook& b, std::vector<Polynomial> given, int how) {
            if (how == 0) { b.add_raw_rules(std::move(given)); return; }
            if (how == 1) { size_t first = given.size() > 2 ? 1 : given.size() / 2; std::vector<Polynomial> rest(std::make_move_iterator(given.begin() + (ptrdiff_t) first), std::make_move_iterator(given.end())); given.resize(first); b.add_raw_rules(std::move(given)); b.add_raw_rules(std::move(rest)); return; }
            MomentRulebook::raw_map_t re; MomentRulebook::raw_complex_map_t cx;
            if (how >= 3) { sim::Quiet q; for (auto it = given.begin(); it != given.end();) {
                const auto& p = *it; bool ok = p.size() == 1 || (p.size() == 2 && p[0].id == 1); if (ok) { const auto& x = p[p.size() - 1]; cplx v = p.size() == 1 ? cplx{0, 0} : -p[0].factor / x.factor; ok = x.id > 1 && !x.conjugated && !re.count(x.id) && !cx.count(x.id) && (how == 4 || v.imag() == 0); if (ok) { if (how == 4) cx[x.id] = v; else re[x.id] = v.real(); } }
                if (ok) it = given.erase(it); else ++it; } }
            size_t half = given.size() / 2; for (size_t i = 0; i < half; ++i) b.add_raw_rule(std::move(given[i]));
            if (!re.empty()) b.add_raw_rules(re);
            if (!cx.empty()) b.add_raw_rules(cx);
            for (size_t i = half; i < given.size(); ++i) b.add_raw_rule(std::move(given[i]));
        }
        // a book of rules made and completed by this client; null if the rules contradict each other
        std::unique_ptr<MomentRulebook> make_book(const Op& op, std::vector<Polynomial>& raw) {
            std::vector<Polynomial> given; bool bad; std::unique_ptr<MomentRulebook> b;
            auto lk = sys.get_read_lock();
            { sim::Quiet q; raw = make_rules(op); given = raw; bad = span_of(raw).contradictory(); }
            try { b = std::make_unique<MomentRulebook>(sys, op.c / 16 % 3 != 2 || !infl); give(*b, std::move(given), (op.b / 2 + op.c) % 5); b->complete(); if (bad) { sim::Quiet q; sim::fail("contradiction", "accepted", "contradictory rules were accepted: %s", rules_str(raw).c_str()); } sim::Quiet q; check_book(*b, raw, span_of(raw)); return b; }
            catch (const errors::invalid_moment_rule& e) { sim::Quiet q; if (!bad) sim::fail("contradiction", "refused", "consistent rules were refused: %s: %s", rules_str(raw).c_str(), e.what()); return nullptr; }
            catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", "complete", "rules %s: %s", rules_str(raw).c_str(), e.what()); }
        }
        std::string rules_str(const std::vector<Polynomial>& raw) const { std::string s; Span z; z.st = &st(); for (auto& p : raw) s += (s.empty() ? "" : "; ") + str(z.vec(p)) + " = 0"; return s; }

        void one(const Op& op) {
            sim::label(unames[op.code]); uint64_t sink = 0;
            switch (op.code) {
                case U_MM: case U_LM: case U_PLM: case U_GENDICT: {
                    Op o = op; { sim::Quiet q; static const int code[] = {O_MM, O_LM, O_PLM, O_GENDICT}; o.code = code[op.code]; if (policy(op, 3) == MTP::Never) o.c = o.c / 16 * 16 + 15; }
                    if (infl && op.code == U_PLM) o.code = O_LM;
                    if (!infl) { run.one(o); return; }
                    // rules already there are applied to the new symbols' factors: a product may be one that no symbol stands for
                    size_t s; std::optional<OperatorSequence> w; { sim::Quiet q; o.code == O_GENDICT ? s = slot(o, O_N, "") : s = slot(o, O_N, run.key(o)); w = run.seq(run.word(o)); }
                    const SymbolicMatrix* m = nullptr; ptrdiff_t off = -1; bool failed = false; size_t l = (size_t) run.level(o);
                    try { attempt(run.armed, unames[op.code], [&] { if (o.code == O_GENDICT) sys.generate_dictionary((size_t) (o.a % (2 * run.maxl) + 1)); else if (o.code == O_MM) { auto [x, mm] = sys.MomentMatrix.create(l, run.policy(o)); m = &mm; off = (ptrdiff_t) x; } else { auto [x, mm] = sys.LocalizingMatrix.create(LocalizingMatrixIndex{l, *w}, run.policy(o)); m = &mm; off = (ptrdiff_t) x; } }); }
                    catch (const Inflation::errors::unknown_symbol&) { sim::Quiet q; failed = true; refresh_failed = true; bool any = false; for (auto& [i, b] : books) { b.tainted = true; any |= !b.raw.empty(); } if (!any && !failed_adds) sim::fail("unexpected-error", unames[op.code], "an unknown symbol was reported although there are no rules"); }
                    catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", unames[op.code], "%s", e.what()); }
                    sim::Quiet q; close(s, m, off, failed); if (!failed) { run.hist[s].op = o; if (o.code == O_GENDICT) run.hist[s].code = O_GENDICT; } sim::op_done(!failed); return; }
                case U_EXT: {
                    if (!infl) { Op o = op; { sim::Quiet q; o.code = O_LM; o.c = o.c / 16 * 16 + 15; } run.one(o); return; }
                    std::vector<symbol_name_t> e; { auto lk = sys.get_read_lock(); sim::Quiet q; PlanRng r{(uint64_t) (op.b % 97) * 31 + 5}; int n = r.range(1, 2); size_t lim = std::min<size_t>(st().size(), 9); for (int i = 0; i < n; ++i) e.push_back((symbol_name_t) r.below(lim)); }
                    size_t l = (size_t) run.level(op), s; MTP pol; { sim::Quiet q; std::string k = "EM" + std::to_string(l) + ":"; for (auto x : e) k += std::to_string(x) + ","; s = slot(op, O_N, k, {"MM" + std::to_string(l)}); pol = policy(op, 4); }
                    const SymbolicMatrix* m = nullptr; ptrdiff_t off = -1; bool failed = false;
                    try { attempt(run.armed, "extend", [&] { auto [o, em] = infl->ExtendedMatrices.create(Inflation::ExtendedMatrixIndex{l, std::span<const symbol_name_t>{e}}, pol); off = (ptrdiff_t) o; m = &static_cast<const SymbolicMatrix&>(em); }); }
                    catch (const Inflation::errors::unknown_symbol&) { sim::Quiet q; failed = true; refresh_failed = true; for (auto& [i, b] : books) b.tainted = true; if (books.empty() && !failed_adds) sim::fail("unexpected-error", "extend", "an unknown symbol was reported although there are no rules"); }
                    catch (const std::exception& x) { sim::Quiet q; sim::fail("unexpected-error", "extend", "%s", x.what()); }
                    sim::Quiet q; close(s, m, off, failed); sim::op_done(!failed); return; }
                case U_BOOK: {
                    std::vector<Polynomial> raw; auto b = make_book(op, raw); if (!b) break; auto* ptr = b.get(); bool failed = false; size_t id = 0; std::string why;
                    auto note = [&] { sim::Quiet q; if (books.count(id)) sim::fail("rulebook-id", "shared", "rulebook %zu was handed out twice", id); auto& k = books[id]; k.ptr = ptr; k.raw = raw; k.span = span_of(raw); };
                    auto lk = sys.get_write_lock(); size_t n0 = sys.Rulebook.size();
                    try { size_t i = 0; const MomentRulebook* got = nullptr; attempt(run.armed, "add-rulebook", [&] { auto [ii, rr] = sys.Rulebook.add(lk, std::move(b)); i = ii; got = &rr; }); auto& ref = *got; id = i; if (&ref != ptr || i != n0 || b) { sim::Quiet q; sim::fail("rulebook-id", "wrong", "rulebook %zu added, %zu expected, or another book returned", (size_t) i, n0); } note(); }
                    catch (const Inflation::errors::unknown_symbol& e) { failed = true; }
                    catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", "add-rulebook", "%s", e.what()); }
                    if (failed) { sim::Quiet q; ++failed_adds; if (!infl) sim::fail("unexpected-error", "add-rulebook", "unknown symbol"); if (!b || b.get() != ptr) sim::fail("rulebook-add", "lost", "a rulebook whose addition failed was not handed back"); if (sys.Rulebook.size() != n0) sim::fail("rulebook-add", "size", "a rulebook whose addition failed stayed"); }
                    else { sim::Quiet q; if (infl) { Book k; k.ptr = ptr; k.raw = raw; k.span = span_of(raw); check_expanded(k); } }
                    break; }
                case U_MERGE: {
                    std::vector<Polynomial> raw; auto b = make_book(op, raw); if (!b) break;
                    auto lk = sys.get_write_lock(); Book* k = nullptr; size_t id = 0; std::vector<Polynomial> all; bool bad = false; std::vector<Vec> before; std::vector<Var> vars;
                    { sim::Quiet q; id = pick_book(op, k); if (!k) break; all = k->raw; all.insert(all.end(), raw.begin(), raw.end()); bad = span_of(all).contradictory(); vars = variables(); before = forms(*k->ptr, vars); }
                    enum { OK, USED, CONTRA, UNKNOWN } how = OK; std::string why;
                    try { auto [i, ref] = sys.Rulebook.merge_in(lk, id, std::move(*b)); sim::Quiet q; if (i != id || &ref != k->ptr) sim::fail("rulebook-id", "merge", "rules were merged into another book than the one named"); }
                    catch (const errors::already_in_use&) { how = USED; } catch (const errors::invalid_moment_rule& e) { how = CONTRA; why = e.what(); } catch (const Inflation::errors::unknown_symbol&) { how = UNKNOWN; }
                    catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", "merge-rulebook", "%s", e.what()); }
                    sim::Quiet q;
                    if (how != USED && k->used_done) sim::fail("in-use", "changed", "rules were merged into rulebook %zu, which matrices already depend on", id);
                    if (how == USED && !k->used_started) sim::fail("in-use", "refused", "rulebook %zu is reported in use, nothing has used it", id);
                    if (how == OK && bad) sim::fail("contradiction", "merge", "contradictory rules were merged: %s", rules_str(all).c_str());
                    if (how == CONTRA && !bad) sim::fail("contradiction", "merge-refused", "merging consistent rules was refused: %s: %s", rules_str(all).c_str(), why.c_str());
                    if (how == UNKNOWN && !infl) sim::fail("unexpected-error", "merge-rulebook", "unknown symbol");
                    if (how == OK) { k->raw = all; k->span = span_of(all); check_book(*k->ptr, k->raw, k->span); }
                    else { if (k->ptr->pending_rules()) sim::fail("failed-merge", "pending", "a failed merge left rules pending"); auto after = forms(*k->ptr, vars); for (size_t i = 0; i < vars.size(); ++i) if (!same(before[i], after[i])) sim::fail("failed-merge", how == USED ? "in-use" : how == CONTRA ? "contradiction" : "unknown-symbol", "after a merge that failed, rulebook %zu rewrites #%ld%s as %s, before as %s", id, (long) vars[i].first, vars[i].second ? "*" : "", str(after[i]).c_str(), str(before[i]).c_str()); }
                    break; }
                case U_SUBST: {
                    Book* k = nullptr; size_t id = 0, src = 0, s = 0; MTP pol; bool quick = false;
                    { auto lk = sys.get_read_lock(); sim::Quiet q; id = pick_book(op, k); if (!k || !sys.size()) break; src = (size_t) op.a % sys.size(); if (op.c / 32 % 3) src = src % 3 % sys.size(); k->used_started = true; s = slot(op, O_N, "SU" + std::to_string(src) + "by" + std::to_string(id)); pol = policy(op, 1); quick = op.b % 4 == 0; }
                    const SymbolicMatrix* m = nullptr; ptrdiff_t off = -1;
                    try { SubstitutedMatrixIndex ix{(ptrdiff_t) src, (ptrdiff_t) id}; attempt(run.armed, "substitute", [&] { if (quick) { const auto& mm = sys.SubstitutedMatrix(ix, pol); m = &mm; } else { auto [o, mm] = sys.SubstitutedMatrix.create(ix, pol); off = (ptrdiff_t) o; m = &mm; } }); sink += MsRun::touch(*m); }
                    catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", "substitute", "%s", e.what()); }
                    sim::Quiet q; books[id].used_done = true; close(s, m, off, false); subs.push_back({src, id, m, off}); break; }
                case U_SUBST_BAD: {
                    ptrdiff_t src, id; { auto lk = sys.get_read_lock(); sim::Quiet q; bool which = op.b % 2; src = which || !sys.size() ? (ptrdiff_t) 100000 + op.a : (ptrdiff_t) ((size_t) op.a % sys.size()); id = which && !books.empty() ? (ptrdiff_t) books.begin()->first : op.b % 4 < 2 ? (ptrdiff_t) 100000 : -1; if (which && op.b % 8 > 4) src = -1; }
                    bool threw = false; try { (void) sys.SubstitutedMatrix.create(SubstitutedMatrixIndex{src, id}, MTP::Never); } catch (const errors::missing_component&) { threw = true; }
                    sim::Quiet q; if (!threw) sim::fail("missing-accepted", "", "a substituted matrix was made from matrix %ld and rulebook %ld", (long) src, (long) id); break; }
                case U_FIND: {
                    auto lk = sys.get_read_lock(); Book* k = nullptr; size_t id, src, s; { sim::Quiet q; id = pick_book(op, k); if (!k || !sys.size()) break; src = (size_t) op.a % sys.size(); if (op.c / 32 % 3) src = src % 3 % sys.size(); s = slot(op, O_FIND_MM, "SU" + std::to_string(src) + "by" + std::to_string(id)); }
                    SubstitutedMatrixIndex ix{(ptrdiff_t) src, (ptrdiff_t) id}; bool found = sys.SubstitutedMatrix.contains(ix); ptrdiff_t off = sys.SubstitutedMatrix.find_index(ix); const SymbolicMatrix* m = nullptr; if (off >= 0) { m = &sys[off]; sink += MsRun::touch(*m); }
                    sim::Quiet q; auto& r = run.hist[s]; r.end = sim::now(); r.found = found; r.off = off; r.addr = m; break; }
                case U_REDUCE: {
                    auto lk = sys.get_read_lock(); Book* k = nullptr; Polynomial p; { sim::Quiet q; pick_book(op, k); if (!k) break; PlanRng r{(uint64_t) op.b + 3}; Polynomial::storage_t s; for (int i = r.range(1, 4); i > 0; --i) s.emplace_back(pick_symbol(r, 40), coef(r, false), r.chance(40)); p = pf()(std::move(s)); }
                    Polynomial got; attempt(run.armed, "reduce", [&] { got = k->ptr->reduce(p); }); bool pend = k->ptr->pending_rules(); sim::Quiet q; if (pend) sim::fail("rulebook-pending", "", "a rulebook in the system has rules that were not worked in");
                    check_reduction(*k, k->span.vec(p), k->span.vec(got), "reduce"); break; }
                case U_COMPARE: {
                    auto lk = sys.get_read_lock(); Book *a = nullptr, *b = nullptr; { sim::Quiet q; pick_book(op, a); Op o = op; o.a = op.b; pick_book(o, b); if (!a || !b || infl) break; }
                    auto [res, ra, rb] = a->ptr->compare_rulebooks(*b->ptr); sim::Quiet q; bool ainb = true, bina = true; for (auto& p : a->raw) ainb &= b->span.zero(b->span.vec(p)); for (auto& p : b->raw) bina &= a->span.zero(a->span.vec(p));
                    using R = MomentRulebook::RulebookComparisonResult; R want = ainb && bina ? R::AEqualsB : bina ? R::AContainsB : ainb ? R::BContainsA : R::Disjoint;
                    if (res != want) sim::fail("wrong-comparison", "", "rulebooks {%s} and {%s} compare as %d, expected %d", rules_str(a->raw).c_str(), rules_str(b->raw).c_str(), (int) res, (int) want);
                    if ((ra == nullptr) != ainb || (rb == nullptr) != bina) sim::fail("wrong-comparison", "witness", "rulebooks {%s} and {%s}: the rule said to be missing does not fit the result", rules_str(a->raw).c_str(), rules_str(b->raw).c_str()); break; }
            }
            volatile uint64_t v = sink; (void) v; sim::op_done(true);
        }
        size_t pick_book(const Op& op, Book*& k) { k = nullptr; if (books.empty()) return 0; auto it = books.begin(); std::advance(it, (long) ((size_t) (op.c / 16) % std::min<size_t>(books.size(), 2))); k = &it->second; return it->first; }

        // ---- oracles
        std::vector<Var> variables() const { std::vector<Var> o; size_t n = std::min<size_t>(st().size(), 150); for (size_t i = 1; i < n; ++i) { o.push_back({(symbol_name_t) i, 0}); if (!st()[i].is_hermitian() && !st()[i].is_antihermitian()) o.push_back({(symbol_name_t) i, 1}); } return o; }
        std::vector<Vec> forms(const MomentRulebook& b, const std::vector<Var>& vars) const { Span z; z.st = &st(); std::vector<Vec> o; for (auto& v : vars) o.push_back(z.vec(b.reduce(Monomial{v.first, 1.0, v.second != 0}))); return o; }
        static Vec apply(const std::map<Var, Vec>& nf, const Vec& v) { Vec o; for (auto& [k, c] : v) { auto it = nf.find(k); if (it == nf.end()) Span::axpy(o, Vec{{k, 1.0}}, c); else Span::axpy(o, it->second, c); } return o; }
        // values of moments in terms of their factors, with factors rewritten by linear rules
        FPoly factored(const Vec& v, const Span& sp) const {
            FPoly o; const auto& ft = infl->Factors();
            for (auto& [k, c] : v) { FPoly t{{Mono{}, c}}; if (k.first != 1) for (auto f : ft[(size_t) k.first].canonical.symbols) { FPoly u; for (auto& [x, d] : sp.reduce(Vec{{{f, 0}, 1.0}})) u[x.first == 1 ? Mono{} : Mono{x.first}] += d; t = fmul(t, u); } fadd(o, t, 1.0); }
            return o;
        }
        void check_reduction(const Book& k, const Vec& src, const Vec& got, const char* key) const {
            Vec d = src; Span::axpy(d, got, -1.0);
            if (!infl) { if (!k.span.zero(d)) sim::fail("unsound-rewrite", key, "%s is rewritten as %s, which does not follow from %s", str(src).c_str(), str(got).c_str(), rules_str(k.raw).c_str()); return; }
            if (!fzero(factored(d, k.span))) sim::fail("unsound-rewrite", key, "%s is rewritten as %s, which does not follow from %s", str(src).c_str(), str(got).c_str(), rules_str(k.raw).c_str());
        }
        void check_book(const MomentRulebook& b, const std::vector<Polynomial>& raw, const Span& sp) const {
            if (b.pending_rules()) sim::fail("rulebook-pending", "", "a completed rulebook has rules pending");
            Book k; k.raw = raw; k.span = sp; auto vars = variables(); auto fs = forms(b, vars); std::map<Var, Vec> nf; for (size_t i = 0; i < vars.size(); ++i) { check_reduction(k, Vec{{vars[i], 1.0}}, fs[i], "symbol"); nf[vars[i]] = fs[i]; }
            for (size_t i = 0; i < vars.size(); ++i) {
                if (!same(apply(nf, fs[i]), fs[i])) sim::fail("not-reduced", "symbol", "#%ld%s is rewritten as %s, which is rewritten again; rules %s", (long) vars[i].first, vars[i].second ? "*" : "", str(fs[i]).c_str(), rules_str(raw).c_str());
                if (vars[i].second == 0) { Var c{vars[i].first, 1}; if (nf.count(c) && !same(nf[c], sp.conj(fs[i]))) sim::fail("not-reduced", "conjugate", "#%ld is rewritten as %s, its conjugate as %s", (long) vars[i].first, str(fs[i]).c_str(), str(nf[c]).c_str()); }
            }
            for (auto& p : raw) for (int c = 0; c < 2; ++c) { Vec v = sp.vec(p); if (c) v = sp.conj(v); Vec r = apply(nf, v); if (!r.empty()) sim::fail("rule-not-applied", "rule", "with rules %s the rule %s is rewritten as %s, not zero", rules_str(raw).c_str(), str(v).c_str(), str(r).c_str()); }
            for (auto& p : raw) { Vec r = sp.vec(b.reduce(p)); if (!r.empty()) sim::fail("rule-not-applied", "polynomial", "with rules %s the rule %s is rewritten as %s, not zero", rules_str(raw).c_str(), str(sp.vec(p)).c_str(), str(r).c_str()); }
            // flags and rules as listed
            bool mono = true; size_t n = 0; for (const auto& [id, rule] : b) { ++n; if (rule.RHS().size() > 1) mono = false; if (rule.LHS() != id) sim::fail("rulebook-list", "order", "the rule for symbol %ld is listed under %ld", (long) rule.LHS(), (long) id); Vec v = sp.vec(rule.as_polynomial(pf())); check_reduction(k, v, Vec{}, "listed-rule"); }
            if (mono != b.is_monomial()) sim::fail("rulebook-list", "monomial", "the rulebook says monomial=%d, its rules say %d", (int) b.is_monomial(), (int) mono);
            if (n != b.size()) sim::fail("rulebook-list", "size", "the rulebook has %zu rules, says %zu", n, b.size());
            if (!b.is_hermitian()) sim::fail("rulebook-list", "hermitian", "a rulebook of completed rules says it is not Hermitian: %s", rules_str(raw).c_str());
            check_basis(b, raw, nf, sp);
        }
        void check_basis(const MomentRulebook& b, const std::vector<Polynomial>& raw, const std::map<Var, Vec>& nf, const Span& sp) const {
            long nr = (long) st().Basis.RealSymbolCount(), ni = (long) st().Basis.ImaginarySymbolCount(); if (nr + ni > 90) return;
            Eigen::MatrixXd M{MomentRulebookToBasis{pf(), MomentRulebookToBasis::ExportMode::Rewrite}(b)}, N{MomentRulebookToBasis{pf(), MomentRulebookToBasis::ExportMode::Homogeneous}(b)};
            if (M.rows() != nr + ni || M.cols() != nr + ni || N.rows() != nr + ni || N.cols() != nr + ni) sim::fail("wrong-export", "shape", "the exported rulebook is %ldx%ld", (long) M.rows(), (long) M.cols());
            PlanRng r{77}; Eigen::VectorXd v(nr + ni); for (long i = 0; i < nr + ni; ++i) v[i] = (double) r.range(-8, 8) / 4.0;
            auto value = [&](const Vec& p, const Eigen::VectorXd& x) { cplx o = 0; for (auto& [k, c] : p) { auto [a, bb] = st()[(size_t) k.first].basis_key(); o += c * cplx{a >= 0 ? x[a] : 0.0, (bb >= 0 ? x[nr + bb] : 0.0) * (k.second ? -1.0 : 1.0)}; } return o; };
            Eigen::VectorXd sat = v; for (auto& [k, p] : nf) if (!k.second) { cplx z = value(p, v); auto [a, bb] = st()[(size_t) k.first].basis_key(); if (a >= 0) sat[a] = z.real(); if (bb >= 0) sat[nr + bb] = z.imag(); }
            if (nf.size() + 2 < (size_t) (nr + ni)) return;
            Eigen::VectorXd Mv = M * v; for (auto& p : raw) { cplx z = value(sp.vec(p), Mv); if (std::abs(z) > 1e-6) sim::fail("wrong-export", "rules", "values rewritten by the exported matrix break the rule %s by %g%+gi", str(sp.vec(p)).c_str(), z.real(), z.imag()); }
            Eigen::VectorXd d = M * sat - sat; long at; if (d.size() && d.cwiseAbs().maxCoeff(&at) > 1e-6) sim::fail("wrong-export", "satisfied", "values that obey the rules %s are changed by the exported matrix at %ld", rules_str(raw).c_str(), at);
            d = N * sat; if (d.size() && d.cwiseAbs().maxCoeff(&at) > 1e-6) sim::fail("wrong-export", "homogeneous", "values that obey the rules %s are not annihilated by the homogeneous export at row %ld", rules_str(raw).c_str(), at);
            d = N * v - (Mv - v); if (d.size() && d.cwiseAbs().maxCoeff(&at) > 1e-6) sim::fail("wrong-export", "difference", "the homogeneous and rewriting exports of the rules %s differ by more than the identity at row %ld", rules_str(raw).c_str(), at);
        }
        // inflation: no product may keep a factor that a rule rewrites
        void check_expanded(const Book& k) const {
            if (!infl || by_hash || k.tainted) return; if (!k.ptr->allows_expansion()) return;
            const auto& ft = infl->Factors(); size_t n = std::min<size_t>(st().size(), 150);
            std::map<Mono, std::vector<symbol_name_t>> by; for (size_t i = 2; i < st().size(); ++i) { Mono m = ft[i].canonical.symbols; std::sort(m.begin(), m.end()); by[m].push_back((symbol_name_t) i); } by[Mono{}] = {1};
            for (size_t i = 2; i < n; ++i) {
                const auto& fs = ft[i].canonical.symbols; if (fs.size() < 2 || std::none_of(fs.begin(), fs.end(), [&](symbol_name_t f) { return k.span.rows.count({f, 0}) > 0; })) continue;
                Vec want, got; bool known = true; auto add = [&](symbol_name_t id, cplx c, Vec& v) { Span::axpy(v, k.span.vec(k.ptr->reduce(Monomial{id, 1.0})), c); };
                for (auto& [m, c] : factored(Vec{{{(symbol_name_t) i, 0}, 1.0}}, k.span)) { if (std::abs(c) < TOL) continue; auto it = by.find(m); if (it == by.end() || it->second.size() != 1) { known = false; break; } add(it->second[0], c, want); }
                if (!known) continue; add((symbol_name_t) i, 1.0, got); std::string z; for (auto f : fs) z += "#" + std::to_string(f) + " ";
                if (!same(want, got)) sim::fail("rule-not-applied", "factor", "symbol %zu with factors %s is rewritten as %s, its rewritten factors multiplied together as %s; rules %s", i, z.c_str(), str(got).c_str(), str(want).c_str(), rules_str(k.raw).c_str());
            }
        }
        void check_books() const { for (auto& [id, k] : books) { check_book(*k.ptr, k.raw, k.span); check_expanded(k); if (k.used_done && !k.ptr->in_use()) sim::fail("in-use", "forgotten", "rulebook %zu does not know that matrices depend on it", id); if (!k.used_started && k.ptr->in_use()) sim::fail("in-use", "unused", "rulebook %zu says it is in use, nothing has used it", id); } 
            const auto& cr = sys.Rulebook; for (auto& [id, k] : books) if (&cr.find(id) != k.ptr || &sys.Rulebook.find(id) != k.ptr) sim::fail("rulebook-id", "lookup", "asking for rulebook %zu finds another one", id);
            for (size_t id : {books.size(), books.size() + 1, (size_t) -1}) { int n = 0; try { (void) cr.find(id); } catch (const errors::missing_component&) { ++n; } try { (void) sys.Rulebook.find(id); } catch (const errors::missing_component&) { ++n; } if (n != 2) sim::fail("rulebook-id", "missing", "rulebook %zu was found, there are %zu", id, books.size()); }
            if (sys.Rulebook.size() != books.size()) sim::fail("rulebook-id", "count", "%zu rulebooks were added, the system holds %zu", books.size(), sys.Rulebook.size()); }
        void check_substituted() const {
            std::set<const void*> seen;
            for (auto& s : subs) if (seen.insert(s.m).second) {
                const auto& k = books.at(s.rb); const auto& src = sys[(ptrdiff_t) s.src]; const auto& dst = *s.m; size_t d = src.Dimension(); if (dst.Dimension() != d) sim::fail("wrong-substitution", "dimension", "a matrix of dimension %zu became one of dimension %zu", d, dst.Dimension());
                auto vars = variables(); auto fs = forms(*k.ptr, vars); std::map<Var, Vec> nf; for (size_t i = 0; i < vars.size(); ++i) nf[vars[i]] = fs[i]; bool whole = st().size() < 150;
                auto cell = [&](const SymbolicMatrix& m, size_t r, size_t c) { if (m.is_monomial()) return k.span.vec(Polynomial{static_cast<const MonomialMatrix&>(m).SymbolMatrix(r, c)}); return k.span.vec(static_cast<const PolynomialMatrix&>(m).SymbolMatrix(r, c)); };
                if (dst.is_monomial() != (src.is_monomial() && k.ptr->is_monomial()) && !infl) sim::fail("wrong-substitution", "kind", "the substituted matrix has monomial=%d, source %d, rules %d", (int) dst.is_monomial(), (int) src.is_monomial(), (int) k.ptr->is_monomial());
                bool herm = true; std::set<symbol_name_t> inc, re, im; std::vector<Vec> all(d * d);
                for (size_t c = 0; c < d; ++c) for (size_t r = 0; r < d; ++r) {
                    Vec a = cell(src, r, c), b = cell(dst, r, c); check_reduction(k, a, b, "cell"); all[c * d + r] = b;
                    if (whole && (!infl || !refresh_failed)) { Vec e = apply(nf, a); if (!same(e, b)) sim::fail("wrong-substitution", "cell", "cell (%zu,%zu) %s became %s, the rules %s make it %s", r, c, str(a).c_str(), str(b).c_str(), rules_str(k.raw).c_str(), str(e).c_str()); }
                    for (auto& [v, x] : b) {
                        inc.insert(v.first); auto other = b.find({v.first, 1 - v.second}); cplx y = other == b.end() ? cplx{} : other->second; auto [kr, ki] = st()[(size_t) v.first].basis_key();
                        if (kr >= 0 && std::abs(x + y) > 1e-6) re.insert((symbol_name_t) kr); if (ki >= 0 && std::abs(x - y) > 1e-6) im.insert((symbol_name_t) ki); }
                }
                for (size_t r = 0; r < d && herm; ++r) for (size_t c = 0; c <= r && herm; ++c) herm = same(k.span.conj(all[c * d + r]), all[r * d + c]);
                if (dst.Hermitian() && !herm) sim::fail("hermitian-flag", "substituted", "the substituted matrix says it is Hermitian, its cells are not");
                if (!dst.Hermitian() && src.Hermitian()) { std::string z = "its cells are"; if (!dst.is_monomial()) { const auto& pm = static_cast<const PolynomialMatrix&>(dst); for (size_t r = 0; r < d; ++r) for (size_t c = 0; c <= r; ++c) if (!pm.SymbolMatrix(r, c).is_conjugate(st(), pm.SymbolMatrix(c, r))) z += " (" + std::to_string(r) + "," + std::to_string(c) + "): " + str(all[c * d + r]) + " vs " + str(all[r * d + c]) + ";"; } sim::fail("hermitian-flag", "substituted", "substitution made a Hermitian matrix one that says it is not; %s; rules %s", z.c_str(), rules_str(k.raw).c_str()); }
                auto less0 = [](std::set<symbol_name_t> s) { s.erase(0); s.erase(-1); return s; };
                if (less0(inc) != less0(dst.IncludedSymbols())) sim::fail("wrong-summary", "substituted", "the substituted matrix lists %zu symbols as included, its cells hold %zu others", dst.IncludedSymbols().size(), inc.size());
                auto has = [](const std::set<symbol_name_t>& s, const std::set<symbol_name_t>& big) { return std::includes(big.begin(), big.end(), s.begin(), s.end()); };
                if (!has(re, dst.RealBasisIndices()) || !has(im, dst.ImaginaryBasisIndices())) sim::fail("wrong-summary", "substituted", "basis elements of the substituted matrix's cells are not listed by it");
            }
        }
    };
}

WORKLOAD(rules, "C04", 10, F_WAKE)
static void rules_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.chance(25) ? (int) INFL : (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); int nc = p.p[2] = r.range(1, 3); p.p[3] = (int) r.chance(25) + 2 * (int) r.chance(15); p.p[4] = r.range(0, 2); p.p[5] = r.range(0, 5); p.p[6] = (int) r.below(8000);
    std::vector<Op> menu; for (int i = r.range(2, 5); i > 0; --i) { int x = r.range(0, 99); Op o; o.code = x < 30 ? (int) U_SUBST : x < 50 ? (int) U_BOOK : x < 62 ? (int) U_MERGE : (int) r.below(U_N); o.a = r.range(0, 9); o.b = (int) r.below(8000); o.c = (int) r.below(96); if (r.chance(50)) o.c -= o.c % 16; menu.push_back(o); }
    for (int k = 0; k < nc; ++k) {
        if (k == 0 || r.chance(50)) { Op o = menu[0]; o.client = k; o.code = U_BOOK; o.b = (int) r.below(8000); p.ops.push_back(o); }
        if (r.chance(20)) for (int i = r.range(1, 3); i > 0; --i) { Op o = menu[0]; o.client = k; o.code = U_MERGE; o.b = (int) r.below(8000); o.c = (int) r.below(48); p.ops.push_back(o); }
        for (int i = r.range(1, 5); i > 0; --i) { Op o = menu[r.below(menu.size())]; if (r.chance(30)) { o.code = (int) r.below(U_N); o.b = (int) r.below(8000); } else if (o.code == U_SUBST && r.chance(15)) o.code = U_FIND; o.client = k; if (r.chance(25)) o.c = (int) r.below(96); if ((o.code == U_BOOK || o.code == U_MERGE) && r.chance(50)) o.b = (int) r.below(8000); p.ops.push_back(o); } }
}
static void rules_run(const Plan& p) {
    std::optional<Rules> s; { sim::Quiet q; s.emplace(p.p[0], p.p[1], p.p[3] & 1, p.p[3] & 2); s->run.prepare(p); bool plm = false; for (auto& o : p.ops) plm |= o.code == U_PLM; if (p.p[4] || plm) s->sys.generate_dictionary(plm ? 2 : (size_t) p.p[4]); Op o; o.a = p.p[5]; o.b = p.p[6]; o.c = 15; if (p.p[5] < 5) { o.code = O_MM; s->run.one(o); } }
    s->run.armed = p.p[15]; if (p.p[15]) s->mt_budget = s->mt_budget * 2 / 3;
    run_clients(p, p.p[2], [&](const Op& o) { s->one(o); });
    sim::Quiet q; s->check_books(); s->check_substituted(); s->run.check_request_history();
}
WORKLOAD(resource_rules, "C12", 5, F_ALLOC | F_THREAD | F_WAKE | F_NEEDFAULT)
static void resource_rules_gen(PlanRng& r, Plan& p) { rules_gen(r, p); p.p[15] = 1; }
static void resource_rules_run(const Plan& p) { rules_run(p); }
