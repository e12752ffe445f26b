// Words and polynomials of words, made, multiplied and compared by clients that share them; and the numbers by which
// scenarios of any shape name their operators, parties, measurements, qubits, observables, variants and sources.
#include "msrun.h"

#include "scenarios/locality/measurement.h"
#include "symbolic/symbol_errors.h"

#include <deque>
#include <limits>

using namespace ms;

namespace {
    enum { K_MAKE, K_MUL, K_CONJ, K_NEG, K_APPEND, K_CANON, K_ALIAS, K_COMM, K_HERM, K_MATCH, K_IDENT, K_PMAKE, K_PADD, K_PSUB, K_PMUL, K_PCOMM, K_PSYM, K_PREG, K_PRAW, K_PREAD, K_GENDICT, K_N };
    const char* const op_names[] = {"word", "product", "conjugate", "negative", "append", "canonical", "moment-form", "commutator", "hermitian", "match", "identity", "polynomial", "sum", "difference", "product-of-polynomials", "commutator-of-polynomials", "to-symbols", "register", "from-symbols", "reread", "generate-dictionary"};
    using El = std::vector<std::pair<W, cplx>>;
    struct Word { OperatorSequence s; W w; const char* made; };
    struct Poly { RawPolynomial p; El el; const char* made; };      // its elements, in order

    Terms terms_of(const El& e) { Terms t; for (auto& [w, c] : e) add_term(t, w, c); return t; }
    El condensed(const Terms& t) { El o; for (auto& [k, v] : t) if (v != cplx{0, 0}) { W w; w.w = k; o.emplace_back(w, v); } std::sort(o.begin(), o.end(), [](auto& a, auto& b) { return shortlex(a.first.w, b.first.w); }); return o; }

    // Scenarios of any shape.
    Scenario any_locality(uint64_t seed) {
        Scenario o; auto& m = o.m; m.kind = LOC; PlanRng r{seed * 40503 + 7}; int total = 0;
        for (int q = r.range(1, 4); q > 0; --q) { m.shape.emplace_back(); for (int k = r.range(0, 3); k > 0; --k) { int oc = r.chance(12) ? 1 : r.range(2, 4); if (total + oc - 1 > 14) break; total += oc - 1; m.shape.back().push_back(oc); } }
        if (!total) m.shape.back().push_back(2 + (int) (seed % 2));
        std::vector<size_t> mpp, opm; int g = 0;
        for (size_t q = 0; q < m.shape.size(); ++q) { mpp.push_back(m.shape[q].size()); for (int oc : m.shape[q]) { opm.push_back((size_t) oc); for (int z = 0; z + 1 < oc; ++z) { m.l_party.push_back((int) q); m.l_mmt.push_back(g); } ++g; } }
        o.sys = std::make_unique<Locality::LocalityMatrixSystem>(std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(mpp, opm)), 1.0); return o;
    }
    struct Net { std::vector<size_t> obs; std::vector<std::set<oper_name_t>> src; size_t lvl = 1; };
    Net net_of(uint64_t seed) {
        for (PlanRng r{seed * 69069 + 11};;) { Net n; n.lvl = (size_t) r.range(1, 3); for (int k = r.range(1, 4); k > 0; --k) n.obs.push_back((size_t) (r.chance(15) ? 0 : r.range(2, 3)));
            for (int k = r.range(0, 3); k > 0; --k) { n.src.emplace_back(); for (size_t ob = 0; ob < n.obs.size(); ++ob) if (r.chance(50)) n.src.back().insert((oper_name_t) ob); }
            size_t total = 0; for (size_t ob = 0; ob < n.obs.size(); ++ob) { size_t c = n.obs[ob] ? n.obs[ob] - 1 : 1; for (auto& s : n.src) if (s.count((oper_name_t) ob)) c *= n.lvl; total += c; } if (total <= 22) return n; }
    }
    Scenario any_network(uint64_t seed) {
        using namespace Inflation; Scenario o; auto& m = o.m; m.kind = INFL; Net n = net_of(seed); m.infl = (int) n.lvl; m.n_sources = (int) n.src.size(); m.obs_sources.resize(n.obs.size());
        for (size_t k = 0; k < n.src.size(); ++k) for (auto ob : n.src[k]) m.obs_sources[(size_t) ob].push_back((int) k);
        for (size_t ob = 0; ob < n.obs.size(); ++ob) { size_t k = m.obs_sources[ob].size(), copies = 1; for (size_t i = 0; i < k; ++i) copies *= n.lvl;
            for (size_t v = 0; v < copies; ++v) { std::vector<int> ix; for (size_t i = 0, x = v; i < k; ++i, x /= n.lvl) ix.push_back((int) (x % n.lvl)); for (size_t oc = 0, e = n.obs[ob] ? n.obs[ob] - 1 : 1; oc < e; ++oc) { m.op_obs.push_back((int) ob); m.op_out.push_back((int) oc); m.op_proj.push_back(n.obs[ob] > 0); m.op_sources.push_back(ix); } } }
        auto src = n.src; o.sys = std::make_unique<InflationMatrixSystem>(std::make_unique<InflationContext>(CausalNetwork{n.obs, std::move(src)}, n.lvl), 1.0);
        auto* sys = o.sys.get(); m.choose = [sys](const std::vector<int>& w) { sequence_storage_t q; for (int x : w) q.push_back((oper_name_t) x); return from(sys->Context().simplify_as_moment(OperatorSequence{std::move(q), sys->Context()})); }; return o;
    }

    struct Run {
        Scenario sc; const Model& m; uint64_t seed; bool armed = false; size_t cap = 0; std::deque<Word> words; std::deque<Poly> polys; size_t n_words = 0, n_polys = 0; std::vector<std::deque<Word>> my_words; std::vector<std::deque<Poly>> my_polys; std::set<size_t> level;
        Run(const Plan& p) : m{sc.m}, seed{(uint64_t) p.p[3]} {
            sc = p.p[4] && p.p[0] == LOC ? any_locality(seed) : p.p[4] && p.p[0] == INFL ? any_network(seed) : make_scenario(p.p[0], p.p[1]);
            unsigned __int128 sum = 1, q = 1; size_t n = (size_t) m.op_count(); while (cap < 40 && n) { q *= n; sum += q; if (sum >> 64) break; ++cap; }   // the longest words that have a hash of their own
            armed = p.p[5]; my_words.resize(8); my_polys.resize(8); PlanRng r{seed + 77};
            words.push_back({sc.sys->Context().zero(), W{true, 0, {}}, "zero"}); words.push_back({sc.sys->Context().identity(), W{}, "identity"});
            for (int i = 0; i < 8; ++i) { auto l = letters(r, 3); int ph = r.chance(60) ? 0 : r.range(0, 3); W w; w.w = l; w.ph = ph; words.push_back({make(l, ph), m.reduce(w), "word"}); }
            for (int i = 0; i < 4; ++i) { El e; RawPolynomial rp = random_poly(r, e, i < 2); polys.push_back({std::move(rp), e, "polynomial"}); }
            n_words = words.size(); n_polys = polys.size();
        }
        const Context& ctx() const { return sc.sys->Context(); }
        OperatorSequence make(const std::vector<int>& l, int ph) const { sequence_storage_t s; for (int x : l) s.push_back((oper_name_t) x); return OperatorSequence{std::move(s), sc.sys->Context(), (SequenceSignType) (ph & 3)}; }
        std::vector<int> letters(PlanRng& r, int len = 0) const {
            size_t n = len ? r.below((uint64_t) len + 1) : r.chance(20) ? r.below(cap + 1) : r.below(7); n = std::min(n, cap); std::vector<int> w; int ops = m.op_count();
            while (w.size() < n) { if (!w.empty() && r.chance(35)) { int x = w.back(); w.push_back(r.chance(50) ? x : m.mode ? m.adj(x) : std::min(ops - 1, x + 1)); } else w.push_back((int) r.below((uint64_t) ops)); } return w;
        }
        RawPolynomial random_poly(PlanRng& r, El& e, bool tidy) const {   // under Quiet
            static const cplx cs[8] = {{1, 0}, {-1, 0}, {2, 0}, {0.5, 0}, {0, 1}, {1, -1}, {-0.5, 0}, {0, -1}}; RawPolynomial o; int n = r.range(0, 4); std::vector<int> last;
            for (int i = 0; i < n; ++i) { W w; w.w = i && r.chance(25) ? last : letters(r, 2); last = w.w; w.ph = r.chance(60) ? 0 : r.range(0, 3); cplx c = cs[r.below(8)]; auto s = make(w.w, w.ph); W x = m.reduce(w); o.emplace_back(s, c); c *= ipow(x.zero ? 0 : x.ph); x.ph = 0; e.emplace_back(x, c); }
            if (tidy) { o.condense(); e = condensed(terms_of(e)); } return o;
        }
        const Word& word(int client, int x) const { auto& mine = my_words[(size_t) client]; size_t n = n_words + mine.size(), i = (size_t) x % n; return i < n_words ? words[i] : mine[i - n_words]; }
        const Poly& poly(int client, int x) const { auto& mine = my_polys[(size_t) client]; size_t n = n_polys + mine.size(), i = (size_t) x % n; return i < n_polys ? polys[i] : mine[i - n_polys]; }

        void check(const OperatorSequence& s, const W& w, const char* key) const {
            W g = from(s); if (!(g == w)) sim::fail("wrong-word", key, "%s gives %s, expected %s", key, str(g).c_str(), str(w).c_str());
            if (g.zero && (s.get_sign() != SequenceSignType::Positive || !s.empty() || s != ctx().zero() || s.hash() != 0)) sim::fail("wrong-word", "zero", "%s gives a zero that is not equal to zero", key);
            if (!g.zero && (s.hash() != ctx().hash(s.raw()) || s.hash() != ctx().hash(s) || s.hash() == 0)) sim::fail("wrong-word", "hash", "%s gives %s with the hash of something else", key, str(g).c_str());
            if (!s.is_same_context(ctx())) sim::fail("wrong-word", "context", "%s gives a word of another scenario", key);
        }
        void check(const RawPolynomial& p, const El& e, const char* key) const {
            size_t i = 0; if (p.size() != e.size() || p.empty() != e.empty()) sim::fail("wrong-polynomial", key, "%s gives %zu terms, expected %s", key, p.size(), str(terms_of(e)).c_str());
            bool scalar = true; for (const auto& x : p) { check(x.sequence, e[i].first, key); if (std::abs(x.weight - e[i].second) > 1e-12) sim::fail("wrong-polynomial", "weight", "%s gives %s the weight %g%+gi, expected %g%+gi", key, str(e[i].first).c_str(), x.weight.real(), x.weight.imag(), e[i].second.real(), e[i].second.imag()); scalar &= e[i].first.w.empty(); if (&p[i] != &x) sim::fail("wrong-polynomial", "index", "term %zu is not the one at its index", i); ++i; }
            if (p.is_scalar() != scalar) sim::fail("wrong-polynomial", "scalar", "a polynomial says scalar=%d, its words say %d", (int) p.is_scalar(), (int) scalar);
        }
        void one(const Op& op) {
            const char* key = op_names[op.code]; sim::label(key); auto& c = sc.sys->Context(); auto* pc = sc.pauli() ? &sc.pauli()->pauliContext : nullptr; auto& st = sc.sys->Symbols(); PlanRng r{(uint64_t) op.c * 48271 + 5};
            const Word *a, *b; const Poly *pa, *pb; std::vector<int> l; int ph; std::optional<OperatorSequence> o; std::optional<RawPolynomial> po; W w; El e; bool fits, foreign = false;
            { sim::Quiet q; a = &word(op.client, op.a); b = &word(op.client, op.b); pa = &poly(op.client, op.a); pb = &poly(op.client, op.b); l = letters(r); ph = r.chance(60) ? 0 : r.range(0, 3);
              size_t limit = cap, x = 0, y = 0; for (auto& [k, v] : pa->el) x = std::max(x, k.w.size()); for (auto& [k, v] : pb->el) y = std::max(y, k.w.size());
              fits = op.code == K_MUL || op.code == K_COMM || op.code == K_MATCH ? a->w.w.size() + b->w.w.size() <= limit : op.code == K_APPEND ? a->w.w.size() + l.size() <= limit : op.code == K_PMUL || op.code == K_PCOMM ? x + y <= limit && pa->el.size() * pb->el.size() <= 60 : op.code == K_PREG ? x <= 8 : true; }
            if (m.kind == LOC && fits && (op.code == K_MAKE || (op.code == K_APPEND && !a->w.zero)) && op.c % 11 == 0) { sim::Quiet q; foreign = true; l.insert(l.begin() + (long) r.below(l.size() + 1), r.chance(40) ? -1 - (int) r.below(3) : m.op_count() + (int) r.below(3)); }
            if (!fits || ((op.code == K_COMM || op.code == K_PCOMM) && !pc)) { sim::op_done(false); return; }
            bool arm = armed && op.code != K_GENDICT, oom = false, missing = false, unknown = false; std::optional<Polynomial> sp; std::optional<OperatorSequence> canon; HermitianType ht{}; bool flag = false; long n1 = 0, n2 = 0, n3 = 0; size_t deg = 0; uint64_t sink = 0; std::optional<Polynomial> in; size_t table = 0;
            std::optional<MaintainsMutex::ReadLock> rl; std::optional<MaintainsMutex::WriteLock> wl;
            if (op.code == K_PSYM || op.code == K_PRAW) rl.emplace(sc.sys->get_read_lock()); if (op.code == K_PREG) wl.emplace(sc.sys->get_write_lock());
            const auto& f = sc.sys->polynomial_factory();
            if (op.code == K_PRAW) { sim::Quiet q; table = st.size(); Polynomial::storage_t s; int n = r.range(0, 4); static const cplx cs[4] = {{1, 0}, {-2, 0}, {0, 0.5}, {1, 1}}; for (int i = 0; i < n; ++i) s.emplace_back((symbol_name_t) (r.chance(6) ? (r.chance(50) ? st.size() + r.below(2) : -1) : r.below(st.size())), cs[r.below(4)], r.chance(40)); for (auto& x : s) unknown |= x.id < 0 || (size_t) x.id >= table; in.emplace(unknown ? Polynomial{Monomial{s.back().id < 0 || (size_t) s.back().id >= table ? s.back() : Monomial{(symbol_name_t) table, 1.0, false}}} : f(std::move(s))); }
            sim::arm_faults(arm);
            try {
                switch (op.code) {
                    case K_MAKE: { sequence_storage_t s; for (int x : l) s.push_back((oper_name_t) x); if (l.size() % 2) o.emplace(std::move(s), c, (SequenceSignType) ph); else { sequence_storage_t t{s}; o.emplace(t, c, (SequenceSignType) ph); } break; }
                    case K_MUL: switch (op.c % 3) { case 0: o.emplace(a->s * b->s); break; case 1: { OperatorSequence x{a->s}; x *= b->s; o.emplace(x); break; } default: o.emplace(c.multiply(a->s, b->s)); } break;
                    case K_CONJ: if (op.c % 2) o.emplace(a->s.conjugate()); else o.emplace(c.conjugate(a->s)); break;
                    case K_NEG: if (op.c % 2) o.emplace(-a->s); else o.emplace(-OperatorSequence{a->s}); break;
                    case K_APPEND: { OperatorSequence x{a->s}; x.append(l.begin(), l.end()); o.emplace(x); break; }
                    case K_CANON: { sequence_storage_t s; for (int x : l) s.push_back((oper_name_t) x); canon = c.get_if_canonical(s); break; }
                    case K_ALIAS: if (c.can_have_aliases()) { if (op.c % 2) o.emplace(c.simplify_as_moment(a->s)); else o.emplace(c.simplify_as_moment(OperatorSequence{a->s})); flag = c.can_be_simplified_as_moment(a->s); } break;
                    case K_COMM: if (op.c % 2) o.emplace(pc->commutator(a->s, b->s)); else o.emplace(pc->anticommutator(a->s, b->s)); break;
                    case K_HERM: ht = a->s.hermitian_type(); break;
                    case K_MATCH: flag = a->s.matches(b->s.begin(), b->s.end()); n1 = a->s.matches_anywhere(b->s.begin(), b->s.end()) - b->s.begin(); n2 = a->s.suffix_prefix_overlap(b->s); n3 = a->s.suffix_prefix_overlap(b->s, op.c % 4); break;
                    case K_IDENT: if (op.c % 3 == 0) o.emplace(c.identity((SequenceSignType) ph)); else if (op.c % 3 == 1) o.emplace(OperatorSequence::Identity(c, (SequenceSignType) ph)); else if (pc) { auto q = (oper_name_t) (op.a % m.n), t = (oper_name_t) (op.a / 64 % 3); auto s = (SequenceSignType) ph; if (m.rows && op.c % 2) { auto y = (oper_name_t) (q % m.rows), x = (oper_name_t) (q / m.rows); o.emplace(t == 0 ? pc->sigmaX(y, x, s) : t == 1 ? pc->sigmaY(y, x, s) : pc->sigmaZ(y, x, s)); } else o.emplace(t == 0 ? pc->sigmaX(q, s) : t == 1 ? pc->sigmaY(q, s) : pc->sigmaZ(q, s)); } else o.emplace(c.identity()); break;
                    case K_PMAKE: { RawPolynomial x{pa->p}; x.emplace_back(a->s, {0.5, op.c % 2 ? 1.0 : 0.0}); x.emplace_back(b->s, 2.0); if (op.c / 2 % 2) x.condense(); po.emplace(x); break; }
                    case K_PADD: po.emplace(RawPolynomial::add(pa->p, pb->p)); break;
                    case K_PSUB: po.emplace(RawPolynomial::subtract(pa->p, pb->p)); break;
                    case K_PMUL: if (pc) po.emplace(pc->multiply(pa->p, pb->p)); else po.emplace(static_cast<const Context&>(c).multiply(pa->p, pb->p)); break;
                    case K_PCOMM: if (op.c % 2) po.emplace(pc->commutator(pa->p, pb->p)); else po.emplace(pc->anticommutator(pa->p, pb->p)); break;
                    case K_PSYM: sp.emplace(pa->p.to_polynomial(f)); deg = f.maximum_degree(*sp); break;
                    case K_PREG: sp.emplace(pa->p.to_polynomial_register_symbols(f, st)); deg = f.maximum_degree(*sp); break;
                    case K_PRAW: po.emplace(*in, st); break;
                    case K_PREAD: for (const auto& x : pa->p) sink += x.sequence.hash(); sink += pa->p.is_scalar() + a->s.size() + (a->s < b->s) + (a->s == b->s); break;
                    case K_GENDICT: (void) sc.sys->generate_dictionary((size_t) (1 + op.a % 2)); break;
                }
            }
            catch (const std::bad_alloc&) { oom = true; }
            catch (const errors::unregistered_operator_sequence&) { missing = true; }
            catch (const errors::unknown_symbol&) { sim::Quiet q; if (!unknown) { sim::arm_faults(false); sim::fail("unexpected-error", key, "a symbol of the table is said to be unknown"); } missing = true; }
            catch (const std::range_error& x) { sim::Quiet q; if (!foreign) { sim::arm_faults(false); sim::fail("unexpected-error", key, "%s failed: %s", key, x.what()); } missing = true; }
            catch (const std::exception& x) { sim::arm_faults(false); sim::Quiet q; sim::fail("unexpected-error", key, "%s failed: %s", key, x.what()); }
            sim::arm_faults(false); sim::Quiet q; volatile uint64_t v = sink; (void) v; sim::op_done(!oom);
            if (oom) { if (!sim::faults_fired()) sim::fail("unexpected-error", key, "%s failed with bad_alloc although no allocation failed", key); sim::probe(1); return; }
            if (foreign) { if (!missing) sim::fail("not-refused", key, "a letter the scenario has no operator for was not refused"); sim::probe(7); return; }
            switch (op.code) {
                case K_MAKE: w.w = l; w.ph = ph; w = m.reduce(w); break;
                case K_MUL: w = m.mul(a->w, b->w); break;
                case K_CONJ: w = m.conj(a->w); break;
                case K_NEG: w = a->w; if (!w.zero) w.ph = (w.ph + 2) & 3; break;
                case K_APPEND: w = a->w; if (!w.zero) { w.w.insert(w.w.end(), l.begin(), l.end()); w = m.reduce(w); } break;
                case K_CANON: { w.w = l; W x = m.reduce(w); bool is = !x.zero && x.w == l; if (canon.has_value() != is) sim::fail("wrong-canonical", key, "%s is said %sto be canonical", str(w).c_str(), is ? "not " : ""); if (is) { o = canon; w = x; } break; }
                case K_ALIAS: if (o) { w = m.alias(a->w); W g = from(*o); if (flag != (!a->w.zero && g.w != a->w.w)) sim::fail("wrong-alias", "flag", "%s is said %sto have a simpler moment form, which is %s", str(a->w).c_str(), flag ? "" : "not ", str(g).c_str()); } break;
                case K_COMM: { W x = m.mul(a->w, b->w), y = m.mul(b->w, a->w); w = x; bool same = x == y; if (same == (op.c % 2 == 1)) { w = W{}; w.zero = true; } break; }
                case K_HERM: { W x = m.conj(a->w); auto want = a->w.zero ? HermitianType::Zero : x == a->w ? HermitianType::Hermitian : x.w == a->w.w && ((x.ph - a->w.ph) & 3) == 2 ? HermitianType::AntiHermitian : HermitianType::NotHermitian; if (ht != want) sim::fail("wrong-hermitian", key, "%s has Hermitian type %d, expected %d", str(a->w).c_str(), (int) ht, (int) want); break; }
                case K_MATCH: { auto& x = a->w.w; auto& y = b->w.w; bool pre = x.size() <= y.size() && std::equal(x.begin(), x.end(), y.begin()); if (pre != flag) sim::fail("wrong-match", "prefix", "%s is said %sto begin %s", str(a->w).c_str(), flag ? "" : "not ", str(b->w).c_str());
                    long at = y.empty() ? 0 : std::search(y.begin(), y.end(), x.begin(), x.end()) - y.begin(); if (at != n1) sim::fail("wrong-match", "anywhere", "%s is found in %s at %ld, expected %ld", str(a->w).c_str(), str(b->w).c_str(), n1, at);
                    auto over = [&](size_t max) { for (size_t k = std::min({x.size(), y.size(), max}); k; --k) if (std::equal(x.end() - (long) k, x.end(), y.begin())) return (long) k; return 0l; };
                    if (n2 != over(99) || n3 != over((size_t) (op.c % 4))) sim::fail("wrong-match", "overlap", "the end of %s is said to be the beginning of %s for %ld letters, of at most %d for %ld", str(a->w).c_str(), str(b->w).c_str(), n2, op.c % 4, n3); break; }
                case K_IDENT: w.ph = op.c % 3 == 2 && !pc ? 0 : ph; if (op.c % 3 == 2 && pc) w.w.push_back(3 * (op.a % m.n) + op.a / 64 % 3); break;
                case K_PMAKE: { e = pa->el; auto put = [&](W x, cplx g) { g *= ipow(x.zero ? 0 : x.ph); x.ph = 0; e.emplace_back(x, g); }; put(a->w, {0.5, op.c % 2 ? 1.0 : 0.0}); put(b->w, 2.0); if (op.c / 2 % 2) e = condensed(terms_of(e)); break; }
                case K_PADD: case K_PSUB: { Terms t = terms_of(pa->el); for (auto& [x, g] : pb->el) add_term(t, x, op.code == K_PADD ? g : -g); e = condensed(t); break; }
                case K_PMUL: case K_PCOMM: { Terms t; for (auto& [x, g] : pa->el) for (auto& [y, h] : pb->el) { add_term(t, m.mul(x, y), g * h); if (op.code == K_PCOMM) add_term(t, m.mul(y, x), op.c % 2 ? -g * h : g * h); } e = condensed(t); break; }
                case K_PSYM: case K_PREG: {
                    bool all = true; for (const auto& x : pa->p) all &= st.where(x.sequence).found();
                    if (missing == all) sim::fail("wrong-refusal", key, "a polynomial of words, %s of which have symbols, was %s", all ? "all" : "not all", missing ? "refused" : "accepted");
                    if (!missing) { Terms t; for (auto& [x, g] : pa->el) add_term(t, m.alias(x), g); Terms g = value_of(st, *sp, key); if (!same_terms(t, g)) sim::fail("wrong-symbols", key, "the polynomial %s became %s", str(t).c_str(), str(g).c_str());
                        size_t most = 0; for (const auto& x : *sp) if (x.id > 1) most = std::max(most, st[(size_t) x.id].sequence().size()); if (deg != most) sim::fail("wrong-symbols", "degree", "a polynomial has degree %zu, its longest word %zu letters", deg, most); sim::probe(2); }
                    break; }
                case K_PRAW: if (missing != unknown) sim::fail("wrong-refusal", key, "a polynomial that %s a symbol there is not was %s", unknown ? "names" : "does not name", missing ? "refused" : "accepted"); if (!missing) { for (const auto& x : *in) { W y = from(x.conjugated ? st[(size_t) x.id].sequence_conj() : st[(size_t) x.id].sequence()); cplx g = x.factor * ipow(y.zero ? 0 : y.ph); y.ph = 0; e.emplace_back(y, g); } sim::probe(3); } break;
                case K_GENDICT: level.insert((size_t) (1 + op.a % 2)); break;
            }
            if (o) { check(*o, w, key); my_words[(size_t) op.client].push_back({std::move(*o), w, key}); }
            if (po) { check(*po, e, key); my_polys[(size_t) op.client].push_back({std::move(*po), e, key}); }
        }

        void finish() const {
            std::vector<const Word*> all; for (auto& w : words) all.push_back(&w); for (auto& d : my_words) for (auto& w : d) all.push_back(&w);
            for (auto* w : all) check(w->s, w->w, w->made); for (auto& p : polys) check(p.p, p.el, p.made); for (auto& d : my_polys) for (auto& p : d) check(p.p, p.el, p.made);
            if (all.size() > 40) all.resize(40);
            for (auto* x : all) for (auto* y : all) { auto &a = x->w, &b = y->w; bool less = a.zero ? !b.zero : !b.zero && shortlex(a.w, b.w), same = a == b;
                if ((x->s < y->s) != less || (x->s == y->s) != same || (x->s != y->s) == same || (x->s.hash() < y->s.hash()) != less) sim::fail("wrong-order", "words", "%s and %s are compared as less=%d equal=%d, expected %d %d", str(a).c_str(), str(b).c_str(), (int) (x->s < y->s), (int) (x->s == y->s), (int) less, (int) same);
                if (!a.zero && !b.zero) { int e = a.w != b.w ? 0 : a.ph == b.ph ? 1 : ((a.ph - b.ph) & 3) == 2 ? -1 : 0; if (HashedSequence::compare_same_negation(x->s, y->s) != e) sim::fail("wrong-order", "negation", "%s and %s compare as %d, expected %d", str(a).c_str(), str(b).c_str(), HashedSequence::compare_same_negation(x->s, y->s), e); } }
            check_symbols(sc, "table"); for (auto l : level) check_dictionary_symbols(sc, (int) l, "dictionary");
        }
    };
    // Whatever the number of operators, no two words of the longest length said to be supported, or less, have the same hash.
    void check_hasher(PlanRng r) {
        for (int k = 0; k < 6; ++k) { uint64_t radix = k == 0 ? 1 : r.chance(60) ? (uint64_t) r.range(2, 20) : (uint64_t) r.range(2, 780); ShortlexHasher h{radix}; size_t n = h.longest_hashable_string(); if (radix == 1) { if (n < 1000) sim::fail("wrong-hash", "longest", "words of one operator are said to be at most %zu long", n); continue; }
            unsigned __int128 q = 1, sum = 1; size_t fit = 0; for (;;) { q *= radix; sum += q; if (sum >> 64) break; ++fit; } if (n > fit) sim::fail("wrong-hash", "longest", "with %lu operators, words of up to %zu letters are said to be supported, but no more than %zu letters give different hashes", (unsigned long) radix, n, fit); if (n + 1 < fit) sim::fail("wrong-hash", "longest", "with %lu operators, words of up to %zu letters are said to be supported, expected %zu", (unsigned long) radix, n, fit);
            for (int j = 0; j < 6; ++j) { std::vector<oper_name_t> w; size_t len = r.chance(30) ? fit : r.below(fit + 1); unsigned __int128 e = 0; for (size_t i = 0; i < len; ++i) { w.push_back((oper_name_t) (r.chance(20) ? radix - 1 : r.below(radix))); e = e * radix + (unsigned __int128) w.back() + 1; } e += 1; if (h(std::span<const oper_name_t>{w}) != (uint64_t) e) sim::fail("wrong-hash", "value", "a word of %zu letters of %lu has hash %lu, its place is %lu", len, (unsigned long) radix, (unsigned long) h(std::span<const oper_name_t>{w}), (unsigned long) e); } }
    }
    template<typename E, typename F> bool refused(F&& f) { try { f(); } catch (const E&) { return true; } return false; }

    void check_locality(const Model& m, Locality::LocalityContext& c) {
        using namespace Locality; const char* key = "locality"; size_t np = m.shape.size(), g = 0, off = 0; std::vector<size_t> mpp, opp, outp, outs; auto bad = [&](const char* what, long a, long b) { sim::fail("wrong-number", key, "%s is %ld, expected %ld", what, a, b); }; auto eq = [&](const char* what, long a, long b) { if (a != b) bad(what, a, b); };
        eq("number of parties", (long) c.Parties.size(), (long) np); eq("no parties", c.Parties.empty(), np == 0); size_t pi = 0; std::vector<PMIndex> all; std::vector<std::pair<size_t, size_t>> where;
        for (const auto& p : c.Parties) {
            auto& sh = m.shape[pi]; if (&p != &c.Parties[pi]) bad("party", 0, (long) pi); eq("id of a party", p.id(), (long) pi); eq("first operator of a party", p.global_offset(), (long) off); eq("measurements of a party", (long) p.Measurements.size(), (long) sh.size()); size_t mi = 0, local = 0, outcomes = 0;
            eq("party without measurements", p.Measurements.empty(), sh.empty());
            for (const auto& x : p.Measurements) { if (&x != &p.Measurements[mi]) bad("measurement", 0, (long) mi); eq("outcomes of a measurement", x.num_outcomes, sh[mi]); eq("operators of a measurement", x.num_operators(), sh[mi] - 1); eq("party of a measurement", x.Index().party, (long) pi); eq("index of a measurement", x.Index().mmt, (long) mi); eq("global index of a measurement", (long) x.Index().global_mmt, (long) g);
                auto pm = c.global_index_to_PM(g); eq("party of a global index", pm.party, (long) pi); eq("measurement of a global index", pm.mmt, (long) mi); eq("global index given back", (long) pm.global_mmt, (long) g); eq("global index", (long) c.get_global_mmt_index((party_name_t) pi, (mmt_name_t) mi), (long) g); eq("global index", (long) c.get_global_mmt_index(PMOIndex{(party_name_t) pi, (mmt_name_t) mi, 0}), (long) g); PMIndex made{c, (party_name_t) pi, (mmt_name_t) mi}; eq("global index of an index", (long) made.global_mmt, (long) g);
                all.emplace_back((party_name_t) pi, (mmt_name_t) mi); outs.push_back((size_t) sh[mi]); outcomes += (size_t) sh[mi];
                for (int o = 0; o + 1 < sh[mi]; ++o) { eq("operator of an outcome", p.measurement_outcome(mi, (size_t) o), (long) (off + local)); eq("operator of a party", p[local], (long) (off + local)); eq("operator listed for a party", p.operators()[local], (long) (off + local)); if (&p.measurement_of((oper_name_t) (off + local)) != &x) bad("measurement of an operator", 0, (long) (off + local)); if (&c.associated_party((oper_name_t) (off + local)) != &p) bad("party of an operator", 0, (long) (off + local)); ++local; }
                if (!refused<std::range_error>([&] { (void) p.measurement_outcome(mi, (size_t) sh[mi] - 1); })) sim::fail("not-refused", key, "an operator was given for the last outcome of a measurement"); ++mi; ++g; }
            eq("operators of a party", (long) p.size(), (long) local); eq("party without operators", p.empty(), local == 0); eq("operators listed for a party", (long) p.operators().size(), (long) local); eq("operators listed for a party", (long) std::distance(p.begin(), p.end()), (long) local);
            for (size_t x = off; x < off + local; ++x) for (size_t y = off; y < off + local; ++y) eq("operators exclude each other", p.mutually_exclusive((oper_name_t) x, (oper_name_t) y), x != y && m.l_mmt[x] == m.l_mmt[y]);
            if (!refused<std::range_error>([&] { (void) p.measurement_outcome(sh.size(), 0); }) || !refused<std::range_error>([&] { (void) p[local]; }) || !refused<std::range_error>([&] { (void) p.measurement_of((oper_name_t) (off + local)); }) || (off && !refused<std::range_error>([&] { (void) p.measurement_of((oper_name_t) (off - 1)); }))) sim::fail("not-refused", key, "a measurement or operator that party %zu has not was not refused", pi);
            mpp.push_back(sh.size()); opp.push_back(local); outp.push_back(outcomes); off += local; ++pi; }
        eq("operators", (long) c.size(), (long) off); eq("measurements", (long) c.measurement_count(), (long) g); auto same = [&](const char* what, const std::vector<size_t>& a, const std::vector<size_t>& b) { if (a != b) sim::fail("wrong-number", key, "%s differ", what); };
        same("measurements per party", c.measurements_per_party(), mpp); same("operators per party", c.operators_per_party(), opp); same("outcomes per party", c.outcomes_per_party(), outp); same("outcomes per measurement", c.outcomes_per_measurement(), outs);
        std::vector<PMIndex> rev(all.rbegin(), all.rend()); std::vector<size_t> ro(outs.rbegin(), outs.rend()), rg; for (size_t i = g; i-- > 0;) rg.push_back(i); same("outcomes of the measurements named", c.outcomes_per_measurement(rev), ro); same("global indices", c.PM_to_global_index(rev), rg); c.populate_global_mmt_index(rev); for (size_t i = 0; i < rev.size(); ++i) eq("global index filled in", (long) rev[i].global_mmt, (long) rg[i]);
        for (PMIndex x : {PMIndex{(party_name_t) np, 0}, PMIndex{0, (mmt_name_t) m.shape[0].size()}}) { std::vector<PMIndex> v = all; v.push_back(x); if (!refused<std::range_error>([&] { (void) c.outcomes_per_measurement(v); }) || !refused<std::range_error>([&] { (void) c.PM_to_global_index(v); })) sim::fail("not-refused", key, "a party or measurement that does not exist was not refused"); }
        Party lone = Party::MakeList(1, 2, 3).front().id() == 0 ? Party{0, "A", std::vector<Measurement>{Measurement{"a", 3}}} : Party{1, "B", {}}; if (!refused<std::logic_error>([&] { (void) lone.operators(); }) || !refused<std::logic_error>([&] { (void) lone.measurement_outcome(0, 0); }) || !refused<std::logic_error>([&] { (void) lone.measurement_of(0); }) || !refused<std::logic_error>([&] { (void) lone[0]; })) sim::fail("not-refused", key, "the operators of a party outside any scenario were given");
        auto even = Party::MakeList(3, 2, 4); eq("parties made", (long) even.size(), 3); for (auto& p : even) { eq("operators of a party made", (long) p.size(), 6); eq("measurements of a party made", (long) p.Measurements.size(), 2); }
        sim::probe(4);
    }
    void check_network(const Model& m, const Inflation::InflationContext& c, const std::vector<size_t>& obs, const std::vector<std::set<oper_name_t>>& src, size_t lvl) {
        using namespace Inflation; const char* key = "network"; auto eq = [&](const char* what, long a, long b) { if (a != b) sim::fail("wrong-number", key, "%s is %ld, expected %ld", what, a, b); }; size_t E = src.size(), singles = 0, op = 0, var = 0; std::vector<std::set<size_t>> of(obs.size()); CausalNetwork net{obs, std::vector<std::set<oper_name_t>>(src)};
        for (size_t s = 0; s < E; ++s) for (auto o : src[s]) of[(size_t) o].insert(s); for (size_t o = 0; o < obs.size(); ++o) if (of[o].empty()) of[o].insert(E + singles++);
        eq("sources", (long) c.Sources().size(), (long) (E + singles)); eq("inflation level", (long) c.Inflation(), (long) lvl); size_t global = E * lvl + singles; eq("source copies", (long) c.source_variant_count(), (long) global); eq("source copies of the network", (long) net.total_source_count(lvl), (long) global); eq("sources given", (long) net.explicit_source_count(), (long) E); eq("sources implied", (long) net.implicit_source_count(), (long) singles); eq("observables", (long) c.Observables().size(), (long) obs.size());
        for (size_t s = 0; s < E + singles; ++s) { eq("id of a source", c.Sources()[s].id, (long) s); eq("source implied", c.Sources()[s].implicit, s >= E); if (s < E && c.Sources()[s].observables != src[s]) sim::fail("wrong-number", key, "source %zu lists other observables", s); if (s >= E) { eq("observables of an implied source", (long) c.Sources()[s].observables.size(), 1); eq("source of its observable", (long) of[(size_t) *c.Sources()[s].observables.begin()].count(s), 1); }
            for (size_t v = 0, n = s < E ? lvl : 1; v < n; ++v) { size_t g = net.source_variant_to_global_source(lvl, s, v); eq("number of a source copy", (long) g, (long) (s < E ? s * lvl + v : E * lvl + s - E)); auto [bs, bv] = net.global_source_to_source_variant(lvl, g); eq("source of a number", (long) bs, (long) s); eq("copy of a number", (long) bv, (long) v); } }
        std::vector<OVIndex> ovs; std::vector<size_t> outs; PlanRng r{obs.size() * 31 + E * 7 + lvl}; std::vector<oper_name_t> perm(global); std::map<oper_name_t, oper_name_t> pmap; std::vector<std::vector<size_t>> sp(E);
        for (size_t g = 0; g < global; ++g) perm[g] = (oper_name_t) g; for (size_t s = 0; s < E; ++s) { sp[s].resize(lvl); for (size_t v = 0; v < lvl; ++v) sp[s][v] = v; for (size_t v = lvl; v-- > 1;) std::swap(sp[s][v], sp[s][r.below(v + 1)]); for (size_t v = 0; v < lvl; ++v) { perm[s * lvl + v] = (oper_name_t) (s * lvl + sp[s][v]); if (sp[s][v] != v || r.chance(50)) pmap[(oper_name_t) (s * lvl + v)] = perm[s * lvl + v]; } }
        for (size_t o = 0; o < obs.size(); ++o) { auto& x = c.Observables()[o]; bool single = *of[o].begin() >= E; size_t k = of[o].size(), n = 1, ops = obs[o] ? obs[o] - 1 : 1; if (!single) for (size_t i = 0; i < k; ++i) n *= lvl; outs.push_back(obs[o]);
            eq("id of an observable", x.id, (long) o); eq("outcomes of an observable", (long) x.outcomes, (long) obs[o]); eq("sources of an observable", (long) x.source_count, (long) k); eq("observable on its own", x.singleton, single); eq("observable is projective", x.projective(), obs[o] != 0); eq("operators of an observable", (long) x.operators(), (long) ops); eq("copies of an observable", (long) x.count_copies(lvl), (long) n); eq("operators of all its copies", (long) x.count_operators(lvl), (long) (n * ops)); eq("variants", x.variant_count, (long) n); eq("variants listed", (long) x.variants.size(), (long) n); eq("first operator of an observable", x.operator_offset, (long) op); eq("first variant of an observable", x.variant_offset, (long) var);
            for (size_t s = 0; s < E + singles; ++s) eq("source feeds observable", x.contains_source((oper_name_t) s), of[o].count(s) > 0); std::vector<size_t> srcs(of[o].begin(), of[o].end()); for (size_t i = 0; i < k; ++i) eq("source of an observable", x.sources[i], (long) srcs[i]);
            for (size_t v = 0; v < n; ++v) { auto& y = x.variants[v]; eq("first operator of a variant", y.operator_offset, (long) op); eq("index of a variant", y.flat_index, (long) v); std::vector<oper_name_t> ix; for (size_t i = 0, z = v; i < k; ++i, z /= lvl) ix.push_back(single ? 0 : (oper_name_t) (z % lvl)); auto un = x.unflatten_index(lvl, (oper_name_t) v); eq("indices of a variant", (long) un.size(), (long) k); eq("indices of a variant", (long) y.indices.size(), (long) k);
                std::set<size_t> conn; for (size_t i = 0; i < k; ++i) { eq("index of a variant at a source", un[i], ix[i]); eq("index of a variant at a source", y.indices[i], ix[i]); auto it = y.source_variants.find((oper_name_t) srcs[i]); eq("copy of a source of a variant", it == y.source_variants.end() ? -1 : it->second, ix[i]); conn.insert(srcs[i] < E ? srcs[i] * lvl + (size_t) ix[i] : E * lvl + srcs[i] - E); } eq("sources of a variant", (long) y.source_variants.size(), (long) k); eq("flat index", x.flatten_index(lvl, ix), (long) v); if (&x.variant(ix) != &y) sim::fail("wrong-number", key, "the variant with these indices is another one");
                std::set<size_t> got; for (auto b : y.connected_sources) got.insert((size_t) b); if (got != conn) sim::fail("wrong-number", key, "variant %zu of observable %zu is connected to other copies of sources", v, o);
                std::vector<oper_name_t> ids(x.sources.begin(), x.sources.end()); auto p1 = net.permute_variant(lvl, ids, perm, ix); auto p2 = net.permute_variant(lvl, ids, pmap, ix); for (size_t i = 0; i < k; ++i) { long e = srcs[i] < E ? (long) sp[srcs[i]][(size_t) ix[i]] : 0; eq("index of a permuted variant", p1[i], e); eq("index of a permuted variant", p2[i], e); }
                auto ov = c.index_to_obs_variant((oper_name_t) var); eq("observable of a global index", ov.observable, (long) o); eq("variant of a global index", ov.variant, (long) v); eq("global index of a variant", c.obs_variant_to_index((oper_name_t) o, (oper_name_t) v), (long) var); eq("global index of a variant", c.obs_variant_to_index(ov), (long) var); ovs.push_back(ov);
                for (size_t oc = 0; oc < ops; ++oc) { eq("operator of an outcome", c.operator_number((oper_name_t) o, (oper_name_t) v, (oper_name_t) oc), (long) op); eq("observable of an operator", m.op_obs[op], (long) o); std::set<size_t> g2; for (auto b : c.connected_sources((oper_name_t) op)) g2.insert((size_t) b); if (g2 != conn) sim::fail("wrong-number", key, "operator %zu is connected to other copies of sources", op); ++op; }
                ++var; } }
        eq("operators", (long) c.size(), (long) op); eq("operators of the network", (long) net.total_operator_count(lvl), (long) op); eq("variants", (long) c.observable_variant_count(), (long) var);
        std::vector<const InflationContext::ICObservable::Variant*> vs; std::vector<size_t> each; for (auto& x : c.Observables()) for (auto& v : x.variants) { vs.push_back(&v); each.push_back(obs[(size_t) x.id]); } if (c.outcomes_per_observable(ovs) != each) sim::fail("wrong-number", key, "outcomes of the observables named differ");
        for (auto* a : vs) for (auto* b : vs) { std::set<size_t> x, y; for (auto i : a->connected_sources) x.insert((size_t) i); for (auto i : b->connected_sources) y.insert((size_t) i); bool share = false; for (auto i : x) share |= y.count(i) > 0; eq("variants are independent", a->independent(*b), !share); }
        for (int t = 0; t < 6; ++t) { std::vector<int> w; for (int k = r.range(0, 4); k > 0; --k) w.push_back((int) r.below(c.size())); sequence_storage_t s; for (int x : w) s.push_back((oper_name_t) x); OperatorSequence q{std::move(s), c}; std::set<size_t> e, g; for (auto x : q.raw()) for (auto b : c.connected_sources((oper_name_t) x)) e.insert((size_t) b); for (auto b : c.connected_sources(q)) g.insert((size_t) b); if (e != g) sim::fail("wrong-number", key, "a word is connected to other copies of sources than its operators"); }
        auto too_far = src; too_far.push_back({(oper_name_t) obs.size()}); if (!refused<Inflation::errors::bad_source>([&] { CausalNetwork x{obs, std::move(too_far)}; })) sim::fail("not-refused", key, "a source of an observable that does not exist was not refused"); sim::probe(5);
    }
    void check_qubits(const Model& m, const Pauli::PauliContext& c) {
        const char* key = "qubits"; auto eq = [&](const char* what, long a, long b) { if (a != b) sim::fail("wrong-number", key, "%s is %ld, expected %ld", what, a, b); };
        eq("qubits", (long) c.qubit_size, m.n); eq("operators", (long) c.size(), 3 * m.n); eq("lattice", c.is_lattice(), m.rows != 0); eq("rows", (long) c.col_height, m.rows); eq("columns", (long) c.row_width, m.rows ? m.cols : 0); eq("aliases", c.can_have_aliases(), m.kind == PAULI_TX);
        if (m.rows) for (int y = 0; y < m.rows; ++y) for (int x = 0; x < m.cols; ++x) { auto q = c.qubit_indices_to_offset((size_t) y, (size_t) x); eq("qubit at a place", (long) q, y + x * m.rows); auto [a, b] = c.qubit_offset_to_indices(q); eq("row of a qubit", (long) a, y); eq("column of a qubit", (long) b, x); } sim::probe(6);
    }
}

WORKLOAD(contexts, "C17", 10, F_ALLOC | F_WAKE)
static void contexts_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); if ((p.p[0] == PAULI || p.p[0] == PAULI_TX) && r.chance(30)) p.p[1] = r.range(0, N_QUBITS - 1);
    int nc = p.p[2] = r.range(1, 4); p.p[3] = (int) r.below(100000); p.p[4] = r.chance(60); p.p[5] = r.chance(40);
    for (int k = 0; k < nc; ++k) { int n = r.range(3, 12); for (int i = 0; i < n; ++i) { int x = r.range(0, 99); static const int w[K_N] = {10, 13, 5, 3, 3, 5, 6, 6, 3, 4, 3, 5, 4, 4, 6, 4, 4, 5, 4, 2, 1}; int code = 0; while (code + 1 < K_N && (x -= w[code]) >= 0) ++code; p.ops.push_back({k, code, (int) r.below(4000), (int) r.below(4000), (int) r.below(8000)}); } }
}
static void contexts_run(const Plan& p) {
    std::optional<Run> run; { sim::Quiet q; run.emplace(p); }
    run_clients(p, p.p[2], [&](const Op& o) { run->one(o); });
    sim::Quiet q; sim::label("final"); run->finish(); check_hasher(PlanRng{run->seed});
    if (run->m.kind == LOC) check_locality(run->m, dynamic_cast<Locality::LocalityContext&>(run->sc.sys->Context()));
    if (run->sc.pauli()) check_qubits(run->m, run->sc.pauli()->pauliContext);
    if (run->m.kind == INFL) { auto& c = dynamic_cast<Inflation::InflationContext&>(run->sc.sys->Context()); Net n; if (p.p[4]) n = net_of(run->seed); else { for (auto& o : c.Observables()) n.obs.push_back(o.outcomes); n.src.resize((size_t) run->m.n_sources); for (size_t o = 0; o < run->m.obs_sources.size(); ++o) for (int s : run->m.obs_sources[o]) n.src[(size_t) s].insert((oper_name_t) o); n.lvl = (size_t) run->m.infl; } check_network(run->m, c, n.obs, n.src, n.lvl); }
}
