// msrun.h - simulated clients of one matrix system: operations, recorded history, oracles at the end.
#pragma once
#include "ms.h"
#include "matrix_system/matrix_system_errors.h"

namespace ms {
    enum OpCode { O_MM, O_MM_CALL, O_LM, O_LM_CALL, O_PLM, O_PLM_RAW, O_GENDICT, O_SCAN, O_OSG, O_FIND_MM, O_FIND_LM, O_FIND_PLM, O_PMM, O_PLMNN, O_COMM, O_ACOMM, O_PCOMM, O_PACOMM, O_PPLM, O_MULT, O_INDEX, O_N };

    struct MsRun {
        Scenario sc; int maxl = 1; std::vector<std::vector<int>> words1, words2;
        struct Rec { int code; std::string key; uint64_t start = 0, end = ~0ull; const void* addr = nullptr; ptrdiff_t off = -1; bool found = false, created = false, failed = false; std::vector<std::string> also; Op op; };
        std::vector<Rec> hist; 

        explicit MsRun(int kind, int size, double tol = 1.0) { sc = make_scenario(kind, size, tol); maxl = max_level(sc, sc.pauli() ? 40 : 26); words1 = sc.m.words(1); words2 = sc.m.words(2); hist.reserve(256); }

        // ---- decoding of operations
        static bool uses_nb(int c) { return c == O_PMM || c == O_PLMNN || (c >= O_COMM && c <= O_PPLM); }
        int level(const Op& op) const { return op.a % ((uses_nb(op.code) ? max_nn_level(nb(op)) : maxl) + 1); }
        int max_nn_level(size_t nb) const {   // words on neighbouring sites are fewer
            if (!sc.pauli() || !nb || maxl > 1) return maxl; int n = sc.m.n, R = sc.m.rows, C = sc.m.cols, pairs = R ? R * (C - 1) + C * (R - 1) + (sc.m.wrap ? R + C : 0) : (int) nb * n; return 1 + 3 * n + 9 * std::min(pairs, n * (n - 1) / 2) <= 50 ? 2 : 1;
        }
        size_t nb(const Op& op) const { return (size_t) (op.c / 16 % (sc.m.rows ? 2 : 3)); }
        MTP policy(const Op& op) const { return op.c % 16 < 12 ? MTP::Always : op.c % 16 < 14 ? MTP::Optional : MTP::Never; }
        W word(const Op& op) const { W w; w.w = words2[(size_t) op.b % words2.size()]; if (sc.pauli()) { int p = op.b / 1000 % 8; w.ph = p < 4 ? p : 0; } return w; }
        OperatorSequence seq(const W& w) const { sequence_storage_t s; for (int x : w.w) s.push_back((oper_name_t) x); return OperatorSequence{std::move(s), sc.sys->Context(), (SequenceSignType) w.ph}; }
        std::vector<std::pair<W, cplx>> poly(const Op& op) const {  // distinct words of length <= 1 (2 if few), small non-zero coefficients
            std::map<std::vector<int>, cplx> t; PlanRng r{(uint64_t) op.b * 7919 + 13}; int n = r.range(1, 3); const auto& ws = words2.size() <= 16 ? words2 : words1;
            for (int i = 0; i < n; ++i) { W w; w.w = ws[r.below(ws.size())]; w = sc.m.alias(w); static const cplx cs[6] = {{1, 0}, {-1, 0}, {2, 0}, {0.5, 0}, {0, 1}, {1, -1}}; t[w.w] = cs[r.below(sc.m.kind == PAULI || sc.m.kind == PAULI_TX || sc.m.kind == FREE || sc.m.kind == CLIFF ? 6 : 4)]; }
            std::vector<std::pair<W, cplx>> o; for (auto& [k, v] : t) { W w; w.w = k; o.emplace_back(w, v); } return o;
        }
        static bool uses_poly(int c) { return c == O_PLM || c == O_FIND_PLM || c == O_PCOMM || c == O_PACOMM || c == O_PPLM; }
        std::string pkey(const std::vector<std::pair<W, cplx>>& p) const { std::string s; for (auto& [w, c] : p) { char b[48]; snprintf(b, sizeof b, "(%g,%g)", c.real(), c.imag()); s += b + str(w); } return s; }
        std::string lkey(int l, size_t nb, const W& w) const { return (nb ? "LM" + std::to_string(l) + "n" + std::to_string(nb) : "LM" + std::to_string(l)) + ":" + str(w); }
        std::string ckey(bool anti, int l, size_t nb, const W& w) const { return (anti ? "AC" : "CM") + std::to_string(l) + "n" + std::to_string(nb) + ":" + str(w); }
        std::string key(const Op& op, std::vector<std::string>* also = nullptr) const {
            int l = level(op); bool p = sc.pauli(); size_t n = nb(op); std::string L = std::to_string(l);
            auto lms = [&](size_t nn) { if (also) for (auto& [w, c] : poly(op)) also->push_back(lkey(l, nn, w)); };
            auto cms = [&](bool anti) { if (also) for (auto& [w, c] : poly(op)) also->push_back(ckey(anti, l, n, w)); };
            switch (op.code) {
                case O_MM: case O_MM_CALL: case O_FIND_MM: return "MM" + L;
                case O_LM: case O_LM_CALL: case O_FIND_LM: return lkey(l, 0, word(op));
                case O_PLM: case O_FIND_PLM: lms(0); return "PLM" + L + ":" + pkey(poly(op));
                case O_PLM_RAW: lms(0); return "";
                case O_PMM: if (!p || !n) return "MM" + L; return "MM" + L + "n" + std::to_string(n);
                case O_PLMNN: return lkey(l, p ? n : 0, word(op));
                case O_PPLM: lms(p ? n : 0); return "PLM" + L + (p && n ? "n" + std::to_string(n) : "") + ":" + pkey(poly(op));
                case O_COMM: return ckey(false, l, n, word(op));
                case O_ACOMM: return ckey(true, l, n, word(op));
                case O_PCOMM: cms(false); return "PCM" + L + "n" + std::to_string(n) + ":" + pkey(poly(op));
                case O_PACOMM: cms(true); return "PAC" + L + "n" + std::to_string(n) + ":" + pkey(poly(op));
                default: return "";
            }
        }
        Polynomial symbol_poly(const Op& op) const {
            const auto& st = sc.sys->Symbols(); Polynomial::storage_t s;
            for (auto& [w, c] : poly(op)) { auto l = st.where(seq(w)); if (!l.found()) sim::fail("symbol-missing", "poly", "%s has no symbol although its dictionary was generated", str(w).c_str()); s.emplace_back(l->Id(), c, l.is_conjugated); }
            return sc.sys->polynomial_factory()(std::move(s));
        }
        RawPolynomial raw_poly(const Op& op) const { RawPolynomial r; for (auto& [w, c] : poly(op)) r.emplace_back(seq(w), c); return r; }

        // before the clients start
        void prepare(const Plan& p) { bool poly = false; for (auto& o : p.ops) poly |= uses_poly(o.code); if (poly) sc.sys->generate_dictionary(2); }

        static uint64_t touch(const SymbolicMatrix& m) {   // instrumented reads of everything a user reads from a matrix
            uint64_t s = m.Dimension() + m.Hermitian(); const size_t d = m.Dimension();
            if (m.is_monomial()) { const auto& mm = static_cast<const MonomialMatrix&>(m); for (size_t r = 0; r < d; ++r) s += (uint64_t) mm.SymbolMatrix(r, (r * 7 + 1) % d).id; }
            else { const auto& pm = static_cast<const PolynomialMatrix&>(m); for (size_t r = 0; r < d; ++r) s += pm.SymbolMatrix(r, (r * 7 + 1) % d).size(); }
            for (auto x : m.IncludedSymbols()) s += (uint64_t) x;
            return s;
        }

        // the symbol an index gives for the i-th word of a list, read lock held
        void check_index(std::pair<symbol_name_t, bool> got, const OperatorSequenceGenerator& g, size_t i) const {
            sim::Quiet q; const auto& st = sc.sys->Symbols(); W w = from(*(g.begin() + (ptrdiff_t) i)), a = sc.m.alias(w);
            if (got.first < 0 || (size_t) got.first >= st.size()) sim::fail("symbol-lookup", "word-index", "word %zu is said to be symbol %ld of %zu", i, (long) got.first, st.size());
            W s = from(got.second ? st[(size_t) got.first].sequence_conj() : st[(size_t) got.first].sequence());
            if (s.w != a.w) sim::fail("symbol-lookup", "word-index", "word %zu, %s, is said to be symbol %ld%s, which is %s", i, str(w).c_str(), (long) got.first, got.second ? "*" : "", str(s).c_str());
        }
        void check_index_final() const {   // the index knows the words it claims and no others
            auto& ix = sc.sys->Symbols().OSGIndex; size_t len = ix.max_length(); const auto& g = sc.sys->Context().operator_sequence_generator(len);
            for (size_t i = 0; i < g.size(); ++i) check_index(ix(i), g, i);
            bool threw = false; try { (void) ix(g.size()); } catch (const std::range_error&) { threw = true; }
            if (!threw) sim::fail("symbol-lookup", "word-index", "the index for words up to length %zu gives a symbol for word %zu, of %zu", len, g.size(), g.size());
        }

        size_t refused = 0;              // requests refused for cause: what they made on the way may stay
        bool armed = false;              // requests meet failing allocations and thread creations, and are repeated
        void one(const Op& op) {
            static const char* names[] = {"moment-matrix", "moment-matrix", "localizing-matrix", "localizing-matrix", "polynomial-matrix", "raw-polynomial-matrix", "generate-dictionary", "scan-symbols", "word-list", "find", "find", "find", "nn-moment-matrix", "nn-localizing-matrix", "commutator", "anticommutator", "polynomial-commutator", "polynomial-anticommutator", "nn-polynomial-matrix", "multiply", "word-index"};
            sim::label(names[op.code]);
            size_t slot; std::optional<Polynomial> sp; std::optional<RawPolynomial> rp; std::optional<OperatorSequence> sq; auto& sys = *sc.sys;
            {
                sim::Quiet q; slot = hist.size(); hist.emplace_back(); auto& r = hist[slot]; r.code = op.code; r.op = op; r.key = key(op, &r.also); r.start = sim::now();
                if (op.code == O_PLM_RAW) rp.emplace(raw_poly(op));
                sq = seq(word(op));
            }
            if (uses_poly(op.code)) { auto lk = sys.get_read_lock(); sim::Quiet q; sp = symbol_poly(op); }
            const void* addr = nullptr; ptrdiff_t off = -1; bool found = false, created = false, failed = false; uint64_t sink = 0;
            auto* ps = sc.pauli(); size_t l = (size_t) level(op), n = nb(op); MTP pol = policy(op);
            auto took = [&](auto&& pr) { off = (ptrdiff_t) pr.first; addr = &static_cast<const SymbolicMatrix&>(pr.second); created = true; sink += touch(pr.second); };
            auto took_ref = [&](const auto& m) { addr = &static_cast<const SymbolicMatrix&>(m); created = true; sink += touch(m); };
            try {
                attempt(armed, names[op.code], [&] { switch (op.code) {
                    case O_MM: took(sys.MomentMatrix.create(l, pol)); break;
                    case O_MM_CALL: took_ref(sys.MomentMatrix(l, pol)); break;
                    case O_LM: took(sys.LocalizingMatrix.create(LocalizingMatrixIndex{l, *sq}, pol)); break;
                    case O_LM_CALL: took_ref(sys.LocalizingMatrix(LocalizingMatrixIndex{l, *sq}, pol)); break;
                    case O_PLM: took(sys.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{l, *sp}, pol)); break;
                    case O_PLM_RAW: { auto [o, m] = sys.create_and_register_localizing_matrix(l, *rp, pol); off = o; addr = &static_cast<const SymbolicMatrix&>(m); created = true; sink += touch(m); break; }
                    case O_GENDICT: sys.generate_dictionary((size_t) (op.a % (2 * maxl) + 1)); break;
                    case O_SCAN: { auto lk = sys.get_read_lock(); const auto& st = sys.Symbols(); for (size_t i = 0; i < st.size(); ++i) { const auto& s = st[i]; sink += (uint64_t) s.Id() + s.is_hermitian() + s.has_sequence(); auto w = st.where(s.sequence()); sink += w.found(); auto [re, im] = s.basis_key(); if (re >= 0) sink += st.Basis.RealSymbols()[(size_t) re]; if (im >= 0) sink += st.Basis.ImaginarySymbols()[(size_t) im]; } for (size_t i = 0; i < sys.size(); ++i) sink += sys[(ptrdiff_t) i].Dimension(); break; }
                    case O_OSG: { size_t lev = (size_t) (op.a % (maxl + 2)); if (op.b % 2) { sink += sys.osg_size(lev); } else { const auto& g = op.b % 4 == 0 ? sys.Context().dictionary().Level(lev)() : sys.Context().dictionary().Level(lev).conjugate(); for (const auto& s : g) sink += s.size() + s.hash(); if (ps && n) for (const auto& s : ps->pauliContext.pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{l, n})()) sink += s.hash(); } break; }
                    case O_INDEX: { size_t len = (size_t) (op.a % (2 * maxl) + 1); sys.generate_dictionary(len); const auto& g = sys.Context().operator_sequence_generator(len);
                        auto lk = sys.get_read_lock(); auto& ix = sys.Symbols().OSGIndex; ix.update_if_necessary(len); if (ix.max_length() < len) { sim::Quiet q; sim::fail("symbol-lookup", "word-index", "the words up to length %zu were indexed, but the index says it reaches %zu", len, ix.max_length()); }
                        for (size_t i = (size_t) op.b % 3; i < g.size(); i += 1 + g.size() / 8) check_index(ix(i), g, i);
                        if (op.b % 5 == 0) check_index(ix(g.size() - 1), g, g.size() - 1);
                        break; }
                    case O_FIND_MM: { auto lk = sys.get_read_lock(); found = sys.MomentMatrix.contains(l); off = sys.MomentMatrix.find_index(l); if (found) { const auto& m = sys.MomentMatrix.find(lk, l); addr = &m; sink += touch(m); } break; }
                    case O_FIND_LM: { auto lk = sys.get_read_lock(); LocalizingMatrixIndex ix{l, *sq}; off = sys.LocalizingMatrix.find_index(ix); found = off >= 0; if (found) { const auto& m = sys.LocalizingMatrix.find(lk, ix); addr = &m; sink += touch(m); } break; }
                    case O_FIND_PLM: { auto lk = sys.get_read_lock(); PolynomialLocalizingMatrixIndex ix{l, *sp}; off = sys.PolynomialLocalizingMatrix.find_index(ix); found = off >= 0; if (found) { const auto& m = sys.PolynomialLocalizingMatrix.find(lk, ix); addr = static_cast<const SymbolicMatrix*>(&m); sink += touch(m); } break; }
                    case O_PMM: if (ps) took(ps->PauliMomentMatrices.create(Pauli::MomentMatrixIndex{l, n}, pol)); else took(sys.MomentMatrix.create(l, pol)); break;
                    case O_PLMNN: if (ps) took(ps->PauliLocalizingMatrices.create(Pauli::LocalizingMatrixIndex{l, n, *sq}, pol)); else took(sys.LocalizingMatrix.create(LocalizingMatrixIndex{l, *sq}, pol)); break;
                    case O_PPLM: if (ps) took(ps->PauliPolynomialLocalizingMatrices.create(Pauli::PolynomialLocalizingMatrixIndex{l, n, *sp}, pol)); else took(sys.PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{l, *sp}, pol)); break;
                    case O_COMM: if (ps) took(ps->CommutatorMatrices.create(Pauli::CommutatorMatrixIndex{l, n, *sq}, pol)); break;
                    case O_ACOMM: if (ps) took(ps->AnticommutatorMatrices.create(Pauli::AnticommutatorMatrixIndex{l, n, *sq}, pol)); break;
                    case O_PCOMM: if (ps) took(ps->PolynomialCommutatorMatrices.create(Pauli::PolynomialCommutatorMatrixIndex{l, n, *sp}, pol)); break;
                    case O_PACOMM: if (ps) took(ps->PolynomialAnticommutatorMatrices.create(Pauli::PolynomialAnticommutatorMatrixIndex{l, n, *sp}, pol)); break;
                } });
            } catch (const std::exception& e) {
                sim::Quiet q; failed = true; sim::fail("unexpected-error", names[op.code], "%s failed: %s", hist[slot].key.c_str(), e.what());
            }
            sim::Quiet q; auto& r = hist[slot]; r.end = sim::now(); r.addr = addr; r.off = off; r.found = found; r.created = created && !failed; r.failed = failed; volatile uint64_t v = sink; (void) v; sim::op_done(!failed);
        }

        // ---- oracles, once every client is done
        void check_request_history() {   // C03
            std::map<std::string, std::vector<const Rec*>> by; std::map<std::string, std::pair<uint64_t, uint64_t>> made;  // key -> earliest start, earliest end of a creation
            auto mk = [&](const std::string& k, const Rec& r) { auto it = made.find(k); uint64_t e = r.failed ? ~0ull : r.end; if (it == made.end()) made[k] = {r.start, e}; else { it->second.first = std::min(it->second.first, r.start); it->second.second = std::min(it->second.second, e); } };
            size_t raw = 0; for (auto& r : hist) { if (r.created || r.failed) { if (!r.key.empty()) mk(r.key, r); else if (r.code == O_PLM_RAW) ++raw; for (auto& a : r.also) mk(a, r); } if (!r.key.empty()) by[r.key].push_back(&r); }
            std::map<ptrdiff_t, std::string> owner; std::map<const void*, ptrdiff_t> offs;
            for (size_t i = 0; i < sc.sys->size(); ++i) try { offs[&(*sc.sys)[(ptrdiff_t) i]] = (ptrdiff_t) i; } catch (const std::exception&) {}
            for (auto& [k, v] : by) {
                const Rec* first = nullptr;
                for (auto* r : v) if (r->addr) {
                    auto it = offs.find(r->addr); if (it == offs.end()) sim::fail("stale-matrix", k.substr(0, 2).c_str(), "the matrix handed out for %s is not in the system", k.c_str());
                    if (r->off >= 0 && it->second != r->off) sim::fail("wrong-offset", k.substr(0, 2).c_str(), "%s: offset %ld reported, the matrix is at %ld", k.c_str(), (long) r->off, (long) it->second);
                    if (first && first->addr != r->addr) sim::fail("two-matrices", k.substr(0, 2).c_str(), "two requests for %s were given different matrices", k.c_str());
                    if (!first) { first = r; auto [o, ins] = owner.emplace(it->second, k); if (!ins) sim::fail("shared-matrix", k.substr(0, 2).c_str(), "%s and %s were given the same matrix", k.c_str(), o->second.c_str()); }
                }
                for (auto* r : v) if (r->code == O_FIND_MM || r->code == O_FIND_LM || r->code == O_FIND_PLM) {
                    auto it = made.find(k);
                    if (r->found && (it == made.end() || it->second.first > r->end)) sim::fail("found-early", "", "%s was found before anybody asked for it", k.c_str());
                    if (!r->found && it != made.end() && it->second.second < r->start) sim::fail("not-found", "", "%s was not found after a request for it had completed", k.c_str());
                    if (r->found != (r->off >= 0)) sim::fail("not-found", "inconsistent", "%s: contains() and find_index() disagree under one read lock", k.c_str());
                }
            }
            if (!armed && !refused && sc.sys->size() != made.size() + raw) sim::fail("matrix-count", "", "the system holds %zu matrices, %zu distinct ones were requested", sc.sys->size(), made.size() + raw);
        }
        void check_entries() {           // C01
            std::set<const void*> seen;
            for (auto& r : hist) if (r.addr && r.created && seen.insert(r.addr).second) check_one(r.op, *static_cast<const SymbolicMatrix*>(r.addr));
        }
        void check_one(const Op& op, const SymbolicMatrix& m) {
            const auto& md = sc.m; size_t l = (size_t) level(op); size_t n = sc.pauli() ? nb(op) : 0; auto R = [&](size_t nn) { return nn ? nn_words(sc, l, nn) : row_words(sc, l, "rows"); };
            W w = word(op);
            auto com = [&](const W& a, bool anti) { return [&, a, anti](const W& r, const W& c) { W x = md.mul(r, c); W p = md.mul(x, a), q = md.mul(a, x); bool same = p == q; if (same != anti) { W z; z.zero = true; return z; } return p; }; };
            auto pcom = [&](bool anti) { return [&, anti](const W& r, const W& a, const W& c) { W x = md.mul(r, c); W p = md.mul(x, a), q = md.mul(a, x); bool same = p == q; if (same != anti) { W z; z.zero = true; return z; } return p; }; };
            auto lm = [&](const W& r, const W& c) { return md.mul(md.mul(r, w), c); };
            auto plm = [&](const W& r, const W& a, const W& c) { return md.mul(md.mul(r, a), c); };
            switch (op.code) {
                case O_MM: case O_MM_CALL: check_monomial(sc, m, R(0), [&](const W& r, const W& c) { return md.mul(r, c); }, 1.0, "moment"); break;
                case O_PMM: check_monomial(sc, m, R(n), [&](const W& r, const W& c) { return md.mul(r, c); }, 1.0, "nn-moment"); break;
                case O_LM: case O_LM_CALL: check_monomial(sc, m, R(0), lm, 1.0, "localizing"); break;
                case O_PLMNN: check_monomial(sc, m, R(n), lm, 1.0, "nn-localizing"); break;
                case O_PLM: case O_PLM_RAW: check_polynomial(sc, m, R(0), poly(op), plm, 1.0, "polynomial"); break;
                case O_PPLM: check_polynomial(sc, m, R(n), poly(op), plm, 1.0, "nn-polynomial"); break;
                case O_COMM: check_monomial(sc, m, R(n), com(w, false), 2.0, "commutator"); break;
                case O_ACOMM: check_monomial(sc, m, R(n), com(w, true), 2.0, "anticommutator"); break;
                case O_PCOMM: check_polynomial(sc, m, R(n), poly(op), pcom(false), 2.0, "polynomial-commutator"); break;
                case O_PACOMM: check_polynomial(sc, m, R(n), poly(op), pcom(true), 2.0, "polynomial-anticommutator"); break;
            }
        }
        void check_table() {             // C02
            check_symbols(sc, "table"); int dl = 0; for (auto& r : hist) if (r.code == O_GENDICT && !r.failed) dl = std::max(dl, r.op.a % (2 * maxl) + 1);
            if (dl) check_dictionary_symbols(sc, dl, "dictionary");
            check_index_final();
        }
    };
}
