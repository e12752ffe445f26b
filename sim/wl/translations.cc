// Translation symmetry of qubit systems far larger than the other workloads use: the form shared by all translates of a
// word, shifting words, symmetrised polynomials, words on neighbouring sites - asked for by concurrent clients.
#include "msrun.h"

#include "scenarios/pauli/symmetry/lattice_duplicator.h"
#include "scenarios/pauli/symmetry/moment_simplifier.h"

using namespace ms;

namespace {
    enum { X_CANON, X_SHIFT, X_SYM, X_LM, X_RAW, X_NN, X_DICT, X_SCAN, X_MM, X_FILL, X_N };
    const char* const op_names[] = {"moment-form", "shift", "symmetrised-polynomial", "localizing-matrix", "raw-polynomial-matrix", "neighbour-list", "generate-dictionary", "scan-symbols", "moment-matrix", "fill"};
    struct Size { int n, rows, cols; };
    const Size sizes[] = {{2, 0, 0}, {5, 0, 0}, {16, 0, 0}, {31, 0, 0}, {32, 0, 0}, {33, 0, 0}, {40, 0, 0}, {48, 0, 0}, {63, 0, 0}, {64, 0, 0}, {65, 0, 0}, {70, 0, 0}, {90, 0, 0}, {96, 0, 0}, {97, 0, 0}, {128, 0, 0}, {150, 0, 0}, {192, 0, 0}, {200, 0, 0}, {224, 0, 0}, {255, 0, 0}, {256, 0, 0},
        {12, 3, 4}, {20, 5, 4}, {7, 1, 7}, {7, 7, 1}, {32, 4, 8}, {32, 8, 4}, {32, 16, 2}, {32, 2, 16}, {35, 5, 7}, {35, 7, 5}, {36, 6, 6}, {36, 4, 9}, {36, 9, 4}, {33, 11, 3}, {33, 3, 11}, {64, 8, 8}, {64, 16, 4}, {64, 32, 2}, {64, 2, 32}, {48, 24, 2}, {60, 30, 2}, {65, 5, 13}, {65, 13, 5}, {66, 3, 22}, {66, 22, 3}, {72, 9, 8}, {72, 8, 9}, {81, 9, 9}, {93, 31, 3}, {96, 32, 3}, {100, 10, 10}, {100, 20, 5}, {144, 12, 12}, {192, 16, 12}, {195, 15, 13}, {256, 16, 16}, {256, 32, 8}, {250, 10, 25}, {210, 30, 7},
        {66, 33, 2}, {80, 40, 2}, {99, 33, 3}, {80, 2, 40}, {128, 64, 2}, {200, 100, 2}, {40, 40, 1}, {130, 65, 2}, {256, 128, 2}, {150, 50, 3}};
    constexpr int n_sizes = (int) (sizeof sizes / sizeof *sizes);
    using Word = std::vector<int>;
    Word moved(const Model& m, const Word& w, long dr, long dc) {   // every operator by dr rows and dc columns
        long R = m.rows ? m.rows : m.n, C = m.rows ? m.cols : 1; Word o;
        for (int x : w) { long q = x / 3, r = q % R + dr, c = q / R + dc; r = (r % R + R) % R; c = (c % C + C) % C; o.push_back((int) (3 * (c * R + r) + x % 3)); }
        std::sort(o.begin(), o.end()); return o;
    }
    std::array<long, 4> room(const Model& m, const Word& w) {       // how far a word can be moved: rows from, to, columns from, to
        long R = m.rows ? m.rows : m.n, C = m.rows ? m.cols : 1, r0 = R, r1 = -1, c0 = C, c1 = -1;
        for (int x : w) { long q = x / 3; r0 = std::min(r0, q % R); r1 = std::max(r1, q % R); c0 = std::min(c0, q / R); c1 = std::max(c1, q / R); }
        if (w.empty()) return {0, R - 1, 0, C - 1}; return {-r0, R - 1 - r1, -c0, C - 1 - c1};
    }
    Word base_word(const Model& m, uint64_t seed) {
        PlanRng r{seed * 1103515245 + 12345}; int n = m.n, R = m.rows ? m.rows : n, C = m.rows ? m.cols : 1, k = r.range(1, 4); std::set<int> sites; int style = r.range(0, 5);
        switch (style) {
            case 0: for (int i = 0; i < k; ++i) sites.insert((int) r.below((uint64_t) n)); break;
            case 1: { int a = (int) r.below((uint64_t) R), b = (int) r.below((uint64_t) C); for (int i = 0; i < k; ++i) { int y = a + r.range(0, 2), x = b + r.range(0, 2); if (y < R && x < C) sites.insert(x * R + y); } if (sites.empty()) sites.insert(b * R + a); break; }
            case 2: { std::vector<int> ds; for (int d = 2; d <= 5; ++d) if (n % d == 0) ds.push_back(d); int d = ds.empty() ? 2 : ds[r.below(ds.size())]; int s = (int) r.below((uint64_t) n); for (int i = 0; i < d; ++i) sites.insert((s + i * (n / d)) % n); break; }   // repeats itself when moved
            case 3: { static const int e[] = {0, 1, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, 127, 128, 159, 160, 191, 192, 223, 224, 254, 255}; for (int i = 0; i < k; ++i) { int q = e[r.below(sizeof e / sizeof *e)]; sites.insert(r.chance(30) ? n - 1 - q % n : q % n); } break; }
            case 4: { int y = (int) r.below((uint64_t) R), x = (int) r.below((uint64_t) C); for (int i = 0; i < k; ++i) sites.insert(r.chance(50) ? (int) r.below((uint64_t) C) * R + y : x * R + (int) r.below((uint64_t) R)); break; }                   // one row or column
            default: { static const int c[4] = {0, 0, 1, 2}; for (int i = 0; i < k; ++i) { int y = c[r.below(4)] % R, x = c[r.below(4)] % C; if (r.chance(50)) y = R - 1 - y; if (r.chance(50)) x = C - 1 - x; sites.insert(x * R + y); } break; } // corners
        }
        bool same = r.chance(50); int b = r.range(0, 2); Word w; for (int q : sites) w.push_back(3 * q + (same ? b : r.range(0, 2))); return w;
    }
    struct Tx {
        Scenario sc; const Model& m; bool sym; uint64_t seed; int n_base; std::map<std::pair<int, int>, std::set<Word>> nb_memo;
        struct Made { const SymbolicMatrix* m; Word w; int ph; std::vector<std::pair<W, cplx>> poly; }; std::deque<Made> made; int dict = 0;
        Tx(const Plan& p) : m{sc.m} {
            using namespace Pauli; auto& z = sizes[p.p[0]]; sym = p.p[4]; auto& md = sc.m; md.kind = sym ? PAULI_TX : PAULI; md.n = z.n; md.rows = z.rows; md.cols = z.cols; md.wrap = p.p[1]; seed = (uint64_t) p.p[5]; n_base = 1 + p.p[6];
            auto wr = md.wrap ? WrapType::Wrap : WrapType::None; auto sy = sym ? SymmetryType::Translational : SymmetryType::None;
            sc.sys = std::make_unique<PauliMatrixSystem>(z.rows ? std::make_unique<PauliContext>((size_t) z.rows, (size_t) z.cols, wr, sy) : std::make_unique<PauliContext>((size_t) z.n, wr, sy), 1.0);
            auto* sys = sc.sys.get(); md.choose = [sys](const Word& w) { sequence_storage_t q; for (int x : w) q.push_back((oper_name_t) x); return from(sys->Context().simplify_as_moment(OperatorSequence{std::move(q), sys->Context()})); };
        }
        const Pauli::PauliContext& ctx() const { return sc.pauli()->pauliContext; }
        OperatorSequence seq(const Word& w, int ph = 0) const { sequence_storage_t s; for (int x : w) s.push_back((oper_name_t) x); return OperatorSequence{std::move(s), sc.sys->Context(), (SequenceSignType) ph}; }
        Word word(int a, int b) const {                             // one of a few words, or a translate of it
            Word w = base_word(m, seed + (uint64_t) (a % n_base)); if (a >= 900) w.clear(); PlanRng r{(uint64_t) b * 2654435761u + 17};
            if (m.wrap) return moved(m, w, r.range(0, m.n), r.range(0, m.n)); auto [r0, r1, c0, c1] = room(m, w); return moved(m, w, r0 + (long) r.below((uint64_t) (r1 - r0 + 1)), c0 + (long) r.below((uint64_t) (c1 - c0 + 1)));
        }
        std::vector<std::pair<W, cplx>> poly(const Op& op) const {  // distinct words
            std::map<Word, cplx> t; PlanRng r{(uint64_t) op.b * 7919 + 13}; int n = r.range(1, 4); static const cplx cs[6] = {{1, 0}, {-1, 0}, {2, 0}, {0.5, 0}, {0, 1}, {1, -1}};
            for (int i = 0; i < n; ++i) { int a = r.chance(12) ? 900 : (int) r.below(64), b = (int) r.below(4000); t[word(a, b)] = cs[r.below(6)]; } std::vector<std::pair<W, cplx>> o; for (auto& [k, v] : t) { W w; w.w = k; o.emplace_back(w, v); } return o;
        }
        RawPolynomial raw(const std::vector<std::pair<W, cplx>>& p) const { RawPolynomial o; for (auto& [w, c] : p) o.emplace_back(seq(w.w, w.ph), c); return o; }
        Terms average(const std::vector<std::pair<W, cplx>>& p) const {   // over all translations, or over those that leave all of it on the lattice, forwards only
            Terms t; bool scalar = true; for (auto& [w, c] : p) scalar &= w.w.empty(); if (!sym || scalar) { for (auto& [w, c] : p) add_term(t, w, c); return t; }
            long R = m.rows ? m.rows : m.n, C = m.rows ? m.cols : 1, nr = R, nc = C; if (!m.wrap) for (auto& [w, c] : p) if (!w.w.empty()) { auto z = room(m, w.w); nr = std::min(nr, z[1] + 1); nc = std::min(nc, z[3] + 1); }
            for (auto& [w, c] : p) for (long x = 0; x < nc; ++x) for (long y = 0; y < nr; ++y) { W u; u.ph = w.ph; u.w = moved(m, w.w, y, x); add_term(t, u, c / (double) (nr * nc)); }
            return t;
        }
        void one(const Op& op, bool armed) {
            const char* key = op_names[op.code]; sim::label(key); auto& sys = *sc.sys; auto& cx = ctx();
            try { switch (op.code) {
                case X_CANON: { std::optional<OperatorSequence> s, o; Word w; int ph = op.c % 8; bool simp = false; if (ph > 3) ph = 0; { sim::Quiet q; w = word(op.a, op.b); s = seq(w, ph); }
                    if (!sym) return;
                    attempt(armed, key, [&] { simp = cx.can_be_simplified_as_moment(*s); if (op.c & 16) { OperatorSequence t{*s}; o.emplace(cx.simplify_as_moment(std::move(t))); } else o.emplace(cx.simplify_as_moment(*s)); });
                    sim::Quiet q; W in, g = from(*o); in.w = w; in.ph = ph; W e = m.alias(in);
                    if (!(m.reduce(g) == g) || !(m.least(g) == m.least(in))) sim::fail("wrong-alias", key, "the moment form of %s is given as %s, which is no translate of it", str(in).c_str(), str(g).c_str());
                    if (!(g == e)) sim::fail("wrong-alias", "class", "the moment form of %s is given as %s, that of a translate as %s", str(in).c_str(), str(g).c_str(), str(e).c_str());
                    if (simp == (g.w == w)) sim::fail("wrong-alias", "flag", "%s %s said to be in its moment form, which is %s", str(in).c_str(), simp ? "is not" : "is", str(g).c_str());
                    if (o->hash() != seq(g.w).hash()) sim::fail("wrong-alias", "hash", "the moment form of %s has the hash of another word", str(in).c_str());
                    sim::probe(0); break; }
                case X_SHIFT: { if (!sym) return; std::optional<OperatorSequence> s, o; Word w; int ph = op.c % 4; long dr = 0, dc = 0; bool lat = m.rows && op.c % 8 < 6, far = m.wrap && op.c / 8 % 3 == 0;
                    { sim::Quiet q; w = word(op.a, op.b); s = seq(w, ph); PlanRng r{(uint64_t) op.c * 40503 + 3};
                      if (m.wrap) { dr = r.range(-m.n, 2 * m.n); dc = r.range(-m.n, 2 * m.n); if (far) { dr += 1000 * (long) m.n * r.range(-3, 3); dc -= r.range(-1000, 1000); } if (r.chance(15)) dr = 0; if (r.chance(15)) dc = 0; }
                      else { auto z = room(m, w); if (!lat && m.rows) z = {-(w.empty() ? 0 : w[0] / 3), w.empty() ? 0 : m.n - 1 - w.back() / 3, 0, 0}; dr = z[0] + (long) r.below((uint64_t) (z[1] - z[0] + 1)); dc = z[2] + (long) r.below((uint64_t) (z[3] - z[2] + 1)); } }
                    const auto& ms = cx.moment_simplifier();
                    attempt(armed, key, [&] { o.emplace(lat ? ms.lattice_offset(*s, dr, dc) : ms.chain_offset(*s, dr)); });
                    sim::Quiet q; W e, g = from(*o); e.ph = ph; if (lat || !m.rows) e.w = moved(m, w, dr, lat ? dc : 0); else { for (int x : w) { long qb = ((x / 3 + dr) % m.n + m.n) % m.n; e.w.push_back((int) (3 * qb + x % 3)); } std::sort(e.w.begin(), e.w.end()); }
                    W in; in.w = w; in.ph = ph; if (!(g == e)) sim::fail("wrong-shift", lat ? "lattice" : "chain", "%s moved by %ld,%ld is given as %s instead of %s", str(in).c_str(), dr, lat ? dc : 0, str(g).c_str(), str(e).c_str());
                    if (o->hash() != seq(e.w).hash()) sim::fail("wrong-shift", "hash", "%s moved has the hash of another word", str(in).c_str());
                    sim::probe(1); break; }
                case X_SYM: { std::vector<std::pair<W, cplx>> pl; std::optional<RawPolynomial> in, out; { sim::Quiet q; pl = poly(op); if (op.c % 3 == 0) for (auto& [w, c] : pl) w.ph = op.c / 3 % 4; in.emplace(raw(pl)); }
                    attempt(armed, key, [&] { out.emplace(Pauli::LatticeDuplicator::symmetrical_copy(cx, *in)); });
                    sim::Quiet q; Terms g, e = average(pl); for (const auto& t : *out) { W w = from(t.sequence); if (!(m.reduce(w) == w) || (!w.w.empty() && w.w.back() >= 3 * m.n)) sim::fail("wrong-average", "word", "a symmetrised polynomial holds %s", str(w).c_str()); if (t.sequence.hash() != seq(w.w).hash()) sim::fail("wrong-average", "hash", "a symmetrised polynomial holds %s with the hash of another word", str(w).c_str()); add_term(g, w, t.weight); }
                    if (!same_terms(g, e)) { Terms i; for (auto& [w, c] : pl) add_term(i, w, c); for (auto* t : {&g, &e}) for (auto it = t->begin(); it != t->end();) { auto& o = t == &g ? e : g; auto f = o.find(it->first); if (f != o.end() && std::abs(f->second - it->second) < 1e-9) { o.erase(f); it = t->erase(it); } else ++it; } sim::fail("wrong-average", "", "the average of the translates of %s has %s where it should have %s", str(i).c_str(), str(g).c_str(), str(e).c_str()); }
                    sim::probe(2); break; }
                case X_LM: { std::optional<OperatorSequence> s; Word w; int ph = op.c / 16 % 8; if (ph > 3) ph = 0; { sim::Quiet q; w = word(op.a, op.b); s = seq(w, ph); } const SymbolicMatrix* x = nullptr;
                    attempt(armed, key, [&] { auto pr = sys.LocalizingMatrix.create(LocalizingMatrixIndex{0, *s}, op.c % 2 ? MTP::Optional : MTP::Never); x = &pr.second; });
                    uint64_t t = MsRun::touch(*x); sim::Quiet q; volatile uint64_t sink = t; (void) sink; made.push_back({x, w, ph, {}}); sim::probe(3); break; }
                case X_RAW: { std::vector<std::pair<W, cplx>> pl; std::optional<RawPolynomial> in; const SymbolicMatrix* x = nullptr; { sim::Quiet q; pl = poly(op); in.emplace(raw(pl)); }
                    if (op.c % 3 == 0) { std::optional<RawPolynomial> sy; attempt(armed, key, [&] { sy.emplace(Pauli::LatticeDuplicator::symmetrical_copy(cx, *in)); }); sim::Quiet q; in.emplace(std::move(*sy)); pl.clear(); for (const auto& t : *in) pl.emplace_back(from(t.sequence), t.weight); if (pl.size() > 60) return; }
                    attempt(armed, key, [&] { auto [off, mt] = sys.create_and_register_localizing_matrix(0, *in, op.c % 2 ? MTP::Optional : MTP::Never); (void) off; x = &mt; });
                    uint64_t t = MsRun::touch(*x); sim::Quiet q; volatile uint64_t sink = t; (void) sink; made.push_back({x, {}, 0, pl}); sim::probe(4); break; }
                case X_NN: { int lev = 1 + op.a % (m.n <= 40 ? 3 : 2), k = m.rows ? 1 : 1 + op.b % 3; if (m.n == 2) k = 1; const OSGPair* pr = nullptr; attempt(armed, key, [&] { pr = &cx.pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{(size_t) lev, (size_t) k}); });
                    const auto& l = (*pr)(); uint64_t t = 0; for (size_t i = 0; i < l.size(); i += 1 + l.size() / 16) t += l[i].hash();
                    sim::Quiet q; volatile uint64_t sink = t; (void) sink; auto& ex = nb_memo[{lev, k}]; if (ex.empty()) ex = m.neighbour_words(lev, k); std::set<Word> got;
                    for (const auto& s : l) { W w = from(s); if (w.zero || w.ph || !got.insert(w.w).second) sim::fail("word-list", "neighbours", "the list of words of length %d (neighbours %d) holds %s%s", lev, k, str(w).c_str(), w.ph ? "" : " twice"); if (!ex.count(w.w)) sim::fail("word-list", "neighbours", "the list of words of length %d (neighbours %d) holds %s", lev, k, str(w).c_str()); }
                    if (got.size() != ex.size()) sim::fail("word-list", "neighbours", "the list of words of length %d (neighbours %d) has %zu words, expected %zu", lev, k, got.size(), ex.size());
                    sim::probe(5); break; }
                case X_DICT: attempt(armed, key, [&] { sys.generate_dictionary(1); }); { sim::Quiet q; dict = 1; } break;
                case X_MM: { if (m.n > 36) return; const SymbolicMatrix* x = nullptr; attempt(armed, key, [&] { auto pr = sys.MomentMatrix.create(1, op.c % 2 ? MTP::Always : MTP::Optional); x = &pr.second; }); uint64_t t = MsRun::touch(*x); sim::Quiet q; volatile uint64_t sink = t; (void) sink; made.push_back({x, {-1}, 0, {}}); sim::probe(6); break; }
                case X_FILL: {                                          // every Pauli word on every translate of a set of sites, once
                    std::vector<size_t> sites; bool alias = op.c % 4 != 0, nowrap = op.c % 8 == 5; Word w; std::vector<OperatorSequence> out; std::pair<size_t, size_t> span; size_t before = (size_t) (op.c / 8 % 3); std::set<Word> places;
                    { sim::Quiet q; w = word(op.a, op.b); while (w.size() > (m.n > 64 ? 2 : 3)) w.pop_back(); for (int x : w) sites.push_back((size_t) (x / 3)); if (w.empty()) return; auto z = room(m, w); bool wr = m.wrap && !nowrap; for (int& x : w) x -= x % 3;
                      // without wrapping, from where the sites are given
                      long R = m.rows ? m.rows : m.n, C = m.rows ? m.cols : 1; size_t all = 0; for (long x = 0; x < C; ++x) for (long y = 0; y < R; ++y) if (wr || (y <= z[1] && x <= z[3])) { ++all; places.insert(moved(m, w, y, x)); }
                      if (all != places.size()) alias = true; }
                    attempt(armed, key, [&] { out.clear(); for (size_t i = 0; i < before; ++i) out.emplace_back(sequence_storage_t{0}, cx); Pauli::LatticeDuplicator d{cx, out}; span = nowrap ? d.wrapless_symmetrical_fill(sites) : d.symmetrical_fill(sites, alias); });
                    sim::Quiet q; std::set<Word> got; size_t n3 = 1; for (size_t i = 0; i < sites.size(); ++i) n3 *= 3; W in; in.w = w;
                    if (span.first != before || span.second != out.size()) sim::fail("wrong-fill", "span", "words %zu to %zu are said to be new, %zu to %zu are", span.first, span.second, before, out.size());
                    for (size_t i = before; i < out.size(); ++i) { W g = from(out[i]); Word s = g.w; for (int& x : s) x -= x % 3; if (g.zero || g.ph || !(m.reduce(g) == g) || !places.count(s) || out[i].hash() != seq(g.w).hash()) sim::fail("wrong-fill", "word", "%s is listed among the words on translates of the sites of %s", str(g).c_str(), str(in).c_str()); if (!got.insert(g.w).second) sim::fail("wrong-fill", "twice", "%s is listed twice among the words on translates of the sites of %s", str(g).c_str(), str(in).c_str()); }
                    if (got.size() != n3 * places.size()) sim::fail("wrong-fill", "count", "%zu words are listed on translates of the sites of %s, %zu expected", got.size(), str(in).c_str(), n3 * places.size());
                    sim::probe(7); break; }
                case X_SCAN: { uint64_t t = 0; auto lk = sys.get_read_lock(); const auto& st = sys.Symbols(); for (size_t i = 0; i < st.size(); ++i) { const auto& s = st[i]; t += (uint64_t) s.Id() + s.is_hermitian(); t += st.where(s.sequence()).found(); } sim::Quiet q; volatile uint64_t sink = t; (void) sink; break; }
            } } catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", key, "%s failed: %s", key, e.what()); }
            sim::Quiet q; sim::op_done(true);
        }
        void finish() {
            sim::label("final"); W id; std::vector<W> none{id};
            for (auto& x : made) {
                if (!x.poly.empty()) check_polynomial(sc, *x.m, none, x.poly, [&](const W&, const W& a, const W&) { return a; }, 1.0, "translates");
                else if (x.w == Word{-1}) check_monomial(sc, *x.m, row_words(sc, 1, "rows"), [&](const W& r, const W& c) { return m.mul(r, c); }, 1.0, "moment");
                else { W w; w.w = x.w; w.ph = x.ph; check_monomial(sc, *x.m, none, [&](const W&, const W&) { return w; }, 1.0, "localizing"); } }
            check_symbols(sc, "table"); if (dict) check_dictionary_symbols(sc, 1, "dictionary");
        }
    };
}

WORKLOAD(translations, "C15,C01,C02", 10, F_ALLOC | F_WAKE)
static void translations_gen(PlanRng& r, Plan& p) {
    p.p[0] = (int) r.below((uint64_t) n_sizes); p.p[1] = r.chance(70); int nc = p.p[2] = r.range(1, 4); p.p[3] = r.chance(40); p.p[4] = !r.chance(8); p.p[5] = (int) r.below(100000); p.p[6] = r.range(0, 7); bool mm = r.chance(12);
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 8); for (int i = 0; i < n; ++i) { int x = r.range(0, 99);
        p.ops.push_back({k, x < 26 ? X_CANON : x < 44 ? X_SHIFT : x < 56 ? X_SYM : x < 74 ? X_LM : x < 82 ? X_RAW : x < 87 ? X_NN : x < 88 ? X_DICT : x < 95 ? X_FILL : x < 97 || !mm ? X_SCAN : X_MM, r.chance(4) ? 900 : (int) r.below(64), (int) r.below(4000), (int) r.below(4000)}); } }
}
static void translations_run(const Plan& p) {
    std::unique_ptr<Tx> t; { sim::Quiet q; t = std::make_unique<Tx>(p); }
    run_clients(p, p.p[2], [&](const Op& op) { t->one(op, p.p[3]); });
    sim::Quiet q; t->finish();
}
