// ms.h - matrix systems under simulation: scenarios, an independent model of their operator algebra, and oracles for
// operator matrices, symbol matrices and symbol tables.
#pragma once
#include "common.h"

#include "dictionary/dictionary.h"
#include "dictionary/operator_sequence.h"
#include "dictionary/operator_sequence_generator.h"
#include "dictionary/osg_pair.h"
#include "dictionary/raw_polynomial.h"
#include "matrix/monomial_matrix.h"
#include "matrix/operator_matrix/operator_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix_system/matrix_system.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "scenarios/inflation/causal_network.h"
#include "scenarios/inflation/inflation_context.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/locality/locality_context.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/locality/party.h"
#include "scenarios/pauli/pauli_context.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"

#include <algorithm>
#include <array>
#include <complex>

namespace ms {
    using namespace Moment;
    using MTP = Multithreading::MultiThreadPolicy;
    using cplx = std::complex<double>;

    // ---------------------------------------------------------------------------------------------- model of words
    struct W {                        // i^ph * w, or zero
        bool zero = false; int ph = 0; std::vector<int> w;
        bool same_word(const W& o) const { return zero == o.zero && w == o.w; }
        bool operator==(const W& o) const { return zero == o.zero && (zero || (((ph - o.ph) & 3) == 0 && w == o.w)); }
    };
    inline cplx ipow(int k) { static const cplx t[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; return t[k & 3]; }
    inline std::string str(const W& x) { if (x.zero) return "0"; std::string s = (x.ph & 3) == 0 ? "" : (x.ph & 3) == 1 ? "i" : (x.ph & 3) == 2 ? "-" : "-i"; s += "<"; for (size_t i = 0; i < x.w.size(); ++i) { if (i) s += ' '; s += std::to_string(x.w[i]); } return s + ">"; }
    inline W from(const OperatorSequence& s) {
        W o; if (s.zero()) { o.zero = true; return o; }
        o.ph = (int) s.get_sign(); for (auto x : s.raw()) o.w.push_back((int) x); return o;
    }
    inline bool shortlex(const std::vector<int>& a, const std::vector<int>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

    enum { N_SIZES = 8, N_SHAPES = 12, N_QUBITS = 16, N_NETS = 14 };   // size parameters in general use; locality shapes, those after N_SIZES (five parties; many outcomes; two big ones) for tensors only; qubit arrangements; causal networks
    enum Kind { FREE, COMM, CONJ_B, CONJ_I, IDEM, CLIFF, NILP, LOC, PAULI, PAULI_TX, INFL, ALGC, N_KINDS };

    struct Model {
        int kind = FREE, n = 2;                    // n: operators (or qubits)
        int mode = 0, sub = 0;                     // operators self-adjoint, followed by their adjoints, or alternating with them; which completed algebra
        std::vector<std::vector<int>> gen; std::map<std::vector<int>, std::vector<int>> word_of;   // finite groups: permutations, shortlex-least words
        std::vector<int> l_party, l_mmt;           // locality: party and (global) measurement of each operator
        std::vector<std::vector<int>> shape;       // locality: outcomes of each measurement of each party
        int rows = 0, cols = 0; bool wrap = false; // qubits: lattice (0: chain), wrapped around
        // inflation: ops described by observable copies
        std::vector<std::vector<int>> op_sources;  // per operator: source-copy index per source of its observable
        std::vector<int> op_obs, op_out; std::vector<bool> op_proj; std::vector<std::vector<int>> obs_sources; int n_sources = 0, infl = 1;

        int op_count() const { switch (kind) { case LOC: return (int) l_party.size(); case PAULI: case PAULI_TX: return 3 * n; case INFL: return (int) op_obs.size(); default: return mode ? 2 * n : n; } }
        int adj(int x) const { return mode == 1 ? (x < n ? x + n : x - n) : mode == 2 ? x ^ 1 : x; }
        enum { S3, D4, S4, Z3, UNITARY, ONE_QUBIT, VANISH, NORMAL };
        bool idem(int x) const { return kind == IDEM && (x % 2 == 0); }
        int loc_party(int x) const { return l_party[(size_t) x]; }
        int loc_mmt(int x) const { return l_mmt[(size_t) x]; }

        W reduce(const W& in) const {
            if (in.zero) return in;
            W o = in; auto& w = o.w;
            switch (kind) {
                case FREE: case CONJ_B: case CONJ_I: break;
                case COMM: std::stable_sort(w.begin(), w.end()); break;
                case IDEM: { std::vector<int> r; for (int x : w) if (r.empty() || r.back() != x || !idem(x)) r.push_back(x); w = r; break; }
                case NILP: for (size_t i = 0; i + 1 < w.size(); ++i) if (w[i] == w[i + 1] && w[i] == 0) { o = W{}; o.zero = true; return o; } break;
                case CLIFF: { // anticommuting, each squares to one
                    for (size_t i = 1; i < w.size(); ++i) for (size_t j = i; j > 0 && w[j - 1] > w[j]; --j) { std::swap(w[j - 1], w[j]); o.ph = (o.ph + 2) & 3; }
                    std::vector<int> r; for (int x : w) { if (!r.empty() && r.back() == x) r.pop_back(); else r.push_back(x); } w = r; break; }
                case LOC: {
                    std::stable_sort(w.begin(), w.end(), [&](int a, int b) { return loc_party(a) < loc_party(b); });
                    std::vector<int> r; for (int x : w) { if (!r.empty() && r.back() == x) continue; if (!r.empty() && loc_mmt(r.back()) == loc_mmt(x)) { o = W{}; o.zero = true; return o; } r.push_back(x); } w = r; break; }
                case ALGC: switch (sub) {
                    case UNITARY: { std::vector<int> r; for (int x : w) { if (!r.empty() && r.back() == adj(x)) r.pop_back(); else r.push_back(x); } w = r; break; }
                    case VANISH: for (size_t i = 0; i + 1 < w.size(); ++i) if (w[i] + w[i + 1] == 1) { o = W{}; o.zero = true; return o; } break;
                    case NORMAL: for (size_t i = 1; i < w.size(); ++i) for (size_t j = i; j > 0 && w[j - 1] > w[j] && w[j - 1] == adj(w[j]); --j) std::swap(w[j - 1], w[j]); break;
                    case ONE_QUBIT: break;
                    default: { std::vector<int> v(gen[0].size()); for (size_t i = 0; i < v.size(); ++i) v[i] = (int) i; for (int x : w) { auto u = v; for (size_t i = 0; i < v.size(); ++i) u[i] = gen[(size_t) x][(size_t) v[i]]; v = u; } w = word_of.at(v); break; } }
                    if (sub != ONE_QUBIT) break; [[fallthrough]];
                case PAULI: case PAULI_TX: {
                    std::stable_sort(w.begin(), w.end(), [](int a, int b) { return a / 3 < b / 3; });
                    std::vector<int> r; size_t i = 0;
                    while (i < w.size()) { int q = w[i] / 3, acc = 0, ph = 0; // acc 0: identity, 1..3: X,Y,Z
                        for (; i < w.size() && w[i] / 3 == q; ++i) { int b = w[i] % 3 + 1; if (!acc) acc = b; else if (acc == b) acc = 0; else { int c = 6 - acc - b; bool cyc = (b - acc + 3) % 3 == 1; ph += cyc ? 1 : 3; acc = c; } }
                        o.ph = (o.ph + ph) & 3; if (acc) r.push_back(3 * q + acc - 1); }
                    w = r; break; }
                case INFL: {
                    std::sort(w.begin(), w.end()); { std::vector<int> r; for (int x : w) if (r.empty() || r.back() != x || !op_proj[(size_t) x]) r.push_back(x); w = r; }
                    for (size_t i = 0; i < w.size(); ++i) for (size_t j = i + 1; j < w.size(); ++j) if (w[i] != w[j] && op_obs[w[i]] == op_obs[w[j]] && op_sources[w[i]] == op_sources[w[j]]) { o = W{}; o.zero = true; return o; }
                    break; }
            }
            return o;
        }
        W mul(const W& a, const W& b) const { if (a.zero || b.zero) { W z; z.zero = true; return z; } W c; c.ph = (a.ph + b.ph) & 3; c.w = a.w; c.w.insert(c.w.end(), b.w.begin(), b.w.end()); return reduce(c); }
        W conj(const W& a) const { if (a.zero) return a; W c; c.ph = (4 - a.ph) & 3; c.w.assign(a.w.rbegin(), a.w.rend()); for (int& x : c.w) x = adj(x); return reduce(c); }
        bool aliases() const { return kind == PAULI_TX || kind == INFL; }
        // which member of a class of equal moments stands for it is the library's choice: asked of it for one member,
        // accepted only if it belongs to the class
        std::function<W(const std::vector<int>&)> choose; mutable std::map<std::vector<int>, std::vector<int>> chosen;
        W alias(const W& a) const {
            if (a.zero || !aliases()) return a;
            // on a chain, every member of a class must be given the same representative; the inflation scenario's choice is
            // a greedy relabelling that may keep several
            sim::Quiet quiet; W l = kind == INFL ? a : least(a); auto it = chosen.find(l.w);
            if (it == chosen.end()) { W u; u.w = l.w; W c = choose(l.w); if (c.zero || c.ph || !(least(c) == least(u))) sim::fail("wrong-alias", "class", "the moment form of %s is given as %s, which is another moment", str(u).c_str(), str(c).c_str()); it = chosen.emplace(l.w, c.w).first; }
            l.w = it->second; return l;
        }
        W least(const W& a) const {
            if (a.zero || !aliases()) return a;
            if (kind == PAULI_TX) { // translations: least image on a ring or torus, otherwise pushed against the edges
                W best; bool first = true; int R = rows ? rows : n, C = rows ? cols : 1;
                auto shift = [&](int dr, int dc) { W c; c.ph = a.ph; for (int x : a.w) { int q = x / 3; c.w.push_back(3 * ((q / R + dc + C) % C * R + (q % R + dr + R) % R) + x % 3); } std::sort(c.w.begin(), c.w.end()); if (first || c.w < best.w) { best = c; first = false; } };
                if (wrap && !a.w.empty()) { for (int x : a.w) shift(R - x / 3 % R, C - x / 3 / R); }   // the least image has an operator at the first site
                else { int r = R, c = C; for (int x : a.w) { r = std::min(r, x / 3 % R); c = std::min(c, x / 3 / R); } shift(a.w.empty() ? 0 : -r, a.w.empty() ? 0 : -c); }
                return best;
            }
            // inflation: least image over permutations of the copies of each source
            std::vector<int> perm((size_t) infl); W best = a; std::vector<std::vector<int>> perms;
            for (int i = 0; i < infl; ++i) perm[(size_t) i] = i;
            do perms.push_back(perm); while (std::next_permutation(perm.begin(), perm.end()));
            std::vector<size_t> ix((size_t) n_sources, 0);
            for (;;) {
                W c; c.ph = a.ph; bool ok = true;
                for (int x : a.w) { auto s = op_sources[(size_t) x]; auto& os = obs_sources[(size_t) op_obs[(size_t) x]]; for (size_t k = 0; k < s.size(); ++k) s[k] = perms[ix[(size_t) os[k]]][(size_t) s[k]];
                    int y = -1; for (int z = 0; z < op_count(); ++z) if (op_obs[(size_t) z] == op_obs[(size_t) x] && op_out[(size_t) z] == op_out[(size_t) x] && op_sources[(size_t) z] == s) { y = z; break; }
                    if (y < 0) { ok = false; break; } c.w.push_back(y); }
                if (ok) { std::sort(c.w.begin(), c.w.end()); if (c.w < best.w) best = c; }
                size_t k = 0; while (k < ix.size() && ++ix[k] == perms.size()) ix[k++] = 0;
                if (k == ix.size()) break;
            }
            return best;
        }
        // qubit words of length <= level whose qubits are neighbours in the given sense
        std::set<std::vector<int>> neighbour_words(int level, int k) const {
            std::set<std::vector<int>> sites{{}}; for (int q = 0; q < n; ++q) sites.insert({q}); auto put = [&](std::vector<int> v) { std::sort(v.begin(), v.end()); if ((int) v.size() <= level && std::unique(v.begin(), v.end()) == v.end()) sites.insert(v); };
            if (!rows) { std::function<void(std::vector<int>, int)> go = [&](std::vector<int> v, int off) { put(v); if ((int) v.size() >= level) return; for (int g = 1; g <= k; ++g) { int o = off + g, q = v[0] + o; if (wrap ? o < n : q < n) { auto u = v; u.push_back(q % n); go(u, o); } } }; for (int q = 0; q < n; ++q) go({q}, 0); }
            else for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) {
                auto at = [&](int dr, int dc) { int y = r + dr, x = c + dc; if (wrap) { y %= rows; x %= cols; } return y < rows && x < cols ? x * rows + y : -1; };
                auto shape = [&](std::initializer_list<std::pair<int, int>> l) { std::vector<int> v; for (auto [y, x] : l) { int q = at(y, x); if (q < 0) return; v.push_back(q); } put(v); };
                shape({{0, 0}, {0, 1}}); shape({{0, 0}, {1, 0}}); if (cols >= 3) shape({{0, 0}, {0, 1}, {0, 2}}); if (rows >= 3) shape({{0, 0}, {1, 0}, {2, 0}});
                shape({{0, 0}, {1, 0}, {0, 1}}); shape({{0, 0}, {1, 0}, {1, 1}}); shape({{0, 0}, {0, 1}, {1, 1}}); shape({{1, 0}, {0, 1}, {1, 1}}); shape({{0, 0}, {1, 0}, {0, 1}, {1, 1}}); }
            std::set<std::vector<int>> o; for (auto& v : sites) if ((int) v.size() <= level) { std::vector<std::vector<int>> ws{{}}; for (int q : v) { std::vector<std::vector<int>> nx; for (auto& w : ws) for (int b = 0; b < 3; ++b) { auto u = w; u.push_back(3 * q + b); nx.push_back(u); } ws = nx; } o.insert(ws.begin(), ws.end()); }
            return o;
        }
        mutable std::map<int, std::vector<std::vector<int>>> words_memo;
        const std::vector<std::vector<int>>& words(int level) const {   // distinct non-zero words that are products of <= level operators
            sim::Quiet quiet; auto& o = words_memo[level]; if (!o.empty()) return o;
            std::set<std::vector<int>> all{{}}; std::set<std::vector<int>> cur{{}};
            for (int l = 1; l <= level; ++l) { std::set<std::vector<int>> nx; for (auto& w : cur) for (int x = 0; x < op_count(); ++x) { W t; t.w = w; t.w.push_back(x); W r = reduce(t); if (!r.zero) nx.insert(r.w); } cur = nx; all.insert(nx.begin(), nx.end()); }
            o.assign(all.begin(), all.end()); std::sort(o.begin(), o.end(), shortlex); return o;
        }
    };

    // ---------------------------------------------------------------------------------------------- scenarios
    struct Scenario {
        Model m; std::unique_ptr<MatrixSystem> sys;
        Pauli::PauliMatrixSystem* pauli() const { return m.kind == PAULI || m.kind == PAULI_TX ? static_cast<Pauli::PauliMatrixSystem*>(sys.get()) : nullptr; }
        OperatorSequence seq(const std::vector<int>& w) const { sequence_storage_t s; for (int x : w) s.push_back((oper_name_t) x); return OperatorSequence{std::move(s), sys->Context()}; }
    };

    inline Algebraic::OperatorRule rule(const Algebraic::AlgebraicPrecontext& a, std::vector<int> l, std::vector<int> r, int ph = 0, bool zero = false) {
        sequence_storage_t ls, rs; for (int x : l) ls.push_back((oper_name_t) x); for (int x : r) rs.push_back((oper_name_t) x);
        HashedSequence L{ls, a.hasher};
        return zero ? Algebraic::OperatorRule{L, HashedSequence{true}} : Algebraic::OperatorRule{L, HashedSequence{rs, a.hasher, (SequenceSignType) ph}};
    }

    // kind, size parameter s in 0..N_SIZES-1; made under Quiet by the caller
    inline Scenario make_scenario(int kind, int s, double tol = 1.0) {
        using namespace Algebraic; Scenario o; auto& m = o.m; m.kind = kind;
        static const AlgebraicPrecontext::ConjugateMode modes[3] = {AlgebraicPrecontext::ConjugateMode::SelfAdjoint, AlgebraicPrecontext::ConjugateMode::Bunched, AlgebraicPrecontext::ConjugateMode::Interleaved};
        auto alg = [&](const AlgebraicPrecontext& pc, bool comm, std::vector<OperatorRule> rules) { o.sys = std::make_unique<AlgebraicMatrixSystem>(std::make_unique<AlgebraicContext>(pc, comm, false, rules), tol); };
        switch (kind) {
            case FREE: m.n = 1 + s % 3; alg(AlgebraicPrecontext{(oper_name_t) m.n}, false, {}); break;
            case COMM: m.mode = s < 6 ? 0 : s - 5; m.n = m.mode ? 1 + s % 2 : 2 + s % 3; alg(AlgebraicPrecontext{(oper_name_t) m.n, (AlgebraicPrecontext::ConjugateMode) modes[m.mode]}, true, {}); break;
            case ALGC: { // rules that are not a rewriting system until they have been completed
                m.sub = s % 8; std::vector<OperatorRule> r; bool normal = false;
                m.n = m.sub == Model::S4 || m.sub == Model::VANISH || m.sub == Model::ONE_QUBIT ? 3 : m.sub == Model::Z3 ? 1 : 2;
                m.mode = m.sub == Model::UNITARY ? 1 : m.sub == Model::Z3 || m.sub == Model::NORMAL ? 2 : 0;
                AlgebraicPrecontext pc{(oper_name_t) m.n, (AlgebraicPrecontext::ConjugateMode) modes[m.mode]};
                auto swaps = [&](int k, std::vector<std::pair<int, int>> t) { std::vector<int> v((size_t) k); for (int i = 0; i < k; ++i) v[(size_t) i] = i; for (auto [a, b] : t) std::swap(v[(size_t) a], v[(size_t) b]); m.gen.push_back(v); };
                switch (m.sub) {
                    case Model::S3: swaps(3, {{0, 1}}); swaps(3, {{1, 2}}); for (auto& x : {rule(pc, {0, 1, 0, 1, 0, 1}, {}), rule(pc, {1, 1}, {}), rule(pc, {0, 0}, {})}) r.push_back(x); break;
                    case Model::D4: swaps(4, {{0, 2}}); swaps(4, {{0, 1}, {2, 3}}); for (auto& x : {rule(pc, {0, 0}, {}), rule(pc, {0, 1, 0, 1, 0, 1, 0, 1}, {}), rule(pc, {1, 1}, {})}) r.push_back(x); break;
                    case Model::S4: swaps(4, {{0, 1}}); swaps(4, {{1, 2}}); swaps(4, {{2, 3}}); for (auto& x : {rule(pc, {0, 0}, {}), rule(pc, {1, 1}, {}), rule(pc, {2, 2}, {}), rule(pc, {1, 0, 1}, {0, 1, 0}), rule(pc, {1, 2, 1, 2, 1, 2}, {}), rule(pc, {2, 0}, {0, 2})}) r.push_back(x); break;
                    case Model::Z3: m.gen = {{1, 2, 0}, {2, 0, 1}}; for (auto& x : {rule(pc, {0, 1}, {}), rule(pc, {0, 0, 0}, {})}) r.push_back(x); break;
                    case Model::UNITARY: for (int x = 0; x < 2 * m.n; ++x) r.push_back(rule(pc, {x, m.adj(x)}, {})); break;
                    case Model::ONE_QUBIT: for (int x = 0; x < 3; ++x) r.push_back(rule(pc, {x, x}, {})); r.push_back(rule(pc, {0, 1}, {2}, 1)); break;
                    case Model::VANISH: for (auto& x : {rule(pc, {1, 0}, {0, 1}), rule(pc, {1, 0}, {0, 1}, 2)}) r.push_back(x); break;
                    case Model::NORMAL: normal = true; break; }
                if (!m.gen.empty()) { std::vector<int> e(m.gen[0].size()); for (size_t i = 0; i < e.size(); ++i) e[i] = (int) i; m.word_of[e] = {}; std::vector<std::vector<int>> front{e};
                    while (!front.empty()) { std::vector<std::vector<int>> nx; std::sort(front.begin(), front.end(), [&](auto& a, auto& b) { return m.word_of[a] < m.word_of[b]; });
                        for (auto& v : front) for (int x = 0; x < (int) m.gen.size(); ++x) { auto u = v; for (size_t i = 0; i < u.size(); ++i) u[i] = m.gen[(size_t) x][(size_t) v[i]]; if (m.word_of.emplace(u, std::vector<int>{}).second) { auto wd = m.word_of[v]; wd.push_back(x); m.word_of[u] = wd; nx.push_back(u); } }
                        front = nx; } }
                auto ctx = std::make_unique<AlgebraicContext>(pc, false, normal, r);
                if (!ctx->attempt_completion(60)) sim::fail("incomplete-rules", "completion", "the rules of a %s could not be completed", m.sub == Model::ONE_QUBIT ? "qubit" : "finite group");
                o.sys = std::make_unique<AlgebraicMatrixSystem>(std::move(ctx), tol); break; }
            case CONJ_B: m.mode = 1; m.n = 1 + s % 2; alg(AlgebraicPrecontext{(oper_name_t) m.n, AlgebraicPrecontext::ConjugateMode::Bunched}, false, {}); break;
            case CONJ_I: m.mode = 2; m.n = 1 + s % 2; alg(AlgebraicPrecontext{(oper_name_t) m.n, AlgebraicPrecontext::ConjugateMode::Interleaved}, false, {}); break;
            case IDEM: { m.n = 2 + s % 2; AlgebraicPrecontext pc{(oper_name_t) m.n}; std::vector<OperatorRule> r; for (int i = 0; i < m.n; i += 2) r.push_back(rule(pc, {i, i}, {i})); alg(pc, false, r); break; }
            case CLIFF: { m.n = 2 + s % 3; AlgebraicPrecontext pc{(oper_name_t) m.n}; std::vector<OperatorRule> r; for (int i = 0; i < m.n; ++i) { r.push_back(rule(pc, {i, i}, {})); for (int j = 0; j < i; ++j) r.push_back(rule(pc, {i, j}, {j, i}, 2)); } alg(pc, false, r); break; }
            case NILP: { m.n = 2 + s % 2; AlgebraicPrecontext pc{(oper_name_t) m.n}; alg(pc, false, {rule(pc, {0, 0}, {}, 0, true)}); break; }
            case LOC: { static const std::vector<std::vector<int>> sh[N_SHAPES] = {{{2, 2}, {2, 2}}, {{3}, {3}}, {{2}, {2}, {2}}, {{3, 3}}, {{2}, {2, 3}}, {{3, 2}, {2}}, {{2}, {2, 2}, {2}}, {{4}, {2}}, {{2}, {2}, {2}, {2}, {2}}, {{5, 2}, {4, 2}},
                    // tensors too big to be stored
                    {{2, 2, 2, 2, 2, 2}, {2, 2, 2, 2, 2, 2}, {2, 2, 2, 2}, {2, 2}}, {{3, 3, 3, 3, 3, 3}, {2, 3, 3, 3, 3, 3}, {3, 3, 3}}};
                m.shape = sh[s % N_SHAPES]; std::vector<size_t> mpp, opm; int g = 0;
                for (size_t q = 0; q < m.shape.size(); ++q) { mpp.push_back(m.shape[q].size()); for (int oc : m.shape[q]) { opm.push_back((size_t) oc); for (int z = 0; z + 1 < oc; ++z) { m.l_party.push_back((int) q); m.l_mmt.push_back(g); } ++g; } }
                o.sys = std::make_unique<Locality::LocalityMatrixSystem>(std::make_unique<Locality::LocalityContext>(Locality::Party::MakeList(mpp, opm)), tol); break; }
            case PAULI: case PAULI_TX: {
                static const int plain[N_QUBITS][4] = {{1, 0, 0, 0}, {2, 0, 0, 0}, {3, 0, 0, 0}, {3, 0, 0, 1}, {4, 2, 2, 0}, {6, 2, 3, 1}, {6, 3, 2, 0}, {4, 0, 0, 1}, {5, 0, 0, 0}, {9, 3, 3, 1}, {8, 2, 4, 1}, {8, 4, 2, 0}, {12, 4, 3, 1}, {6, 0, 0, 1}, {7, 0, 0, 0}, {12, 3, 4, 0}},
                    tx[N_QUBITS][4] = {{3, 0, 0, 1}, {4, 0, 0, 1}, {3, 0, 0, 0}, {4, 0, 0, 0}, {4, 2, 2, 1}, {6, 2, 3, 1}, {6, 3, 2, 0}, {2, 0, 0, 1}, {5, 0, 0, 1}, {9, 3, 3, 1}, {8, 4, 2, 1}, {8, 2, 4, 0}, {12, 4, 3, 1}, {6, 0, 0, 1}, {7, 0, 0, 1}, {12, 3, 4, 1}};
                auto& z = (kind == PAULI ? plain : tx)[s % N_QUBITS]; m.n = z[0]; m.rows = z[1]; m.cols = z[2]; m.wrap = z[3]; using namespace Pauli;
                auto wr = m.wrap ? WrapType::Wrap : WrapType::None; auto sy = kind == PAULI_TX ? SymmetryType::Translational : SymmetryType::None;
                o.sys = std::make_unique<PauliMatrixSystem>(m.rows ? std::make_unique<PauliContext>((size_t) m.rows, (size_t) m.cols, wr, sy) : std::make_unique<PauliContext>((size_t) m.n, wr, sy), tol); break; }
            case INFL: {
                using namespace Inflation; std::vector<size_t> obs; std::vector<std::vector<size_t>> src; size_t lvl = 2;
                switch (s % N_NETS) { case 0: obs = {2, 2}; src = {{0, 1}}; break; case 1: obs = {2, 2, 2}; src = {{0, 1}, {1, 2}}; lvl = 1; break; case 2: obs = {2, 2}; src = {{0}, {0, 1}}; break; case 3: obs = {3, 2}; src = {{0, 1}}; break;
                    // observables with no outcomes are operators of any kind; those without source are independent of all others
                    case 8: obs = {0, 2}; src = {{0, 1}}; break; case 9: obs = {0}; src = {{0}}; break; case 10: obs = {0, 0}; src = {{0, 1}}; break; case 11: obs = {2, 3}; src = {{0}}; break; case 12: obs = {0, 2}; src = {{1}}; break; case 13: obs = {3, 0, 2}; src = {{0, 1}, {1, 2}}; lvl = 1; break;
                    case 4: obs = {2}; src = {{0}}; lvl = 3; break; case 5: obs = {2, 2}; src = {{0, 1}}; lvl = 3; break; case 6: obs = {2, 2, 2}; src = {{0, 1}, {1, 2}}; break; default: obs = {2, 2, 2}; src = {{0, 1}, {1, 2}, {0, 2}}; break; }
                m.infl = (int) lvl; std::vector<std::set<oper_name_t>> src2; for (auto& x : src) { std::set<oper_name_t> y; for (size_t z : x) y.insert((oper_name_t) z); src2.push_back(y); } auto ctx = std::make_unique<InflationContext>(CausalNetwork{obs, std::move(src2)}, lvl);
                m.n_sources = (int) src.size(); m.obs_sources.resize(obs.size());
                for (size_t k = 0; k < src.size(); ++k) for (size_t ob : src[k]) m.obs_sources[ob].push_back((int) k);
                // operators in documented order: by observable, then by variant (last source copy fastest? taken from the context), then outcome
                for (const auto& ob : ctx->Observables()) for (const auto& v : ob.variants) for (size_t oc = 0, n = ob.outcomes ? ob.outcomes - 1 : 1; oc < n; ++oc) { m.op_obs.push_back((int) ob.id); m.op_out.push_back((int) oc); m.op_proj.push_back(ob.outcomes > 0); std::vector<int> sc; if (!m.obs_sources[ob.id].empty()) for (auto x : v.indices) sc.push_back((int) x); m.op_sources.push_back(sc); }
                o.sys = std::make_unique<InflationMatrixSystem>(std::move(ctx), tol); break; }
        }
        if (m.aliases()) { auto* sys = o.sys.get(); m.choose = [sys](const std::vector<int>& w) { sequence_storage_t q; for (int x : w) q.push_back((oper_name_t) x); return from(sys->Context().simplify_as_moment(OperatorSequence{std::move(q), sys->Context()})); }; }
        return o;
    }
    // largest level that keeps matrices small
    inline int max_level(const Scenario& sc, size_t cap = 26) { int l = 1; while (l < 3) { size_t d = sc.m.words(l + 1).size(); if (d > cap) break; ++l; } return l; }

    // ---------------------------------------------------------------------------------------------- oracles (call under Quiet)
    using Terms = std::map<std::vector<int>, cplx>;          // moment -> coefficient
    inline void add_term(Terms& t, const W& w, cplx f) { if (!w.zero) { auto& x = t[w.w]; x += f * ipow(w.ph); } }
    inline bool same_terms(const Terms& a, const Terms& b) {
        auto leq = [](const Terms& x, const Terms& y) { for (auto& [k, v] : x) { auto it = y.find(k); cplx o = it == y.end() ? cplx{0, 0} : it->second; if (std::abs(v - o) > 1e-7) return false; } return true; };
        return leq(a, b) && leq(b, a);
    }
    inline std::string str(const Terms& t) { std::string s; for (auto& [k, v] : t) { W w; w.w = k; char b[64]; snprintf(b, sizeof b, "%s(%g%+gi)", s.empty() ? "" : " + ", v.real(), v.imag()); s += b; s += str(w); } return s.empty() ? "0" : s; }

    inline Terms value_of(const SymbolTable& st, const Monomial& m, const char* key) {
        Terms t; if (m.id == 0) return t;
        if (m.id < 0 || (size_t) m.id >= st.size()) sim::fail("bad-symbol", key, "a matrix cell names symbol %ld, the table has %zu", (long) m.id, st.size());
        const auto& s = st[(size_t) m.id];
        if (!s.has_sequence()) sim::fail("bad-symbol", key, "symbol %ld has no operator sequence", (long) m.id);
        add_term(t, from(m.conjugated ? s.sequence_conj() : s.sequence()), m.factor); return t;
    }
    // polynomials handed out hold no term that is zero, and none twice
    inline Terms value_of(const SymbolTable& st, const Polynomial& p, const char* key) {
        for (const auto& m : p) { if (m.id == 0 || m.factor == cplx{0, 0}) sim::fail("not-canonical", key, "a polynomial of %zu terms holds one that is zero", p.size()); for (const auto& n : p) if (&n < &m && n.id == m.id && n.conjugated == m.conjugated) sim::fail("not-canonical", key, "a polynomial of %zu terms holds symbol %ld twice", p.size(), (long) m.id); }
        Terms t; for (const auto& m : p) for (auto& [k, v] : value_of(st, m, key)) t[k] += v; return t; }

    // words of the generating list, as used by the system under test, checked against the model as a set
    inline std::vector<W> row_words(const Scenario& sc, size_t level, const char* key) {
        std::vector<W> o; for (const auto& s : sc.sys->Context().operator_sequence_generator(level)) o.push_back(from(s));
        std::set<std::vector<int>> got; for (auto& w : o) { if (w.zero || w.ph) sim::fail("word-list", key, "the level-%zu word list holds %s", level, str(w).c_str()); if (!got.insert(w.w).second) sim::fail("word-list", key, "the level-%zu word list holds %s twice", level, str(w).c_str()); }
        auto ex = sc.m.words((int) level);
        if (std::set<std::vector<int>>(ex.begin(), ex.end()) != got) sim::fail("word-list", key, "the level-%zu word list has %zu words, %zu expected, or other words", level, got.size(), ex.size());
        return o;
    }
    inline std::vector<W> nn_words(const Scenario& sc, size_t level, size_t nb) {
        std::vector<W> o; for (const auto& s : static_cast<const Pauli::PauliContext&>(sc.sys->Context()).operator_sequence_generator(Pauli::NearestNeighbourIndex{level, nb})) o.push_back(from(s)); return o;
    }

    // expected operator of each cell: f(row word, column word)
    template<typename F>
    void check_monomial(const Scenario& sc, const SymbolicMatrix& sm, const std::vector<W>& rows, F&& cell, cplx pre, const char* key) {
        const auto& m = sc.m; const auto& st = sc.sys->Symbols();
        if (!sm.is_monomial()) sim::fail("wrong-matrix", key, "a monomial matrix was requested, a polynomial one returned");
        const auto& mm = dynamic_cast<const MonomialMatrix&>(sm);
        size_t d = rows.size(); if (mm.Dimension() != d) sim::fail("wrong-matrix", key, "matrix has dimension %zu, expected %zu", mm.Dimension(), d);
        bool herm = true; std::vector<Terms> all(d * d);
        for (size_t r = 0; r < d; ++r) for (size_t c = 0; c < d; ++c) {
            W e = cell(m.conj(rows[r]), rows[c]);
            if (mm.has_unaliased_operator_matrix()) { W g = from(mm.unaliased_operator_matrix()(std::array<size_t, 2>{r, c})); if (!(g == e)) sim::fail("wrong-operator", key, "operator cell (%zu,%zu) is %s, expected %s", r, c, str(g).c_str(), str(e).c_str()); }
            W a = m.alias(e);
            if (m.aliases() && mm.has_aliased_operator_matrix()) { W g = from(mm.aliased_operator_matrix()(std::array<size_t, 2>{r, c})); if (!(g == a)) sim::fail("wrong-alias", key, "moment cell (%zu,%zu) is %s, expected %s", r, c, str(g).c_str(), str(a).c_str()); }
            Terms t; add_term(t, a, pre); Terms g = value_of(st, mm.SymbolMatrix(r, c), key);
            if (!same_terms(t, g)) sim::fail("wrong-symbol", key, "symbol cell (%zu,%zu) stands for %s, expected %s", r, c, str(g).c_str(), str(t).c_str());
            all[r * d + c] = t;
        }
        for (size_t r = 0; r < d && herm; ++r) for (size_t c = 0; c <= r && herm; ++c) { Terms t; for (auto& [k, v] : all[r * d + c]) { W w; w.w = k; add_term(t, m.alias(m.conj(w)), std::conj(v)); } if (!same_terms(t, all[c * d + r])) herm = false; }
        if (mm.Hermitian() != herm) sim::fail("hermitian-flag", key, "matrix says hermitian=%d, its entries say %d", (int) mm.Hermitian(), (int) herm);
        // summary sets
        std::set<symbol_name_t> inc; for (size_t r = 0; r < d; ++r) for (size_t c = 0; c < d; ++c) inc.insert(mm.SymbolMatrix(r, c).id);
        if (inc != mm.IncludedSymbols()) sim::fail("wrong-summary", key, "the matrix lists %zu symbols as included, its cells hold %zu others", mm.IncludedSymbols().size(), inc.size());
        std::set<symbol_name_t> re, im; for (auto id : inc) { auto [a, b] = st[(size_t) id].basis_key(); if (a >= 0) re.insert((symbol_name_t) a); if (b >= 0) im.insert((symbol_name_t) b); }
        if (re != mm.RealBasisIndices() || im != mm.ImaginaryBasisIndices()) sim::fail("wrong-summary", key, "basis elements listed by the matrix differ from those of its cells");
    }
    // polynomial matrix: sum of weighted cells
    template<typename F>
    void check_polynomial(const Scenario& sc, const SymbolicMatrix& sm, const std::vector<W>& rows, const std::vector<std::pair<W, cplx>>& poly, F&& cell, cplx pre, const char* key) {
        const auto& m = sc.m; const auto& st = sc.sys->Symbols(); size_t d = rows.size();
        if (sm.Dimension() != d) sim::fail("wrong-matrix", key, "matrix has dimension %zu, expected %zu", sm.Dimension(), d);
        auto* pm = dynamic_cast<const PolynomialMatrix*>(&sm); auto* mm = dynamic_cast<const MonomialMatrix*>(&sm);
        bool herm = true; std::vector<Terms> all(d * d);
        for (size_t r = 0; r < d; ++r) for (size_t c = 0; c < d; ++c) {
            Terms e; for (auto& [w, f] : poly) add_term(e, m.alias(cell(m.conj(rows[r]), w, rows[c])), f * pre);
            Terms g = pm ? value_of(st, pm->SymbolMatrix(r, c), key) : value_of(st, mm->SymbolMatrix(r, c), key);
            if (!same_terms(e, g)) sim::fail("wrong-polynomial", key, "cell (%zu,%zu) stands for %s, expected %s", r, c, str(g).c_str(), str(e).c_str());
            all[r * d + c] = e;
        }
        for (size_t r = 0; r < d && herm; ++r) for (size_t c = 0; c <= r && herm; ++c) { Terms t; for (auto& [k, v] : all[r * d + c]) { W w; w.w = k; add_term(t, m.alias(m.conj(w)), std::conj(v)); } if (!same_terms(t, all[c * d + r])) herm = false; }
        if (sm.Hermitian() && !herm) sim::fail("hermitian-flag", key, "matrix says it is hermitian, its entries are not");
    }

    inline void check_symbols(const Scenario& sc, const char* key) {
        const auto& m = sc.m; const auto& st = sc.sys->Symbols(); size_t n = st.size();
        std::map<std::vector<int>, size_t> owner; std::vector<size_t> re, im;
        if (n < 2 || !st[0].sequence().zero() || !st[1].sequence().empty() || st[1].sequence().zero()) sim::fail("symbol-table", key, "zero and identity are not the first two symbols");
        for (size_t i = 0; i < n; ++i) {
            const auto& s = st[i];
            if ((size_t) s.Id() != i) sim::fail("symbol-table", key, "symbol at position %zu calls itself %ld", i, (long) s.Id());
            auto [kr, ki] = s.basis_key();
            if (i >= 1) { if (kr >= 0) { if ((size_t) kr >= st.Basis.RealSymbolCount() || st.Basis.RealSymbols()[(size_t) kr] != i) sim::fail("symbol-table", key, "real basis element %ld does not lead back to symbol %zu", (long) kr, i); re.push_back((size_t) kr); }
                if (ki >= 0) { if ((size_t) ki >= st.Basis.ImaginarySymbolCount() || st.Basis.ImaginarySymbols()[(size_t) ki] != i) sim::fail("symbol-table", key, "imaginary basis element %ld does not lead back to symbol %zu", (long) ki, i); im.push_back((size_t) ki); }
                if (kr >= 0 && st.Basis.imaginary_from_real(kr) != ki) sim::fail("symbol-table", key, "real element %ld of symbol %zu is paired with imaginary element %ld, not %ld", (long) kr, i, (long) st.Basis.imaginary_from_real(kr), (long) ki);
                if (ki >= 0 && st.Basis.real_from_imaginary(ki) != kr) sim::fail("symbol-table", key, "imaginary element %ld of symbol %zu is paired with another real element", (long) ki, i); }
            if (i == 0 || !s.has_sequence()) continue;
            W w = from(s.sequence()), c = from(s.sequence_conj());
            if (w.zero || w.ph) sim::fail("symbol-table", key, "symbol %zu stands for %s", i, str(w).c_str());
            if (!(m.reduce(w) == w)) sim::fail("symbol-table", key, "symbol %zu stands for %s, whose canonical form is %s", i, str(w).c_str(), str(m.reduce(w)).c_str());
            if (!(m.alias(w) == w)) sim::fail("symbol-table", key, "symbol %zu stands for %s, whose moment form is %s", i, str(w).c_str(), str(m.alias(w)).c_str());
            W ec = m.alias(m.conj(w));
            if (!(ec == c)) sim::fail("symbol-table", key, "symbol %zu stands for %s, its conjugate is recorded as %s instead of %s", i, str(w).c_str(), str(c).c_str(), str(ec).c_str());
            bool h = ec == w, ah = ec.w == w.w && ((ec.ph - w.ph) & 3) == 2;
            if (s.is_hermitian() != h || s.is_antihermitian() != ah) sim::fail("symbol-table", key, "symbol %zu (%s) has hermitian=%d antihermitian=%d, expected %d %d", i, str(w).c_str(), (int) s.is_hermitian(), (int) s.is_antihermitian(), (int) h, (int) ah);
            if ((kr >= 0) != !ah || (ki >= 0) != !h) sim::fail("symbol-table", key, "symbol %zu (%s) has basis elements (%ld,%ld)", i, str(w).c_str(), (long) kr, (long) ki);
            if (!owner.emplace(w.w, i).second) sim::fail("symbol-duplicate", key, "moment %s has two symbols, %zu and %zu", str(w).c_str(), owner[w.w], i);
            if (ec.w != w.w && !owner.emplace(ec.w, i).second) sim::fail("symbol-duplicate", key, "moment %s has two symbols, %zu and %zu", str(ec).c_str(), owner[ec.w], i);
            auto l1 = st.where(s.sequence()); if (!l1.found() || (size_t) l1->Id() != i || l1.is_conjugated) sim::fail("symbol-lookup", key, "looking up %s does not give symbol %zu", str(w).c_str(), i);
            if (!h && !ah) { auto l2 = st.where(s.sequence_conj()); if (!l2.found() || (size_t) l2->Id() != i || !l2.is_conjugated) sim::fail("symbol-lookup", key, "looking up %s does not give the conjugate of symbol %zu", str(ec).c_str(), i); }
        }
        if (re.size() != st.Basis.RealSymbolCount() || im.size() != st.Basis.ImaginarySymbolCount()) sim::fail("symbol-table", key, "%zu real and %zu imaginary elements listed, symbols use %zu and %zu", st.Basis.RealSymbolCount(), st.Basis.ImaginarySymbolCount(), re.size(), im.size());
    }
    // every word of the dictionary up to this length must have a symbol
    inline void check_dictionary_symbols(const Scenario& sc, int level, const char* key) {
        const auto& st = sc.sys->Symbols();
        for (auto& w : sc.m.words(level)) { W x; x.w = w; W a = sc.m.alias(x); auto s = sc.seq(w); auto l = st.where(s); if (!l.found()) sim::fail("symbol-missing", key, "the dictionary of length %d was generated, but %s has no symbol", level, str(x).c_str());
            W g = from(l.is_conjugated ? l->sequence_conj() : l->sequence()); if (g.w != a.w) sim::fail("symbol-lookup", key, "looking up %s gives %s", str(x).c_str(), str(g).c_str()); }
    }
}
