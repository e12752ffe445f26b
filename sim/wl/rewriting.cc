// Rewriting rules between words of operators: rules put in one after another, completed in pieces, looked at half way,
// and the words they rewrite, against operators that satisfy the rules.
#include "common.h"

#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/name_table.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "dictionary/operator_sequence.h"

#include <algorithm>
#include <cmath>

using namespace Moment;
using namespace Moment::Algebraic;

namespace {
    enum { R_ADD, R_FAMILY, R_COMPLETE, R_IS, R_WORDS, R_CONJ, R_SHRINK, R_STEP, R_ORDER, R_COPY, R_CTX, R_N };
    const char* const op_names[] = {"add-rule", "add-rules", "complete", "is-complete", "reduce", "conjugate-rule", "reduce-rules", "combine", "another-order", "copy", "context"};
    using Word = std::vector<int>;
    struct W { Word w; int ph = 0; bool zero = false; bool operator==(const W& o) const { return zero ? o.zero : !o.zero && w == o.w && ph == o.ph; } };
    std::string str(const W& x) { if (x.zero) return "0"; static const char* const s[] = {"", "i ", "-", "-i "}; std::string o = s[x.ph & 3]; if (x.w.empty()) return o + "1"; for (int c : x.w) o += (char) ('a' + c); return o; }
    sequence_storage_t raw(const Word& w) { sequence_storage_t s; for (int x : w) s.push_back((oper_name_t) x); return s; }
    W from(const HashedSequence& s) { W o; o.zero = s.zero(); if (o.zero) return o; o.ph = (int) s.get_sign(); for (auto x : s) o.w.push_back((int) x); return o; }
    bool less(const Word& a, const Word& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }

    // A matrix with at most one entry, a power of i, in each row and each column.
    struct Mat { std::vector<signed char> to, ph; bool operator==(const Mat& o) const { return to == o.to && ph == o.ph; } bool operator<(const Mat& o) const { return std::tie(to, ph) < std::tie(o.to, o.ph); } bool zero() const { for (auto t : to) if (t >= 0) return false; return true; } };
    Mat mul(const Mat& a, const Mat& b) { size_t d = a.to.size(); Mat o{std::vector<signed char>(d, -1), std::vector<signed char>(d, 0)}; for (size_t i = 0; i < d; ++i) if (a.to[i] >= 0) { size_t k = (size_t) a.to[i]; if (b.to[k] >= 0) { o.to[i] = b.to[k]; o.ph[i] = (signed char) ((a.ph[i] + b.ph[k]) & 3); } } return o; }
    Mat dagger(const Mat& a) { size_t d = a.to.size(); Mat o{std::vector<signed char>(d, -1), std::vector<signed char>(d, 0)}; for (size_t i = 0; i < d; ++i) if (a.to[i] >= 0) { size_t k = (size_t) a.to[i]; o.to[k] = (signed char) i; o.ph[k] = (signed char) ((4 - a.ph[i]) & 3); } return o; }

    // Operators that satisfy every rule used.
    struct Model {
        int mode = 0, n_raw = 1, n = 1, d = 1; std::vector<Mat> ops; std::vector<Word> words; std::vector<int> cls, wph; std::vector<std::vector<int>> members; int zero_cls = -1; size_t limit = 20;
        int star(int x) const { return mode == 0 ? x : mode == 1 ? (x + n_raw) % n : x ^ 1; }
        Word conj(const Word& w) const { Word o; for (size_t i = w.size(); i-- > 0;) o.push_back(star(w[i])); return o; }
        Mat val(const Word& w) const { Mat m{std::vector<signed char>((size_t) d), std::vector<signed char>((size_t) d, 0)}; for (int i = 0; i < d; ++i) m.to[(size_t) i] = (signed char) i; for (int x : w) m = mul(m, ops[(size_t) x]); return m; }
        bool same(const W& a, const W& b) const {
            Mat x = val(a.w), y = val(b.w); bool zx = a.zero || x.zero(), zy = b.zero || y.zero(); if (zx || zy) return zx && zy;
            for (auto& p : x.ph) p = (signed char) ((p + a.ph) & 3); for (auto& p : y.ph) p = (signed char) ((p + b.ph) & 3); for (int i = 0; i < d; ++i) { if (x.to[(size_t) i] < 0) x.ph[(size_t) i] = 0; if (y.to[(size_t) i] < 0) y.ph[(size_t) i] = 0; } return x == y; }
        Model(const Plan& p) {
            mode = p.p[0] % 3; n_raw = 1 + p.p[1] % (mode ? 2 : 4); n = mode ? 2 * n_raw : n_raw; d = 1 + p.p[2] % 6; PlanRng r{(uint64_t) p.p[3] * 7368787 + 5}; int style = p.p[4] % 6;
            for (int k = 0; k < n_raw; ++k) {
                Mat m{std::vector<signed char>((size_t) d, -1), std::vector<signed char>((size_t) d, 0)};
                std::vector<int> perm; for (int i = 0; i < d; ++i) perm.push_back(i); for (int i = d; i-- > 1;) std::swap(perm[(size_t) i], perm[r.below((uint64_t) i + 1)]);
                if (style == 0) { for (int i = 0; i < d; ++i) if (r.chance(60)) m.to[(size_t) i] = (signed char) i; }                                                              // projectors that commute
                else if (style == 1 && (d == 2 || d == 4)) { int pl = 1 + (int) r.below((uint64_t) (d * d - 1)), x = 0, z = 0; for (int q = 0; (1 << q) < d; ++q) { int c = pl >> (2 * q) & 3; if (c == 1 || c == 2) x |= 1 << q; if (c == 3 || c == 2) z |= 1 << q; } for (int i = 0; i < d; ++i) { int ny = __builtin_popcount((unsigned) (x & z)), s = __builtin_popcount((unsigned) (i & z)) & 1; m.to[(size_t) i] = (signed char) (i ^ x); m.ph[(size_t) i] = (signed char) ((3 * ny + 2 * s) & 3); }   // Pauli operators
                    if (!(m == dagger(m))) { m = dagger(m); } }
                else if (mode == 0) { for (int i = 0; i < d;) { int a = perm[(size_t) i]; if (i + 1 < d && r.chance(60)) { int b = perm[(size_t) i + 1], q = style == 2 ? 0 : style == 3 ? 2 * r.range(0, 1) : r.range(0, 3); m.to[(size_t) a] = (signed char) b; m.ph[(size_t) a] = (signed char) q; m.to[(size_t) b] = (signed char) a; m.ph[(size_t) b] = (signed char) ((4 - q) & 3); i += 2; } else { if (r.chance(70)) { m.to[(size_t) a] = (signed char) a; m.ph[(size_t) a] = (signed char) (style == 2 ? 0 : 2 * r.range(0, 1)); } ++i; } } }
                else { for (int i = 0; i < d; ++i) if (r.chance(80)) { m.to[(size_t) i] = (signed char) perm[(size_t) i]; m.ph[(size_t) i] = (signed char) (style == 2 ? 0 : style == 3 ? 2 * r.range(0, 1) : r.range(0, 3)); } }
                if (mode == 0) ops.push_back(m); else { ops.resize((size_t) n); int x = mode == 1 ? k : 2 * k; ops[(size_t) x] = m; ops[(size_t) star(x)] = dagger(m); }
            }
            limit = n == 1 ? 24 : std::min<size_t>(24, (size_t) (60 / std::log2((double) n)));
            words.push_back({}); for (size_t i = 0; i < words.size() && words.size() < 420; ++i) if (words[i].size() < 7) for (int x = 0; x < n; ++x) { Word w = words[i]; w.push_back(x); words.push_back(w); }
            std::map<Mat, int> seen; for (auto& w : words) { Mat m = val(w); int ph = 0; for (size_t i = 0; i < (size_t) d; ++i) if (m.to[i] >= 0) { ph = m.ph[i]; break; } for (size_t i = 0; i < (size_t) d; ++i) m.ph[i] = m.to[i] < 0 ? 0 : (signed char) ((m.ph[i] - ph) & 3); auto [it, nw] = seen.emplace(m, (int) members.size()); if (nw) { members.emplace_back(); if (m.zero()) zero_cls = it->second; } members[(size_t) it->second].push_back((int) cls.size()); cls.push_back(it->second); wph.push_back(ph); }
        }
        // A relation they satisfy, the greater word first.
        bool relation(uint64_t seed, W& l, W& r, const Word* inner = nullptr) const {
            PlanRng g{seed * 2246822519u + 3}; bool pal = g.chance(35); for (int t = 0; t < 14; ++t) {
                size_t hi = words.size(); if (g.chance(60)) { hi = 1; for (int k = 0, q = n; k < 3 && hi + (size_t) q < words.size(); ++k, q *= n) hi += (size_t) q; } if (hi < 2) hi = words.size(); size_t u = 1 + g.below(hi - 1);
                auto rank = [&](const Word& w) { size_t at = 0; if (w.size() > 12) return (size_t) 0; for (int x : w) at = at * (size_t) n + (size_t) x + 1; return at < words.size() && words[at] == w ? at : (size_t) 0; }; bool sym = pal && t < 9;
                if (inner && t < 6) { Word w = random_word(g, 2), e = sym ? conj(w) : random_word(g, 2); w.insert(w.end(), inner->begin(), inner->end()); w.insert(w.end(), e.begin(), e.end()); if (!(u = rank(w))) continue; }   // a word that holds this one
                else if (sym) { Word w = random_word(g, 3), e = conj(w); if (mode == 0 && g.chance(60)) w.push_back((int) g.below((uint64_t) n)); w.insert(w.end(), e.begin(), e.end()); if (!(u = rank(w))) continue; }                                                           // a word that is its own conjugate
                int c = cls[u];
                if (c == zero_cls && u && g.chance(12)) { int a = g.range(0, 3); l = W{words[u], a, false}; r = W{words[u], (a + g.range(1, 3)) & 3, false}; return true; }      // a word equal to another multiple of itself
                if (c == zero_cls && (u < 2 || members[(size_t) c][0] == (int) u || !g.chance(35))) { l = W{words[u], g.range(0, 3), false}; r = W{{}, 0, true}; return true; }
                std::vector<int> low; for (int v : members[(size_t) c]) if ((size_t) v < u && (!sym || conj(words[(size_t) v]) == words[(size_t) v])) low.push_back(v); if (low.empty()) continue; size_t v = (size_t) (g.chance(50) ? low[0] : low[g.below(low.size())]);
                int s = g.chance(60) ? 0 : g.range(0, 3); if (c == zero_cls) { l = W{words[u], g.range(0, 3), false}; r = W{words[v], g.range(0, 3), false}; return true; } l = W{words[u], s, false}; r = W{words[v], (s + wph[u] - wph[v] + 8) & 3, false}; return true; }
            return false; }
        bool commute() const { for (auto& a : ops) for (auto& b : ops) { if (!commute(a, b)) return false; } return true; }
        static bool commute(const Mat& a, const Mat& b) { Mat x = mul(a, b), y = mul(b, a); for (size_t i = 0; i < x.to.size(); ++i) { if (x.to[i] < 0) x.ph[i] = 0; if (y.to[i] < 0) y.ph[i] = 0; } return x == y; }
        bool normal() const { for (auto& a : ops) if (!commute(a, dagger(a))) return false; return true; }
        Word random_word(PlanRng& g, int longest) const { Word w; int len = g.range(0, longest); for (int i = 0; i < len; ++i) w.push_back((int) g.below((uint64_t) n)); return w; }
    };
    AlgebraicPrecontext::ConjugateMode cmode(int m) { return m == 0 ? AlgebraicPrecontext::ConjugateMode::SelfAdjoint : m == 1 ? AlgebraicPrecontext::ConjugateMode::Bunched : AlgebraicPrecontext::ConjugateMode::Interleaved; }

    struct Shared { Model m; AlgebraicPrecontext apc; std::unique_ptr<AlgebraicContext> cx; std::vector<std::pair<W, W>> given; bool ok = false;
        OperatorRule rule(const W& l, const W& r) const { return OperatorRule{seq(l), seq(r)}; }
        HashedSequence seq(const W& w) const { return w.zero ? HashedSequence{true} : HashedSequence{raw(w.w), apc.hasher, (SequenceSignType) w.ph}; }
        Shared(const Plan& p) : m{p}, apc{(oper_name_t) m.n_raw, cmode(m.mode)} {} };
    size_t longest(const OperatorRulebook& b) { size_t n = 0; for (auto& [h, r] : b.rules()) n = std::max(n, r.LHS().size()); return n; }
    std::string str(const OperatorRulebook& b) { std::string o; int k = 0; for (auto& [h, r] : b.rules()) { if (k++) o += ", "; if (k > 14) { o += "..."; break; } o += str(from(r.LHS())) + " -> " + str(from(r.RHS())); } return "{" + o + "}"; }
    std::string str(const std::vector<std::pair<W, W>>& g) { std::string o; for (auto& [l, r] : g) o += (o.empty() ? "" : ", ") + str(l) + " = " + str(r); return "{" + o + "}"; }

    bool sub(const Word& w, const HashedSequence& l, size_t at) { if (at + l.size() > w.size()) return false; for (size_t i = 0; i < l.size(); ++i) if (w[at + i] != (int) l[i]) return false; return true; }
    // Rewrites by whichever rule, wherever it applies.
    W rewrite(const OperatorRulebook& b, W w, PlanRng& g) {
        for (;;) { std::vector<std::pair<const OperatorRule*, size_t>> at; for (auto& [h, r] : b.rules()) for (size_t i = 0; i + r.LHS().size() <= w.w.size(); ++i) if (sub(w.w, r.LHS(), i)) at.emplace_back(&r, i);
            if (at.empty()) return w; auto [r, i] = at[g.below(at.size())]; if (r->RHS().zero()) return W{{}, 0, true};
            Word o(w.w.begin(), w.w.begin() + (long) i); for (auto x : r->RHS()) o.push_back((int) x); o.insert(o.end(), w.w.begin() + (long) (i + r->LHS().size()), w.w.end()); w.w = o; w.ph = (w.ph + (int) r->RHS().get_sign()) & 3; } }

    void check_sound(const Shared& s, const OperatorRulebook& b, const std::vector<std::pair<W, W>>& given, const char* key) {
        for (auto& [h, r] : b.rules()) { W l = from(r.LHS()), q = from(r.RHS());
            if (r.LHS().hash() != s.apc.hasher(raw(l.w)) || h != r.LHS().hash() || (!q.zero && r.RHS().hash() != s.apc.hasher(raw(q.w))) || r.implies_zero() != q.zero || l.ph || l.zero) sim::fail("bad-rule", key, "after %s, the rule %s -> %s of %s is not well formed", key, str(l).c_str(), str(q).c_str(), str(b).c_str());
            if (!q.zero && !less(q.w, l.w)) sim::fail("bad-rule", "order", "the rule %s -> %s makes no word less", str(l).c_str(), str(q).c_str());
            if (!s.m.same(l, q)) sim::fail("unsound", key, "after %s, %s has the rule %s -> %s, which does not hold for operators that satisfy %s", key, str(b).c_str(), str(l).c_str(), str(q).c_str(), str(given).c_str()); }
    }
    // Every way the library has of rewriting a word.
    W reduce_all(const Shared& s, const OperatorRulebook& b, const W& w, bool sound, const std::vector<std::pair<W, W>>& given) {
        HashedSequence in = s.seq(w); W o[7]; o[0] = from(b.reduce(in)); o[1] = from(b.reduce_via_iteration(in)); o[2] = from(b.reduce_via_search(in));
        { HashedSequence c = in; auto res = b.reduce_in_place(c); o[3] = from(c); if (!o[3].zero && c.hash() != s.apc.hasher(raw(o[3].w))) sim::fail("wrong-reduction", "hash", "%s, rewritten in place to %s, has the hash of another word", str(w).c_str(), str(o[3]).c_str()); if (c.zero() && (c.get_sign() != SequenceSignType::Positive || !c.empty())) sim::fail("wrong-reduction", "zero", "%s, rewritten in place, is a zero with a sign or operators", str(w).c_str());
          if ((res == OperatorRulebook::RawReductionResult::NoMatch) != (o[3] == w)) sim::fail("wrong-reduction", "result", "rewriting %s to %s in place is reported as %d", str(w).c_str(), str(o[3]).c_str(), (int) res); }
        for (int k = 4; k < 7; ++k) { auto rw = raw(w.w); auto sg = (SequenceSignType) w.ph; auto res = rw.empty() ? OperatorRulebook::RawReductionResult::NoMatch : k == 4 ? b.reduce_in_place(rw, sg) : k == 5 ? b.reduce_via_iteration(rw, sg) : b.reduce_via_search(rw, sg); if (res == OperatorRulebook::RawReductionResult::SetToZero) o[k].zero = true; else { for (auto x : rw) o[k].w.push_back((int) x); o[k].ph = (int) sg; } }
        static const char* const how[] = {"", " by iteration", " by search", " in place", " in place", " by iteration", " by search"};
        bool red = b.can_reduce(raw(w.w)), any = false; for (auto& [h, r] : b.rules()) for (size_t i = 0; i < w.w.size(); ++i) any |= sub(w.w, r.LHS(), i);
        if (red != any) sim::fail("wrong-reduction", "can-reduce", "with %s, the word %s is said %s", str(b).c_str(), str(w).c_str(), red ? "to be reducible" : "not to be reducible");
        for (int k = 0; k < 7; ++k) {
            if (sound && !s.m.same(w, o[k])) sim::fail("unsound", "reduction", "with %s, %s is rewritten%s as %s, which differs for operators that satisfy %s", str(b).c_str(), str(w).c_str(), how[k], str(o[k]).c_str(), str(given).c_str());
            for (auto& [h, r] : b.rules()) for (size_t i = 0; i < o[k].w.size(); ++i) if (sub(o[k].w, r.LHS(), i)) sim::fail("wrong-reduction", "not-finished", "with %s, %s is rewritten%s as %s, which can be rewritten further", str(b).c_str(), str(w).c_str(), how[k], str(o[k]).c_str());
            if (!o[k].zero && less(w.w, o[k].w)) sim::fail("wrong-reduction", "greater", "%s is rewritten%s as %s", str(w).c_str(), how[k], str(o[k]).c_str()); }
        return o[0];
    }
    void check_complete(const Shared& s, const OperatorRulebook& b, const std::vector<std::pair<W, W>>& given, uint64_t seed, const char* key) {
        PlanRng g{seed * 40503 + 11}; int lim = (int) std::min<size_t>(9, s.m.limit - 8);
        for (int t = 0; t < 8; ++t) { W w; w.w = s.m.random_word(g, lim); w.ph = g.range(0, 3); W n = reduce_all(s, b, w, true, given); HashedSequence in = s.seq(w);
            W all[] = {from(b.reduce_via_iteration(in)), from(b.reduce_via_search(in)), rewrite(b, w, g), rewrite(b, w, g)};
            for (auto& o : all) if (!(o == n)) sim::fail("not-confluent", key, "%s, said to be complete after %s, rewrites %s both as %s and as %s", str(b).c_str(), key, str(w).c_str(), str(n).c_str(), str(o).c_str()); }
        for (auto& [l0, r0] : given) for (int cj = 0; cj < 2; ++cj) for (int t = 0; t < 2; ++t) {
            W l = l0, r = r0; if (cj) { l.w = s.m.conj(l.w); l.ph = (4 - l.ph) & 3; r.w = s.m.conj(r.w); r.ph = (4 - r.ph) & 3; }
            Word x, y; if (t) { x = s.m.random_word(g, 3); y = s.m.random_word(g, 3); } auto wrap = [&](W& q) { Word o = x; o.insert(o.end(), q.w.begin(), q.w.end()); o.insert(o.end(), y.begin(), y.end()); q.w = o; }; if (!l.zero) wrap(l); if (!r.zero) wrap(r);
            W a = from(b.reduce(s.seq(l))), c = r.zero ? r : from(b.reduce(s.seq(r)));
            if (!(a == c)) sim::fail("rule-lost", key, "%s, said to be complete after %s, rewrites %s as %s but %s as %s; given %s", str(b).c_str(), key, str(l).c_str(), str(a).c_str(), str(r).c_str(), str(c).c_str(), str(given).c_str()); }
    }

    struct Client {
        Shared& s; OperatorRulebook b; std::vector<std::pair<W, W>> given; bool lossy = false, dead = false, done = false;
        explicit Client(Shared& sh) : s{sh}, b{sh.apc} {}
        // Would this many steps make words too long to have a hash?
        struct Long {}; struct Watch : RuleLogger { size_t most, left = 150; explicit Watch(size_t m) : most{m} {} void see(const OperatorRule& r) { if (r.LHS().size() > most || !left--) throw Long{}; }
            void rule_reduced(const OperatorRule&, const OperatorRule& r) override { see(r); } void rule_removed(const OperatorRule&) override {} void rule_introduced(const OperatorRule&, const OperatorRule&, const OperatorRule& r) override { see(r); } void rule_introduced(const OperatorRule& r) override { see(r); } void rule_introduced_conjugate(const OperatorRule&, const OperatorRule& r) override { see(r); } void success(const OperatorRulebook&, size_t) override {} void failure(const OperatorRulebook&, size_t) override {} };
        bool grows(const OperatorRulebook& from, int steps) { OperatorRulebook c{from}; if (longest(c) * 2 > s.m.limit || c.size() > 40) return true; Watch w{s.m.limit / 2}; try { (void) (steps < 0 ? c.try_new_combination(&w) : c.complete((size_t) steps, &w)); } catch (const Long&) { return true; } return c.size() > 40; }
        void one(const Op& op, bool armed) {
            const char* key = op_names[op.code]; sim::label(key); if (dead && op.code != R_CTX) return;
            auto step = [&](auto&& f, int steps = -2) {                           // something that may be left half done when memory runs out
                if (!armed) { f(); return; } bool failed = false; uint64_t f0 = sim::fault_count(); sim::arm_faults(true);
                try { f(); sim::arm_faults(false); return; } catch (const std::bad_alloc&) { sim::arm_faults(false); failed = true; } catch (...) { sim::arm_faults(false); throw; }
                { sim::Quiet q; if (failed && sim::fault_count() == f0) sim::fail("unexpected-error", key, "lack of memory was reported although nothing failed"); sim::probe(63); lossy = true; done = false; check_sound(s, b, given, key); if (steps > -2 && grows(b, steps)) { dead = true; return; } }
                f(); };
            try { switch (op.code) {
                case R_ADD: { W l, r; std::optional<OperatorRule> ru; { sim::Quiet q; const Word* in = nullptr; if (op.b % 4 == 0 && !given.empty()) in = &given[(size_t) op.a % given.size()].first.w; if (!s.m.relation((uint64_t) op.a * 64 + (uint64_t) op.b, l, r, in)) return; given.emplace_back(l, r); ru.emplace(s.rule(l, r)); done = false; }
                    step([&] { b.add_rule(*ru); }); sim::Quiet q; check_sound(s, b, given, key); if (op.b % 3 == 0 && b.is_complete()) { check_complete(s, b, lossy ? std::vector<std::pair<W, W>>{} : given, (uint64_t) op.b, key); sim::probe(8); } sim::probe(0); break; }
                case R_FAMILY: { std::vector<OperatorRule> rs; { sim::Quiet q; if (op.a % 3 == 0) { if (!s.m.commute()) return; rs = OperatorRulebook::commutator_rules(s.apc); } else if (op.a % 3 == 1) { if (!s.m.mode || !s.m.normal()) return; rs = OperatorRulebook::normal_rules(s.apc); } else for (int k = 0; k < 3; ++k) { W l, r; if (s.m.relation((uint64_t) op.a * 64 + (uint64_t) (op.b + k), l, r)) rs.push_back(s.rule(l, r)); }
                      for (auto& r : rs) given.emplace_back(from(r.LHS()), from(r.RHS())); done = false;
                      if (op.a % 3 == 0) { if (rs.size() != (size_t) (s.m.n * (s.m.n - 1) / 2)) sim::fail("wrong-family", "commutators", "%zu commutation rules between %d operators", rs.size(), s.m.n); } else if (op.a % 3 == 1 && rs.size() != (size_t) s.m.n_raw) sim::fail("wrong-family", "normal", "%zu rules making %d operators normal", rs.size(), s.m.n_raw); }
                    step([&] { b.add_rules(rs); }); sim::Quiet q; check_sound(s, b, given, key); break; }
                case R_COMPLETE: { static const int ks[] = {0, 1, 2, 3, 6, 15, 40}; int k = ks[op.a % 7]; { sim::Quiet q; if (grows(b, k)) { dead = true; return; } }
                    bool r = false; step([&] { r = b.complete((size_t) k); }, k); sim::Quiet q; if (dead) return; check_sound(s, b, given, key); sim::probe(r ? 1 : 2);
                    if (r) { check_complete(s, b, lossy ? std::vector<std::pair<W, W>>{} : given, (uint64_t) op.b, key); done = k > 0; } else if (done) sim::fail("not-complete", key, "%s, complete a moment ago, is no longer said to be", str(b).c_str());
                    break; }
                case R_IS: { bool r = false; step([&] { r = b.is_complete(); }); sim::Quiet q; if (r) { check_complete(s, b, lossy ? std::vector<std::pair<W, W>>{} : given, (uint64_t) op.b, key); sim::probe(3); } else if (done) sim::fail("not-complete", key, "%s, complete a moment ago, is no longer said to be", str(b).c_str()); break; }
                case R_WORDS: { W w; { sim::Quiet q; PlanRng g{(uint64_t) op.a * 77 + (uint64_t) op.b}; w.w = s.m.random_word(g, (int) std::min<size_t>(12, s.m.limit - 2)); w.ph = g.range(0, 3); }
                    sim::Quiet q; reduce_all(s, b, w, true, given); sim::probe(4); break; }
                case R_CONJ: { if (!b.size()) return; std::optional<OperatorRule> ru; { sim::Quiet q; if (longest(b) * 2 > s.m.limit) return; auto it = b.rules().begin(); std::advance(it, op.a % (int) b.size()); ru.emplace(it->second); } step([&] { (void) b.try_conjugation(*ru); }); sim::Quiet q; check_sound(s, b, given, key); break; }
                case R_SHRINK: step([&] { b.reduce_ruleset(); }); { sim::Quiet q; check_sound(s, b, given, key);
                    for (auto& [h, r] : b.rules()) for (auto& [h2, r2] : b.rules()) { if (h != h2) for (size_t i = 0; i < r.LHS().size(); ++i) if (sub(from(r.LHS()).w, r2.LHS(), i)) sim::fail("not-shrunk", key, "%s, where rules are said to be rewritten by each other, rewrites %s in two ways", str(b).c_str(), str(from(r.LHS())).c_str()); if (!r.RHS().zero()) for (size_t i = 0; i < r.RHS().size(); ++i) if (sub(from(r.RHS()).w, r2.LHS(), i)) sim::fail("not-shrunk", key, "%s, where rules are said to be rewritten by each other, has the right hand side %s, which can be rewritten", str(b).c_str(), str(from(r.RHS())).c_str()); } }
                    break;
                case R_STEP: { { sim::Quiet q; if (grows(b, -1)) { dead = true; return; } } bool r = false; step([&] { r = b.try_new_combination(); }, -1); sim::Quiet q; if (dead) return; check_sound(s, b, given, key); if (r && done) sim::fail("not-complete", key, "%s, complete a moment ago, has a new rule", str(b).c_str()); break; }
                case R_ORDER: { sim::Quiet q; if (lossy || given.empty()) return; PlanRng g{(uint64_t) op.b}; std::vector<OperatorRule> rs; for (auto& [l, r] : given) rs.push_back(s.rule(l, r)); OperatorRulebook x{s.apc, rs}; auto perm = given; for (size_t i = perm.size(); i-- > 1;) std::swap(perm[i], perm[g.below(i + 1)]); rs.clear(); for (auto& [l, r] : perm) rs.push_back(s.rule(l, r)); OperatorRulebook y{s.apc};
                    for (auto& r : rs) { y.add_rule(r); if (g.chance(40)) { int k = g.range(0, 2); if (grows(y, k)) return; y.complete((size_t) k); } } if (grows(x, 40) || grows(y, 40)) return; if (!x.complete(40) || !y.complete(40)) return; check_sound(s, x, given, key); check_sound(s, y, given, key);
                    bool eq = x.size() == y.size(); for (auto i = x.rules().begin(), j = y.rules().begin(); eq && i != x.rules().end(); ++i, ++j) eq = from(i->second.LHS()) == from(j->second.LHS()) && from(i->second.RHS()) == from(j->second.RHS());
                    if (!eq) sim::fail("order-matters", key, "%s given in two orders is completed to %s and to %s", str(given).c_str(), str(x).c_str(), str(y).c_str()); sim::probe(5); break; }
                case R_COPY: { std::optional<OperatorRulebook> c; attempt(armed, key, [&] { c.emplace(b); }); sim::Quiet q; if (str(*c) != str(b)) sim::fail("bad-rule", "copy", "a copy of %s is %s", str(b).c_str(), str(*c).c_str()); break; }
                case R_CTX: context(op, armed); break;
            } } catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", key, "%s failed for %s: %s", key, str(given).c_str(), e.what()); }
            sim::Quiet q; sim::op_done(true);
        }
        // Words of a context all clients share.
        void context(const Op& op, bool armed) {
            if (!s.cx) return; auto& cx = *s.cx; W a, b, c; std::optional<OperatorSequence> x, y, z, xy, yz, l, r, xc, yc, k, ck, kk; HermitianType ht{};
            { sim::Quiet q; PlanRng g{(uint64_t) op.a * 131 + (uint64_t) op.b * 7}; int lim = (int) std::min<size_t>(5, s.m.limit / 3 - 1); for (W* w : {&a, &b, &c}) { w->w = s.m.random_word(g, lim); w->ph = g.chance(50) ? 0 : g.range(0, 3); } }
            auto mk = [&](const W& w) { return OperatorSequence{raw(w.w), cx, (SequenceSignType) w.ph}; };
            attempt(armed, "context", [&] { x.emplace(mk(a)); y.emplace(mk(b)); z.emplace(mk(c)); xy.emplace(*x * *y); yz.emplace(*y * *z); l.emplace(*xy * *z); r.emplace(*x * *yz); xc.emplace(x->conjugate()); yc.emplace(y->conjugate()); k.emplace(xy->conjugate()); ck.emplace(*yc * *xc); kk.emplace(k->conjugate()); ht = xy->hermitian_type(); });
            sim::Quiet q; auto cat = [](const W& u, const W& v) { W o = u; o.w.insert(o.w.end(), v.w.begin(), v.w.end()); o.ph = (u.ph + v.ph) & 3; return o; }; auto cj = [&](W u) { u.w = s.m.conj(u.w); u.ph = (4 - u.ph) & 3; return u; };
            W ab = cat(a, b), abc = cat(ab, c); struct { const OperatorSequence* o; W e; const char* what; } all[] = {{&*x, a, "word"}, {&*y, b, "word"}, {&*z, c, "word"}, {&*xy, ab, "product"}, {&*l, abc, "product"}, {&*r, abc, "product"}, {&*xc, cj(a), "conjugate"}, {&*k, cj(ab), "conjugate"}, {&*ck, cj(ab), "conjugate"}, {&*kk, ab, "conjugate"}};
            auto& rb = cx.rulebook(); for (auto& t : all) { W o = from(*t.o); if (t.o->zero() && t.o->get_sign() != SequenceSignType::Positive) sim::fail("wrong-reduction", "zero", "the %s for %s is a zero with a sign", t.what, str(t.e).c_str()); if (!o.zero && t.o->hash() != s.apc.hasher(raw(o.w))) sim::fail("wrong-reduction", "hash", "the %s for %s, given as %s, has the hash of another word", t.what, str(t.e).c_str(), str(o).c_str());
                if (!s.m.same(o, t.e)) sim::fail("unsound", t.what, "with %s, the %s for %s is given as %s, which differs for operators that satisfy %s", str(rb).c_str(), t.what, str(t.e).c_str(), str(o).c_str(), str(s.given).c_str());
                if (s.ok) { W n = from(rb.reduce(s.seq(t.e))); if (!(n == o)) sim::fail("not-confluent", t.what, "with %s, the %s for %s is given as %s, while %s rewrites to %s", str(rb).c_str(), t.what, str(t.e).c_str(), str(o).c_str(), str(t.e).c_str(), str(n).c_str()); }
                auto canon = cx.get_if_canonical(raw(t.e.w)); bool any = rb.can_reduce(raw(t.e.w)); if (canon.has_value() == any || (canon && !(from(*canon).w == t.e.w))) sim::fail("wrong-reduction", "canonical", "%s is said %s to be in its final form", str(t.e).c_str(), canon ? "" : "not"); }
            if (s.ok) { W o = from(*xy), v = from(*k); auto e = o.zero ? HermitianType::Zero : o == v ? HermitianType::Hermitian : !v.zero && o.w == v.w && ((o.ph + 2) & 3) == v.ph ? HermitianType::AntiHermitian : HermitianType::NotHermitian; if (ht != e) sim::fail("wrong-reduction", "hermitian", "%s, with conjugate %s, is said to be of hermitian type %d, not %d", str(o).c_str(), str(v).c_str(), (int) ht, (int) e); sim::probe(7); }
            sim::probe(6);
        }
    };
}

WORKLOAD(rewriting, "C16", 10, F_ALLOC | F_WAKE)
static void rewriting_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.range(0, 2); p.p[1] = r.range(0, 3); p.p[2] = r.chance(20) ? 0 : r.range(1, 5); p.p[3] = (int) r.below(1000000); p.p[4] = r.range(0, 5); p.p[5] = r.chance(45); int nc = p.p[6] = r.range(1, 3); p.p[7] = (int) r.below(1000); p.p[8] = r.range(0, 4); p.p[9] = r.range(0, 3);
    for (int k = 0; k < nc; ++k) { int n = r.range(4, 14); for (int i = 0; i < n; ++i) { int x = r.range(0, 99);
        p.ops.push_back({k, x < 28 || i < 1 ? R_ADD : x < 36 ? R_FAMILY : x < 58 ? R_COMPLETE : x < 64 ? R_IS : x < 70 ? R_WORDS : x < 74 ? R_CONJ : x < 78 ? R_SHRINK : x < 82 ? R_STEP : x < 88 ? R_ORDER : x < 90 ? R_COPY : R_CTX, (int) r.below(1000), (int) r.below(1000), 0}); } }
}
static void rewriting_run(const Plan& p) {
    std::unique_ptr<Shared> s; std::vector<std::unique_ptr<Client>> cl;
    { sim::Quiet q; s = std::make_unique<Shared>(p); std::vector<OperatorRule> rs; for (int k = 0; k < p.p[8]; ++k) { W l, r; if (s->m.relation((uint64_t) p.p[7] * 64 + (uint64_t) k, l, r)) { rs.push_back(s->rule(l, r)); s->given.emplace_back(l, r); } }
      bool com = (p.p[9] & 1) && s->m.commute(), nor = (p.p[9] & 2) && s->m.mode && s->m.normal(); s->cx = std::make_unique<AlgebraicContext>(s->apc, com, nor, rs);
      if (com) for (auto& r : OperatorRulebook::commutator_rules(s->apc)) s->given.emplace_back(from(r.LHS()), from(r.RHS())); if (nor) for (auto& r : OperatorRulebook::normal_rules(s->apc)) s->given.emplace_back(from(r.LHS()), from(r.RHS()));
      Client t{*s}; if (t.grows(s->cx->rulebook(), 40)) s->cx.reset(); else { s->ok = s->cx->attempt_completion(40); check_sound(*s, s->cx->rulebook(), s->given, "context"); if (s->ok) check_complete(*s, s->cx->rulebook(), s->given, 1, "context"); if (s->cx->is_complete() != s->ok) sim::fail("not-complete", "context", "a context forgets whether its rules are complete"); }
      for (int k = 0; k < p.p[6]; ++k) cl.push_back(std::make_unique<Client>(*s)); }
    run_clients(p, p.p[6], [&](const Op& op) { cl[(size_t) op.client]->one(op, p.p[5]); });
}
