// Word lists made on first use and shared by everybody: up to a length, or restricted to neighbouring qubits.
#include "msrun.h"

using namespace ms;

namespace { enum { D_LEVEL, D_COUNT, D_NN, D_NNCOUNT, D_SIZE, D_OSGSIZE, D_REREAD, D_CONTEXT, D_N }; }

WORKLOAD(dictionaries, "C06", 10, F_ALLOC | F_WAKE)
static void dictionaries_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.chance(45) ? (r.chance(60) ? (int) PAULI : (int) PAULI_TX) : (int) r.below(N_KINDS); p.p[1] = r.range(0, p.p[0] == INFL ? N_NETS - 1 : N_SIZES - 1); if ((p.p[0] == PAULI || p.p[0] == PAULI_TX) && r.chance(45)) p.p[1] = r.range(0, N_QUBITS - 1);
    p.p[3] = r.chance(30); int nc = p.p[2] = r.range(1, 4); int f = r.range(0, 6);
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 7); for (int i = 0; i < n; ++i) { int x = r.range(0, 99); p.ops.push_back({k, x < 22 ? D_LEVEL : x < 30 ? D_COUNT : x < 60 ? D_NN : x < 66 ? D_NNCOUNT : x < 72 ? D_SIZE : x < 78 ? D_OSGSIZE : x < 90 ? D_REREAD : D_CONTEXT, r.chance(50) ? f : r.range(0, 6), r.chance(60) ? 0 : r.range(0, 3), (int) r.below(8000)}); } }
}
static void dictionaries_run(const Plan& p) {
    struct Got { const OSGPair* pair; size_t level, nb, size; };
    Scenario sc; std::vector<Got> got; std::vector<std::vector<Got>> mine(16); std::map<std::pair<size_t, size_t>, std::pair<const OSGPair*, size_t>> owner; size_t maxl = 1, maxn = 1; bool pauli;
    { sim::Quiet q; sc = make_scenario(p.p[0], p.p[1]); pauli = sc.pauli(); double n = std::max(2, sc.m.op_count()), c = n; while (maxl < 5 && (c *= n) < 10000 && sc.m.words((int) maxl + 1).size() < (pauli ? 700 : 400)) ++maxl; maxn = sc.m.n <= 4 ? 5 : sc.m.n <= 7 && !sc.m.rows ? 6 : sc.m.n <= 9 ? 3 : 2; if (p.p[3] && pauli && sc.m.n <= 6 && !sc.m.rows) maxl = std::max<size_t>(maxl, 6);   /* words on all qubits, and lengths beyond them */ got.reserve(256); for (auto& v : mine) v.reserve(64); }
    auto& ctx = sc.sys->Context(); const auto& dict = ctx.dictionary();
    auto nbs = [&](const Op& op) { return (size_t) (sc.m.rows ? 1 : 1 + op.b % 3); };
    auto one = [&](const Op& op) {
        static const char* names[] = {"list", "list-size", "neighbour-list", "neighbour-list-size", "dictionary-size", "matrix-size", "reread", "context-list"};
        sim::label(names[op.code]); const char* key = names[op.code]; uint64_t s = 0; bool oom = false; const OSGPair* pr = nullptr; size_t lev = (size_t) op.a % (maxl + 1), nb = 0, cnt = 0; bool counted = false;
        sim::arm_faults(true);
        try {
            switch (op.code) {
                case D_LEVEL: pr = &dict.Level(lev); break;
                case D_COUNT: cnt = dict.WordCount(lev); counted = true; break;
                case D_NN: if (pauli) { nb = nbs(op); lev = (size_t) op.a % (maxn + 1); pr = &sc.pauli()->pauliContext.pauli_dictionary().NearestNeighbour(Pauli::NearestNeighbourIndex{lev, nb}); } else pr = &dict.Level(lev); break;
                case D_NNCOUNT: if (pauli) { nb = nbs(op); lev = (size_t) op.a % (maxn + 1); cnt = sc.pauli()->pauliContext.pauli_dictionary().WordCount(Pauli::NearestNeighbourIndex{lev, nb}); } else cnt = dict.WordCount(lev); counted = true; break;
                case D_SIZE: s += dict.size(); break;
                case D_OSGSIZE: cnt = sc.sys->osg_size(lev); counted = true; break;
                case D_CONTEXT: { const auto& g = ctx.operator_sequence_generator(lev, op.c % 2); s += g.size(); cnt = g.size(); counted = true; break; }
                case D_REREAD: break;
            }
        } catch (const std::bad_alloc&) { oom = true; } catch (const std::exception& e) { sim::arm_faults(false); sim::Quiet q; sim::fail("unexpected-error", key, "%s failed: %s", key, e.what()); }
        sim::arm_faults(false);
        if (pr) { const auto& f = (*pr)(); const auto& c = pr->conjugate(); s += f.size() + c.size(); size_t i = 0; for (const auto& w : f) { if ((i++ & 7) == (op.c & 7)) s += w.hash() + w.size(); } if (c.size()) s += c[(size_t) op.c % c.size()].hash(); cnt = f.size(); }
        if (op.code == D_REREAD) for (auto& g : mine[(size_t) op.client]) { const auto& f = (*g.pair)(); s += f.size(); s += f[(size_t) op.c % f.size()].hash(); if (f.size() != g.size) { sim::Quiet q; sim::fail("list-changed", key, "a word list handed out with %zu words now has %zu", g.size, f.size()); } }
        sim::Quiet q; volatile uint64_t sink = s; (void) sink; sim::op_done(!oom);
        if (oom) { if (!sim::faults_fired()) sim::fail("unexpected-error", key, "%s failed with bad_alloc although no allocation failed", key); sim::probe(1); return; }
        if (pr) { Got g{pr, lev, nb, cnt}; got.push_back(g); mine[(size_t) op.client].push_back(g); auto& o = owner[{lev, nb}]; if (o.first && o.first != pr) sim::fail("two-lists", key, "two requests for the words of length %zu (neighbours %zu) were given different lists", lev, nb); o.first = pr; }
        if (pr || counted) { size_t e = nb ? sc.m.neighbour_words((int) lev, (int) nb).size() : sc.m.words((int) lev).size(); if (cnt != e) sim::fail("word-list", nb ? "neighbours" : "", "the list of words of length %zu (neighbours %zu) has %zu words, expected %zu", lev, nb, cnt, e); }
    };
    run_clients(p, p.p[2], one);
    sim::Quiet q; sim::label("final"); std::set<const OSGPair*> done;
    for (auto& g : got) {
        if (!done.insert(g.pair).second) continue;
        const auto& f = (*g.pair)(); const auto& c = g.pair->conjugate(); std::set<std::vector<int>> all, ex; const char* key = g.nb ? "neighbours" : "";
        for (const auto& w : f) { W x = from(w); if (x.zero || x.ph || !(sc.m.reduce(x) == x)) sim::fail("word-list", key, "a word list holds %s", str(x).c_str()); if (!all.insert(x.w).second) sim::fail("word-list", key, "the list of words of length %zu (neighbours %zu) holds %s twice", g.level, g.nb, str(x).c_str()); }
        if (g.nb) ex = sc.m.neighbour_words((int) g.level, (int) g.nb); else for (auto& w : sc.m.words((int) g.level)) ex.insert(w);
        for (auto& w : ex) if (!all.count(w)) { W x; x.w = w; sim::fail("word-list", key, "the list of words of length %zu (neighbours %zu) lacks %s", g.level, g.nb, str(x).c_str()); }
        if (all != ex) sim::fail("word-list", key, "the list of words of length %zu (neighbours %zu) holds other words", g.level, g.nb);
        if (c.size() != f.size()) sim::fail("word-list", "conjugate", "%zu words, %zu conjugates", f.size(), c.size());
        for (size_t i = 0; i < f.size(); ++i) if (!(from(c[i]) == sc.m.conj(from(f[i])))) sim::fail("word-list", "conjugate", "word %zu is %s, its conjugate is listed as %s", i, str(from(f[i])).c_str(), str(from(c[i])).c_str());
        for (auto& h : got) if (h.nb == g.nb && h.level < g.level) { const auto& s = (*h.pair)(); for (size_t i = 0; i < s.size(); ++i) if (!(from(s[i]) == from(f[i]))) sim::fail("word-list", "prefix", "the words of length %zu are not the first ones of those of length %zu", h.level, g.level); }
        sim::probe(g.nb ? 2 : 3);
    }
}
