// Collins-Gisin, probability and correlator tensors: refreshed and read by several clients while symbols appear.
#include "msrun.h"
#include "probability/collins_gisin.h"
#include "probability/full_correlator.h"
#include "probability/maintains_tensors.h"
#include "probability/probability_tensor.h"
#include "scenarios/locality/locality_collins_gisin.h"
#include "scenarios/locality/locality_full_correlator.h"
#include "scenarios/locality/locality_probability_tensor.h"
#include "scenarios/locality/tensor_conversion.h"
#include "scenarios/inflation/inflation_collins_gisin.h"
#include "scenarios/inflation/inflation_probability_tensor.h"

using namespace ms;

namespace {
    enum { T_GROW_DICT, T_GROW_MM, T_GROW_LM, T_CG, T_PT, T_FC, T_REREAD, T_RULES, T_RANGE, T_SELECT, T_N };
    using Lin = std::vector<std::pair<std::vector<int>, double>>;   // sum of coefficient * word

    struct Tens {
        const Scenario& sc; const Model& m; std::vector<std::vector<Lin>> cg, pt, fc;   // per dimension, per index: what the index stands for
        bool binary = true;
        std::vector<size_t> mmt_party, mmt_cg_off, mmt_cg_len, mmt_pt_off, mmt_pt_len, mmt_local;
        MaintainsTensors& sys;
        explicit Tens(Scenario& s) : sc{s}, m{s.m}, sys{dynamic_cast<MaintainsTensors&>(*s.sys)} {
            auto dim = [&] { cg.push_back({Lin{{{}, 1.0}}}); pt.push_back({Lin{{{}, 1.0}}}); fc.push_back({Lin{{{}, 1.0}}}); };
            auto mmt = [&](int first, int outs) {
                auto &C = cg.back(), &P = pt.back(), &F = fc.back(); mmt_party.push_back(cg.size() - 1); mmt_cg_off.push_back(C.size()); mmt_cg_len.push_back((size_t) outs - 1); mmt_pt_off.push_back(P.size()); mmt_pt_len.push_back((size_t) outs);
                Lin last{{{}, 1.0}};
                for (int o = 0; o + 1 < outs; ++o) { C.push_back(Lin{{{first + o}, 1.0}}); P.push_back(Lin{{{first + o}, 1.0}}); last.push_back({{first + o}, -1.0}); }
                P.push_back(last); if (outs == 2) F.push_back(Lin{{{first}, 2.0}, {{}, -1.0}}); else binary = false; };
            if (m.kind == LOC) { int op = 0; for (auto& p : m.shape) { dim(); size_t l = 0; for (int oc : p) { mmt(op, oc); mmt_local.push_back(l++); op += oc - 1; } } }
            else { size_t x = 0; while (x < m.op_obs.size()) { size_t y = x; while (y < m.op_obs.size() && m.op_obs[y] == m.op_obs[x] && m.op_sources[y] == m.op_sources[x]) ++y; dim(); if (m.op_proj[x]) mmt((int) x, (int) (y - x) + 1); else { binary = false; Lin l{{{(int) x}, 1.0}}; cg.back().push_back(l); pt.back().push_back(l); mmt_party.push_back(cg.size() - 1); mmt_cg_off.push_back(1); mmt_cg_len.push_back(1); mmt_pt_off.push_back(1); mmt_pt_len.push_back(1); } mmt_local.push_back(0); x = y; } }
        }
        static std::vector<size_t> dims(const std::vector<std::vector<Lin>>& t) { std::vector<size_t> d; for (auto& x : t) d.push_back(x.size()); return d; }
        static std::vector<size_t> index(const std::vector<std::vector<Lin>>& t, size_t off) { std::vector<size_t> ix; for (auto& x : t) { ix.push_back(off % x.size()); off /= x.size(); } return ix; }
        static size_t count(const std::vector<std::vector<Lin>>& t) { size_t n = 1; for (auto& x : t) n *= x.size(); return n; }
        W word(const std::vector<size_t>& ix) const { W w; for (size_t d = 0; d < ix.size(); ++d) for (int x : cg[d][ix[d]][0].first) w.w.push_back(x); return m.reduce(w); }
        Terms expect(const std::vector<std::vector<Lin>>& t, const std::vector<size_t>& ix) const {
            Lin cur{{{}, 1.0}};
            for (size_t d = 0; d < ix.size(); ++d) { Lin nx; for (auto& [w, c] : cur) for (auto& [v, e] : t[d][ix[d]]) { auto u = w; u.insert(u.end(), v.begin(), v.end()); nx.push_back({u, c * e}); } cur = nx; }
            Terms o; for (auto& [w, c] : cur) { W x; x.w = w; add_term(o, m.alias(m.reduce(x)), c); } return o;
        }
        // ---- oracles (under Quiet)
        void check_cg(const CollinsGisinEntry& e, const std::vector<size_t>& ix, size_t known, const char* key) const {
            const auto& st = sys.Symbols(); W w = word(ix); W g = from(e.sequence);
            if (!(g == w)) sim::fail("wrong-element", key, "Collins-Gisin element holds %s, expected %s", str(g).c_str(), str(w).c_str());
            W a = m.alias(w);
            if (e.symbol_id >= 0) {
                if ((size_t) e.symbol_id >= st.size()) sim::fail("wrong-element", key, "Collins-Gisin element %s names symbol %ld of %zu", str(w).c_str(), (long) e.symbol_id, st.size());
                W s = from(st[(size_t) e.symbol_id].sequence()); if (!(s == a)) sim::fail("wrong-element", key, "Collins-Gisin element %s is given symbol %ld, which stands for %s", str(w).c_str(), (long) e.symbol_id, str(s).c_str());
                if (e.is_alias != !(a == w)) sim::fail("wrong-element", key, "Collins-Gisin element %s is marked%s as an alias, its symbol stands for %s", str(w).c_str(), e.is_alias ? "" : " not", str(s).c_str());
                if (e.real_index != st[(size_t) e.symbol_id].basis_key().first) sim::fail("wrong-element", key, "Collins-Gisin element %s is given real basis element %ld, its symbol has %ld", str(w).c_str(), (long) e.real_index, (long) st[(size_t) e.symbol_id].basis_key().first);
            } else { auto l = st.where(sc.seq(w.w)); if (l.found() && (size_t) l->Id() < known) sim::fail("missing-symbol", key, "Collins-Gisin element %s was left without symbol although symbol %ld existed before the refresh", str(w).c_str(), (long) l->Id()); }
        }
        void check_poly(const std::vector<std::vector<Lin>>& t, const PolynomialElement& e, const std::vector<size_t>& ix, size_t known, const char* key) const {
            const auto& st = sys.Symbols(); Terms x = expect(t, ix); Terms g; bool all = true;
            for (const auto& c : e.cgPolynomial) {
                if (c.id < 1 || (size_t) c.id > count(cg)) sim::fail("wrong-element", key, "an element refers to Collins-Gisin element %ld", (long) c.id - 1);
                W w = word(index(cg, (size_t) c.id - 1)); add_term(g, m.alias(w), c.factor); auto l = st.where(sc.seq(w.w)); all = all && l.found() && (size_t) l->Id() < known;
            }
            if (!same_terms(x, g)) sim::fail("wrong-element", key, "element is %s in Collins-Gisin terms, expected %s", str(g).c_str(), str(x).c_str());
            if (e.hasSymbolPoly) { Terms s = value_of(st, e.symbolPolynomial, key); if (!same_terms(x, s)) sim::fail("wrong-element", key, "element is %s as symbols, expected %s", str(s).c_str(), str(x).c_str()); sim::probe(1); }
            else { if (all) sim::fail("missing-symbol", key, "the element %s was left unresolved although all its symbols existed before the refresh", str(x).c_str()); sim::probe(2); }
        }
        size_t missing() const { size_t n = 0; const auto& st = sys.Symbols(); for (size_t i = 0; i < count(cg); ++i) n += !st.where(sc.seq(word(index(cg, i)).w)).found(); return n; }
    };
    // instrumented reads, as a user makes them
    uint64_t touch(const CollinsGisinEntry& e) { return (uint64_t) e.symbol_id + (uint64_t) e.real_index + e.is_alias + e.sequence.size(); }
    uint64_t touch(const PolynomialElement& e) { uint64_t s = e.hasSymbolPoly; for (const auto& x : e.cgPolynomial) s += (uint64_t) x.id; for (const auto& x : e.symbolPolynomial) s += (uint64_t) x.id; return s; }
}

WORKLOAD(tensors, "C07", 10, F_ALLOC | F_WAKE)
static void tensors_gen(PlanRng& r, Plan& p) {
    p.p[0] = r.chance(60) ? (int) LOC : (int) INFL; p.p[1] = r.range(0, p.p[0] == INFL ? 5 : N_SIZES - 1); if (p.p[0] == INFL && r.chance(30)) p.p[1] = r.range(8, N_NETS - 1); int nc = p.p[2] = r.range(1, 4);
    if (p.p[0] == LOC && r.chance(16)) p.p[1] = r.range(N_SIZES, N_SHAPES - 1);
    p.p[3] = r.chance(30) ? r.range(1, 4) : 0;           // length of words registered before the clients start
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 6); for (int i = 0; i < n; ++i) {
        int x = r.range(0, 99); int c = x < 12 ? T_GROW_DICT : x < 20 ? T_GROW_MM : x < 25 ? T_GROW_LM : x < 45 ? T_CG : x < 65 ? T_PT : x < 77 ? T_FC : x < 87 ? T_REREAD : x < 92 ? T_RULES : x < 95 ? T_RANGE : T_SELECT;
        p.ops.push_back({k, c, r.range(0, 7), (int) r.below(8000), (int) r.below(8000)}); } }
}
static void tensors_run(const Plan& p) {
    Scenario sc; std::optional<Tens> tt; int maxl; std::vector<std::vector<int>> w1; const Moment::CollinsGisin* kept_cg[8] = {}; const Moment::ProbabilityTensor* kept_pt[8] = {}; const Moment::FullCorrelator* kept_fc[8] = {}; const void* the_cg = nullptr; const void* the_pt = nullptr; const void* the_fc = nullptr;
    { sim::Quiet q; sc = make_scenario(p.p[0], p.p[1]); tt.emplace(sc); w1 = sc.m.words(1); maxl = 1; double n = sc.m.op_count(), c = n; while (maxl < 4 && (c *= n) < 700) ++maxl; if (p.p[3]) sc.sys->generate_dictionary((size_t) std::min(p.p[3], maxl)); }
    Tens& t = *tt; auto& sys = t.sys;
    auto refresh = [&](auto&& f) { bool ok = true; sim::arm_faults(true); try { f(); } catch (const std::bad_alloc&) { ok = false; } sim::arm_faults(false); sim::Quiet q; if (!ok) { if (!sim::faults_fired()) sim::fail("unexpected-error", "refresh", "a refresh failed with bad_alloc although no allocation failed"); sim::probe(6); sim::op_done(false); } return ok; };
    // measurements left free, others fixed to an outcome, in any order: the elements selected
    auto select = [&](int which, PlanRng& r, const Moment::CollinsGisin* g, const Moment::ProbabilityTensor* c, const Moment::FullCorrelator* f, const char* key) {
        bool cgs = which <= 2; if (cgs ? !g : which <= 5 ? !c : !f || sc.m.kind != LOC) return (uint64_t) 0;
        std::vector<std::pair<size_t, int>> sel; std::vector<size_t> lo(t.cg.size(), 0), hi(t.cg.size(), 1); bool bad = false; size_t nm = t.mmt_party.size(); const char* at = cgs ? "cg" : which <= 5 ? "pt" : "fc"; uint64_t s = 0;
        { sim::Quiet q;
            for (size_t d = 0; d < t.cg.size(); ++d) if (!r.chance(35)) {
                std::vector<size_t> here; for (size_t mm = 0; mm < nm; ++mm) if (t.mmt_party[mm] == d) here.push_back(mm); size_t mm = here[r.below(here.size())]; size_t len = cgs ? t.mmt_cg_len[mm] : t.mmt_pt_len[mm], off = cgs ? t.mmt_cg_off[mm] : t.mmt_pt_off[mm];
                bool fixed = which == 5 || ((which == 1 || which == 2 || which == 4) && r.chance(45)); int o = fixed ? (int) r.below(len) : -1; sel.push_back({mm, o}); if (which == 6) { lo[d] = t.mmt_local[mm] + 1; hi[d] = lo[d] + 1; } else { lo[d] = off + (fixed ? (size_t) o : 0); hi[d] = fixed ? lo[d] + 1 : off + len; }
                if (r.chance(4)) { size_t m2 = here[r.below(here.size())]; sel.push_back({m2, fixed ? 0 : -1}); bad = true; } }
            if ((sc.m.kind == LOC || which == 2) && r.chance(5)) { sel.push_back({nm + r.below(2), which == 5 ? 0 : -1}); bad = true; }
            for (size_t i = sel.size(); i > 1; --i) std::swap(sel[i - 1], sel[r.below(i)]); }
        auto pm = [&](size_t z) { return Locality::PMIndex{(party_name_t) (z < nm ? t.mmt_party[z] : which == 6 && z % 2 ? t.cg.size() : 0), (mmt_name_t) (z < nm ? t.mmt_local[z] : 99), z}; };
        auto ov = [&](size_t z) { return sc.sys->Context().size() ? static_cast<const Inflation::InflationMatrixSystem&>(*sc.sys).InflationContext().index_to_obs_variant((oper_name_t) z) : Inflation::OVIndex{0, 0}; };
        std::vector<Locality::PMIndex> pf; std::vector<Locality::PMOIndex> px; std::vector<Inflation::OVIndex> of; std::vector<Inflation::OVOIndex> ox; std::vector<size_t> gm; std::vector<oper_name_t> go;
        { sim::Quiet q; for (auto& [mm, o] : sel) { gm.push_back(mm); go.push_back((oper_name_t) o); if (sc.m.kind == LOC) { if (o < 0) pf.push_back(pm(mm)); else px.push_back({pm(mm), (uint32_t) o}); } else if (mm < nm) { if (o < 0) of.push_back(ov(mm)); else ox.push_back({ov(mm), (oper_name_t) o}); } } }
        std::vector<std::vector<size_t>> ix; std::vector<CollinsGisinEntry> ce; std::vector<PolynomialElement> pe; bool threw = false;
        auto cg_range = [&](auto&& range) { for (auto it = range.begin(); it != range.end(); ++it) { s += touch(*it); sim::Quiet q; ix.emplace_back(it.index().begin(), it.index().end()); ce.push_back(*it); } };
        std::vector<Polynomial> rules; std::vector<double> vals; std::vector<size_t> at_cond(t.cg.size(), 0); PolynomialElement cond{Polynomial{}}; bool give = false, conditional = false, norule = false;
        { sim::Quiet q; give = (which == 3 || which == 4) && r.chance(45); conditional = give && r.chance(40); if (conditional) for (size_t d = 0; d < at_cond.size(); ++d) at_cond[d] = r.below(t.pt[d].size()); }
        auto pt_range = [&](auto&& range) { for (auto it = range.begin(); it != range.end(); ++it) { s += touch(*it); sim::Quiet q; ix.emplace_back(it.index().begin(), it.index().end()); pe.push_back(*it); }
            if (!give) return; { sim::Quiet q; for (size_t i = 0; i < pe.size(); ++i) vals.push_back(0.125 * ((double) r.below(17) - 8)); }
            try { if (conditional) { auto e = (*c)(at_cond); { sim::Quiet q; cond = *e.operator->(); } rules = c->explicit_value_rules(range, *e.operator->(), vals); } else rules = c->explicit_value_rules(range, vals); } catch (const errors::BadPTError&) { norule = true; } };
        try {
            if (which == 2) cg_range(g->measurement_to_range(gm, go));
            else if (sc.m.kind == LOC) {
                if (cgs) { const auto& l = dynamic_cast<const Locality::LocalityCollinsGisin&>(*g); if (which == 0) cg_range(l.measurement_to_range(pf)); else cg_range(l.measurement_to_range(pf, px)); }
                else if (which <= 5) { const auto& l = dynamic_cast<const Locality::LocalityProbabilityTensor&>(*c); if (which == 3) pt_range(l.measurement_to_range(pf)); else if (which == 4) pt_range(l.measurement_to_range(pf, px)); else { auto e = l.outcome_to_element(px); s += touch(*e.operator->()); sim::Quiet q; pe.push_back(*e.operator->()); ix.push_back(lo); } }
                else { auto e = dynamic_cast<const Locality::LocalityFullCorrelator&>(*f).mmt_to_element(pf); s += touch(*e.operator->()); sim::Quiet q; pe.push_back(*e.operator->()); ix.push_back(lo); }
            } else {
                if (cgs) { const auto& l = dynamic_cast<const Inflation::InflationCollinsGisin&>(*g); if (which == 0) cg_range(l.measurement_to_range(of)); else cg_range(l.measurement_to_range(of, ox)); }
                else { const auto& l = dynamic_cast<const Inflation::InflationProbabilityTensor&>(*c); if (which == 3) pt_range(l.measurement_to_range(of)); else if (which == 4) pt_range(l.measurement_to_range(of, ox)); else { auto e = l.outcome_to_element(ox); s += touch(*e.operator->()); sim::Quiet q; pe.push_back(*e.operator->()); ix.push_back(lo); } }
            }
        } catch (const errors::BadCGError&) { threw = true; } catch (const errors::BadPTError&) { threw = true; } catch (const errors::BadFCError&) { threw = true; }
        sim::Quiet q; std::string z; for (auto& [mm, o] : sel) z += (z.empty() ? "" : ", ") + std::to_string(mm) + (o < 0 ? "" : "=" + std::to_string(o));
        if (threw != bad) sim::fail("wrong-range", at, "the measurements %s of %zu were %s", z.c_str(), nm, threw ? "refused" : "accepted");
        if (threw) return s;
        std::vector<std::vector<size_t>> ex; std::vector<size_t> cur = lo; for (;;) { ex.push_back(cur); size_t d = 0; for (; d < cur.size(); ++d) { if (++cur[d] < hi[d]) break; cur[d] = lo[d]; } if (d == cur.size()) break; }
        if (ix != ex) sim::fail("wrong-range", at, "the measurements %s select %zu elements, expected %zu, or others", z.c_str(), ix.size(), ex.size());
        for (size_t i = 0; i < ce.size(); ++i) t.check_cg(ce[i], ix[i], 0, key);
        for (size_t i = 0; i < pe.size(); ++i) t.check_poly(which == 6 ? t.fc : t.pt, pe[i], ix[i], 0, key);
        if (give) {
            bool all = !conditional || cond.hasSymbolPoly; for (auto& e : pe) all = all && e.hasSymbolPoly; if (conditional) t.check_poly(t.pt, cond, at_cond, 0, key);
            if (norule == all) sim::fail("wrong-rule", "", "value rules were %s, the elements are%s resolved", norule ? "refused" : "made", all ? "" : " not all");
            if (!norule) { if (rules.size() != ex.size()) sim::fail("wrong-rule", "", "%zu rules for %zu outcomes", rules.size(), ex.size()); sim::probe(7);
                for (size_t i = 0; i < ex.size(); ++i) { Terms x = t.expect(t.pt, ex[i]); if (conditional) { for (auto& [w, y] : t.expect(t.pt, at_cond)) x[w] -= vals[i] * y; } else x[{}] -= vals[i]; Terms g2 = value_of(sys.Symbols(), rules[i], key); if (!same_terms(x, g2)) sim::fail("wrong-rule", "", "outcome %zu with value %g gives the rule %s, expected %s", i, vals[i], str(g2).c_str(), str(x).c_str()); } } }
        return s;
    };
    auto one = [&](const Op& op) {
        static const char* names[] = {"grow-dictionary", "grow-moment", "grow-localizing", "refresh-cg", "refresh-pt", "refresh-fc", "reread", "value-rules", "range", "select"};
        sim::label(names[op.code]); const char* key = names[op.code]; uint64_t s = 0; size_t k = (size_t) op.client;
        try {
            switch (op.code) {
                case T_GROW_DICT: sys.generate_dictionary((size_t) (op.a % maxl + 1)); break;
                case T_GROW_MM: sys.MomentMatrix.create((size_t) (maxl >= 4 ? op.a % 3 : op.a % 2), op.b % 3 ? MTP::Always : MTP::Never); break;
                case T_GROW_LM: sys.LocalizingMatrix.create(LocalizingMatrixIndex{(size_t) (op.a % 2), sc.seq(w1[(size_t) op.b % w1.size()])}, MTP::Never); break;
                case T_CG: case T_PT: case T_FC: {
                    auto lock = sys.get_read_lock(); size_t known = sys.Symbols().size(), miss = 0; bool done = false, refused = false;
                    { sim::Quiet q; if (t.count(t.cg) <= 1024) miss = t.missing(); }
                    if (op.code == T_CG) {
                        if (!refresh([&] { done = sys.RefreshCollinsGisin(lock); })) break; const auto& c = sys.CollinsGisin();
                        size_t off = (size_t) op.b % c.ElementCount; std::vector<size_t> ix; { sim::Quiet q; ix = t.index(t.cg, off); if (t.dims(t.cg) != c.Dimensions) sim::fail("wrong-element", key, "the Collins-Gisin tensor has other dimensions than its scenario"); }
                        auto e = c(ix); s += touch(*e.operator->()); auto e2 = c.at(off); s += touch(*e2.operator->()); bool has = c.HasAllSymbols();
                        sim::Quiet q; kept_cg[k] = &c; if (the_cg && the_cg != &c) sim::fail("replaced", key, "the Collins-Gisin tensor that clients refer to was replaced"); the_cg = &c;
                        t.check_cg(*e.operator->(), ix, known, key); t.check_cg(*e2.operator->(), ix, known, key);
                        if (done && !has) sim::fail("wrong-answer", key, "the refresh reported completeness, symbols are missing");
                    } else if (op.code == T_PT) {
                        if (!refresh([&] { done = sys.RefreshProbabilityTensor(lock); })) break; const auto& c = sys.ProbabilityTensor();
                        size_t off = (size_t) op.b % c.ElementCount; std::vector<size_t> ix; { sim::Quiet q; ix = t.index(t.pt, off); if (t.dims(t.pt) != c.Dimensions) sim::fail("wrong-element", key, "the probability tensor has other dimensions than its scenario"); }
                        auto e = c(ix); s += touch(*e.operator->()); bool has = c.HasAllPolynomials();
                        sim::Quiet q; kept_pt[k] = &c; if (the_pt && the_pt != &c) sim::fail("replaced", key, "the probability tensor that clients refer to was replaced"); the_pt = &c;
                        t.check_poly(t.pt, *e.operator->(), ix, known, key); if (done && !has) sim::fail("wrong-answer", key, "the refresh reported completeness, symbols are missing");
                    } else {
                        if (!refresh([&] { try { done = sys.RefreshFullCorrelator(lock); } catch (const std::logic_error&) { refused = true; } })) break;
                        { sim::Quiet q; if (refused != (sc.m.kind != LOC || !t.binary)) sim::fail("wrong-answer", key, "a correlator tensor was %s for a scenario that is%s binary", refused ? "refused" : "made", t.binary ? "" : " not"); }
                        if (!refused) {
                            const auto& c = sys.FullCorrelator(); size_t off = (size_t) op.b % c.ElementCount; std::vector<size_t> ix; { sim::Quiet q; ix = t.index(t.fc, off); if (t.dims(t.fc) != c.Dimensions) sim::fail("wrong-element", key, "the correlator tensor has other dimensions than its scenario"); }
                            auto e = c(ix); s += touch(*e.operator->()); bool has = c.HasAllPolynomials();
                            sim::Quiet q; kept_fc[k] = &c; if (the_fc && the_fc != &c) sim::fail("replaced", key, "the correlator tensor that clients refer to was replaced"); the_fc = &c;
                            t.check_poly(t.fc, *e.operator->(), ix, known, key); if (done && !has) sim::fail("wrong-answer", key, "the refresh reported completeness, symbols are missing");
                        }
                    }
                    sim::Quiet q; if (!lock.owns_lock()) sim::fail("wrong-answer", key, "the refresh returned without the read lock");
                    if (!refused && !done && !miss && t.count(t.cg) <= 1024) sim::fail("wrong-answer", key, "the refresh reported missing symbols, all existed before it started"); break; }
                case T_REREAD: {
                    auto lock = sys.get_read_lock();
                    if (auto* c = kept_cg[k]) { auto e = c->at((size_t) op.b % c->ElementCount); s += touch(*e.operator->()); s += c->HasAllSymbols(); sim::Quiet q; t.check_cg(*e.operator->(), t.index(t.cg, (size_t) op.b % c->ElementCount), 0, key); }
                    if (auto* c = kept_pt[k]) { auto e = c->at((size_t) op.b % c->ElementCount); s += touch(*e.operator->()); s += c->HasAllPolynomials(); sim::Quiet q; t.check_poly(t.pt, *e.operator->(), t.index(t.pt, (size_t) op.b % c->ElementCount), 0, key); }
                    if (auto* c = kept_fc[k]) { auto e = c->at((size_t) op.b % c->ElementCount); s += touch(*e.operator->()); sim::Quiet q; t.check_poly(t.fc, *e.operator->(), t.index(t.fc, (size_t) op.b % c->ElementCount), 0, key); }
                    break; }
                case T_SELECT: { auto lock = sys.get_read_lock(); std::optional<PlanRng> r; { sim::Quiet q; r.emplace((uint64_t) op.b * 8009 + (uint64_t) op.c + 1); } s += select(op.a % 7, *r, kept_cg[k], kept_pt[k], kept_fc[k], key); break; }
                case T_RULES: case T_RANGE: {   // one or two measurements as a range of the tensor; values for their outcomes
                    auto lock = sys.get_read_lock(); auto* c = kept_pt[k]; auto* g = kept_cg[k]; size_t nm = t.mmt_party.size(); size_t a = (size_t) op.b % (nm + 1), b = (size_t) op.c % (nm + 1); bool two = op.a % 2, bad = a == nm || (two && b == nm), same = !bad && two && t.mmt_party[a] == t.mmt_party[b];
                    auto members = [&](bool cgs) { std::vector<size_t> lo(t.cg.size(), 0), hi(t.cg.size(), 1); for (int z = 0; z <= (int) two; ++z) { size_t mm = z ? b : a, d = t.mmt_party[mm]; lo[d] = cgs ? t.mmt_cg_off[mm] : t.mmt_pt_off[mm]; hi[d] = lo[d] + (cgs ? t.mmt_cg_len[mm] : t.mmt_pt_len[mm]); }
                        std::vector<std::vector<size_t>> o; std::vector<size_t> ix = lo; for (;;) { o.push_back(ix); size_t d = 0; for (; d < ix.size(); ++d) { if (++ix[d] < hi[d]) break; ix[d] = lo[d]; } if (d == ix.size()) return o; } };
                    if (g && op.code == T_RANGE) {
                        bool threw = false; std::vector<size_t> mi{a}; if (two) mi.push_back(b); std::vector<std::pair<std::vector<size_t>, const CollinsGisinEntry*>> got; std::vector<CollinsGisinEntry> copies;
                        try { auto range = g->measurement_to_range(mi); for (auto it = range.begin(); it != range.end(); ++it) { s += touch(*it); sim::Quiet q; got.emplace_back(std::vector<size_t>(it.index().begin(), it.index().end()), nullptr); copies.push_back(*it); } } catch (const errors::BadCGError&) { threw = true; }
                        sim::Quiet q; if (threw != (bad || same)) sim::fail("wrong-range", "cg", "measurements %zu%s of %zu: range %s", a, two ? " and another" : "", nm, threw ? "refused" : "accepted");
                        if (!threw) { auto ex = members(true); if (ex.size() != got.size()) sim::fail("wrong-range", "cg", "the range has %zu elements, expected %zu", got.size(), ex.size()); for (size_t i = 0; i < ex.size(); ++i) { if (got[i].first != ex[i]) sim::fail("wrong-range", "cg", "the range visits other elements"); t.check_cg(copies[i], ex[i], 0, key); } }
                    }
                    if (c && sc.m.kind == LOC) {
                        const auto& lpt = dynamic_cast<const Locality::LocalityProbabilityTensor&>(*c); bool threw = false, norule = false; std::vector<Locality::PMIndex> mi; std::vector<Locality::PMOIndex> mo; std::vector<std::vector<size_t>> ex; std::vector<double> vals; std::vector<Polynomial> rules; std::vector<PolynomialElement> copies; Polynomial cond; bool conditional = op.code == T_RULES && two && op.a & 2 && !bad && !same; PolynomialElement ce{Polynomial{}};
                        auto pm = [&](size_t z) { return Locality::PMIndex{(party_name_t) (z < nm ? t.mmt_party[z] : 0), (mmt_name_t) (z < nm ? t.mmt_local[z] : 0), z}; };
                        { sim::Quiet q; mi.push_back(pm(a)); if (two) mi.push_back(pm(b)); if (!bad && !same) ex = members(false); for (size_t i = 0; i < ex.size(); ++i) vals.push_back(0.125 * (double) ((op.c + (int) i * 7) % 9 - 4)); }
                        try { auto range = lpt.measurement_to_range(mi); for (auto it = range.begin(); it != range.end(); ++it) { s += touch(*it); sim::Quiet q; copies.push_back(*it); if (copies.size() <= ex.size() && !std::equal(it.index().begin(), it.index().end(), ex[copies.size() - 1].begin())) sim::fail("wrong-range", "pt", "the range visits other elements"); }
                            if (op.code == T_RULES) {
                                if (conditional) { auto e = lpt.outcome_to_element(std::array<Locality::PMOIndex, 1>{Locality::PMOIndex{mi[0], (uint32_t) 0}}); { sim::Quiet q; ce = *e.operator->(); } rules = lpt.explicit_value_rules(range, *e.operator->(), vals); }
                                else rules = lpt.explicit_value_rules(range, vals); } }
                        catch (const errors::BadCGError&) { threw = true; } catch (const errors::BadPTError&) { norule = true; }
                        sim::Quiet q; if (threw != (bad || same)) sim::fail("wrong-range", "pt", "measurements %zu%s of %zu: range %s", a, two ? " and another" : "", nm, threw ? "refused" : "accepted");
                        if (!threw) {
                            if (copies.size() != ex.size()) sim::fail("wrong-range", "pt", "the range has %zu elements, expected %zu", copies.size(), ex.size()); bool all = !conditional || ce.hasSymbolPoly;
                            for (size_t i = 0; i < ex.size(); ++i) { t.check_poly(t.pt, copies[i], ex[i], 0, key); all = all && copies[i].hasSymbolPoly; }
                            if (conditional) { std::vector<size_t> ci(t.cg.size(), 0); ci[t.mmt_party[a]] = t.mmt_pt_off[a]; t.check_poly(t.pt, ce, ci, 0, key); }
                            if (op.code == T_RULES) { if (norule == all) sim::fail("wrong-rule", "", "value rules were %s, the elements are%s resolved", norule ? "refused" : "made", all ? "" : " not all");
                                if (!norule) { if (rules.size() != ex.size()) sim::fail("wrong-rule", "", "%zu rules for %zu outcomes", rules.size(), ex.size());
                                    for (size_t i = 0; i < ex.size(); ++i) { Terms x = t.expect(t.pt, ex[i]); if (conditional) { for (auto& [w, f] : value_of(sys.Symbols(), ce.symbolPolynomial, key)) x[w] -= vals[i] * f; } else x[{}] -= vals[i]; Terms g2 = value_of(sys.Symbols(), rules[i], key); if (!same_terms(x, g2)) sim::fail("wrong-rule", "", "outcome %zu with value %g gives the rule %s, expected %s", i, vals[i], str(g2).c_str(), str(x).c_str()); } } }
                        }
                    }
                    break; }
            }
        } catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", key, "%s failed: %s", key, e.what()); }
        sim::Quiet q; volatile uint64_t sink = s; (void) sink; sim::op_done(true);
    };
    run_clients(p, p.p[2], one);
    sim::Quiet q; sim::label("final");
    // every element of a tensor, in turn
    auto walk = [&](const auto& tensor, const auto& model, auto&& check) {
        size_t n = 0, skip = tensor.ElementCount > 600 ? tensor.ElementCount / 300 | 1 : 1;
        for (auto it = tensor.begin(); it != tensor.end(); ++it, ++n) { if (n >= tensor.ElementCount) sim::fail("wrong-range", "all", "a walk over the %zu elements of a tensor does not end", (size_t) tensor.ElementCount); auto ix = t.index(model, n); if (it.offset() != n || it.index() != ix) sim::fail("wrong-range", "all", "a walk over a tensor is not at element %zu", n); if (n % skip == 0) check(*it, ix); }
        if (n != tensor.ElementCount) sim::fail("wrong-range", "all", "a walk over a tensor visits %zu of %zu elements", n, (size_t) tensor.ElementCount); };
    bool big = t.count(t.cg) > 1024; size_t miss = big ? 0 : t.missing(), known = sys.Symbols().size();
    auto stride = [](size_t n) { return n > 600 ? n / 300 | 1 : (size_t) 1; };
    bool a = sys.RefreshCollinsGisin(); const auto& c = sys.CollinsGisin();
    if (the_cg && the_cg != &c) sim::fail("replaced", "final", "the Collins-Gisin tensor that clients refer to was replaced");
    if (!big && (a != !miss || c.HasAllSymbols() != a)) sim::fail("wrong-answer", "final", "the Collins-Gisin refresh reported complete=%d, %zu symbols are missing", (int) a, miss);
    for (size_t i = 0; i < c.ElementCount; i += stride(c.ElementCount)) { auto e = c.at(i); t.check_cg(*e.operator->(), t.index(t.cg, i), known, "final"); }
    bool b = sys.RefreshProbabilityTensor(); const auto& pt = sys.ProbabilityTensor(); bool bigp = t.count(t.pt) > 1024;
    if (!bigp && (b != !miss || pt.HasAllPolynomials() != b)) sim::fail("wrong-answer", "final", "the probability refresh reported complete=%d, %zu symbols are missing", (int) b, miss);
    for (size_t i = 0; i < pt.ElementCount; i += stride(pt.ElementCount)) { auto e = pt.at(i); t.check_poly(t.pt, *e.operator->(), t.index(t.pt, i), known, "final"); }
    if (sc.m.kind == LOC && t.binary) { bool f = sys.RefreshFullCorrelator(); const auto& fc = sys.FullCorrelator(); if (fc.ElementCount <= 1024 && !big && f != fc.HasAllPolynomials()) sim::fail("wrong-answer", "final", "the correlator refresh answered %d", (int) f);
        for (size_t i = 0; i < fc.ElementCount; i += stride(fc.ElementCount)) { auto e = fc.at(i); t.check_poly(t.fc, *e.operator->(), t.index(t.fc, i), known, "final"); } }
    { PlanRng r{(uint64_t) p.p[1] * 131 + p.ops.size() * 17 + (p.ops.empty() ? 0 : (uint64_t) p.ops[0].b)}; const Moment::FullCorrelator* fc = sc.m.kind == LOC && t.binary ? &sys.FullCorrelator() : nullptr; for (int i = 0; i < 7; ++i) (void) select(i, r, &c, &pt, fc, "final"); }
    walk(c, t.cg, [&](const CollinsGisinEntry& e, const std::vector<size_t>& ix) { t.check_cg(e, ix, known, "all"); });
    walk(pt, t.pt, [&](const PolynomialElement& e, const std::vector<size_t>& ix) { t.check_poly(t.pt, e, ix, known, "all"); });
    if (sc.m.kind == LOC && t.binary) walk(sys.FullCorrelator(), t.fc, [&](const PolynomialElement& e, const std::vector<size_t>& ix) { t.check_poly(t.fc, e, ix, known, "all"); });
    if (sc.m.kind == LOC) {   // a functional keeps its value when rewritten from one tensor to the other
        bool can = t.binary && t.cg.size() == 2, refused = false; PlanRng r{(uint64_t) p.p[1] * 977 + p.ops.size() * 31 + 5};
        try { const Locality::TensorConvertor conv{static_cast<const Locality::LocalityContext&>(sc.sys->Context())}; size_t n = t.count(t.cg); std::vector<double> in; for (size_t i = 0; i < n; ++i) in.push_back(r.chance(50) ? 0.0 : (double) r.below(33) * 0.25 - 4);
            auto value = [&](const std::vector<std::vector<Lin>>& m, const std::vector<double>& v) { Terms x; for (size_t i = 0; i < v.size(); ++i) if (v[i] != 0) for (auto& [w, y] : t.expect(m, t.index(m, i))) x[w] += v[i] * y; return x; };
            auto f = conv.collins_gisin_to_full_correlator(in), g = conv.full_correlator_to_collins_gisin(in);
            if (can && (f.size() != n || g.size() != n)) sim::fail("wrong-conversion", "", "a functional of %zu coefficients was rewritten with %zu and %zu", n, f.size(), g.size());
            if (can) { Terms a1 = value(t.cg, in), a2 = value(t.fc, f), b1 = value(t.fc, in), b2 = value(t.cg, g); if (!same_terms(a1, a2)) sim::fail("wrong-conversion", "", "the functional %s of Collins-Gisin elements became %s of correlators", str(a1).c_str(), str(a2).c_str()); if (!same_terms(b1, b2)) sim::fail("wrong-conversion", "", "the functional %s of correlators became %s of Collins-Gisin elements", str(b1).c_str(), str(b2).c_str()); sim::probe(8); }
        } catch (const std::exception&) { refused = true; }
        if (refused == can) sim::fail("wrong-conversion", "", "rewriting a functional was %s for a scenario of %zu parties, %sbinary", refused ? "refused" : "done", t.cg.size(), t.binary ? "" : "not ");
    }
    sim::probe(big || bigp ? 3 : miss ? 4 : 5);
}
