// Systems derived from another system by a linear map of its moments, and by a symmetry group acting on its operators.
#include "msrun.h"

#include "scenarios/derived/derived_errors.h"
#include "scenarios/derived/derived_matrix_system.h"
#include "scenarios/derived/lu_map_core_processor.h"
#include "scenarios/derived/map_core.h"
#include "scenarios/derived/symbol_table_map.h"
#include "scenarios/symmetrized/group.h"
#include "scenarios/symmetrized/representation.h"
#include "scenarios/symmetrized/symmetrized_matrix_system.h"

#include <cmath>
#include <sys/sysinfo.h>

using namespace ms;

namespace {
    using Mat = std::vector<std::vector<double>>;                 // column -> row -> coefficient, over 1 and the operators
    enum { Y_MM, Y_MM_CALL, Y_LM, Y_PLM, Y_DM, Y_DM_CALL, Y_FIND_MM, Y_FIND_DM, Y_SCAN, Y_MAP, Y_REP, Y_BASE, Y_NEW, Y_N };
    const char* const op_names[] = {"derived-moment-matrix", "derived-moment-matrix", "derived-localizing-matrix", "derived-polynomial-matrix", "derived-matrix", "derived-matrix", "find", "find", "scan-derived", "apply-map", "representation", "base", "new-system"};

    struct DenseFactory : Derived::DerivedMatrixSystem::STMFactory {  // a map given directly as a matrix
        Eigen::MatrixXd dense; Eigen::SparseMatrix<double> sparse; bool use_dense; size_t length;
        std::unique_ptr<Derived::SymbolTableMap> operator()(SymbolTable& origin, SymbolTable& target, MTP) override {
            origin.OSGIndex.update_if_necessary(length); Derived::LUMapCoreProcessor proc;
            if (use_dense) return std::make_unique<Derived::SymbolTableMap>(origin, target, proc, dense);
            return std::make_unique<Derived::SymbolTableMap>(origin, target, proc, sparse);
        }
    };

    struct Sym {
        MsRun run; Scenario& sc; const Model& md; size_t mt_budget; std::shared_ptr<MatrixSystem> base; bool base_gone = false;
        struct Sys {                                                  // one derived system and what it should be
            int L = 1; bool sym = true; std::vector<Mat> gens, elems; std::unique_ptr<Derived::DerivedMatrixSystem> ds; Symmetrized::SymmetrizedMatrixSystem* sms = nullptr;
            std::map<std::vector<int>, Terms> image;                  // word (of length <= L) -> what the map makes of it
            size_t known = 0; int variant = 0;
        };
        std::deque<Sys> systems;
        struct Rec { Op op; int code; Sys* sys; std::string key; uint64_t start, end; const void* addr = nullptr; ptrdiff_t off = -1, src = -1; bool created = false, found = false, refused = false; };
        std::deque<Rec> log;

        Sym(int kind, int size) : run{kind, size}, sc{run.sc}, md{sc.m}, mt_budget{230 / (size_t) std::max(1, get_nprocs())} { base = std::shared_ptr<MatrixSystem>(sc.sys.get(), [this](MatrixSystem*) { base_gone = true; }); }

        // ------------------------------------------------------------------------------------------ groups
        int D() const { return md.op_count() + 1; }
        Mat ident() const { Mat m((size_t) D(), std::vector<double>((size_t) D(), 0)); for (int i = 0; i < D(); ++i) m[(size_t) i][(size_t) i] = 1; return m; }
        Mat times(const Mat& a, const Mat& b) const { Mat m((size_t) D(), std::vector<double>((size_t) D(), 0)); for (int c = 0; c < D(); ++c) for (int k = 0; k < D(); ++k) if (b[c][k] != 0) for (int r = 0; r < D(); ++r) m[c][r] += a[k][r] * b[c][k]; return m; }
        static bool same(const Mat& a, const Mat& b) { for (size_t c = 0; c < a.size(); ++c) for (size_t r = 0; r < a.size(); ++r) if (std::abs(a[c][r] - b[c][r]) > 1e-9) return false; return true; }
        bool closure(const std::vector<Mat>& gens, std::vector<Mat>& out, size_t limit) const { out = {ident()}; for (size_t i = 0; i < out.size(); ++i) for (auto& g : gens) { Mat n = times(out[i], g); bool have = false; for (auto& o : out) have |= same(o, n); if (!have) { if (out.size() >= limit) return false; out.push_back(n); } } return true; }
        void col(Mat& m, int x, std::initializer_list<std::pair<int, double>> im) const { auto& c = m[(size_t) x + 1]; std::fill(c.begin(), c.end(), 0); for (auto [r, v] : im) c[(size_t) (r + 1)] += v; }   // row -1: identity
        // an automorphism of the operator algebra that respects conjugation
        Mat generator(PlanRng& r) const {
            Mat m = ident(); int n = md.n, N = md.op_count(); auto sgn = [&](int x) { col(m, x, {{x, -1}}); };
            auto swap_ops = [&](int a, int b) { col(m, a, {{b, 1}}); col(m, b, {{a, 1}}); };
            auto rot = [&](int a, int b, double t) { col(m, a, {{a, std::cos(t)}, {b, std::sin(t)}}); col(m, b, {{a, -std::sin(t)}, {b, std::cos(t)}}); };
            static const double angles[3] = {M_PI * 2 / 3, M_PI / 2, M_PI}; double t = angles[r.below(3)]; int what = r.range(0, 99);
            switch (md.kind) {
                case FREE: case COMM: case CLIFF: if (n == 1 || what < 30) { sgn((int) r.below((uint64_t) n)); if (r.chance(50)) for (int x = 0; x < n; ++x) sgn(x); }
                    else if (what < 75) { int a = (int) r.below((uint64_t) n), b = (int) r.below((uint64_t) n); if (a != b) { swap_ops(a, b); if (n > 2 && r.chance(50)) { int c = 3 - a - b; if (c >= 0 && c < n && c != a && c != b) { col(m, a, {{b, 1}}); col(m, b, {{c, 1}}); col(m, c, {{a, 1}}); } } } else sgn(a); }
                    else rot(0, 1, t); break;
                case CONJ_B: case CONJ_I: { int a = (int) r.below((uint64_t) N), b = (int) r.below((uint64_t) N); if (what < 40) swap_ops(a, md.adj(a)); else if (what < 60) { sgn(a); sgn(md.adj(a)); } else if (what < 85 && md.adj(a) != b && a != b) { swap_ops(a, b); swap_ops(md.adj(a), md.adj(b)); } else if (md.adj(a) != b && a != b) { rot(a, b, t); rot(md.adj(a), md.adj(b), t); } else { for (int x = 0; x < N; ++x) sgn(x); } break; }
                case IDEM: { int a = (int) r.below((uint64_t) n); if (what < 45) { int b = a; for (int x = 0; x < n; ++x) if (x != a && md.idem(x) == md.idem(a)) b = x; if (a != b) { swap_ops(a, b); break; } } if (md.idem(a)) col(m, a, {{-1, 1}, {a, -1}}); else sgn(a); break; }
                case NILP: { int a = (int) r.below((uint64_t) n); if (what < 50 && n > 2) { swap_ops(1, 2); break; } sgn(a); break; }
                case LOC: {                                         // relabel outcomes, settings or parties
                    std::vector<std::vector<int>> first; int x = 0; for (auto& pty : md.shape) { first.emplace_back(); for (int oc : pty) { first.back().push_back(x); x += oc - 1; } }
                    // P(party, measurement, outcome): an operator, or one minus the sum of the others
                    auto set = [&](int from, int p, int mm, int oc) { if (oc + 1 < md.shape[(size_t) p][(size_t) mm]) col(m, from, {{first[(size_t) p][(size_t) mm] + oc, 1}}); else { col(m, from, {{-1, 1}}); for (int k = 0; k + 1 < md.shape[(size_t) p][(size_t) mm]; ++k) m[(size_t) from + 1][(size_t) (first[(size_t) p][(size_t) mm] + k) + 1] -= 1; } };
                    auto map_mmt = [&](int p, int mm, int p2, int mm2, const std::vector<int>& perm) { for (int oc = 0; oc + 1 < md.shape[(size_t) p][(size_t) mm]; ++oc) set(first[(size_t) p][(size_t) mm] + oc, p2, mm2, perm[(size_t) oc]); };
                    auto id = [](int k) { std::vector<int> v; for (int i = 0; i < k; ++i) v.push_back(i); return v; };
                    int np = (int) md.shape.size(), p = (int) r.below((uint64_t) np), nm = (int) md.shape[(size_t) p].size(), mm = nm ? (int) r.below((uint64_t) nm) : 0; if (!nm) break;
                    if (what < 40) { auto v = id(md.shape[(size_t) p][(size_t) mm]); if (v.size() > 2 && r.chance(50)) std::rotate(v.begin(), v.begin() + 1, v.end()); else if (v.size() > 1) std::swap(v[r.below(v.size())], v.back()); map_mmt(p, mm, p, mm, v); }
                    else if (what < 70) { int m2 = (int) r.below((uint64_t) nm); if (md.shape[(size_t) p][(size_t) mm] != md.shape[(size_t) p][(size_t) m2]) break; auto v = id(md.shape[(size_t) p][(size_t) mm]); map_mmt(p, mm, p, m2, v); map_mmt(p, m2, p, mm, v); }
                    else { int p2 = (int) r.below((uint64_t) np); if (md.shape[(size_t) p] != md.shape[(size_t) p2]) break; for (int q = 0; q < nm; ++q) { auto v = id(md.shape[(size_t) p][(size_t) q]); map_mmt(p, q, p2, q, v); map_mmt(p2, q, p, q, v); } }
                    break; }
                case PAULI: { int q = (int) r.below((uint64_t) n), q2 = (int) r.below((uint64_t) n);
                    if (what < 35 && q != q2) for (int b = 0; b < 3; ++b) swap_ops(3 * q + b, 3 * q2 + b);
                    else if (what < 60) { int b = (int) r.below(3); sgn(3 * q + b); sgn(3 * q + (b + 1) % 3); }
                    else if (what < 80) { for (int b = 0; b < 3; ++b) col(m, 3 * q + b, {{3 * q + (b + 1) % 3, 1}}); }
                    else { for (int z = 0; z < n; ++z) { sgn(3 * z); sgn(3 * z + 1); } }
                    break; }
            }
            return m;
        }
        std::vector<Mat> group_of(uint64_t seed, int n, size_t limit, std::vector<Mat>& elems) const { PlanRng r{seed}; std::vector<Mat> gens; for (int i = 0; i < n; ++i) { gens.push_back(generator(r)); std::vector<Mat> e; if (!closure(gens, e, limit)) gens.pop_back(); } if (gens.empty()) gens.push_back(ident()); closure(gens, elems, limit); return gens; }
        Symmetrized::repmat_t sparse(const Mat& m) const { Symmetrized::repmat_t s(D(), D()); std::vector<Eigen::Triplet<double>> t; for (int c = 0; c < D(); ++c) for (int r = 0; r < D(); ++r) if (m[(size_t) c][(size_t) r] != 0) t.emplace_back(r, c, m[(size_t) c][(size_t) r]); s.setFromTriplets(t.begin(), t.end()); return s; }
        Terms act(const Mat& g, const std::vector<int>& w) const {   // image of a word under an automorphism
            Terms t; t[{}] = 1.0;
            for (int x : w) { Terms n; for (auto& [k, v] : t) for (int r = 0; r < D(); ++r) { double c = g[(size_t) x + 1][(size_t) r]; if (c == 0) continue; W a, b; a.w = k; if (r) b.w.push_back(r - 1); add_term(n, md.mul(a, b), v * c); } t = std::move(n); }
            return t;
        }
        // ------------------------------------------------------------------------------------------ construction
        int longest() const { double n = (double) md.words(1).size(); int l = 1; while (l < 4 && md.words(l + 1).size() <= 45 && n < 60) ++l; return l; }
        void define(Sys& s, const Op& op, int sel) {                  // what this system is, decided beforehand (oracle side)
            s.variant = op.b; int lm = longest(); s.L = 1 + (op.a + 3 * lm - 1) % lm; if (op.c % 4 && s.L < 2 && lm > 1) s.L = lm; s.sym = sel % 4 != 3 || md.kind == CLIFF || md.kind == PAULI;
            s.gens = group_of((uint64_t) op.b * 977 + 5, 1 + op.c % 3, 24, s.elems); auto ws = md.words(s.L);
            if (s.sym) { for (auto& w : ws) { auto& t = s.image[w]; for (auto& g : s.elems) for (auto& [k, v] : act(g, w)) t[k] += v / (double) s.elems.size(); } }
            else {                                                    // any linear map that respects conjugation
                PlanRng r{(uint64_t) op.b * 31 + 7}; std::set<std::vector<int>> done;
                for (auto& w : ws) { W x; x.w = w; auto c = md.conj(x).w; if (c < w && done.count(c)) { s.image[w]; for (auto& [k, v] : s.image[c]) { W y; y.w = k; s.image[w][md.conj(y).w] += v; } done.insert(w); continue; }
                    done.insert(w); auto& t = s.image[w]; if (w.empty()) { t[{}] = 1; continue; } int style = r.range(0, 9); if (style < 2) continue; if (style < 3) { t[{}] = r.chance(50) ? 0.5 : -0.25; continue; }
                    int n = r.range(1, 3); static const double cs[5] = {1, -1, 0.5, 2, -0.75}; for (int i = 0; i < n; ++i) { auto& z = ws[r.below(ws.size())]; double v = cs[r.below(5)]; t[z] += v; if (c == w) { W y; y.w = z; auto zc = md.conj(y).w; t[zc] += v; } } }
            }
            for (auto& [w, t] : s.image) for (auto it = t.begin(); it != t.end();) if (std::abs(it->second) < 1e-12) it = t.erase(it); else ++it;
        }
        void make(Sys& s, MTP pol) {
            std::shared_ptr<MatrixSystem> b; std::vector<Symmetrized::repmat_t> gens; DenseFactory df; { sim::Quiet q; b = base; if (s.sym) for (auto& g : s.gens) gens.push_back(sparse(g)); }
            if (s.sym) {
                auto elems = Symmetrized::Group::dimino_generation(gens);
                auto grp = std::make_unique<Symmetrized::Group>(sc.sys->Context(), std::make_unique<Symmetrized::Representation>(1, std::move(elems)));
                auto p = std::make_unique<Symmetrized::SymmetrizedMatrixSystem>(std::move(b), std::move(grp), (size_t) s.L, std::make_unique<Derived::LUMapCoreProcessor>(), -1.0, pol);
                s.sms = p.get(); s.ds = std::move(p);
            } else {
                { sim::Quiet q; const auto& osg = sc.sys->Context().operator_sequence_generator((size_t) s.L); long n = (long) osg.size(); df.use_dense = s.variant % 2; df.length = (size_t) s.L; std::map<std::vector<int>, long> ix; long i = 0; for (const auto& x : osg) ix[from(x).w] = i++;
                    df.dense = Eigen::MatrixXd::Zero(n, n); for (auto& [w, t] : s.image) for (auto& [k, v] : t) df.dense(ix[k], ix[w]) = v.real(); df.sparse = df.dense.sparseView(); }
                s.ds = std::make_unique<Derived::DerivedMatrixSystem>(std::move(b), std::move(df), -1.0, pol);
            }
            s.known = s.ds->Symbols().size();
        }
        // ------------------------------------------------------------------------------------------ operations
        MTP policy(const Op& op, size_t need) { MTP p = run.policy(op); if (p == MTP::Never) return p; if (mt_budget < need) return MTP::Never; mt_budget -= need; return p; }
        int level(const Op& op) const { return op.a % 3; }
        void one(const Op& o) {
            Op op = o; if (op.code == Y_BASE) { { sim::Quiet q; static const int c[] = {O_MM, O_LM, O_GENDICT, O_LM_CALL, O_SCAN, O_MM_CALL, O_PLM, O_FIND_MM}; op.code = c[(op.b / 7) % 8]; MTP p = policy(op, 1); if (p == MTP::Never) op.c = op.c / 16 * 16 + 15; } run.one(op); return; }
            sim::label(op_names[op.code]); Sys* s = nullptr; Rec* rec = nullptr; std::optional<Polynomial> sp; std::optional<OperatorSequence> sq; MTP pol; Sys fresh; size_t l;
            {
                sim::Quiet q; log.emplace_back(); rec = &log.back(); rec->op = op; rec->code = op.code;
                if (op.code == Y_NEW) { systems.emplace_back(); s = &systems.back(); define(*s, op, op.b / 3); pol = policy(op, 3); } else { s = &systems[(size_t) (op.b / 5) % (size_t) std::max<size_t>(1, n_ready)]; pol = policy(op, op.code == Y_REP ? 3 : 1); }
                rec->sys = s; l = (size_t) level(op); rec->start = sim::now(); std::string L = std::to_string(l); sq = run.seq(run.word(op));
                switch (op.code) { case Y_MM: case Y_MM_CALL: case Y_FIND_MM: rec->key = "MM" + L; break; case Y_LM: rec->key = "LM" + L + str(run.word(op)); break; case Y_PLM: rec->key = "PLM" + L + run.pkey(run.poly(op)); break; case Y_DM: case Y_DM_CALL: case Y_FIND_DM: rec->src = (op.a * 3 + op.c / 3) % (ptrdiff_t) (prepared + 2); rec->key = "DM" + std::to_string(rec->src); break; default: break; }
            }
            auto& sys = *sc.sys; if (op.code == Y_PLM) { auto lk = sys.get_read_lock(); sim::Quiet q; sp = run.symbol_poly(op); }
            uint64_t sink = 0; std::string why; bool large = false, badmap = false, badoff = false; const void* addr = nullptr; ptrdiff_t off = -1; bool created = false, found = false;
            auto took = [&](auto&& pr) { off = (ptrdiff_t) pr.first; addr = &static_cast<const SymbolicMatrix&>(pr.second); created = true; sink += MsRun::touch(pr.second); };
            auto took_ref = [&](const auto& m) { addr = &static_cast<const SymbolicMatrix&>(m); created = true; sink += MsRun::touch(m); };
            try {
                auto* d = s->ds.get();
                attempt(run.armed, op_names[op.code], [&] { switch (op.code) {
                    case Y_NEW: make(*s, pol); d = s->ds.get(); took(d->MomentMatrix.create(0, pol)); break;
                    case Y_MM: took(d->MomentMatrix.create(l, pol)); break;
                    case Y_MM_CALL: took_ref(d->MomentMatrix(l, pol)); break;
                    case Y_LM: took(d->LocalizingMatrix.create(LocalizingMatrixIndex{l, *sq}, pol)); break;
                    case Y_PLM: took(d->PolynomialLocalizingMatrix.create(PolynomialLocalizingMatrixIndex{l, *sp}, pol)); break;
                    case Y_DM: took(d->DerivedMatrices.create(rec->src, pol)); break;
                    case Y_DM_CALL: took_ref(d->DerivedMatrices(rec->src, pol)); break;
                    case Y_FIND_MM: { auto lk = d->get_read_lock(); off = d->MomentMatrix.find_index(l); found = off >= 0; if (found) { const auto& m = d->MomentMatrix.find(lk, l); addr = &m; sink += MsRun::touch(m); } break; }
                    case Y_FIND_DM: { auto lk = d->get_read_lock(); off = d->DerivedMatrices.find_index(rec->src); found = off >= 0; if (found) { const auto& m = d->DerivedMatrices.find(lk, rec->src); addr = &m; sink += MsRun::touch(m); } break; }
                    case Y_SCAN: { auto lk = d->get_read_lock(); const auto& st = d->Symbols(); for (size_t i = 0; i < st.size(); ++i) { sink += st[i].is_hermitian(); auto [re, im] = st[i].basis_key(); if (re >= 0) sink += st.Basis.RealSymbols()[(size_t) re]; if (im >= 0) sink += st.Basis.ImaginarySymbols()[(size_t) im]; } for (size_t i = 0; i < d->size(); ++i) sink += (*d)[(ptrdiff_t) i].Dimension(); break; }
                    case Y_MAP: { auto lk = sys.get_read_lock(); const auto& m = d->map(); size_t n = m.fwd_size(); for (size_t i = (size_t) op.c % 3; i < n; i += 3) try { sink += m((symbol_name_t) i).size(); } catch (const errors::bad_map&) {} for (size_t k = 0; k < m.inv_size(); ++k) sink += m.inverse((symbol_name_t) k).size(); sink += (uint64_t) m.is_monomial_map(); break; }
                    case Y_REP: if (s->sms) { size_t len = 1 + (size_t) op.a % (size_t) std::max(1, std::min(4, s->L + 1)); if (op.b % 3 == 0) { len = 7; while (len > 1 && (pow(1.0 + D(), (double) len) > 1500 || md.words((int) len).size() > 60)) --len; if (op.b % 2 && len > 4) --len; } if (md.words((int) len).size() > 60) len = (size_t) s->L; const auto& rp = s->sms->group().create_representation(len, pol); addr = &rp; sink += rp.size() + (uint64_t) rp.sum_of().nonZeros() + (uint64_t) rp[0].nonZeros(); const auto& r2 = s->sms->group().representation(len); if (&r2 != &rp) { sim::Quiet q; sim::fail("two-representations", "", "two requests for the representation on words of length %zu were given different ones", len); } sim::Quiet q; rec->key = "REP" + std::to_string(len); } break;
                } });
            } catch (const errors::too_large_to_transform_error& e) { sim::Quiet q; large = true; why = e.what(); } catch (const errors::bad_map& e) { sim::Quiet q; badmap = true; why = e.what(); } catch (const errors::bad_transformation_error& e) { sim::Quiet q; badoff = true; why = e.what(); }
            catch (const std::exception& e) { sim::Quiet q; sim::fail("unexpected-error", op_names[op.code], "%s failed: %s", rec->key.c_str(), e.what()); }
            sim::Quiet q; volatile uint64_t v = sink; (void) v; rec->end = sim::now(); rec->addr = addr; rec->off = off; rec->created = created; rec->found = found; rec->refused = large || badmap || badoff; sim::op_done(!rec->refused);
            // a request is refused exactly when the map does not reach far enough
            int need = 0; switch (op.code) { case Y_MM: case Y_MM_CALL: need = 2 * (int) l; break; case Y_LM: need = 2 * (int) l + (int) run.word(op).w.size(); break; case Y_PLM: { for (auto& [w, c] : run.poly(op)) need = std::max(need, (int) w.w.size()); need += 2 * (int) l; break; } default: break; }
            if (s->sym && (op.code <= Y_PLM) && large != (need > s->L)) sim::fail("refused-request", op_names[op.code], "%s needs words of length %d, the map covers %d: %s", rec->key.c_str(), need, s->L, large ? why.c_str() : "it was not refused");
            if (large && (op.code > Y_PLM || !s->sym)) sim::fail("refused-request", op_names[op.code], "%s failed: %s", rec->key.c_str(), why.c_str());
            if (badmap) { bool covered = true; if (op.code <= Y_PLM) covered = need <= s->L; else if (op.code == Y_DM || op.code == Y_DM_CALL) covered = reach(rec->src) <= s->L; if (covered) sim::fail("refused-request", op_names[op.code], "%s failed although every word it needs is mapped: %s", rec->key.c_str(), why.c_str()); sim::probe(11); }
            if (badoff && rec->src < (ptrdiff_t) prepared) sim::fail("refused-request", op_names[op.code], "%s failed: %s", rec->key.c_str(), why.c_str());
        }
        // ------------------------------------------------------------------------------------------ oracles
        size_t n_ready = 0, prepared = 0;
        const Op* base_op(ptrdiff_t off) const { for (auto& r : run.hist) if (r.created && r.off == off) return &r.op; const void* a = nullptr; if (off >= 0 && (size_t) off < sc.sys->size()) a = &(*sc.sys)[off]; if (a) for (auto& r : run.hist) if (r.created && r.addr == a) return &r.op; return nullptr; }
        int reach(ptrdiff_t off) const { const Op* o = base_op(off); if (!o) return 1000; int mx = 0; for (auto& row : cells(*o)) for (auto& t : row) for (auto& [w, c] : t) mx = std::max(mx, (int) w.size()); return mx; }
        // operator of each cell of the base matrix an operation asks for
        std::vector<std::vector<Terms>> cells(const Op& op) const {
            size_t l = (size_t) run.level(op); auto rows = row_words(sc, l, "rows"); std::vector<std::vector<Terms>> o(rows.size(), std::vector<Terms>(rows.size())); std::vector<std::pair<W, cplx>> mid;
            switch (op.code) { case O_MM: case O_MM_CALL: mid.emplace_back(W{}, 1.0); break; case O_LM: case O_LM_CALL: mid.emplace_back(run.word(op), 1.0); break; default: mid = run.poly(op); }
            for (size_t r = 0; r < rows.size(); ++r) for (size_t c = 0; c < rows.size(); ++c) for (auto& [w, f] : mid) add_term(o[r][c], md.mul(md.mul(md.conj(rows[r]), w), rows[c]), f);
            return o;
        }
        // a random functional with f(w*) = conj f(w), f(1) = 1
        uint64_t fseed = 1;
        cplx f(const std::vector<int>& w) const {
            if (w.empty()) return 1.0; W x; x.w = w; W c = md.conj(x); if (c.zero) return 0; bool flip = c.w < w; const auto& k = flip ? c.w : w; uint64_t h = fseed * 1000003; for (int y : k) h = (h ^ (uint64_t) (y + 1)) * 0x100000001b3ull; PlanRng r{h}; r.next(); cplx v{(double) r.below(2001) / 1000.0 - 1.0, (double) r.below(2001) / 1000.0 - 1.0};
            if (c.w == w) return (c.ph & 3) == 0 ? cplx{v.real(), 0} : (c.ph & 3) == 2 ? cplx{0, v.imag()} : cplx{0, 0};
            if (!flip) return v; return std::conj(v * ipow(c.ph));                                 // x* = i^p k, so f(x) = conj(i^p f(k))
        }
        cplx f(const Terms& t) const { cplx s = 0; for (auto& [w, c] : t) s += c * f(w); return s; }
        cplx image(const Sys& s, const Terms& t, bool& covered) const { cplx v = 0; for (auto& [w, c] : t) { auto it = s.image.find(w); if (it == s.image.end()) { covered = false; continue; } v += c * f(it->second); } return v; }
        std::vector<cplx> y;                                          // value of each symbol of the derived system
        cplx eval(const Polynomial& p, const char* key) const { cplx v = 0; for (const auto& m : p) { if (m.id < 0 || (size_t) m.id >= y.size()) sim::fail("bad-symbol", key, "derived symbol %ld does not exist", (long) m.id); cplx x = y[(size_t) m.id]; v += m.factor * (m.conjugated ? std::conj(x) : x); } return v; }
        cplx eval_base(const Polynomial& p, const char* key) const { return f(value_of(sc.sys->Symbols(), p, key)); }

        void check_group(Sys& s) {
            const auto& rp = s.sms->group().representation(1); const auto& g = s.sms->group();
            if (g.size != s.elems.size() || rp.size() != s.elems.size()) sim::fail("wrong-group", "order", "the group generated has %zu elements, expected %zu", g.size, s.elems.size());
            std::vector<Mat> got; for (size_t i = 0; i < rp.size(); ++i) { Mat m((size_t) D(), std::vector<double>((size_t) D(), 0)); if (rp[i].rows() != D() || rp[i].cols() != D()) sim::fail("wrong-group", "shape", "a group element has the wrong shape"); for (int c = 0; c < D(); ++c) for (int r = 0; r < D(); ++r) m[(size_t) c][(size_t) r] = rp[i].coeff(r, c); got.push_back(m); }
            for (auto& e : s.elems) { size_t n = 0; for (auto& m : got) n += same(m, e); if (n != 1) sim::fail("wrong-group", "elements", "a group element appears %zu times in the generated group", n); }
            for (int k = 0; k < 2; ++k) { bool no = false; try { if (k) (void) s.sms->group().create_representation(0, MTP::Never); else (void) g.representation(0); } catch (const std::range_error&) { no = true; } if (!no) sim::fail("wrong-representation", "zero", "a representation on words of length 0 was given out"); }
            for (size_t len = 1; len <= 7; ++len) {
                const Symmetrized::Representation* r = nullptr; try { r = &g.representation(len); } catch (const std::exception&) { if ((int) len == s.L) sim::fail("wrong-representation", "missing", "no representation on words of length %zu", len); continue; }
                const auto& osg = sc.sys->Context().operator_sequence_generator(len); long n = (long) osg.size(); if (r->size() != got.size()) sim::fail("wrong-representation", "size", "a representation has %zu elements, the group has %zu", r->size(), got.size());
                std::vector<std::vector<int>> ws; for (const auto& x : osg) ws.push_back(from(x).w);
                Eigen::MatrixXd sum = Eigen::MatrixXd::Zero(n, n);
                for (size_t e = 0; e < got.size(); ++e) { Eigen::MatrixXd m = (*r)[e]; if (m.rows() != n || m.cols() != n) sim::fail("wrong-representation", "shape", "a representation on %ld words is %ldx%ld", n, (long) m.rows(), (long) m.cols()); sum += m;
                    for (long c = 0; c < n; ++c) { Terms t = act(got[e], ws[(size_t) c]); for (long k = 0; k < n; ++k) { auto it = t.find(ws[(size_t) k]); cplx v = it == t.end() ? cplx{0, 0} : it->second; if (std::abs(v - m(k, c)) > 1e-7) { W a, b; a.w = ws[(size_t) c]; b.w = ws[(size_t) k]; sim::fail("wrong-representation", "", "on words of length %zu, element %zu takes %s to %g %s, expected %g", len, e, str(a).c_str(), m(k, c), str(b).c_str(), v.real()); } } } }
                Eigen::MatrixXd su = r->sum_of(); if (su.rows() != n || (su - sum).cwiseAbs().maxCoeff() > 1e-7) sim::fail("wrong-representation", "sum", "the sum of a representation is not the sum of its elements");
                sim::probe(2 + (unsigned) std::min<size_t>(len, 4));
            }
        }
        void check_system(Sys& s) {
            auto& d = *s.ds; const auto& map = d.map(); const auto& st = d.Symbols(); const auto& bs = sc.sys->Symbols();
            if (st.size() != s.known || map.inv_size() != st.size()) sim::fail("derived-symbols", "", "the derived system had %zu symbols, now %zu, its map has %zu", s.known, st.size(), map.inv_size());
            if (s.sms) check_group(s);
            size_t nr = 0, ni = 0; for (size_t k = 1; k < st.size(); ++k) { auto [re, im] = st[k].basis_key(); if (re < 0 || (im >= 0) == st[k].is_hermitian()) sim::fail("derived-symbols", "basis", "derived symbol %zu has basis elements (%ld,%ld)", k, (long) re, (long) im); ++nr; ni += im >= 0; if (k >= 2 && map.inverse((symbol_name_t) k).empty()) sim::fail("derived-symbols", "spurious", "derived symbol %zu stands for nothing", k); }
            if (st.Basis.RealSymbolCount() != nr || st.Basis.ImaginarySymbolCount() != ni) sim::fail("derived-symbols", "basis", "basis of %zu real and %zu imaginary elements, expected %zu and %zu", st.Basis.RealSymbolCount(), st.Basis.ImaginarySymbolCount(), nr, ni);
            for (fseed = 1; fseed <= 2; ++fseed) {
                y.assign(st.size(), 0); y[1] = 1; for (size_t k = 2; k < st.size(); ++k) { y[k] = eval_base(map.inverse((symbol_name_t) k), "inverse"); if (st[k].is_hermitian() && std::abs(y[k].imag()) > 1e-7) sim::fail("derived-symbols", "hermitian", "derived symbol %zu is called real, but stands for a moment that is not", k);
                    cplx yc = eval_base(map.inverse(Monomial{(symbol_name_t) k, 1.0, true}), "inverse"); if (std::abs(yc - std::conj(y[k])) > 1e-6) sim::fail("wrong-inverse", "", "the inverse image of the conjugate of derived symbol %zu is not the conjugate of its inverse image", k); }
                // every symbol of the base
                for (size_t i = 0; i < bs.size(); ++i) {
                    Terms t; if (i) add_term(t, from(bs[i].sequence()), 1.0); bool cov = true; cplx e = image(s, t, cov); bool threw = false; cplx g = 0; try { g = eval(map((symbol_name_t) i), "map"); } catch (const errors::bad_map&) { threw = true; }
                    if (threw && cov) sim::fail("wrong-map", "missing", "the map does not cover symbol %zu (%s)", i, str(from(bs[i].sequence())).c_str());
                    if (!threw && !cov) sim::fail("wrong-map", "uncovered", "symbol %zu (%s) is longer than the map reaches (%d), yet it is mapped to a value", i, str(from(bs[i].sequence())).c_str(), s.L);
                    if (cov && std::abs(e - g) > 1e-6) sim::fail("wrong-map", "", "symbol %zu (%s) is mapped to something worth %g%+gi, expected %g%+gi", i, str(from(bs[i].sequence())).c_str(), g.real(), g.imag(), e.real(), e.imag());
                }
                std::set<const void*> done; for (auto& r : log) if (r.sys == &s && r.created && r.addr && done.insert(r.addr).second) check_matrix(s, r);
            }
            d.base_system().size();
        }
        void check_matrix(Sys& s, const Rec& r) {
            std::optional<Op> bo; switch (r.code) { case Y_NEW: bo = Op{}; bo->code = O_MM; bo->a = 0; break; case Y_MM: case Y_MM_CALL: bo = r.op; bo->code = O_MM; break; case Y_LM: bo = r.op; bo->code = O_LM; break; case Y_PLM: bo = r.op; bo->code = O_PLM; break; default: if (auto* o = base_op(r.src)) bo = *o; }
            if (!bo) { sim::probe(12); return; }                       // made by the base for its own use
            if (r.code <= Y_PLM || r.code == Y_NEW) { if (r.code != Y_NEW) bo->a = level(r.op); if (bo->a > run.maxl) { sim::probe(10); return; } }
            auto cs = cells(*bo); const auto& m = *static_cast<const SymbolicMatrix*>(r.addr); size_t d = cs.size(); const char* key = op_names[r.code];
            if (m.Dimension() != d) sim::fail("wrong-matrix", key, "derived matrix has dimension %zu, expected %zu", m.Dimension(), d);
            std::vector<cplx> v(d * d); for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
                bool cov = true; cplx e = image(s, cs[i][j], cov); cplx g; if (m.is_monomial()) { const auto& x = static_cast<const MonomialMatrix&>(m).SymbolMatrix(i, j); if (x.id < 0 || (size_t) x.id >= y.size()) sim::fail("bad-symbol", key, "derived symbol %ld does not exist", (long) x.id); g = x.id == 0 ? cplx{0, 0} : x.factor * (x.conjugated ? std::conj(y[(size_t) x.id]) : y[(size_t) x.id]); } else g = eval(static_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j), key);
                if (!cov) sim::fail("wrong-matrix", "uncovered", "%s: cell (%zu,%zu) is %s, longer than the map reaches (%d), yet the matrix was made", r.key.c_str(), i, j, str(cs[i][j]).c_str(), s.L);
                if (std::abs(e - g) > 1e-6) sim::fail("wrong-matrix", key, "%s: cell (%zu,%zu), the image of %s, is worth %g%+gi, expected %g%+gi", r.key.c_str(), i, j, str(cs[i][j]).c_str(), g.real(), g.imag(), e.real(), e.imag());
                v[i * d + j] = g; }
            if (m.Hermitian()) for (size_t i = 0; i < d; ++i) for (size_t j = 0; j <= i; ++j) if (std::abs(v[i * d + j] - std::conj(v[j * d + i])) > 1e-6) sim::fail("hermitian-flag", key, "%s says it is hermitian, its cells (%zu,%zu) and (%zu,%zu) are not conjugate", r.key.c_str(), i, j, j, i);
            sim::probe(m.is_monomial() ? 8 : 9);
        }
        void check_requests() {
            for (auto& s : systems) {
                auto& d = *s.ds; std::map<std::string, const Rec*> first; std::map<const void*, ptrdiff_t> offs; std::map<std::string, std::pair<uint64_t, uint64_t>> made; std::map<std::string, const void*> reps; for (size_t i = 0; i < d.size(); ++i) offs[&d[(ptrdiff_t) i]] = (ptrdiff_t) i;
                for (auto& r : log) if (r.sys == &s) {
                    if (r.code == Y_REP && r.addr) { auto [it, ins] = reps.emplace(r.key, r.addr); if (!ins && it->second != r.addr) sim::fail("two-representations", "", "two requests for %s were given different ones", r.key.c_str()); continue; }
                    if (!r.addr) continue; std::string k = r.code == Y_NEW ? "MM0" : r.key; auto it = offs.find(r.addr); if (it == offs.end()) sim::fail("stale-matrix", "derived", "the matrix handed out for %s is not in the derived system", k.c_str());
                    if (r.off >= 0 && it->second != r.off) sim::fail("wrong-offset", "derived", "%s: offset %ld reported, the matrix is at %ld", k.c_str(), (long) r.off, (long) it->second);
                    auto [f, ins] = first.emplace(k, &r); if (!ins && f->second->addr != r.addr) sim::fail("two-matrices", "derived", "two requests for %s were given different matrices", k.c_str());
                    if (r.created) { auto [m, i2] = made.emplace(k, std::pair{r.start, r.end}); if (!i2) { m->second.first = std::min(m->second.first, r.start); m->second.second = std::min(m->second.second, r.end); } } }
                for (auto& r : log) if (r.sys == &s && (r.code == Y_FIND_MM || r.code == Y_FIND_DM)) { auto it = made.find(r.key); if (r.code == Y_FIND_MM && r.found && (it == made.end() || it->second.first > r.end)) sim::fail("found-early", "derived", "%s was found before anybody asked for it", r.key.c_str()); if (!r.found && it != made.end() && it->second.second < r.start) sim::fail("not-found", "derived", "%s was not found after a request for it had completed", r.key.c_str()); }
            }
        }
    };
}

WORKLOAD(symmetry, "C08", 10, F_WAKE)
static void symmetry_gen(PlanRng& r, Plan& p) {
    static const int kinds[] = {FREE, COMM, CONJ_B, CONJ_I, IDEM, CLIFF, NILP, LOC, LOC, PAULI};
    p.p[0] = kinds[r.below(10)]; p.p[1] = r.range(0, N_SIZES - 1); if (p.p[0] == COMM) p.p[1] %= 6; int nc = p.p[2] = r.range(1, 3); p.p[3] = r.range(1, 2); p.p[4] = (int) r.below(8000); p.p[5] = r.range(0, 3); p.p[6] = (int) r.below(12); p.p[7] = (int) r.below(8000); p.p[8] = r.range(0, 2);
    int fa = r.range(0, 2), fb = (int) r.below(8000);
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 5); for (int i = 0; i < n; ++i) {
        int x = r.range(0, 99); int c = x < 14 ? Y_MM : x < 22 ? Y_MM_CALL : x < 36 ? Y_LM : x < 44 ? Y_PLM : x < 54 ? Y_DM : x < 58 ? Y_DM_CALL : x < 63 ? Y_FIND_MM : x < 68 ? Y_FIND_DM : x < 73 ? Y_SCAN : x < 77 ? Y_MAP : x < 84 ? Y_REP : x < 94 ? Y_BASE : Y_NEW;
        Op o{k, c, r.range(0, 5), (int) r.below(8000), (int) r.below(48)}; if (r.chance(50)) { o.a = fa; o.b = fb; } if (r.chance(40)) o.c = o.c / 16 * 16 + 15; p.ops.push_back(o); } }
}
static void symmetry_run(const Plan& p) {
    std::optional<Sym> run; std::vector<Op> first; int ns = std::max(1, p.p[3]);
    {
        sim::Quiet q; run.emplace(p.p[0], p.p[1]); auto& sys = *run->sc.sys; int L = run->longest(); run->run.prepare(p); bool poly = false; for (auto& o : p.ops) poly |= o.code == Y_PLM || o.code == Y_BASE; if (poly) sys.generate_dictionary(2);
        sys.generate_dictionary((size_t) L);
        // some matrices of the base made before, some of them too long for the map
        Op o; o.c = 15; o.a = 1; o.code = O_MM; run->run.one(o); o.b = p.p[7]; o.a = p.p[8]; o.code = O_LM; run->run.one(o); run->prepared = sys.size();
        for (int i = 0; i < ns; ++i) { Op d; d.a = p.p[5] + i; d.b = p.p[4] + i * 411; d.c = p.p[6]; run->systems.emplace_back(); run->define(run->systems.back(), d, p.p[4] / 7 + i); first.push_back(d); }
    }
    sim::label("construct"); for (int i = 0; i < ns; ++i) { Op o = first[(size_t) i]; MTP pol; { sim::Quiet q; o.c = p.p[4] % 16; pol = run->policy(o, 3); } run->make(run->systems[(size_t) i], pol); }
    run->n_ready = (size_t) ns;
    run->run.armed = p.p[15]; if (p.p[15]) run->mt_budget = run->mt_budget * 2 / 3;
    run_clients(p, p.p[2], [&](const Op& o) { run->one(o); });
    sim::Quiet q; sim::label("final"); run->check_requests(); for (auto& s : run->systems) run->check_system(s);
    run->base.reset(); if (run->base_gone) sim::fail("lost-base", "", "the base system was let go although systems derived from it are in use");
    run->systems.clear(); if (!run->base_gone) sim::fail("lost-base", "leak", "the base system is still held after every derived system is gone");
}

WORKLOAD(resource_symmetry, "C12", 5, F_ALLOC | F_THREAD | F_WAKE | F_NEEDFAULT)
static void resource_symmetry_gen(PlanRng& r, Plan& p) { symmetry_gen(r, p); p.p[15] = 1; }
static void resource_symmetry_run(const Plan& p) { symmetry_run(p); }
