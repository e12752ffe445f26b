// driver.cc - runs seeds, replays and minimises; one forked child per simulated run.
#include "workload.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_set>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace sim;
Workload*& Workload::head() { static Workload* h = nullptr; return h; }

static uint64_t mix64(uint64_t a, uint64_t b) { PlanRng r{a ^ (b * 0x9e3779b97f4a7c15ull)}; r.next(); return r.next(); }
static uint64_t hash_str(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) h = (h ^ (unsigned char) *s++) * 1099511628211ull; return h; }
static double wall() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Case { const Workload* wl = nullptr; uint64_t seed = 0; Plan plan; Config cfg; std::vector<Decision> dec; };

static volatile sig_atomic_t stop_now = 0;
static Result* shared_res;
static std::string exe_path;

static const Plan* g_plan; static const Workload* g_wl;
static void body(void*) { g_wl->run(*g_plan); }

// Runs one case in a forked child.  Returns outcome; result in *shared_res.
static uint32_t run_case(Case& c, unsigned timeout_s = 25) {
    Result* r = shared_res;
    memset((void*) r, 0, offsetof(Result, dec)); r->n_pcs = 0; memset(r->pcs, 0, sizeof r->pcs); r->n_fpcs = 0;
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
    if (pid == 0) {
        alarm(timeout_s);
        g_plan = &c.plan; g_wl = c.wl;
        sim::run(c.cfg, r, c.dec.data(), c.dec.size(), body, nullptr);
        _exit(4);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r->outcome = OUT_LIMIT; snprintf(r->msg, sizeof r->msg, "no result in %u s", timeout_s); }
    else if (WIFSIGNALED(st)) { r->outcome = OUT_ERROR; snprintf(r->msg, sizeof r->msg, "child killed by signal %d", WTERMSIG(st)); }
    else if (r->outcome == OUT_NONE) { r->outcome = OUT_ERROR; snprintf(r->msg, sizeof r->msg, "child exited with %d without a result", WEXITSTATUS(st)); }
    return r->outcome;
}

// ------------------------------------------------------------------------------------------------ symbolisation
static std::map<uint64_t, std::pair<std::string, std::string>> sym_cache;
static void symbolise(const uint64_t* pcs, size_t n) {
    std::string cmd = "addr2line -f -C -e " + exe_path; bool any = false;
    std::vector<uint64_t> ask;
    for (size_t i = 0; i < n; ++i) if (!sym_cache.count(pcs[i])) { char b[32]; snprintf(b, sizeof b, " 0x%lx", pcs[i]); cmd += b; ask.push_back(pcs[i]); any = true; sym_cache[pcs[i]] = {"?", "?"}; }
    if (!any) return;
    cmd += " 2>/dev/null";
    FILE* f = popen(cmd.c_str(), "r"); if (!f) return;
    char l1[8192], l2[4096];
    for (auto pc : ask) { if (!fgets(l1, sizeof l1, f) || !fgets(l2, sizeof l2, f)) break; l1[strcspn(l1, "\n")] = 0; l2[strcspn(l2, "\n")] = 0; sym_cache[pc] = {l1, l2}; }
    pclose(f);
}
static std::string short_fn(std::string s) {   // function name without arguments and templates
    std::string o; int d = 0;
    for (size_t i = 0; i < s.size(); ++i) { char ch = s[i]; if (ch == '<') { ++d; continue; } if (ch == '>') { --d; continue; } if (d > 0) continue; if (ch == '(') { if (s.compare(i, 22, "(anonymous namespace)::") == 0) { i += 22; continue; } if (s.compare(i, 11, "(anonymous ") == 0) { i += 22; continue; } break; } o += ch; }
    return o;
}
static std::string short_file(const std::string& s) { auto p = s.find("lib_moment/"); std::string t = p == std::string::npos ? s : s.substr(p + 11); auto q = t.find(" ("); if (q != std::string::npos) t = t.substr(0, q); return t; }
static bool in_repo(uint64_t pc) { return sym_cache[pc].second.find("lib_moment/") != std::string::npos; }

struct Violation { std::string cls, key, msg, site; };
static Violation describe(const Result& r) {
    Violation v; v.cls = r.cls; v.key = r.key; v.msg = r.msg;
    std::vector<uint64_t> pcs(r.pcs, r.pcs + std::min<uint64_t>(r.n_pcs, 60));
    symbolise(pcs.data(), pcs.size());
    size_t lead = r.n_pcs ? r.pcs[62] : 0;    // first 'lead' pcs are access sites
    std::set<std::string> fns; std::string where;
    for (size_t i = lead; i < pcs.size() && fns.empty(); ++i) if (in_repo(pcs[i])) { fns.insert(short_fn(sym_cache[pcs[i]].first)); }
    for (size_t i = 0; i < pcs.size() && i < 14; ++i) { auto& p = sym_cache[pcs[i]]; where += (i < lead ? "\n    at access " : "\n    in ") + short_fn(p.first) + " (" + short_file(p.second) + ")"; }
    if (r.n_fpcs) { symbolise(r.fpcs, std::min<uint64_t>(r.n_fpcs, 16)); where += "\n  fault injected"; size_t n = 0; for (size_t i = 0; i < r.n_fpcs && i < 16; ++i) { auto& p = sym_cache[r.fpcs[i]]; if (!in_repo(r.fpcs[i]) || n++ > 6) continue; where += "\n    in " + short_fn(p.first) + " (" + short_file(p.second) + ")"; } }
    if (r.cls == std::string("data-race") && pcs.size() > 1 && in_repo(pcs[1])) fns.insert(short_fn(sym_cache[pcs[1]].first));
    for (auto& f : fns) { if (!v.site.empty()) v.site += "|"; v.site += f; }
    v.msg += where;
    return v;
}

// ------------------------------------------------------------------------------------------------ generation
static std::vector<const Workload*> workloads_for(const std::string& prop) {
    std::vector<const Workload*> o;
    for (auto* w = Workload::head(); w; w = w->next) { std::string p = std::string(",") + w->property + ","; if (prop == w->name || p.find("," + prop + ",") != std::string::npos) o.push_back(w); }
    std::sort(o.begin(), o.end(), [](auto* a, auto* b) { return strcmp(a->name, b->name) < 0; });
    return o;
}
static void draw_schedule(Config& g, PlanRng& r, const Workload& wl) {
    g.seed = r.next();
    static const unsigned ps[] = {1000, 500, 300, 150, 60, 20, 5};
    static const uint64_t gaps[] = {0, 0, 0, 30, 200, 1500, 10000, 60000};
    unsigned k = (unsigned) r.below(100);
    g.strategy = k < 45 ? ST_RANDOM : k < 70 ? ST_PCT : k < 78 ? ST_RR : k < 94 ? ST_STARVE : ST_SERIAL;
    g.p_sync = ps[r.below(7)]; g.mem_gap = gaps[r.below(8)];
    g.pct_depth = (uint32_t) r.range(0, 6);
    static const uint64_t spans[] = {300, 3000, 30000, 300000}; g.pct_span = spans[r.below(4)];
    g.starve_tid = (uint32_t) r.below(8); g.writer_pref = r.chance(30);
    if (wl.fault_mask & F_WAKE) { if (r.chance(35)) { static const unsigned sp[] = {30, 150, 500}; g.p_spurious = sp[r.below(3)]; } }
}
static Case make_case(const std::vector<const Workload*>& wls, uint64_t base, uint64_t idx) {
    Case c; c.seed = mix64(base, idx);
    PlanRng r{c.seed}; unsigned tot = 0; for (auto* w : wls) tot += w->weight;
    unsigned x = (unsigned) r.below(tot); c.wl = wls.back();
    for (auto* w : wls) { if (x < w->weight) { c.wl = w; break; } x -= w->weight; }
    PlanRng pr{r.next()}; c.wl->gen(pr, c.plan);
    Config& g = c.cfg; draw_schedule(g, r, *c.wl);
    static const unsigned cores[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 16}; g.cores = cores[r.below(11)];
    g.max_events = 80000000;
    bool need = c.wl->fault_mask & F_NEEDFAULT;
    if ((c.wl->fault_mask & F_ALLOC) && (need ? !((c.wl->fault_mask & F_THREAD) && r.chance(25)) : r.chance(35))) {
        unsigned n = r.chance(80) ? 1 : 2;
        for (unsigned i = 0; i < n; ++i) { static const uint64_t mx[] = {20, 100, 400, 1500, 6000}; g.faults[g.n_faults++] = Fault{'A', 0, 1 + r.below(mx[r.below(5)])}; }
    } else if ((c.wl->fault_mask & F_THREAD) && (need || r.chance(10))) g.faults[g.n_faults++] = Fault{'T', 0, 1 + r.below(r.chance(50) ? 6 : 30)};
    return c;
}

// ------------------------------------------------------------------------------------------------ case files
static std::string esc(const std::string& s) { std::string o; for (char ch : s) { if (ch == '\n') o += "\\n"; else if (ch == '\\') o += "\\\\"; else o += ch; } return o; }
static void write_case(const std::string& path, const std::string& prop, const Case& c, const Violation& v, uint64_t hash, const std::string& note) {
    std::ofstream f(path);
    f << "# deterministic-simulation replay file; run:  python3 /verif/check.py --replay <this file>\n";
    f << "property " << prop << "\nworkload " << c.wl->name << "\nseed " << c.seed << "\n";
    f << "class " << v.cls << "\nsite " << v.site << "\nkey " << esc(v.key) << "\nmessage " << esc(v.msg) << "\nhash " << hash << "\n";
    if (!note.empty()) f << "note " << esc(note) << "\n";
    f << "plan"; for (int x : c.plan.p) f << ' ' << x; f << '\n';
    for (auto& o : c.plan.ops) f << "op " << o.client << ' ' << o.code << ' ' << o.a << ' ' << o.b << ' ' << o.c << '\n';
    f << "cfg " << c.cfg.writer_pref << ' ' << c.cfg.cores << ' ' << c.cfg.max_events << '\n';
    for (uint32_t i = 0; i < c.cfg.n_faults; ++i) f << "fault " << (char) c.cfg.faults[i].kind << ' ' << c.cfg.faults[i].ordinal << '\n';
    for (auto& d : c.dec) f << "dec " << d.ev << ' ' << (char) d.kind << ' ' << d.val << '\n';
}
struct Loaded { Case c; std::string prop, cls, site; uint64_t hash = 0; };
static Loaded read_case(const std::string& path) {
    Loaded l; std::ifstream f(path); if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(3); }
    std::string line; l.c.cfg.replay = 1; l.c.cfg.p_spurious = 0;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream s(line); std::string k; s >> k;
        if (k == "property") s >> l.prop; else if (k == "class") s >> l.cls; else if (k == "hash") s >> l.hash;
        else if (k == "site") { std::getline(s, l.site); if (!l.site.empty() && l.site[0] == ' ') l.site.erase(0, 1); }
        else if (k == "workload") { std::string n; s >> n; for (auto* w = Workload::head(); w; w = w->next) if (n == w->name) l.c.wl = w; }
        else if (k == "seed") s >> l.c.seed;
        else if (k == "plan") { for (int& x : l.c.plan.p) s >> x; }
        else if (k == "op") { Op o; s >> o.client >> o.code >> o.a >> o.b >> o.c; l.c.plan.ops.push_back(o); }
        else if (k == "cfg") s >> l.c.cfg.writer_pref >> l.c.cfg.cores >> l.c.cfg.max_events;
        else if (k == "fault") { char ch; Fault x{}; s >> ch >> x.ordinal; x.kind = (uint32_t) ch; if (l.c.cfg.n_faults < MAX_FAULTS) l.c.cfg.faults[l.c.cfg.n_faults++] = x; }
        else if (k == "dec") { Decision d; char ch; s >> d.ev >> ch >> d.val; d.kind = (uint32_t) ch; l.c.dec.push_back(d); }
    }
    if (!l.c.wl) { fprintf(stderr, "unknown workload in %s\n", path.c_str()); exit(3); }
    sim::set_want(l.prop.c_str());
    return l;
}
static Case to_replay(const Case& c, const Result& r) {
    Case o = c; o.cfg.replay = 1; o.cfg.p_spurious = 0; o.dec.assign(r.dec, r.dec + r.n_dec); return o;
}

// ------------------------------------------------------------------------------------------------ known findings
struct Known { std::string prop, wl, cls, site, text; };
static std::vector<Known> known;
static void load_known(const char* path) {   // lines: prop <TAB> workload-or-* <TAB> class <TAB> site <TAB> text
    std::ifstream f(path); std::string line;
    while (std::getline(f, line)) { if (line.empty() || line[0] == '#') continue; std::vector<std::string> t; std::string x; std::istringstream s(line); while (std::getline(s, x, '\t')) t.push_back(x); if (t.size() >= 5) known.push_back({t[0], t[1], t[2], t[3], t[4]}); }
}
static int match_known(const std::string& prop, const Case& c, const Violation& v) {
    for (size_t i = 0; i < known.size(); ++i) { auto& k = known[i]; if ((k.prop == prop) && (k.wl == "*" || k.wl == c.wl->name) && k.cls == v.cls && (k.site == v.site || (k.site.rfind("key:", 0) == 0 && v.key == k.site.substr(4)))) return (int) i; }
    return -1;
}

// ------------------------------------------------------------------------------------------------ commands
static std::string arg(int n, char** a, const char* k, const char* d) { for (int i = 0; i + 1 < n; ++i) if (!strcmp(a[i], k)) return a[i + 1]; return d; }
static bool flag(int n, char** a, const char* k) { for (int i = 0; i < n; ++i) if (!strcmp(a[i], k)) return true; return false; }
static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char) ch; } else if (ch < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += (char) ch; } return o + "\""; }

static int cmd_batch(int n, char** a) {
    std::string prop = arg(n, a, "--prop", ""), out = arg(n, a, "--out", "/dev/stdout"), viol = arg(n, a, "--viol", "/tmp/viol");
    uint64_t seed = strtoull(arg(n, a, "--seed", "1").c_str(), nullptr, 10), shard = strtoull(arg(n, a, "--shard", "0").c_str(), nullptr, 10), ns = strtoull(arg(n, a, "--nshards", "1").c_str(), nullptr, 10);
    double T = atof(arg(n, a, "--time", "10").c_str()); uint64_t maxn = strtoull(arg(n, a, "--max", "1000000000").c_str(), nullptr, 10);
    bool verbose = flag(n, a, "-v"); bool keep = flag(n, a, "--keep-going");
    auto k = arg(n, a, "--known", ""); if (!k.empty()) load_known(k.c_str());
    sim::set_want(prop.c_str());
    auto wls = workloads_for(prop); if (wls.empty()) { fprintf(stderr, "no workload for %s\n", prop.c_str()); return 3; }
    uint64_t base = mix64(seed, hash_str(prop.c_str()));
    signal(SIGUSR1, [](int) { stop_now = 1; });
    double t0 = wall(); uint64_t runs = 0, twice = 0, ok = 0, errors = 0; std::map<std::string, uint64_t> tot, wlruns, strat; std::vector<uint64_t> known_hits(known.size());
    std::unordered_set<uint64_t> ilv, states; uint64_t maxthreads = 0; std::vector<uint64_t> probes(MAX_PROBES); std::map<std::string, std::vector<uint64_t>> wlprobes;
    std::string err; int rc = 0; std::vector<std::string> samples; std::map<std::string, uint64_t> seen_viol; uint64_t nviol = 0; double slowest = 0; std::string slow_what;
    for (uint64_t i = shard; runs < maxn; i += ns) {
        if (wall() - t0 > T || stop_now) break;
        Case c = make_case(wls, base, i);
        double r0 = wall();
        run_case(c); ++runs;
        double rt = wall() - r0; if (rt > slowest) { slowest = rt; slow_what = std::string(c.wl->name) + " run " + std::to_string(i); }
        Result& r = *shared_res;
        if (verbose) fprintf(stderr, "%lu %s strat=%u ev=%lu thr=%lu out=%u t=%.3f ops=%lu/%lu %s %s\n", i, c.wl->name, c.cfg.strategy, r.events, r.threads, r.outcome, rt, r.ops_done, r.ops_failed, r.cls, r.msg);
        wlruns[c.wl->name]++; strat[std::to_string(c.cfg.strategy)]++;
        tot["events"] += r.events; tot["sync_events"] += r.sync_events; tot["switches"] += r.switches; tot["preemptions"] += r.preemptions; tot["threads"] += r.threads;
        tot["allocations"] += r.allocs; tot["spurious_wakeups"] += r.spurious; tot["alloc_failures"] += r.alloc_faults; tot["thread_create_failures"] += r.thread_faults; tot["starved_choices"] += r.starved;
        tot["lock_contended"] += r.lock_contended; tot["blocked"] += r.blocked; tot["ops_done"] += r.ops_done; tot["ops_failed"] += r.ops_failed;
        tot["runs_writer_priority"] += c.cfg.writer_pref; tot["runs_with_fault_fired"] += (r.alloc_faults + r.thread_faults + r.spurious) ? 1 : 0; tot["runs_multithreaded"] += r.threads > 1;
        maxthreads = std::max(maxthreads, r.max_live);
        auto& wp = wlprobes[c.wl->name]; wp.resize(MAX_PROBES); for (unsigned j = 0; j < MAX_PROBES; ++j) wp[j] += r.probes[j];
        if (r.threads > 1 && r.preemptions) ilv.insert(mix64(r.ilv_hash, hash_str(c.wl->name)));
        if (samples.size() < 3) { std::ostringstream s; s << "run " << i << ": workload " << c.wl->name << " plan"; for (int x : c.plan.p) s << ' ' << x; s << "; " << c.plan.ops.size() << " ops; strategy " << c.cfg.strategy << ", cores " << c.cfg.cores << ", faults " << c.cfg.n_faults << "; " << r.threads << " threads, " << r.events << " events, " << r.switches << " switches"; samples.push_back(s.str()); }
        if (r.outcome == OUT_ERROR) { ++errors; err = std::string(r.msg) + " (workload " + c.wl->name + ", run " + std::to_string(i) + ")"; rc = 3; break; }
        if (r.outcome == OUT_LIMIT) { if (++tot["abandoned_runs"] > 20 && tot["abandoned_runs"] * 4 > runs) { err = "too many runs abandoned: " + std::string(r.msg) + " (workload " + c.wl->name + ", run " + std::to_string(i) + ")"; rc = 3; break; } continue; }
        uint64_t h = r.hash, e = r.events; uint32_t o = r.outcome; std::string cls = r.cls;
        bool check2 = o == OUT_VIOLATION || runs <= 10 || runs % 40 == 0;
        if (check2) {
            Violation v = o == OUT_VIOLATION ? describe(r) : Violation{};
            int kn = o == OUT_VIOLATION ? match_known(prop, c, v) : -1;
            if (o == OUT_VIOLATION && kn < 0 && keep) { std::string s = std::string(c.wl->name) + " | " + v.cls + " | " + v.site + " | " + v.key; if (!seen_viol[s]++) { write_case(viol + "." + std::to_string(seen_viol.size()), prop, to_replay(c, r), v, h, "run index " + std::to_string(i)); fprintf(stderr, "NEW(run %lu, %s) %s\n   %s\n", i, c.wl->name, s.c_str(), v.msg.c_str()); fprintf(stderr, "   -> %s.%zu\n", viol.c_str(), seen_viol.size()); } ++nviol; continue; }
            if (o == OUT_VIOLATION && kn >= 0) { known_hits[kn]++; continue; }
            Case rep = to_replay(c, r);
            run_case(c); ++twice;                            // same seed again
            if (r.hash != h || r.events != e || r.outcome != o || cls != r.cls) { err = "same seed, different execution (workload " + std::string(c.wl->name) + ", run " + std::to_string(i) + "): " + cls + "/" + r.cls; rc = 3; break; }
            run_case(rep);                                   // recorded decisions, no PRNG
            if (r.hash != h || r.events != e || r.outcome != o || cls != r.cls) { err = "replay of the recorded decisions differs (workload " + std::string(c.wl->name) + ", run " + std::to_string(i) + ", " + std::to_string(h) + " vs " + std::to_string(r.hash) + ")"; rc = 3; break; }
            if (o == OUT_VIOLATION) {
                write_case(viol, prop, rep, v, h, "run index " + std::to_string(i));
                rc = 1; break;
            }
        }
        ++ok;
    }
    std::ofstream f(out);
    f << "{\"rc\":" << rc << ",\"error\":" << jstr(err) << ",\"runs\":" << runs << ",\"ok\":" << ok << ",\"repeated_runs\":" << twice << ",\"wall\":" << (wall() - t0) << ",\"max_live_threads\":" << maxthreads << ",\"slowest_run_s\":" << slowest << ",\"slowest\":" << jstr(slow_what);
    f << ",\"totals\":{"; bool first = true; for (auto& [kk, v] : tot) { f << (first ? "" : ",") << jstr(kk) << ":" << v; first = false; } f << "}";
    f << ",\"workloads\":{"; first = true; for (auto& [kk, v] : wlruns) { f << (first ? "" : ",") << jstr(kk) << ":" << v; first = false; } f << "}";
    f << ",\"strategies\":{"; first = true; for (auto& [kk, v] : strat) { f << (first ? "" : ",") << jstr(kk) << ":" << v; first = false; } f << "}";
    f << ",\"probes\":{"; first = true; for (auto& [kk, v] : wlprobes) for (unsigned j = 0; j < MAX_PROBES; ++j) if (v[j]) { f << (first ? "" : ",") << jstr(kk + ":" + std::to_string(j)) << ":" << v[j]; first = false; } f << "}";
    f << ",\"known\":["; first = true; for (size_t j = 0; j < known.size(); ++j) { f << (first ? "" : ",") << known_hits[j]; first = false; } f << "]";
    f << ",\"interleavings\":["; first = true; for (auto x : ilv) { f << (first ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; first = false; } f << "]";
    f << ",\"samples\":["; first = true; for (auto& s : samples) { f << (first ? "" : ",") << jstr(s); first = false; } f << "]}\n";
    if (keep) { fprintf(stderr, "runs %lu violations %lu in %.1fs slowest %.2f (%s)\n", runs, nviol, wall() - t0, slowest, slow_what.c_str()); for (auto& [s, c] : seen_viol) fprintf(stderr, "%6lu %s\n", c, s.c_str()); }
    return rc;
}

static int cmd_replay(int n, char** a) {
    Loaded l = read_case(a[0]); bool show = flag(n, a, "-v");
    run_case(l.c); Result& r = *shared_res;
    if (r.outcome == OUT_ERROR) { printf("ERROR %s\n", r.msg); return 3; }
    if (r.outcome == OUT_OK) { printf("OK events=%lu hash=%lu\n", r.events, r.hash); return 0; }
    Violation v = describe(r);
    printf("REPRODUCED class=%s hash=%lu %s\n", v.cls.c_str(), r.hash, (v.cls == l.cls && r.hash == l.hash) ? "exact" : (v.cls == l.cls ? "same-class" : "other-class")); if (show) printf("%s\n", r.msg);
    if (show) printf("%s\n", v.msg.c_str());
    return v.cls == l.cls ? (r.hash == l.hash ? 1 : 2) : 2;
}

static int cmd_minimise(int n, char** a) {
    Loaded l = read_case(a[0]); std::string out = a[1]; double T = atof(arg(n, a, "--time", "15").c_str()), t0 = wall();
    auto kf = arg(n, a, "--known", ""); if (!kf.empty()) load_known(kf.c_str());
    Case cur = l.c; uint64_t tries = 0;
    bool site_exact = true;
    auto bad = [&](Case& c) { ++tries; if (run_case(c) != OUT_VIOLATION) return false; if (l.cls != shared_res->cls) return false;
        if (l.cls == "data-race" || !known.empty()) { Violation v = describe(*shared_res); if (match_known(l.prop, c, v) >= 0) return false; if (l.cls == "data-race" && site_exact && v.site != l.site) return false; } return true; };
    auto late = [&] { return wall() - t0 > T; };
    if (!bad(cur)) { printf("ERROR the case does not reproduce\n"); return 3; }
    size_t d0 = cur.dec.size(), o0 = cur.plan.ops.size(), f0 = cur.cfg.n_faults;
    // a smaller plan shifts every event, so its failing schedule is searched for again, with fresh seeds
    auto research = [&](Case t) {
        double r0 = wall(); PlanRng r{l.c.seed ^ tries};
        for (int k = 0; k < 150 && wall() - r0 < T / 12 && !late(); ++k) {
            Case u = t; u.dec.clear(); u.cfg.replay = 0; draw_schedule(u.cfg, r, *u.wl);
            if (bad(u)) { cur = to_replay(u, *shared_res); if (bad(cur)) return true; }
        }
        return false;
    };
    // drop operations
    auto drop_ops = [&] {
        for (size_t chunk = std::max<size_t>(1, cur.plan.ops.size() / 2); ; chunk /= 2) {
            for (size_t i = 0; i < cur.plan.ops.size() && !late();) {
                Case t = cur; auto e = std::min(i + chunk, t.plan.ops.size()); t.plan.ops.erase(t.plan.ops.begin() + (long) i, t.plan.ops.begin() + (long) e);
                Case t2 = t; t2.dec.clear();
                if (bad(t2)) { cur = t2; continue; }
                if (bad(t)) { cur = t; continue; }
                { Case keep = cur; if (research(t)) continue; cur = keep; }
                i += chunk;
            }
            if (chunk <= 1 || late()) break;
        }
    };
    auto drop_dec = [&] {
        { Case t = cur; t.dec.clear(); if (bad(t)) { cur = t; return; } }
        for (size_t chunk = std::max<size_t>(1, cur.dec.size() / 2); ; chunk /= 2) {
            for (size_t i = 0; i < cur.dec.size() && !late();) {
                Case t = cur; auto e = std::min(i + chunk, t.dec.size()); t.dec.erase(t.dec.begin() + (long) i, t.dec.begin() + (long) e);
                if (bad(t)) cur = t; else i += chunk;
            }
            if (chunk <= 1 || late()) break;
        }
    };
    // without its tail after the failure
    drop_dec(); drop_ops();
    for (uint32_t i = 0; i < cur.cfg.n_faults && !late();) { Case t = cur; for (uint32_t j = i; j + 1 < t.cfg.n_faults; ++j) t.cfg.faults[j] = t.cfg.faults[j + 1]; t.cfg.n_faults--; if (bad(t)) cur = t; else ++i; }
    if (cur.cfg.writer_pref) { Case t = cur; t.cfg.writer_pref = 0; if (bad(t)) cur = t; }
    for (unsigned c = 1; c < cur.cfg.cores && !late(); ++c) { Case t = cur; t.cfg.cores = c; if (bad(t)) { cur = t; break; } }
    drop_dec(); drop_ops();
    if (!bad(cur)) { printf("ERROR minimised case does not reproduce\n"); return 3; }
    uint64_t h = shared_res->hash; Violation v = describe(*shared_res);
    if (!bad(cur) || shared_res->hash != h) { printf("ERROR minimised case is not deterministic\n"); return 3; }
    std::ostringstream note; note << "minimised: operations " << o0 << " -> " << cur.plan.ops.size() << ", decisions " << d0 << " -> " << cur.dec.size() << ", faults " << f0 << " -> " << cur.cfg.n_faults << ", in " << tries << " runs";
    write_case(out, l.prop, cur, v, h, note.str());
    printf("MINIMISED %s\n%s\n", note.str().c_str(), v.msg.c_str());
    return 0;
}

int main(int argc, char** argv) {
    char b[4096]; ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1); if (k > 0) { b[k] = 0; exe_path = b; }
    sim::init_process();
    shared_res = (Result*) mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (argc > 2 && !strcmp(argv[1], "batch")) return cmd_batch(argc - 2, argv + 2);
    if (argc > 2 && !strcmp(argv[1], "replay")) return cmd_replay(argc - 2, argv + 2);
    if (argc > 3 && !strcmp(argv[1], "minimise")) return cmd_minimise(argc - 2, argv + 2);
    if (argc > 1 && !strcmp(argv[1], "list")) { for (auto* w = Workload::head(); w; w = w->next) printf("%s %s %u\n", w->name, w->property, w->weight); return 0; }
    fprintf(stderr, "usage: simrun batch|replay|minimise|list ...\n"); return 3;
}
