// Persistent object stores: linearizable keyed storage with shared ownership.
#include "common.h"
#include "utilities/persistent_storage.h"

using namespace Moment;

namespace {
    enum { STORE_U, STORE_S, GET, GET_BAD, RELEASE, RELEASE_BAD, FIRST, NEXT, SIZE, EMPTY, CLEAR };
    int live;
    struct Obj { int id; std::unique_ptr<int> body; explicit Obj(int i) : id{i}, body{std::make_unique<int>(i * 5 + 1)} { sim::Quiet q; ++live; } virtual ~Obj() { sim::Quiet q; --live; } };
    struct Derived : Obj { explicit Derived(int i) : Obj{i} {} };
    struct St { std::map<long, long> m; std::set<long> used; std::string print() const { std::string s; for (auto& [k, v] : m) s += std::to_string(k) + ":" + std::to_string(v) + ","; s += "/"; for (long k : used) s += std::to_string(k) + ","; return s; } };
    // a: key/value argument, res: result key or value (-1: none/error)
    bool apply(St& s, const LinRec& r) {
        switch (r.code) {
            case STORE_U: case STORE_S: if (r.failed) return true; if (s.used.count(r.res)) return false; s.m[r.res] = r.a; s.used.insert(r.res); return true;
            case GET: { auto it = s.m.find(r.a); return it == s.m.end() ? r.res == -1 : r.res == it->second; }
            case RELEASE: { auto it = s.m.find(r.a); if (it == s.m.end()) return r.res == -1; if (r.res != 1) return false; s.m.erase(it); return true; }
            case GET_BAD: case RELEASE_BAD: return r.res == -2;
            case FIRST: { if (s.m.empty()) return r.res == -1; return r.res == s.m.begin()->first && r.res2 == s.m.begin()->second; }
            case NEXT: { auto it = s.m.upper_bound(r.a); if (it == s.m.end()) return r.res == -1; return r.res == it->first && r.res2 == it->second; }
            case SIZE: return r.res == (long) s.m.size();
            case EMPTY: return r.res == (long) s.m.empty();
            case CLEAR: s.m.clear(); s.used.clear(); return true;
        }
        return true;
    }
    const char* const names[] = {"store", "store-shared", "get", "get-bad-signature", "release", "release-bad-signature", "first", "next", "size", "empty", "clear"};
}

WORKLOAD(storage, "C11", 10, F_ALLOC | F_WAKE)
static void storage_gen(PlanRng& r, Plan& p) {
    int nc = p.p[0] = r.range(2, 4); p.p[1] = r.chance(25); int id = 1; int total = 0;
    for (int k = 0; k < nc; ++k) { int n = r.range(2, 5); for (int i = 0; i < n && total < 18; ++i, ++total) {
        int x = r.range(0, 99); int code = x < 30 ? STORE_U : x < 38 ? STORE_S : x < 55 ? GET : x < 57 ? GET_BAD : x < 72 ? RELEASE : x < 74 ? RELEASE_BAD : x < 81 ? FIRST : x < 89 ? NEXT : x < 93 ? SIZE : x < 96 ? EMPTY : p.p[1] ? CLEAR : GET;
        p.ops.push_back({k, code, id++, (int) r.below(6), (int) r.below(2)}); } }
}
static void storage_run(const Plan& p) {
    constexpr uint32_t SIG = make_signature({'t', 'e', 's', 't'});
    std::vector<LinRec> h; { sim::Quiet q; h.reserve(p.ops.size() + 8); live = 0; }
    auto store = [&] { sim::Quiet q; return std::make_unique<PersistentStorage<Obj>>(SIG); }();
    std::vector<uint64_t> keys;  // handed out so far (for the choice of arguments)
    { sim::Quiet q; keys.reserve(64); }
    auto check_key = [&](uint64_t k) { if (!store->check_signature(k) || (k >> 32) != SIG) sim::fail("bad-key", "", "a key without the store's signature was handed out"); };
    auto body = [&](const std::shared_ptr<Obj>& o) -> long { if (!o) sim::fail("null-object", "", "a stored key gave a null object"); if (!o->body || *o->body != o->id * 5 + 1) sim::fail("corrupt-object", "", "object %d came back with the wrong content", o->id); return o->id; };
    std::vector<std::shared_ptr<Obj>> held; std::vector<long> held_id; { sim::Quiet q; held.reserve(64); held_id.reserve(64); }
    auto one = [&](const Op& op) {
        size_t slot; uint64_t key = 0; bool skip = false;
        {
            sim::Quiet q; sim::label(names[op.code]); slot = h.size();
            bool needs = op.code == GET || op.code == RELEASE || op.code == NEXT || op.code == GET_BAD || op.code == RELEASE_BAD;
            long arg = op.a;
            if (needs) { key = keys.empty() ? store->sign_index((uint32_t) op.b) : keys[(size_t) op.b % keys.size()]; arg = (long) (key & 0xffffffff); }
            h.push_back({op.code, op.client, arg, 0, -1, -1, false, sim::now(), ~0ull});
        }
        if (skip) return;
        long res = -1, res2 = -1; bool failed = false;
        try {
            switch (op.code) {
                case STORE_U: { auto o = [&] { sim::Quiet q; return std::make_unique<Obj>(op.a); }(); sim::arm_faults(true); uint64_t k; try { k = store->store(std::move(o)); } catch (...) { sim::arm_faults(false); throw; } sim::arm_faults(false); check_key(k); res = (long) (k & 0xffffffff); sim::Quiet q; keys.push_back(k); break; }
                case STORE_S: { auto o = [&] { sim::Quiet q; return std::make_shared<Obj>(op.a); }(); uint64_t k = store->store(o); check_key(k); res = (long) (k & 0xffffffff); sim::Quiet q; keys.push_back(k); break; }
                case GET: { auto o = store->get(key); res = body(o); if (op.c) { sim::Quiet q; held.push_back(o); held_id.push_back(res); } break; }
                case RELEASE: store->release(key); res = 1; break;
                case GET_BAD: store->get(key ^ (1ull << 40)); res = 1; break;
                case RELEASE_BAD: store->release(key ^ (1ull << 33)); res = 1; break;
                case FIRST: { auto [k, o] = store->first(); if (o) { res = (long) k; res2 = body(o); } break; }
                case NEXT: { auto [k, o] = store->next((uint32_t) key); if (o) { res = (long) k; res2 = body(o); } break; }
                case SIZE: res = (long) store->size(); break;
                case EMPTY: res = store->empty(); break;
                case CLEAR: store->clear(); break;
            }
        } catch (const errors::bad_signature_error&) { res = -2;
        } catch (const errors::not_found_error&) { res = -1;
        } catch (const std::bad_alloc&) { failed = true; }
        sim::Quiet q; auto& r = h[slot]; r.res = res; r.res2 = res2; r.failed = failed; r.end = sim::now(); sim::op_done(!failed); if (res >= 0) sim::probe((unsigned) op.code);
    };
    run_clients(p, p.p[0], one);
    {   // final state
        sim::Quiet q; sim::label("final"); 
        LinRec f{FIRST, 99, 0, 0, -1, -1, false, sim::now(), 0}; auto x = store->first(); size_t n = 0;
        while (x.second) { ++n; f.res = (long) x.first; f.res2 = body(x.second); f.end = sim::now(); h.push_back(f); f = LinRec{NEXT, 99, (long) x.first, 0, -1, -1, false, sim::now(), 0}; x = store->next(x.first); if (n > 64) sim::fail("walk", "", "walking the store does not end"); }
        f.res = -1; f.end = sim::now(); h.push_back(f);
        if (store->size() != n) sim::fail("walk", "size", "the store reports %zu objects, walking it gives %zu", store->size(), n);
        for (size_t i = 0; i < held.size(); ++i) if (held[i]->id != held_id[i] || !held[i]->body || *held[i]->body != held[i]->id * 5 + 1) sim::fail("corrupt-object", "held", "a held object changed");
        if (!linearizable(h, St{}, apply)) {
            std::string s; for (auto& r : h) { char b[160]; snprintf(b, sizeof b, " %s(%ld)=%ld/%ld%s[%lu,%lu]", names[r.code], r.a, r.res, r.res2, r.failed ? "!" : "", r.start, r.end); s += b; }
            sim::fail("not-linearizable", "store", "no order of the operations explains their results:%s", s.c_str());
        }
        x.second.reset(); held.clear(); if (live != (int) n) sim::fail("leak", "", "%d objects exist, %zu are stored and none is held", live, n);
        store.reset(); if (live) sim::fail("leak", "destroy", "%d objects survive the store", live);
    }
}

namespace {
    enum { M_GET, M_SET, M_RESET, M_EMPTY, M_CREATE };
    const char* const mnames[] = {"get", "set", "reset", "empty", "create-if-empty"};
    struct Reg { long v = 0; std::string print() const { return std::to_string(v); } };
    bool mapply(Reg& s, const LinRec& r) {
        switch (r.code) {
            case M_GET: return r.res == s.v;
            case M_SET: s.v = r.a; return true;
            case M_RESET: s.v = 0; return true;
            case M_EMPTY: return r.res == (s.v == 0);
            case M_CREATE: if (r.failed) return s.v == 0; if (!s.v) s.v = r.a; return r.res == s.v;
        }
        return true;
    }
}
WORKLOAD(storage_one, "C11", 6, F_ALLOC | F_WAKE)
static void storage_one_gen(PlanRng& r, Plan& p) {
    int nc = p.p[0] = r.range(2, 4), id = 1, total = 0;
    for (int k = 0; k < nc; ++k) { int n = r.range(1, 4); for (int i = 0; i < n && total < 14; ++i, ++total) { int x = r.range(0, 99); p.ops.push_back({k, x < 30 ? M_GET : x < 40 ? M_SET : x < 58 ? M_RESET : x < 65 ? M_EMPTY : M_CREATE, id++, 0, 0}); } }
}
static void storage_one_run(const Plan& p) {
    std::vector<LinRec> h; std::unique_ptr<PersistentStorageMonoid<Obj>> st; { sim::Quiet q; h.reserve(64); live = 0; st = std::make_unique<PersistentStorageMonoid<Obj>>(7u); }
    auto one = [&](const Op& op) {
        size_t slot; { sim::Quiet q; sim::label(mnames[op.code]); slot = h.size(); h.push_back({op.code, op.client, op.a, 0, 0, 0, false, sim::now(), ~0ull}); }
        long res = 0; bool failed = false;
        auto val = [](const std::shared_ptr<Obj>& o) -> long { if (!o) return 0; if (!o->body || *o->body != o->id * 5 + 1) sim::fail("corrupt-object", "", "object %d came back with the wrong content", o->id); return o->id; };
        try {
            switch (op.code) {
                case M_GET: res = val(st->get()); break;
                case M_SET: { auto o = [&] { sim::Quiet q; return std::make_shared<Obj>(op.a); }(); st->set(o); break; }
                case M_RESET: st->reset(); break;
                case M_EMPTY: res = st->empty(); break;
                case M_CREATE: { sim::arm_faults(true); std::shared_ptr<Obj> o; try { o = st->create_if_empty<Derived>(op.a); } catch (...) { sim::arm_faults(false); throw; } sim::arm_faults(false); res = val(o); break; }
            }
        } catch (const std::bad_alloc&) { failed = true; }
        sim::Quiet q; auto& r = h[slot]; r.res = res; r.failed = failed; r.end = sim::now(); sim::op_done(!failed);
    };
    run_clients(p, p.p[0], one);
    sim::Quiet q; sim::label("final"); { LinRec f{M_GET, 99, 0, 0, 0, 0, false, sim::now(), 0}; auto o = st->get(); f.res = o ? o->id : 0; f.end = sim::now(); h.push_back(f); if (live != (o ? 1 : 0)) sim::fail("leak", "", "%d objects exist, %d are stored", live, o ? 1 : 0); }
    if (!linearizable(h, Reg{}, mapply)) {
        std::string s; for (auto& r : h) { char b[160]; snprintf(b, sizeof b, " %s(%ld)=%ld%s[%lu,%lu]", mnames[r.code], r.a, r.res, r.failed ? "!" : "", r.start, r.end); s += b; }
        sim::fail("not-linearizable", "monoid", "no order of the operations explains their results:%s", s.c_str());
    }
}
