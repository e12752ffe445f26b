// Work queue: linearisable FIFO, exactly-once delivery, abort releases every waiter.
#include "common.h"
#include "multithreading/queue.h"

using Moment::Multithreading::Queue;

namespace {
    enum { PUSH, EMPLACE, WAIT_POP, TRY_POP, ABORT };
    struct Item { int id; std::unique_ptr<int> payload; Item(int i) : id{i}, payload{std::make_unique<int>(i * 7 + 3)} {} Item(Item&&) = default; Item& operator=(Item&&) = default; };
    struct Rec { int kind, client; int id; uint64_t start, end; bool done; };

    void check_history(const std::vector<Rec>& h, bool aborted) {
        struct V { uint64_t ps = 0, pe = ~0ull, qs = ~0ull, qe = ~0ull; int pops = 0; };
        std::map<int, V> vals; uint64_t ab_s = ~0ull, ab_e = ~0ull;
        for (auto& r : h) {
            if (r.kind == PUSH || r.kind == EMPLACE) { auto& v = vals[r.id]; v.ps = r.start; v.pe = r.end; }
            if (r.kind == ABORT) { ab_s = std::min(ab_s, r.start); ab_e = std::min(ab_e, r.end); }
        }
        for (auto& r : h) if ((r.kind == WAIT_POP || r.kind == TRY_POP) && r.id >= 0) {
            auto it = vals.find(r.id);
            if (it == vals.end()) sim::fail("queue-invented", "", "an element that was never pushed (%d) was delivered", r.id);
            if (it->second.pops++) sim::fail("queue-duplicate", "", "element %d was delivered twice", r.id);
            it->second.qs = r.start; it->second.qe = r.end;
            if (r.end < it->second.ps) sim::fail("queue-invented", "", "element %d was delivered before its push began", r.id);
            if (r.start > ab_e) sim::fail("queue-after-abort", "", "an element was delivered by a pop that began after abort returned");
        }
        for (auto& [a, va] : vals) for (auto& [b, vb] : vals) if (va.pe < vb.ps && vb.pops) {
            if (!va.pops && !aborted) sim::fail("queue-lost", "", "element %d was overtaken by %d and never delivered", a, b);
            if (va.pops && va.qs > vb.qe) sim::fail("queue-order", "", "element %d was pushed before %d was, but delivered after it", a, b);
            if (!va.pops) { // still in the queue although a later one left: FIFO broken even under abort
                sim::fail("queue-order", "", "element %d was skipped: a later push (%d) was delivered and it was not", a, b);
            }
        }
        for (auto& r : h) if ((r.kind == WAIT_POP || r.kind == TRY_POP) && r.id < 0) {
            bool may_abort = ab_s < r.end;
            if (may_abort) continue;
            if (r.kind == WAIT_POP) sim::fail("queue-empty", "wait", "a waiting pop returned nothing although the queue was not aborted");
            for (auto& [a, va] : vals) if (va.pe < r.start && (!va.pops || va.qs > r.end))
                sim::fail("queue-empty", "try", "try_pop returned nothing while element %d was in the queue throughout", a);
        }
    }
}

WORKLOAD(queue, "C09", 10, F_WAKE)
static void queue_gen(PlanRng& r, Plan& p) {
    int np = r.range(1, 3), nc = r.range(1, 3); bool ab = r.chance(30);
    p.p[0] = np + nc + (ab ? 1 : 0);
    int id = 0;
    for (int k = 0; k < np; ++k) { int n = r.range(1, 5); for (int i = 0; i < n; ++i) { p.ops.push_back({k, r.chance(50) ? PUSH : EMPLACE, id++, 0, 0}); if (r.chance(10)) { p.ops.push_back({k, TRY_POP, 0, 0, 0}); } } }
    for (int k = np; k < np + nc; ++k) { int n = r.range(1, 6); for (int i = 0; i < n; ++i) { bool w = r.chance(75); p.ops.push_back({k, w ? WAIT_POP : TRY_POP, 0, 0, 0}); } }
    if (ab) p.ops.push_back({np + nc, ABORT, 0, 0, 0});
}
static void queue_run(const Plan& p) {
    Queue<Item> q; std::vector<Rec> hist; int popped = 0;
    {
        sim::Quiet g; hist.reserve(p.ops.size() + 64);
    }
    // Without an abort in the plan, waiting pops beyond what is pushed would wait for ever by design: the closing
    // thread pushes enough to serve all of them once the producers are done.
    auto one = [&](const Op& op) {
        size_t slot; { sim::Quiet g; slot = hist.size(); hist.push_back({op.code, op.client, -1, sim::now(), ~0ull, false}); }
        int id = -1;
        switch (op.code) {
            case PUSH: id = op.a; q.push_back(Item{op.a}); break;
            case EMPLACE: id = op.a; q.emplace_back(op.a); break;
            case WAIT_POP: { auto n = q.wait_pop_front(); if (n) { id = (**n).id; if (!(**n).payload || *(**n).payload != id * 7 + 3) sim::fail("queue-corrupt", "", "element %d was delivered with the wrong content", id); } break; }
            case TRY_POP: { auto n = q.try_pop_front(); if (n) { id = (**n).id; if (!(**n).payload || *(**n).payload != id * 7 + 3) sim::fail("queue-corrupt", "", "element %d was delivered with the wrong content", id); } break; }
            case ABORT: q.abort(); break;
        }
        sim::Quiet g; auto& r = hist[slot]; r.id = id; r.end = sim::now(); r.done = true; sim::op_done(true);
        if ((op.code == WAIT_POP || op.code == TRY_POP) && id >= 0) { ++popped; sim::probe(0); }
        if ((op.code == WAIT_POP || op.code == TRY_POP) && id < 0) sim::probe(1);
    };
    bool ab = false; int n = p.p[0], pops = 0;
    for (auto& op : p.ops) { ab |= op.code == ABORT; pops += op.code == WAIT_POP || op.code == TRY_POP; }
    std::vector<std::thread> ts; { sim::Quiet g; ts.reserve(16); }
    for (int k = 0; k < n; ++k) ts.emplace_back([&, k] { for (const auto& op : p.ops) if (op.client == k) one(op); });
    if (!ab) { // top up: one element per pop in the plan, so that each waiting one is served
        for (int i = 0; i < pops; ++i) one(Op{n, PUSH, 1000 + i, 0, 0});
    }
    for (auto& t : ts) t.join();
    // drain
    if (!ab) for (;;) { int before = popped; one(Op{n, TRY_POP, 0, 0, 0}); if (popped == before) break; }
    sim::Quiet g;
    check_history(hist, ab);
    if (!ab) { int pushes = 0; for (auto& r : hist) pushes += r.kind == PUSH || r.kind == EMPLACE; if (pushes != popped) sim::fail("queue-lost", "", "%d elements pushed, %d delivered after a full drain", pushes, popped); }
}
