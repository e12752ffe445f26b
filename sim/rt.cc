// rt.cc - deterministic simulator runtime.
//
// Everything a C++ program can use to be nondeterministic under threads is redirected here: thread creation/join,
// mutexes, reader/writer locks, condition variables, futexes (std::atomic::wait, std::future), once, static-init
// guards, yields, the core count, the heap, and - through the compiler's -fsanitize=thread instrumentation, of which
// this file provides the run-time - every memory access and every atomic operation.  Threads are fibers on one OS
// thread; one seeded scheduler decides who runs.  The same hooks feed a happens-before race detector that honours C++
// memory orders and an address checker for the heap.
//
// This file is compiled WITHOUT instrumentation and must not use standard-library templates (they would be merged
// with instrumented instances).
#include "sim.h"

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <csignal>
#include <ucontext.h>
#include <new>
#include <initializer_list>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <unwind.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <cstring>

extern "C" {
    void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
    extern char __executable_start, etext, edata, end, __data_start;
}
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); }

namespace {
    using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t; using uptr = uintptr_t;

    // ------------------------------------------------------------------------------------------------ basics
    inline void raw_copy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
    inline void raw_zero(void* d, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }
    inline long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
        long r; register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
        asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
        return r;
    }
    struct Rng { u64 s; u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
        u64 below(u64 n) { return n ? next() % n : 0; } };
    inline u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull ^ (h >> 29); }

    constexpr u32 MAXT = sim::MAX_THREADS;

    // ------------------------------------------------------------------------------------------------ memory map
    constexpr uptr ARENA = 0x200000000000ull; constexpr u64 STACK_SZ = 256 << 10;
    constexpr u64 STACKS_SZ = u64(MAXT + 1) * STACK_SZ, HEAP_SZ = 1ull << 30, ARENA_SZ = STACKS_SZ + HEAP_SZ;
    constexpr u64 GLOB_SZ = 64ull << 20;                 // exe image (non-PIE), from GLOB0
    uptr GLOB0, GLOB_DATA, GLOB_END;
    constexpr u64 NGRAN = (ARENA_SZ + GLOB_SZ) >> 3;
    u64* slots; u32* slot_pc; u8* adr;                    // shadow: 4 slots, 4 pcs, 1 addressability byte per granule
    constexpr u8 A_SYNC = 0x80;
    uptr EXE_LO, EXE_HI;

    inline bool shadow_idx(uptr a, u64& idx, bool& heap) {
        u64 o = a - ARENA;
        if (o < ARENA_SZ) { idx = o >> 3; heap = true; return true; }
        if (a >= GLOB_DATA && a < GLOB_END) { idx = (ARENA_SZ + (a - GLOB0)) >> 3; heap = false; return true; }
        return false;
    }

    // ------------------------------------------------------------------------------------------------ threads
    struct VC { u32 c[MAXT]; };
    enum State : u8 { RUNNABLE, BLOCKED, FINISHED, UNUSED };
    struct Obj;
    struct Dtor { void (*f)(void*); void* o; };
    struct Fiber {
        void* sp; u32 tid; State st; bool joined, detached; const char* label;
        VC vc, rel_fence, acq_pend; bool has_rel_fence, has_acq_pend;
        void* (*fn)(void*); void* arg; void* ret;
        u64 eh[2]; void* once_callable; void (*once_call)();
        u8* tls; Dtor dtors[32]; u32 ndtors;
        u32 quiet; bool armed; u32 join_target; Obj* waiting; u32 wait_kind; bool woken, timed;
        u64 prio; uptr block_pc; int err;
        uptr stk_lo, stk_hi;
    };
    Fiber* fib; u32 nfib; Fiber* cur; u32 n_unjoined;     // n_unjoined: threads whose accesses may still be unordered
    void* main_sp;
    bool g_on = false;           // simulation running
    bool g_track = false;        // on and current fiber not quiet
    bool g_race = false;         // more than one unjoined thread
    u64 ev, next_ev, next_mem;
    sim::Config cfg; sim::Result* res; const sim::Decision* rdec; u64 nrdec, rpos;
    Rng rng;
    u64 allocs_armed, tcreates; u32 faults_hit;
    u64 pct_points[16]; u32 npct, ipct; u64 pct_low;
    u64 starve_until = 400000;
    void (*g_body)(void*); void* g_arg;
    const char* tls_img; size_t tls_filesz, tls_memsz; u8* tls_live;
    extern "C" void sim_swtch(void** save, void* to);
    asm(R"(
.text
.globl sim_swtch
.type sim_swtch,@function
sim_swtch:
  push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15
  mov %rsp,(%rdi)
  mov %rsi,%rsp
  pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp
  ret
.size sim_swtch,.-sim_swtch
)");

    // ------------------------------------------------------------------------------------------------ reporting
    void finish(u32 outcome) {
        g_on = g_track = false;
        res->outcome = outcome; res->events = ev; res->threads = nfib; res->ops_done = res->ops_done;
        raw_syscall(SYS_exit_group, 0, 0, 0, 0, 0, 0); __builtin_unreachable();
    }
    void cat(char* d, size_t n, const char* s) { size_t i = 0; while (i < n - 1 && d[i]) ++i; while (*s && i < n - 1) d[i++] = *s++; d[i] = 0; }
    _Unwind_Reason_Code bt_cb(_Unwind_Context* c, void*) {
        uptr ip = _Unwind_GetIP(c);
        if (ip >= EXE_LO && ip < EXE_HI && res->n_pcs < 64) res->pcs[res->n_pcs++] = ip - 1;
        return ip ? _URC_NO_REASON : _URC_END_OF_STACK;
    }
    _Unwind_Reason_Code fbt_cb(_Unwind_Context* c, void*) {
        uptr ip = _Unwind_GetIP(c);
        if (ip >= EXE_LO && ip < EXE_HI && res->n_fpcs < 16) res->fpcs[res->n_fpcs++] = ip - 1;
        return ip && res->n_fpcs < 16 ? _URC_NO_REASON : _URC_END_OF_STACK;
    }
    void note_fault() { bool a = g_on, b = g_track; g_on = g_track = false; res->n_fpcs = 0; _Unwind_Backtrace(fbt_cb, nullptr); g_on = a; g_track = b; }
    void add_pc(uptr pc) { if (res->n_pcs < 64) res->pcs[res->n_pcs++] = pc ? pc - 1 : 0; }
    bool in_report = false;
    const char* const st_name[] = {"runnable", "blocked", "finished", "unused"};
    const char* wait_name(u32 k) { switch (k) { case 'm': return "mutex"; case 'r': return "read-lock"; case 'w': return "write-lock"; case 'c': return "condition-variable"; case 'f': return "futex/atomic-wait"; case 'j': return "join"; case 'o': return "once"; case 'g': return "static-init"; } return "?"; }
    [[noreturn]] void violation(const char* cls, const char* key, const char* msg, bool bt) {
        g_track = false; g_on = false;
        if (in_report) { raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); }
        in_report = true;
        res->cls[0] = res->key[0] = res->msg[0] = 0;
        cat(res->cls, sizeof res->cls, cls); cat(res->key, sizeof res->key, key); cat(res->msg, sizeof res->msg, msg);
        char b[256];
        snprintf(b, sizeof b, " [thread %u%s%s, event %lu]", cur ? cur->tid : 0, cur && cur->label ? " in " : "", cur && cur->label ? cur->label : "", (unsigned long) ev);
        cat(res->msg, sizeof res->msg, b);
        for (u32 i = 0; i < nfib; ++i) if (fib[i].st == BLOCKED) {
            snprintf(b, sizeof b, "; thread %u blocked on %s%s%s", i, wait_name(fib[i].wait_kind), fib[i].label ? " in " : "", fib[i].label ? fib[i].label : "");
            cat(res->msg, sizeof res->msg, b);
        }
        if (bt) _Unwind_Backtrace(bt_cb, nullptr);
        finish(sim::OUT_VIOLATION); __builtin_unreachable();
    }
    [[noreturn]] void sim_limit(const char* m) {
        g_on = g_track = false; res->msg[0] = 0; cat(res->msg, sizeof res->msg, m); finish(sim::OUT_LIMIT); __builtin_unreachable();
    }
    [[noreturn]] void sim_error(const char* m) {
        g_on = g_track = false; res->msg[0] = 0; cat(res->msg, sizeof res->msg, m); finish(sim::OUT_ERROR); __builtin_unreachable();
    }

    // ------------------------------------------------------------------------------------------------ sync objects
    struct Obj { uptr addr; u32 owner; u32 count; u32 readers; u32 wwait; u32 waiters; u64 rd[4]; bool has_vc, has_rvc; VC vc, rvc; u32 seq; };
    constexpr u32 OBJ_CAP = 1u << 18; Obj** obj_tab; Obj* obj_pool; u32 nobj; constexpr u32 OBJ_MAX = 1u << 16;
    constexpr u32 NONE = 0xffffffff;
    Obj* obj(uptr a, bool create = true) {
        u32 h = (u32) ((a * 0x9e3779b97f4a7c15ull) >> 40) & (OBJ_CAP - 1);
        for (;; h = (h + 1) & (OBJ_CAP - 1)) {
            Obj* o = obj_tab[h];
            if (!o) { if (!create) return nullptr; if (nobj >= OBJ_MAX) sim_limit("too many sync objects");
                o = &obj_pool[nobj]; o->addr = a; o->owner = NONE; o->seq = nobj++; obj_tab[h] = o;
                u64 i; bool hp; if (shadow_idx(a, i, hp)) adr[i] |= A_SYNC;
                return o; }
            if (o->addr == a) { if (create) { u64 i; bool hp; if (shadow_idx(a, i, hp)) adr[i] |= A_SYNC; } return o; }
        }
    }
    void obj_reset(Obj* o) { o->owner = NONE; o->count = o->readers = 0; o->has_vc = o->has_rvc = false; o->rd[0] = o->rd[1] = o->rd[2] = o->rd[3] = 0; }
    inline void vc_join(VC& d, const VC& s) { for (u32 i = 0; i < nfib; ++i) if (s.c[i] > d.c[i]) d.c[i] = s.c[i]; }
    inline void vc_copy(VC& d, const VC& s) { raw_copy(&d, &s, sizeof(u32) * MAXT); }
    inline void tick() { cur->vc.c[cur->tid]++; }
    void acq(Obj* o) { if (o->has_vc) vc_join(cur->vc, o->vc); }
    void rel(Obj* o) { if (o->has_vc) vc_join(o->vc, cur->vc); else { vc_copy(o->vc, cur->vc); o->has_vc = true; } tick(); }
    void rel_store(Obj* o) { vc_copy(o->vc, cur->vc); o->has_vc = true; tick(); }
    void acq_r(Obj* o) { if (o->has_rvc) vc_join(cur->vc, o->rvc); }
    void rel_r(Obj* o) { if (o->has_rvc) vc_join(o->rvc, cur->vc); else { vc_copy(o->rvc, cur->vc); o->has_rvc = true; } tick(); }

    // ------------------------------------------------------------------------------------------------ scheduling
    void record(u32 kind, u32 val) { if (res->n_dec < sim::MAX_DEC) { auto& d = res->dec[res->n_dec++]; d.ev = ev; d.kind = kind; d.val = val; } }
    void set_next() {
        if (cfg.replay) { while (rpos < nrdec && rdec[rpos].ev < ev) ++rpos; next_ev = rpos < nrdec ? rdec[rpos].ev : ~0ull; if (cfg.max_events && next_ev > cfg.max_events) next_ev = cfg.max_events; return; }
        next_ev = cfg.max_events ? cfg.max_events : ~0ull;
        if (next_mem < next_ev) next_ev = next_mem;
        if (ipct < npct && pct_points[ipct] < next_ev) next_ev = pct_points[ipct];
    }
    const sim::Decision* replay_at(u32 kind) {   // decision recorded for exactly this event?
        while (rpos < nrdec && rdec[rpos].ev < ev) ++rpos;
        if (rpos < nrdec && rdec[rpos].ev == ev && rdec[rpos].kind == kind) { auto* d = &rdec[rpos]; ++rpos; set_next(); return d; }
        return nullptr;
    }
    void draw_mem() { if (cfg.mem_gap) { next_mem = ev + 1 + rng.below(2 * cfg.mem_gap); } else next_mem = ~0ull; }

    void check_tls_out(Fiber* f) { if (tls_memsz) raw_copy(f->tls, tls_live, tls_memsz); f->once_callable = std::__once_callable; f->once_call = std::__once_call;
        u64* g = (u64*) __cxxabiv1::__cxa_get_globals(); f->eh[0] = g[0]; f->eh[1] = g[1]; f->err = errno; }
    void check_tls_in(Fiber* f) { if (tls_memsz) raw_copy(tls_live, f->tls, tls_memsz); std::__once_callable = f->once_callable; std::__once_call = f->once_call;
        u64* g = (u64*) __cxxabiv1::__cxa_get_globals(); g[0] = f->eh[0]; g[1] = f->eh[1]; errno = f->err; }
    void upd_track() { g_track = g_on && !cur->quiet; g_race = n_unjoined > 1; }

    void switch_to(Fiber* f) {
        if (f == cur) return;
        Fiber* old = cur;
        res->switches++;
        res->hash = mix(res->hash, ev * 1009 + f->tid);
        check_tls_out(old);
        cur = f;
        check_tls_in(f);
        upd_track();
        sim_swtch(&old->sp, f->sp);
        // back again (cur == old)
    }
    u32 runnable(u32* out, bool incl_cur) {
        u32 n = 0; for (u32 i = 0; i < nfib; ++i) if (fib[i].st == RUNNABLE && (incl_cur || &fib[i] != cur)) out[n++] = i; return n;
    }
    u32 pick(u32* c, u32 n) {   // strategy choice among candidates (generation mode)
        switch (cfg.strategy) {
            case sim::ST_PCT: { u32 b = c[0]; for (u32 i = 1; i < n; ++i) if (fib[c[i]].prio > fib[b].prio) b = c[i]; return b; }
            case sim::ST_RR: { for (u32 i = 0; i < n; ++i) if (c[i] > cur->tid) return c[i]; return c[0]; }
            case sim::ST_STARVE: if (ev < starve_until) { u32 m = 0; u32 t[MAXT]; for (u32 i = 0; i < n; ++i) if (c[i] != cfg.starve_tid) t[m++] = c[i]; if (m) { if (m < n) res->starved++; return t[rng.below(m)]; } } return c[rng.below(n)];
            default: return c[rng.below(n)];
        }
    }
    void do_switch(u32 t, bool pre) {
        if (t == cur->tid) return;
        record('S', t); if (pre) res->preemptions++;
        switch_to(&fib[t]);
    }
    // voluntary decision point; called with ev already advanced
    void decide(bool sync, bool force) {
        if (cfg.max_events && ev >= cfg.max_events) violation("no-progress", "step-limit", "run did not finish within its step limit", true);
        if (cfg.replay) {
            auto* d = replay_at('S');
            if (d) { if (d->val < nfib && fib[d->val].st == RUNNABLE) do_switch(d->val, true); }
            else if (force) { u32 c[MAXT]; u32 n = runnable(c, false); if (n) { u32 t = c[0]; for (u32 i = 0; i < n; ++i) if (c[i] > cur->tid) { t = c[i]; break; } do_switch(t, true); } }
            set_next(); return;
        }
        bool at_mem = ev >= next_mem; if (at_mem) draw_mem();
        bool at_pct = false; while (ipct < npct && ev >= pct_points[ipct]) { ++ipct; at_pct = true; }
        if (at_pct) { cur->prio = --pct_low; }
        if (force && cfg.strategy == sim::ST_PCT) cur->prio = --pct_low;
        u32 c[MAXT]; u32 n = runnable(c, cfg.strategy == sim::ST_PCT);
        set_next();
        if (!n) return;
        bool go = force || at_mem || at_pct;
        if (sync) switch (cfg.strategy) {
            case sim::ST_RANDOM: go |= rng.below(1000) < cfg.p_sync; break;
            case sim::ST_PCT: go = true; break;
            case sim::ST_RR: go = true; break;
            case sim::ST_STARVE: go |= rng.below(1000) < cfg.p_sync || cur->tid == cfg.starve_tid; break;
            default: break;
        }
        if (!go) return;
        u32 t = pick(c, n);
        do_switch(t, true);
    }
    inline void sync_event(u32 kind, uptr addr) {
        ++ev; res->sync_events++;
        res->hash = mix(res->hash, (ev << 16) ^ (kind << 8) ^ cur->tid);
        if (nfib > 1) res->ilv_hash = mix(res->ilv_hash, (u64(kind) << 8) | cur->tid);
        (void) addr;
        if (cur->quiet) return;
        decide(true, false);
    }
    __attribute__((noinline)) void mem_slow() { decide(false, false); }

    u32 choose(u32 n) {   // arbitrary n-way choice, default 0
        ++ev; if (n <= 1) return 0;
        if (cfg.replay) { auto* d = replay_at('C'); return d && d->val < n ? d->val : 0; }
        u32 v = (u32) rng.below(n); if (v) record('C', v); set_next(); return v;
    }
    bool spurious() {
        ++ev;
        if (cfg.replay) { if (replay_at('W')) { res->spurious++; return true; } return false; }
        if (cfg.p_spurious && rng.below(1000) < cfg.p_spurious) { record('W', 0); res->spurious++; set_next(); return true; }
        return false;
    }
    void schedule_away() {  // current cannot continue: choose another
        ++ev;
        u32 c[MAXT]; u32 n = runnable(c, false);
        if (cfg.max_events && ev >= cfg.max_events) violation("no-progress", "step-limit", "run did not finish within its step limit", true);
        if (!n) {
            for (u32 i = 0; i < nfib; ++i) if (fib[i].st == BLOCKED && fib[i].timed) { fib[i].st = RUNNABLE; fib[i].woken = false; if (&fib[i] == cur) return; c[n++] = i; }
            if (!n) violation("deadlock", cur->label ? cur->label : "", "no thread can make progress", true);
        }
        u32 t;
        if (cfg.replay) { auto* d = replay_at('S'); t = (d && d->val < nfib && fib[d->val].st == RUNNABLE) ? d->val : c[0]; set_next(); }
        else t = pick(c, n);
        record('S', t);
        switch_to(&fib[t]);
    }
    void block(Obj* o, u32 kind, uptr pc) {
        cur->st = BLOCKED; cur->waiting = o; cur->wait_kind = kind; cur->block_pc = pc; cur->woken = false; res->blocked++;
        if (o) o->waiters++;
        schedule_away();
        cur->waiting = nullptr;
    }
    void wake(u32 t) { Fiber* f = &fib[t]; f->st = RUNNABLE; f->woken = true; if (f->waiting) { f->waiting->waiters--; f->waiting = nullptr; } }
    void wake_all(Obj* o, u32 k1, u32 k2 = 0, u32 k3 = 0) {
        if (!o->waiters) return;
        for (u32 i = 0; i < nfib; ++i) if (fib[i].st == BLOCKED && fib[i].waiting == o && (fib[i].wait_kind == k1 || fib[i].wait_kind == k2 || fib[i].wait_kind == k3)) wake(i);
    }

    // ------------------------------------------------------------------------------------------------ race + address checks
    __attribute__((noinline)) void report_race(uptr a, u32 size, bool w, uptr pc, u64 s, u32 opc) {
        char m[256]; u32 ot = (s >> 10) & 0xff;
        u64 i; bool heap = false; shadow_idx(a, i, heap);
        snprintf(m, sizeof m, "data race on %s memory: %s of %u byte(s) by thread %u not ordered with earlier %s%s by thread %u%s%s",
                 heap ? (a - ARENA < STACKS_SZ ? "stack" : "heap") : "global", w ? "write" : "read", size, cur->tid,
                 (s & 512) ? "atomic " : "", (s & 256) ? "write" : "read", ot, fib[ot].label ? " in " : "", fib[ot].label ? fib[ot].label : "");
        add_pc(pc); add_pc(opc); res->pcs[62] = 2;
        violation("data-race", "", m, true);
    }
    __attribute__((noinline)) void report_addr(uptr a, u32 size, bool w, uptr pc) {
        char m[200];
        snprintf(m, sizeof m, "invalid %s of %u byte(s): memory is freed or outside any live heap block", w ? "write" : "read", size);
        add_pc(pc); res->pcs[62] = 1;
        violation("bad-address", "", m, true);
    }
    inline __attribute__((always_inline)) void gran(uptr a, u32 size, bool w, bool atomic, uptr pc) {
        u64 idx; bool heap;
        if (!shadow_idx(a, idx, heap)) return;
        u32 off = a & 7;
        if (heap) { u32 k = adr[idx] & 15; if (k != 8 && off + size > k) report_addr(a, size, w, pc); }
        if (!g_race) return;
        u64 mask = ((1u << size) - 1) << off;
        u64* c = slots + idx * 4; u32* p = slot_pc + idx * 4;
        u64 me = mask | (w ? 256 : 0) | (atomic ? 512 : 0) | (u64(cur->tid) << 10) | (u64(cur->vc.c[cur->tid]) << 18);
        int place = -1;
        for (int k = 0; k < 4; ++k) {
            u64 s = c[k];
            if (s == me) return;
            if (!s) { if (place < 0) place = k; continue; }
            if (!(s & mask)) continue;
            u32 st = (s >> 10) & 0xff; bool sw = s & 256;
            if (st == cur->tid) { if ((s & 255) == mask && (w || !sw) && atomic == !!(s & 512)) place = k; continue; }
            if (!(w || sw)) continue;
            if (atomic && (s & 512)) { if ((s >> 18) <= cur->vc.c[st] && (s & 255) == mask && (w || !sw)) place = k; continue; }
            if ((s >> 18) <= cur->vc.c[st]) { if (((s & 255) & ~mask) == 0 && (w || !sw)) place = k; continue; }
            report_race(a, size, w, pc, s, p[k]);
        }
        if (place < 0) place = (int) (ev & 3);
        c[place] = me; p[place] = (u32) pc;
    }
    inline __attribute__((always_inline)) void access(uptr a, u32 size, bool w, bool atomic, uptr pc) {
        if (!g_track) return;
        if (++ev >= next_ev) mem_slow();
        u32 off = a & 7;
        if (off + size <= 8) gran(a, size, w, atomic, pc);
        else { u32 f = 8 - off; gran(a, f, w, atomic, pc); gran(a + f, size - f, w, atomic, pc); }
    }
    void range(uptr a, size_t n, bool w, uptr pc) {
        if (!g_track || !n) return;
        u64 i; bool h; if (!shadow_idx(a, i, h)) { if (++ev >= next_ev) mem_slow(); return; }
        if (++ev >= next_ev) mem_slow();
        while (n) { u32 off = a & 7; u32 k = (u32) (n < 8 - off ? n : 8 - off); gran(a, k, w, false, pc); a += k; n -= k; }
    }

    // ------------------------------------------------------------------------------------------------ heap
    struct Hdr { u32 size; u32 cls; u64 magic; };
    constexpr u64 MAGIC_LIVE = 0x51AB1E51AB1E0001ull, MAGIC_FREE = 0xDEADF7EE0DEAD002ull;
    constexpr u32 NCLS = 64 + 24; uptr free_list[NCLS]; uptr heap_cur; 
    constexpr u32 QCAP = 1u << 14; constexpr u64 QBYTES = 1u << 20; uptr* quar; u32 qh, qt; u64 qbytes;
    u32 size_cls(size_t n) { if (n <= 1024) return (u32) ((n + 15) / 16 - 1 + (n == 0)); u32 c = 64; size_t s = 2048; while (s < n) { s <<= 1; ++c; } return c; }
    size_t cls_size(u32 c) { return c < 64 ? (c + 1) * 16 : (size_t) 2048 << (c - 64); }
    void* heap_alloc(size_t n, size_t align, uptr pc) {
        u32 c = size_cls(n); uptr b;
        if (c >= NCLS) return nullptr;
        if (align <= 16 && free_list[c]) { b = free_list[c]; free_list[c] = *(uptr*) b; }
        else {
            if (align < 16) align = 16;
            b = (heap_cur + 16 + align - 1) & ~(align - 1);
            if (b + cls_size(c) + 16 > ARENA + ARENA_SZ) return nullptr;
            heap_cur = b + cls_size(c);
        }
        Hdr* h = (Hdr*) (b - 16); h->size = (u32) n; h->cls = c; h->magic = MAGIC_LIVE;
        u64 idx = (b - ARENA) >> 3; u64 g = n >> 3;
        // new block: addressable, previous accesses forgotten (the quarantine keeps stale users visible for a while)
        u64 ng = (n + 7) >> 3;
        for (u64 i = 0; i < g; ++i) adr[idx + i] = 8;
        if (n & 7) adr[idx + g] = (u8) (n & 7);
        if (!n) {}
        u64* c4 = slots + idx * 4;
        if (b + ng * 8 <= heap_cur) { bool dirty = false; for (u64 i = 0; i < ng && !dirty; ++i) dirty = c4[i * 4] != 0; if (dirty || ng < 64) raw_zero(c4, ng * 32); else for (u64 i = 0; i < ng * 4; ++i) if (c4[i]) c4[i] = 0; }
        (void) pc;
        // fill with a pattern so that reads of uninitialised memory are deterministic
        u64 f = 0xA5A5A5A5A5A5A5A5ull; for (u64 i = 0; i < ng; ++i) ((u64*) b)[i] = f;
        return (void*) b;
    }
    bool in_heap(const void* p) { u64 o = (uptr) p - ARENA; return o >= STACKS_SZ && o < ARENA_SZ; }
    void heap_free(void* p, uptr pc) {
        uptr b = (uptr) p; Hdr* h = (Hdr*) (b - 16);
        if (h->magic != MAGIC_LIVE) {
            if (g_on) { add_pc(pc); res->pcs[62] = 1; violation("bad-free", "", h->magic == MAGIC_FREE ? "block freed twice" : "free of an address that is no heap block", true); }
            return;
        }
        if (g_track && g_race) { uptr a = b; size_t n = h->size; while (n) { u32 k = (u32) (n < 8 ? n : 8); gran(a, k, true, false, pc); a += k; n -= k; } }
        h->magic = MAGIC_FREE;
        u64 idx = (b - ARENA) >> 3; u64 ng = (h->size + 7) >> 3;
        for (u64 i = 0; i < ng; ++i) {
            if (adr[idx + i] & A_SYNC) { for (u32 k = 0; k < 8; k++) { Obj* o = obj(b + i * 8 + k, false); if (o) { 
                if (g_on && (o->owner != NONE || o->readers) ) { /* destroyed while locked */ add_pc(pc); res->pcs[62] = 1; violation("bad-sync", "", "a locked mutex was destroyed", true); }
                obj_reset(o); } } }
            adr[idx + i] = 0;
        }
        quar[qt++ & (QCAP - 1)] = b; qbytes += cls_size(h->cls);
        while (qbytes > QBYTES || qt - qh >= QCAP) { uptr q = quar[qh++ & (QCAP - 1)]; Hdr* qhd = (Hdr*) (q - 16); qbytes -= cls_size(qhd->cls); *(uptr*) q = free_list[qhd->cls]; free_list[qhd->cls] = q; }
    }
    inline bool from_exe(uptr pc) { return pc >= EXE_LO && pc < EXE_HI; }
    bool alloc_fault() {   // one more allocation by simulated code: does it fail?
        if (!cur->armed || !g_track) return false;
        u64 n = ++allocs_armed; res->fault_allocs_seen = n;
        for (u32 i = 0; i < cfg.n_faults; ++i) if (cfg.faults[i].kind == 'A' && cfg.faults[i].ordinal == n) { res->alloc_faults++; faults_hit++; note_fault(); return true; }
        return false;
    }
    void* do_malloc(size_t n, size_t align, uptr pc, bool& failed) {
        failed = false;
        if (g_on && from_exe(pc)) {
            res->allocs++;
            if (alloc_fault()) { failed = true; return nullptr; }
            return heap_alloc(n, align, pc);
        }
        return align <= 16 ? __libc_malloc(n) : __libc_memalign(align, n);
    }

    // ------------------------------------------------------------------------------------------------ fibers
    void fiber_exit();
    extern "C" void sim_fiber_main() {
        upd_track();
        void* r = cur->fn(cur->arg);
        cur->ret = r;
        fiber_exit();
        __builtin_trap();
    }
    asm(R"(
.text
.globl sim_fiber_start
.type sim_fiber_start,@function
sim_fiber_start:
  .cfi_startproc
  .cfi_undefined rip
  xor %ebp,%ebp
  call sim_fiber_main
  ud2
  .cfi_endproc
.size sim_fiber_start,.-sim_fiber_start
)");
    extern "C" void sim_fiber_start();
    Fiber* new_fiber(void* (*fn)(void*), void* arg) {
        u32 t = nfib; Fiber* f = &fib[t]; nfib++;
        f->tid = t; f->st = RUNNABLE; f->fn = fn; f->arg = arg; f->join_target = NONE;
        f->stk_lo = ARENA + (u64) t * STACK_SZ; f->stk_hi = f->stk_lo + STACK_SZ;
        u64 i0 = ((f->stk_lo + 8192) - ARENA) >> 3, i1 = (f->stk_hi - ARENA) >> 3;
        for (u64 i = i0; i < i1; ++i) adr[i] = 8;
        uptr sp = f->stk_hi - 256; sp &= ~15ull;
        u64* s = (u64*) sp; *--s = 0; *--s = 0; /* fake return, 16-byte alignment at the call */ *--s = (u64) &sim_fiber_start; for (int i = 0; i < 6; ++i) *--s = 0;
        f->sp = s;
        if (tls_memsz) { f->tls = (u8*) __libc_calloc(1, tls_memsz); raw_copy(f->tls, tls_img, tls_filesz); }
        f->vc.c[t] = 1;
        f->prio = cfg.replay ? 0 : (1ull << 40) + rng.below(1ull << 30);
        n_unjoined++; if (n_unjoined > res->max_live) res->max_live = n_unjoined;
        return f;
    }
    void fiber_exit() {
        while (cur->ndtors) { auto d = cur->dtors[--cur->ndtors]; d.f(d.o); }
        if (cur->tid == 0) { 
            for (u32 i = 1; i < nfib; ++i) if (fib[i].st != FINISHED) violation("thread-leak", "", "a worker thread is still running after the operation that created it returned", false);
            finish(sim::OUT_OK);
        }
        g_track = false;
        cur->st = FINISHED;
        for (u32 i = 0; i < nfib; ++i) if (fib[i].st == BLOCKED && fib[i].wait_kind == 'j' && fib[i].join_target == cur->tid) wake(i);
        // stack of a finished thread is dead memory
        u64 i0 = ((cur->stk_lo + 8192) - ARENA) >> 3, i1 = (cur->stk_hi - ARENA) >> 3;
        for (u64 i = i0; i < i1; ++i) adr[i] = 0;
        if (cur->detached) { n_unjoined--; }
        schedule_away();
        __builtin_trap();
    }

    // ------------------------------------------------------------------------------------------------ terminate / crash
    void on_terminate() {
        if (!g_on) { raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); }
        char m[512]; const char* tn = "no exception";
        std::type_info* t = abi::__cxa_current_exception_type();
        char buf[160] = "";
        if (t) { tn = t->name(); int st; char* d = abi::__cxa_demangle(tn, nullptr, nullptr, &st); if (d && st == 0) { snprintf(buf, sizeof buf, "%s", d); tn = buf; } }
        snprintf(m, sizeof m, "std::terminate: %s", t ? "exception escaped: " : ""); cat(m, sizeof m, tn);
        violation("terminate", tn, m, true);
    }
    void on_signal(int s, siginfo_t* si, void* uc) {
        if (g_on && !in_report) { add_pc((uptr) ((ucontext_t*) uc)->uc_mcontext.gregs[REG_RIP] + 1); res->pcs[62] = 1; }
        if (!g_on || in_report) { raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); }
        char m[64]; snprintf(m, sizeof m, "crash: signal %d", s);
        (void) si;
        violation("crash", "", m, true);
    }
    int phdr_cb(dl_phdr_info* i, size_t, void*) {
        if (!i->dlpi_name || !i->dlpi_name[0]) {
            for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
                tls_img = (const char*) (i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_filesz = i->dlpi_phdr[k].p_filesz; tls_memsz = i->dlpi_phdr[k].p_memsz; tls_live = (u8*) i->dlpi_tls_data; }
            return 1;
        }
        return 0;
    }
    void* map(size_t n, uptr at = 0) {
        void* p = mmap((void*) at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
        if (p == MAP_FAILED || (at && p != (void*) at)) { fprintf(stderr, "sim: mmap failed\n"); _exit(3); }
        return p;
    }
}

namespace sim {
    void init_process() {
        __libc_single_threaded = 0;   // or shared_ptr would take its unsynchronised shortcut
        map(ARENA_SZ, ARENA);
        slots = (u64*) map(NGRAN * 32); slot_pc = (u32*) map(NGRAN * 16); adr = (u8*) map(NGRAN);
        obj_tab = (Obj**) map(sizeof(Obj*) * OBJ_CAP); obj_pool = (Obj*) map(sizeof(Obj) * OBJ_MAX);
        fib = (Fiber*) map(sizeof(Fiber) * (MAXT + 1)); quar = (uptr*) map(sizeof(uptr) * QCAP);
        EXE_LO = (uptr) &__executable_start; EXE_HI = (uptr) &etext; GLOB0 = EXE_LO & ~7ull; GLOB_DATA = (uptr) &__data_start; GLOB_END = (uptr) &end;
        if (GLOB_END - GLOB0 > GLOB_SZ) { fprintf(stderr, "sim: image too large\n"); _exit(3); }
        heap_cur = ARENA + STACKS_SZ;
        dl_iterate_phdr(phdr_cb, nullptr);
        static char alt[65536]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER | SA_SIGINFO;
        for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
        std::set_terminate(on_terminate);
    }
    static void* main_tramp(void*) { g_body(g_arg); return nullptr; }
    void run(const Config& c, Result* r, const Decision* dec, uint64_t nd, void (*body)(void*), void* arg) {
        cfg = c; res = r; rdec = dec; nrdec = nd; rng.s = c.seed ^ 0x1234567; g_body = body; g_arg = arg;
        ev = 0; pct_low = 1ull << 39;
        if (!cfg.replay) {
            draw_mem();
            if (cfg.strategy == ST_PCT) { npct = cfg.pct_depth > 15 ? 15 : cfg.pct_depth;
                for (u32 i = 0; i < npct; ++i) pct_points[i] = 1 + rng.below(cfg.pct_span);
                for (u32 i = 0; i < npct; ++i) for (u32 j = i + 1; j < npct; ++j) if (pct_points[j] < pct_points[i]) { u64 t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; } }
        }
        Fiber* f = new_fiber(main_tramp, nullptr);
        cur = f; set_next();
        check_tls_in(f);
        g_on = true; upd_track();
        sim_swtch(&main_sp, f->sp);
    }
    void fail(const char* cls, const char* key, const char* fmt, ...) {
        static char m[3000]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
        violation(cls, key, m, false);
    }
    static char g_want[64];
    void set_want(const char* p) { snprintf(g_want, sizeof g_want, "%s", p[0] == 'C' && p[1] >= '0' && p[1] <= '9' ? p : ""); }
    bool want(const char* p) { return !g_want[0] || !strcmp(g_want, p); }
    void probe(unsigned i) { if (g_on && i < MAX_PROBES) res->probes[i]++; }
    uint64_t now() { return ++ev; }
    void op_done(bool ok) { if (ok) res->ops_done++; else res->ops_failed++; }
    void arm_faults(bool on) { if (cur) cur->armed = on; }
    bool faults_fired() { return faults_hit > 0; }
    uint64_t fault_count() { return faults_hit; }
    uint64_t allocs_seen() { return allocs_armed; }
    void set_cores(unsigned n) { cfg.cores = n; }
    void yield() { if (g_on) { ++ev; res->sync_events++; decide(true, false); } }
    unsigned self() { return cur ? cur->tid : 0; }
    bool active() { return g_on; }
    Quiet::Quiet() { if (g_on) { cur->quiet++; upd_track(); } }
    Quiet::~Quiet() { if (g_on) { cur->quiet--; upd_track(); } }
    void label(const char* l) { if (g_on) cur->label = l; }
}

// ==================================================================================================== libc interposition
#define RA ((uptr) __builtin_return_address(0))
extern "C" {
void* malloc(size_t n) { bool f; void* p = do_malloc(n, 16, RA, f); if (!p) errno = ENOMEM; return p; }
void free(void* p) { if (!p) return; if (in_heap(p)) heap_free(p, RA); else __libc_free(p); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; if (g_on && from_exe(RA)) { bool f; void* p = do_malloc(n, 16, RA, f); if (p) raw_zero(p, n); return p; } return __libc_calloc(a, b); }
void* realloc(void* p, size_t n) {
    if (!p) { bool f; return do_malloc(n, 16, RA, f); }
    if (in_heap(p)) { bool f; void* q = g_on ? do_malloc(n, 16, EXE_LO, f) : __libc_malloc(n); if (!q) return nullptr; size_t o = ((Hdr*) ((uptr) p - 16))->size; raw_copy(q, p, o < n ? o : n); heap_free(p, RA); return q; }
    return __libc_realloc(p, n);
}
void* memalign(size_t a, size_t n) { bool f; return do_malloc(n, a, RA, f); }
void* aligned_alloc(size_t a, size_t n) { bool f; return do_malloc(n, a, RA, f); }
int posix_memalign(void** o, size_t a, size_t n) { bool f; void* p = do_malloc(n, a, RA, f); if (!p) return ENOMEM; *o = p; return 0; }

void* memcpy(void* __restrict d, const void* __restrict s, size_t n) { if (g_track && from_exe(RA)) { range((uptr) s, n, false, RA); range((uptr) d, n, true, RA); } raw_copy(d, s, n); return d; }
void* memmove(void* d, const void* s, size_t n) {
    if (g_track && from_exe(RA)) { range((uptr) s, n, false, RA); range((uptr) d, n, true, RA); }
    if ((uptr) d - (uptr) s >= n) raw_copy(d, s, n);
    else { char* dd = (char*) d + n; const char* ss = (const char*) s + n; while (n >= 8) { n -= 8; dd -= 8; ss -= 8; *(u64*) dd = *(const u64*) ss; asm volatile("" ::: "memory"); } while (n) { --n; *--dd = *--ss; asm volatile("" ::: "memory"); } }
    return d;
}
void* memset(void* d, int c, size_t n) { if (g_track && from_exe(RA)) range((uptr) d, n, true, RA); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }

[[noreturn]] void abort() { if (g_on) violation("abort", "", "abort() called", true); raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); __builtin_unreachable(); }
[[noreturn]] void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) { if (g_on) { char m[600]; snprintf(m, sizeof m, "assertion failed: %s at %s:%u", e, f, l); violation("assert", e, m, true); } raw_syscall(SYS_exit_group, 3, 0, 0, 0, 0, 0); __builtin_unreachable(); (void) fn; }

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    if (!g_on) return EAGAIN;
    sync_event('T', 0);
    res->thread_creates++;
    if (cur->armed) tcreates++;
    if (cur->armed) for (u32 i = 0; i < cfg.n_faults; ++i) if (cfg.faults[i].kind == 'T' && cfg.faults[i].ordinal == tcreates) { res->thread_faults++; faults_hit++; note_fault(); return EAGAIN; }
    if (nfib >= MAXT) sim_limit("too many threads in one run");
    Fiber* f = new_fiber(fn, arg);
    vc_join(f->vc, cur->vc); f->vc.c[f->tid] = 1; tick();
    f->label = cur->label; f->armed = cur->armed;
    *t = (pthread_t) (f->tid + 1);
    upd_track(); sync_event('t', 0);
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!g_on) return 0;
    u32 k = (u32) t - 1; Fiber* f = &fib[k];
    if (k >= nfib || f->joined) { violation("bad-sync", "join", "join of a thread that was never started or already joined", true); }
    sync_event('j', 0);
    while (f->st != FINISHED) { cur->join_target = k; block(nullptr, 'j', RA); }
    f->joined = true; vc_join(cur->vc, f->vc); n_unjoined--; upd_track();
    if (ret) *ret = f->ret;
    if (f->tls) { __libc_free(f->tls); f->tls = nullptr; }
    return 0;
}
int pthread_detach(pthread_t t) { u32 k = (u32) t - 1; fib[k].detached = true; return 0; }
pthread_t pthread_self() { return cur ? (pthread_t) (cur->tid + 1) : (pthread_t) 1; }
int sched_yield() { if (g_on && !cur->quiet) { ++ev; res->sync_events++; decide(true, true); } return 0; }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
int usleep(useconds_t) { return sched_yield(); }
int get_nprocs() { return g_on ? (int) cfg.cores : 4; }
int get_nprocs_conf() { return g_on ? (int) cfg.cores : 4; }

// ---------------------------------------------------------------- mutex
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { raw_zero(m, sizeof *m); if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); m->__data.__kind = k; } if (g_on) { Obj* o = obj((uptr) m); obj_reset(o); } return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { if (g_on) { Obj* o = obj((uptr) m, false); if (o) { if (o->owner != NONE) violation("bad-sync", "destroy", "a locked mutex was destroyed", true); obj_reset(o); } } return 0; }
static int mutex_lock(pthread_mutex_t* m, bool tr, uptr pc) {
    if (!g_on) return 0;
    access((uptr) m, 1, false, true, pc);
    sync_event(tr ? 'y' : 'm', (uptr) m);
    Obj* o = obj((uptr) m); bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (o->owner == cur->tid && rec) { o->count++; return 0; }
    if (o->owner != NONE) { res->lock_contended++; if (tr) return EBUSY; }
    while (o->owner != NONE) block(o, 'm', pc);
    o->owner = cur->tid; o->count = 1; acq(o);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) { return mutex_lock(m, false, RA); }
int pthread_mutex_trylock(pthread_mutex_t* m) { return mutex_lock(m, true, RA); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return mutex_lock(m, false, RA); }
static void mutex_release(pthread_mutex_t* m, uptr) {
    Obj* o = obj((uptr) m);
    if (o->owner != cur->tid) violation("bad-sync", "unlock", "unlock of a mutex not held by this thread", true);
    if (--o->count) return;
    rel(o); o->owner = NONE; wake_all(o, 'm');
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!g_on) return 0;
    access((uptr) m, 1, false, true, RA);
    mutex_release(m, RA); sync_event('u', (uptr) m); return 0;
}
// ---------------------------------------------------------------- rwlock
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) { raw_zero(l, sizeof *l); if (g_on) obj_reset(obj((uptr) l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) { if (g_on) { Obj* o = obj((uptr) l, false); if (o) { if (o->owner != NONE || o->readers) violation("bad-sync", "destroy", "a locked rwlock was destroyed", true); obj_reset(o); } } return 0; }
static int rdlock(pthread_rwlock_t* l, bool tr, uptr pc) {
    if (!g_on) return 0;
    access((uptr) l, 1, false, true, pc);
    sync_event('r', (uptr) l); Obj* o = obj((uptr) l);
    bool mine = o->rd[cur->tid >> 6] >> (cur->tid & 63) & 1;
    if (mine || o->owner == cur->tid) violation("bad-sync", "recursive-lock", "shared_mutex locked (shared) by a thread that already holds it", true);
    while (o->owner != NONE || (cfg.writer_pref && o->wwait)) { res->lock_contended++; if (tr) return EBUSY; block(o, 'r', pc); }
    o->readers++; o->rd[cur->tid >> 6] |= 1ull << (cur->tid & 63); acq(o); return 0;
}
static int wrlock(pthread_rwlock_t* l, bool tr, uptr pc) {
    if (!g_on) return 0;
    access((uptr) l, 1, false, true, pc);
    sync_event('w', (uptr) l); Obj* o = obj((uptr) l);
    if (o->owner == cur->tid || (o->rd[cur->tid >> 6] >> (cur->tid & 63) & 1)) { if (tr) return EBUSY; violation("deadlock", "recursive-lock", "shared_mutex locked (exclusive) by a thread that already holds it", true); }
    while (o->owner != NONE || o->readers) { res->lock_contended++; if (tr) return EBUSY; o->wwait++; block(o, 'w', pc); o->wwait--; }
    o->owner = cur->tid; acq(o); acq_r(o); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rdlock(l, false, RA); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return rdlock(l, true, RA); }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) { return wrlock(l, false, RA); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return wrlock(l, true, RA); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!g_on) return 0;
    access((uptr) l, 1, false, true, RA);
    Obj* o = obj((uptr) l); u64 bit = 1ull << (cur->tid & 63);
    if (o->owner == cur->tid) { o->owner = NONE; rel(o); wake_all(o, 'r', 'w'); }
    else if (o->rd[cur->tid >> 6] & bit) { o->rd[cur->tid >> 6] &= ~bit; o->readers--; rel_r(o); if (!o->readers) wake_all(o, 'w', 'r'); }
    else violation("bad-sync", "unlock", "unlock of a shared_mutex not held by this thread", true);
    sync_event('U', (uptr) l); return 0;
}
// ---------------------------------------------------------------- condition variables
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { raw_zero(c, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { if (g_on) { Obj* o = obj((uptr) c, false); if (o && o->waiters) violation("bad-sync", "destroy", "a condition variable was destroyed while threads wait on it", true); } return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uptr pc) {
    if (!g_on) return 0;
    access((uptr) c, 1, false, true, pc);
    sync_event('c', (uptr) c);
    Obj* o = obj((uptr) c); Obj* om = obj((uptr) m);
    if (om->owner != cur->tid) violation("bad-sync", "cond-wait", "condition variable wait without holding the mutex", true);
    mutex_release(m, pc);
    if (spurious()) { sync_event('s', 0); }
    else { cur->timed = timed; block(o, 'c', pc); cur->timed = false; }
    bool to = timed && !cur->woken;
    while (om->owner != NONE) block(om, 'm', pc);
    om->owner = cur->tid; om->count = 1; acq(om);
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, RA); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true, RA); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true, RA); }
static u32 wait_list(Obj* o, u32 kind, u32* c) { u32 n = 0; if (o->waiters) for (u32 i = 0; i < nfib; ++i) if (fib[i].st == BLOCKED && fib[i].waiting == o && fib[i].wait_kind == kind) c[n++] = i; return n; }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!g_on) return 0;
    access((uptr) c, 1, false, true, RA);
    sync_event('n', (uptr) c); Obj* o = obj((uptr) c); u32 w[MAXT]; u32 n = wait_list(o, 'c', w);
    if (n) wake(w[choose(n)]);
    sync_event('N', (uptr) c); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!g_on) return 0;
    access((uptr) c, 1, false, true, RA);
    sync_event('b', (uptr) c); wake_all(obj((uptr) c), 'c'); sync_event('B', (uptr) c); return 0;
}
// ---------------------------------------------------------------- once, static init
int pthread_once(pthread_once_t* ctl, void (*f)()) {
    if (!g_on) { if (*ctl == 0) { *ctl = 2; f(); } return 0; }
    Obj* o = obj((uptr) ctl);
    for (;;) {
        if (*ctl == 2) { acq(o); return 0; }
        if (*ctl == 1) { block(o, 'o', RA); continue; }
        *ctl = 1;
        try { f(); } catch (...) { *ctl = 0; wake_all(o, 'o'); throw; }
        rel(o); *ctl = 2; wake_all(o, 'o'); return 0;
    }
}
int __cxa_guard_acquire(u64* g) {
    u8* b = (u8*) g;
    if (b[0]) return 0;
    if (!g_on) { return 1; }
    Obj* o = obj((uptr) g);
    for (;;) { if (b[0]) { acq(o); return 0; } if (!b[1]) { b[1] = 1; return 1; } block(o, 'g', RA); }
}
void __cxa_guard_release(u64* g) { u8* b = (u8*) g; b[0] = 1; b[1] = 0; if (g_on) { Obj* o = obj((uptr) g); rel_store(o); wake_all(o, 'g'); } }
void __cxa_guard_abort(u64* g) { u8* b = (u8*) g; b[1] = 0; if (g_on) wake_all(obj((uptr) g), 'g'); }
int __cxa_thread_atexit(void (*f)(void*), void* o, void*) { if (g_on && cur->ndtors < 32) { cur->dtors[cur->ndtors++] = {f, o}; } return 0; }
// ---------------------------------------------------------------- futex
long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
    if (g_on && n == SYS_futex) {
        int op = (int) b & 127; int* addr = (int*) a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sync_event('f', (uptr) addr);
            if (*addr != (int) c) { errno = EAGAIN; return -1; }
            if (spurious()) { sync_event('s', 0); errno = EINTR; return -1; }
            cur->timed = d != 0; block(obj((uptr) addr), 'f', RA); bool to = cur->timed && !cur->woken; cur->timed = false;
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sync_event('F', (uptr) addr); Obj* o = obj((uptr) addr); long k = 0;
            while (k < (long) (int) c) { u32 w[MAXT]; u32 m = wait_list(o, 'f', w); if (!m) break; u32 x = (long) (int) c >= (long) m ? 0 : choose(m); wake(w[x]); ++k; }
            sync_event('G', (uptr) addr); return k;
        }
        errno = ENOSYS; return -1;
    }
    long r = raw_syscall(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int) -r; return -1; }
    return r;
}
} // extern "C"

// ==================================================================================================== operator new/delete
static void* new_impl(size_t n, size_t al, uptr pc) { bool f; void* p = do_malloc(n ? n : 1, al, pc, f); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return new_impl(n, 16, RA); }
void* operator new[](size_t n) { return new_impl(n, 16, RA); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t) a, RA); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t) a, RA); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { bool f; return do_malloc(n, 16, RA, f); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { bool f; return do_malloc(n, 16, RA, f); }
#define DEL(...) { if (!p) return; if (in_heap(p)) heap_free(p, RA); else __libc_free(p); }
void operator delete(void* p) noexcept DEL()
void operator delete[](void* p) noexcept DEL()
void operator delete(void* p, size_t) noexcept DEL()
void operator delete[](void* p, size_t) noexcept DEL()
void operator delete(void* p, std::align_val_t) noexcept DEL()
void operator delete[](void* p, std::align_val_t) noexcept DEL()
void operator delete(void* p, size_t, std::align_val_t) noexcept DEL()
void operator delete[](void* p, size_t, std::align_val_t) noexcept DEL()
void operator delete(void* p, const std::nothrow_t&) noexcept DEL()
void operator delete[](void* p, const std::nothrow_t&) noexcept DEL()

// ==================================================================================================== tsan ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(n) \
void __tsan_read##n(void* a) { access((uptr) a, n, false, false, RA); } \
void __tsan_write##n(void* a) { access((uptr) a, n, true, false, RA); } \
void __tsan_unaligned_read##n(void* a) { access((uptr) a, n, false, false, RA); } \
void __tsan_unaligned_write##n(void* a) { access((uptr) a, n, true, false, RA); } \
void __tsan_read##n##_pc(void* a, void* pc) { access((uptr) a, n, false, false, (uptr) pc); } \
void __tsan_write##n##_pc(void* a, void* pc) { access((uptr) a, n, true, false, (uptr) pc); } \
void __tsan_volatile_read##n(void* a) { access((uptr) a, n, false, true, RA); } \
void __tsan_volatile_write##n(void* a) { access((uptr) a, n, true, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8)
void __tsan_read16(void* a) { access((uptr) a, 8, false, false, RA); access((uptr) a + 8, 8, false, false, RA); }
void __tsan_write16(void* a) { access((uptr) a, 8, true, false, RA); access((uptr) a + 8, 8, true, false, RA); }
void __tsan_unaligned_read16(void* a) { __tsan_read16(a); }
void __tsan_unaligned_write16(void* a) { __tsan_write16(a); }
void __tsan_read_range(void* a, size_t n) { range((uptr) a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { range((uptr) a, n, true, RA); }
// one event whatever the stale value is: it may be left-over stack contents
void __tsan_vptr_update(void** a, void* v) { access((uptr) a, 8, *a != v, false, RA); }
void __tsan_vptr_read(void** a) { access((uptr) a, 8, false, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }

enum { MO_RELAXED, MO_CONSUME, MO_ACQUIRE, MO_RELEASE, MO_ACQ_REL, MO_SEQ_CST };
}
namespace {
    inline bool is_acq(int o) { return o == MO_CONSUME || o == MO_ACQUIRE || o == MO_ACQ_REL || o == MO_SEQ_CST; }
    inline bool is_rel(int o) { return o == MO_RELEASE || o == MO_ACQ_REL || o == MO_SEQ_CST; }
    void at_load(uptr a, int mo) {
        Obj* o = obj(a);
        if (is_acq(mo)) acq(o);
        else if (o->has_vc) { if (!cur->has_acq_pend) { raw_zero(&cur->acq_pend, sizeof(VC)); cur->has_acq_pend = true; } vc_join(cur->acq_pend, o->vc); }
    }
    void at_store(uptr a, int mo) {
        Obj* o = obj(a);
        if (is_rel(mo)) rel_store(o);
        else if (cur->has_rel_fence) { vc_copy(o->vc, cur->rel_fence); o->has_vc = true; }
        else o->has_vc = false;
    }
    void at_rmw(uptr a, int mo) {
        Obj* o = obj(a);
        if (is_acq(mo)) acq(o); else at_load(a, MO_RELAXED);
        if (is_rel(mo)) rel(o); else if (cur->has_rel_fence) { if (o->has_vc) vc_join(o->vc, cur->rel_fence); else { vc_copy(o->vc, cur->rel_fence); o->has_vc = true; } }
    }
    inline void at_pre(uptr a, u32 n, bool w, uptr pc, u32 kind) {
        sync_event(kind, a);
        if (g_track) { u32 off = a & 7; (void) off; gran(a, n, w, true, pc); }
    }
}
extern "C" {
#define ATOMICS(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* a, int mo) { if (!g_on) return *a; at_pre((uptr) a, bits / 8, false, RA, 1); T v = *a; at_load((uptr) a, mo); return v; } \
void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { if (!g_on) { *a = v; return; } at_pre((uptr) a, bits / 8, true, RA, 2); at_store((uptr) a, mo); *a = v; sync_event(3, 0); } \
T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = v; return o; } at_pre((uptr) a, bits / 8, true, RA, 4); T o = *a; at_rmw((uptr) a, mo); *a = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) (o + v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) (o + v); return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) (o - v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) (o - v); return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) (o & v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) (o & v); return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) (o | v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) (o | v); return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) (o ^ v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) (o ^ v); return o; } \
T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { if (!g_on) { T o = *a; *a = (T) ~(o & v); return o; } at_pre((uptr) a, bits / 8, true, RA, 5); T o = *a; at_rmw((uptr) a, mo); *a = (T) ~(o & v); return o; } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { if (!g_on) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } at_pre((uptr) a, bits / 8, true, RA, 6); if (*a == *c) { at_rmw((uptr) a, mo); *a = v; return 1; } at_load((uptr) a, fmo); *c = *a; return 0; } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { if (!g_on) { if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } at_pre((uptr) a, bits / 8, true, RA, 6); if (*a == *c) { at_rmw((uptr) a, mo); *a = v; return 1; } at_load((uptr) a, fmo); *c = *a; return 0; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { if (!g_on) { T o = *a; if (o == c) *a = v; return o; } at_pre((uptr) a, bits / 8, true, RA, 6); T o = *a; if (o == c) { at_rmw((uptr) a, mo); *a = v; } else at_load((uptr) a, fmo); return o; }
ATOMICS(8, u8) ATOMICS(16, uint16_t) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!g_on) return;
    sync_event(7, 0);
    if (is_acq(mo) && cur->has_acq_pend) { vc_join(cur->vc, cur->acq_pend); cur->has_acq_pend = false; }
    if (is_rel(mo)) { vc_copy(cur->rel_fence, cur->vc); cur->has_rel_fence = true; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
}
