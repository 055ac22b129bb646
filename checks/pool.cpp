// Thread-pool, synchronized-stream scenarios (C01-C07). Compiled with -fsanitize=thread against the simulator runtime.
#include "sim.h"
#include "ufjfmltk/core/ThreadPool.hpp"
#include <array>
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <memory>
#include <sstream>
#include <thread>
#include <limits>
#include <cstring>
using mltk::ThreadPool;
using namespace sim;

// ---- bookkeeping shared by the scenarios (outside the simulation's view) -------------------------
struct Rec { int id; int client; u64 accept_seq = 0, start_seq = 0, end_seq = 0; int runs = 0; bool accepted = false, argbad = false, expect_never = false; };
struct Book {
    std::deque<Rec> t; u64 seq = 0; int running = 0, maxrunning = 0; std::vector<int> order; bool frozen = false; std::string frozen_why;
    int fresh(int client) { Quiet q; t.push_back(Rec()); t.back().id = (int)t.size() - 1; t.back().client = client; return (int)t.size() - 1; }
    void accept(int i) { Quiet q; t[i].accepted = true; t[i].accept_seq = ++seq; }
    void start(int i) {
        Quiet q; Rec& r = t[i]; r.runs++; running++; if (running > maxrunning) maxrunning = running; r.start_seq = ++seq; order.push_back(i);
        log("t=%.6f T%d runs task %d", now_ns() / 1e9, tid(), i); note(1000 + i);
        if (r.runs > 1) violate("task-twice", "task %d executed %d times, phase quiet", i, r.runs);
        if (r.expect_never) violate("rejected-task-ran", "a task whose submission failed was executed (task %d)", i);
        if (frozen) violate("start-while-paused", "task %d started although the pool was paused and waited for (%s)", i, frozen_why.c_str());
    }
    void end(int i) { Quiet q; t[i].end_seq = ++seq; running--; }
    u64 now() { Quiet q; return ++seq; }
};
static Book* B;
static std::vector<long>* slots;        // plain memory written by tasks, read by waiters: visibility oracle
static void busy(unsigned w) {          // what a task body does: nothing, yield points, or simulated work
    if (w == 0) return;
    if (w <= 3) { for (unsigned i = 0; i < w; i++) yield_point(); return; }
    static const int us[] = {10, 300, 1500, 7000};
    std::this_thread::sleep_for(std::chrono::microseconds(us[w % 4]));
}
static void body(int id, unsigned w) { B->start(id); busy(w); (*slots)[id] = 7L * id + 3; B->end(id); }
struct Payload { int id; std::string s; std::vector<int> v; };
static Payload mk(int id) { Payload p; p.id = id; p.s = std::string(40 + id % 7, char('a' + id % 26)); p.v.assign(5, id * 31); return p; }
static bool good(const Payload& p, int id) { if (p.id != id) return false; if (p.s != std::string(40 + id % 7, char('a' + id % 26)) || p.v.size() != 5) return false; for (int x : p.v) if (x != id * 31) return false; return true; }

static void common_faults() { enable_fault(F_STALL, wl(3) != 0); enable_fault(F_SPURIOUS, true); enable_fault(F_OVERSLEEP, wl(2)); set_limits(4000000, 400); }
static unsigned pick_sleep() { static const unsigned s[] = {1000, 0, 50, 1000, 250}; return s[wl(5)]; }
static void setup() { B = new Book; slots = new std::vector<long>(4000, 0); common_faults(); static const unsigned hw[] = {4, 2, 1, 6}; hw_concurrency(hw[wl(4)]); }
static ThreadPool* make_pool(unsigned n) { auto* p = new ThreadPool(n); p->sleep_duration = pick_sleep(); return p; }
static void check_all_ran(const char* when) {
    for (auto& r : B->t) { if (r.accepted && r.runs != 1) violate("task-lost", "task %d of client %d was accepted but ran %d times %s", r.id, r.client, r.runs, when); if (r.argbad) violate("task-args", "task %d ran with corrupted arguments", r.id); if (r.accepted && r.end_seq == 0) violate("task-unfinished", "task %d started but had not finished %s", r.id, when); }
}
static void argcheck(int id, bool ok) { if (!ok) { Quiet q; B->t[id].argbad = true; violate("task-args", "task %d ran with arguments other than those it was submitted with", id); } }

// a callable with state of its own, which must reach the task as it was when submitted
struct Fn { int id; std::string tag; std::vector<int> v; explicit Fn(int i) : id(i), tag(30, char('a' + i % 26)), v(4, i) {} ~Fn() { tag.assign(30, '#'); id = -1; }
    bool fine(int a) const { return id == a && tag == std::string(30, char('a' + a % 26)) && v == std::vector<int>(4, a); }
    void operator()(int a, unsigned w) const { argcheck(a, fine(a)); body(a, w); }
    int operator()(int a, unsigned w, const std::string& s) const { argcheck(a, fine(a) && s == std::to_string(a)); body(a, w); return a * 2; } };
// one submission by a client through a chosen entry point; returns the task id
static std::vector<std::future<int>>* fut_i; static std::vector<std::future<bool>>* fut_v;
static int submit_one(ThreadPool& P, int client, unsigned how, unsigned w) {
    int id = B->fresh(client);
    switch (how) {
        case 0: P.push_task([id, w] { body(id, w); }); break;
        case 1: if (id % 2) { Fn* f = new Fn(id); P.push_task(*f, id, w); delete f; break; } P.push_task([](int a, unsigned b, const Payload& p) { argcheck(a, good(p, a)); body(a, b); }, id, w, mk(id)); break;
        case 2: { auto f = P.submit([id, w] { body(id, w); }); Quiet q; fut_v->push_back(std::move(f)); break; }
        case 3: { if (id % 2) { Fn* c = new Fn(id); auto f = P.submit(*c, id, w, std::to_string(id)); delete c; Quiet q; fut_i->push_back(std::move(f)); break; } auto f = P.submit([](int a, unsigned b, std::string s) { argcheck(a, s == std::to_string(a)); body(a, b); return a * 2; }, id, w, std::to_string(id)); Quiet q; fut_i->push_back(std::move(f)); break; }
        case 4: { Payload pl = mk(id); P.push_task([pl, w, id] { argcheck(id, good(pl, id)); body(id, w); }); pl.v.assign(5, -1); pl.s = "overwritten"; break; }
        case 5: { int child = B->fresh(client); P.push_task([&P, id, child, w] { body(id, w); P.push_task([child, w] { body(child, w); }); B->accept(child); }); break; }
        default: { int n = 1 + (int)w % 3; std::vector<int> ids; ids.push_back(id); for (int i = 1; i < n; i++) ids.push_back(B->fresh(client)); for (int i : ids) B->accept(i);
            P.parallelize_loop(0, n, [&ids, w](int a, int b) { for (int i = a; i < b; i++) body(ids[i], w > 3 ? 2 : w); }, 1 + w % 4);
            for (int i : ids) if (B->t[i].end_seq == 0) violate("loop-early", "parallel loop returned before its body finished"); return id; }
    }
    B->accept(id); return id;
}
struct Op { unsigned kind, how, w; };
static std::vector<Op> gen_ops(int lo, int hi, unsigned hows) { std::vector<Op> v; int n = (int)wl_range(lo, hi); for (int i = 0; i < n; i++) v.push_back(Op{(unsigned)wl(10), (unsigned)wl(hows), (unsigned)wl(8)}); return v; }

// ================================================================ C01: exactly once
static void c01_fifo(const std::vector<int>& order) { // one worker: each client's direct tasks start in submission order
    std::vector<u64> last(8, 0); for (int i : order) { Rec& r = B->t[i]; if (r.client < 0 || r.accept_seq == 0) continue; if (r.accept_seq < last[r.client]) violate("order", "with one worker, task %d of client %d started after a task submitted later", i, r.client); last[r.client] = r.accept_seq; }
}
SCENARIO(C01, mixed, 5) {
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    unsigned n = (unsigned)wl_range(1, 4); int nc = (int)wl_range(1, 3);
    unsigned hows = wl(2) ? 5 : 7; std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 7, hows));
    std::vector<u64> ctl; for (int i = 0, m = (int)wl(5); i < m; i++) ctl.push_back(wl(8)); bool fifo = n == 1 && hows == 5; int endmode = (int)wl(4); bool loops = hows == 7;
    phase("construct"); ThreadPool* P = make_pool(n);
    if (!loops && wl(3) == 0) P->paused = true;
    std::vector<std::thread> cl; phase("clients");
    for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) { if (o.kind == 0) busy(o.w); submit_one(*P, c, o.how, o.w); } });
    bool resized = false;
    for (u64 k : ctl) { if (loops && k != 7) { yield_point(); continue; }
        switch (k) { case 0: case 1: P->paused = true; break; case 2: case 3: P->paused = false; break; case 4: { unsigned m = (unsigned)wl_range(1, 4); phase("reset"); P->reset(m); resized = true; fifo = fifo && m == 1; probe("C01 reset with queued tasks", P->get_tasks_queued() > 0); break; } case 5: busy((unsigned)wl(8)); break; default: yield_point(); } }
    for (auto& t : cl) t.join();
    P->paused = false; probe("C01 tasks queued at destruction", P->get_tasks_queued() > 0);
    if (endmode == 0) { phase("wait"); P->wait_for_tasks(); check_all_ran("after waiting"); }
    if (endmode == 1) { phase("reset"); P->reset((unsigned)wl_range(1, 3)); fifo = false; }
    phase("destroy"); delete P;
    check_all_ran("after the pool was destroyed");
    if (fifo) c01_fifo(B->order);
    for (auto& f : *fut_i) if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) violate("future-not-ready", "a submitted task's future is not ready after the pool was destroyed");
    for (auto& f : *fut_v) if (f.wait_for(std::chrono::seconds(0)) != std::future_status::ready) violate("future-not-ready", "a submitted task's future is not ready after the pool was destroyed");
    probe("C01 resized", resized); probe("C01 tasks", B->t.size());
}
SCENARIO(C01, fifo1, 1) {   // one worker, several clients, pauses: submission order per client
    setup(); int nc = (int)wl_range(1, 3); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(2, 6, 2));
    ThreadPool* P = make_pool(1); bool pz = wl_bool(); if (pz) P->paused = true; fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) submit_one(*P, c, o.how, o.w % 4); });
    busy((unsigned)wl(8)); P->paused = false; for (auto& t : cl) t.join(); delete P; check_all_ran("after destruction"); c01_fifo(B->order);
}
SCENARIO(C01, twopools, 1) { // pools are independent objects; one may be fed by tasks of the other
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    ThreadPool* A = make_pool((unsigned)wl_range(1, 3)); ThreadPool* C = make_pool((unsigned)wl_range(1, 3));
    int n = (int)wl_range(1, 5); for (int i = 0; i < n; i++) { int id = B->fresh(0), ch = B->fresh(1); unsigned w = (unsigned)wl(8); A->push_task([=] { body(id, w); C->push_task([=] { body(ch, w); }); B->accept(ch); }); B->accept(id); }
    phase("destroy A"); delete A; phase("destroy C"); delete C; check_all_ran("after both pools were destroyed");
}

// ================================================================ C02: barrier
static void after_wait(u64 upto, const char* who) {
    std::vector<int> due; { Quiet q; for (auto& r : B->t) if (r.accepted && r.accept_seq <= upto) due.push_back(r.id); }
    for (int i : due) { { Quiet q; if (B->t[i].end_seq == 0) violate("barrier", "%s returned while task %d, accepted before the wait began, was %s", who, i, B->t[i].start_seq ? "still running" : "not started"); }
        long v = (*slots)[i]; if (v != 7L * i + 3) violate("visibility", "%s returned but the write of task %d is not visible", who, i); }
    probe("C02 tasks covered by a returned wait", due.size());
}
SCENARIO(C02, barrier, 4) {
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    unsigned n = (unsigned)wl_range(1, 4); int nc = (int)wl_range(1, 3); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 6, 6));
    ThreadPool* P = make_pool(n); std::vector<std::thread> cl;
    for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) { submit_one(*P, c, o.how, o.w); if (o.kind >= 6) { u64 s = B->now(); P->wait_for_tasks(); after_wait(s, "wait"); } } u64 s = B->now(); phase("wait"); P->wait_for_tasks(); after_wait(s, "wait"); });
    if (wl_bool()) { u64 s = B->now(); P->wait_for_tasks(); after_wait(s, "wait"); }
    for (auto& t : cl) t.join();
    u64 s = B->now(); P->wait_for_tasks(); after_wait(s, "final wait"); if (B->running) violate("barrier", "a task is running after the final wait");
    if (wl_bool()) { phase("reset"); P->reset((unsigned)wl_range(1, 3)); int id = B->fresh(0); P->push_task([id] { body(id, 1); }); B->accept(id); u64 s2 = B->now(); P->wait_for_tasks(); after_wait(s2, "wait after resize"); }
    phase("destroy"); u64 sd = B->now(); delete P; after_wait(sd, "destruction");
}
SCENARIO(C02, paused_wait, 4) {   // pause -> wait: nothing may be executing when it returns (submitters keep pushing)
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    unsigned n = (unsigned)wl_range(1, 4); int nc = (int)wl_range(0, 2); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 6, 5));
    ThreadPool* P = make_pool(n); int pre = (int)wl_range(0, 5);
    for (int i = 0; i < pre; i++) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8));
    std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) { submit_one(*P, c, o.how, o.w); busy(o.kind); } });
    int rounds = (int)wl_range(1, 3);
    for (int r = 0; r < rounds; r++) {
        busy((unsigned)wl(8)); P->paused = true; probe("C02 paused while tasks run", B->running > 0); phase("paused wait"); P->wait_for_tasks();
        { Quiet q; if (B->running) violate("paused-wait", "wait on a paused pool returned while %d task(s) were executing", B->running); for (auto& t : B->t) if (t.start_seq && !t.end_seq) violate("paused-wait", "wait on a paused pool returned while a task was executing"); }
        for (auto& t : B->t) { bool done; { Quiet q; done = t.end_seq != 0; } if (done && (*slots)[t.id] != 7L * t.id + 3) violate("visibility", "write of finished task not visible after paused wait"); }
        P->paused = false;
    }
    for (auto& t : cl) t.join();
    phase("destroy"); u64 sd = B->now(); delete P; after_wait(sd, "destruction");
}

SCENARIO(C02, pause_while_waiting, 2) {   // the pool is paused under somebody's wait: the wait ends once nothing runs
    setup(); set_limits(300000, 120); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    ThreadPool* P = make_pool((unsigned)wl_range(1, 3)); if (P->sleep_duration == 0) P->sleep_duration = 100; int pre = (int)wl_range(1, 6); for (int i = 0; i < pre; i++) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8));
    int nw = (int)wl_range(1, 2); unsigned delay = (unsigned)wl(8), how = (unsigned)wl(3); std::vector<std::thread> cl; phase("wait while the pool gets paused");
    for (int c = 0; c < nw; c++) cl.emplace_back([&, c] { P->wait_for_tasks(); });
    busy(delay); P->paused = true; if (how == 2) { busy(3); P->paused = false; busy(2); P->paused = true; }
    for (auto& t : cl) t.join();   // bounded: tasks are short, so nothing runs soon
    { P->wait_for_tasks(); Quiet q; if (B->running) violate("paused-wait", "waiting on a paused pool returned while %d task(s) were executing", B->running); }
    probe("C02 paused under a wait with tasks queued", P->get_tasks_queued() > 0);
    phase("wait after unpausing"); P->paused = false; u64 s = B->now(); P->wait_for_tasks(); after_wait(s, "wait after unpausing"); delete P;
}

// ================================================================ C03: loops
template <class T1, class T2> static void one_loop(ThreadPool& P, T1 first, T2 last, unsigned blocks, bool use_blocks, unsigned w, const char* ty) {
    typedef std::common_type_t<T1, T2> T; T a = (T)first, b = (T)last; if (b < a) std::swap(a, b);
    struct Blk { T s, e; }; std::vector<Blk>* got = new std::vector<Blk>; int* open = new int(0); u64 span = (u64)b - (u64)a; bool small = span <= 64; std::vector<long>* cells = new std::vector<long>(small ? (size_t)span : 0, 0);
    auto loop = [=](const T s, const T e) {
        { Quiet q; ++*open; got->push_back({s, e}); note((u64)s); note((u64)e); log("T%d block [%lld,%lld)", tid(), (long long)s, (long long)e);
          if (!(s < e)) violate("loop-block", "%s: empty or inverted block [%lld,%lld) of [%lld,%lld)", ty, (long long)s, (long long)e, (long long)a, (long long)b);
          if (s < a || e > b) violate("loop-block", "%s: block [%lld,%lld) outside the range [%lld,%lld)", ty, (long long)s, (long long)e, (long long)a, (long long)b); }
        busy(w); if (small) for (T i = s; i < e; i++) (*cells)[(size_t)((u64)i - (u64)a)] += 5;
        { Quiet q; --*open; } };
    unsigned pool_n = (unsigned)P.get_thread_count();
    if (use_blocks) P.parallelize_loop(first, last, loop, blocks); else P.parallelize_loop(first, last, loop);
    { Quiet q; if (*open) violate("loop-early", "%s: the loop over [%lld,%lld) returned while %d block(s) were running", ty, (long long)a, (long long)b, *open);
      u64 covered = 0; for (auto& x : *got) { covered += (u64)x.e - (u64)x.s; for (auto& y : *got) if (&x != &y && x.s < y.e && y.s < x.e) violate("loop-overlap", "%s: blocks [%lld,%lld) and [%lld,%lld) overlap", ty, (long long)x.s, (long long)x.e, (long long)y.s, (long long)y.e); }
      if (covered != span) violate("loop-cover", "%s: the blocks cover %llu of %llu indices of [%lld,%lld)", ty, (unsigned long long)covered, (unsigned long long)span, (long long)a, (long long)b);
      u64 maxb = use_blocks && blocks ? blocks : pool_n; if (got->size() > maxb) violate("loop-blocks", "%s: %zu blocks, %llu requested", ty, got->size(), (unsigned long long)maxb);
    }
    for (size_t i = 0; i < cells->size(); i++) if ((*cells)[i] != 5) violate("loop-visibility", "%s: effect of index %zu seen %ld times after the loop returned", ty, i, (*cells)[i] / 5);
    probe("C03 loops"); if (span == 0) probe("C03 empty ranges"); if (span > 64) probe("C03 huge ranges");
}
static void rand_loop(ThreadPool& P) {
    bool ub = wl_bool(); unsigned blocks = (unsigned)wl(9); unsigned w = (unsigned)wl(6); i64 len = wl(3) == 2 ? (i64)wl(3) : (i64)wl(20); bool rev = wl(4) == 3; i64 base = (i64)wl(40) - 20; u64 ty = wl(18);
    auto go = [&](auto f, auto l, const char* n) { if (rev) one_loop(P, l, f, blocks, ub, w, n); else one_loop(P, f, l, blocks, ub, w, n); };
    switch (ty) {
        case 0: go((int)base, (int)(base + len), "int"); break;
        case 1: go((size_t)(base + 20), (size_t)(base + 20 + len), "size_t"); break;
        case 2: go((long)base, (long)(base + len), "long"); break;
        case 3: go((unsigned)(base + 20), (unsigned)(base + 20 + len), "unsigned"); break;
        case 4: go((int)(base + 20), (size_t)(base + 20 + len), "int,size_t"); break;
        case 5: go((short)base, (short)(base + len), "short"); break;
        case 6: go((int)base, (long)(base + len), "int,long"); break;
        case 7: go(std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - (int)len, "int, whole range"); break;
        case 8: go(std::numeric_limits<int>::max() - (int)len, std::numeric_limits<int>::max(), "int, top of range"); break;
        case 9: go((u64)0, std::numeric_limits<u64>::max() - (u64)len, "u64, whole range"); break;
        case 10: go((unsigned char)(base + 20), (unsigned char)(base + 20 + len), "uint8"); break;
        case 11: go((i64)-5000000000LL + base, (i64)5000000000LL + len, "int64, wide"); break;
        case 12: go((unsigned char)(base + 20), (int)(base + 20 + len + (w > 3 ? 1000 : 0)), "uint8,int"); break;
        case 13: go((short)base, (i64)base + len * 3000000000LL, "short,int64"); break;
        case 14: go((int)(base + 20), (u64)(base + 20 + len) << (w * 6), "int,u64"); break;
        case 15: go((signed char)base, (short)(base + len), "int8,int16"); break;
        case 16: go((unsigned)(base + 20), (i64)(base + 20 + len) + (w > 3 ? 5000000000LL : 0), "unsigned,int64"); break;
        default: go(std::numeric_limits<i64>::min(), std::numeric_limits<i64>::max() - (i64)len, "int64, whole range"); break;
    }
}
SCENARIO(C03, loops, 4) {
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; ThreadPool* P = make_pool((unsigned)wl_range(1, 5)); int n = (int)wl_range(1, 3); int bg = (int)wl(4);
    for (int i = 0; i < bg; i++) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8));
    for (int i = 0; i < n; i++) rand_loop(*P);
    if (wl(4) == 3) { P->reset((unsigned)wl_range(1, 4)); rand_loop(*P); }
    delete P; check_all_ran("after destruction");
}
SCENARIO(C03, concurrent, 3) {   // several clients loop on one pool at once
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; ThreadPool* P = make_pool((unsigned)wl_range(1, 4)); int nc = (int)wl_range(2, 3); 
    struct L { int f, n; unsigned b, w; int k; }; std::vector<std::vector<L>> plan(nc); for (auto& p : plan) for (int i = (int)wl_range(1, 2); i > 0; i--) p.push_back(L{(int)wl(9) - 4, (int)wl(12), (unsigned)wl(6), (unsigned)wl(5), (int)wl(3)});
    std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& l : plan[c]) { if (l.k == 2) submit_one(*P, c, 0, l.w); one_loop(*P, l.f, l.f + l.n, l.b, true, l.w, "int (concurrent)"); } });
    for (auto& t : cl) t.join(); P->wait_for_tasks(); delete P; check_all_ran("after destruction");
}

SCENARIO(C03, paused, 2) {   // somebody pauses and unpauses the pool while the loops run
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; ThreadPool* P = make_pool((unsigned)wl_range(1, 3)); int n = (int)wl_range(1, 3); std::vector<u64> ctl; for (int i = (int)wl_range(1, 4); i > 0; i--) ctl.push_back(wl(16));
    struct L { int f, n; unsigned b, w; }; std::vector<L> plan; for (int i = 0; i < n; i++) plan.push_back(L{(int)wl(9) - 4, 1 + (int)wl(12), (unsigned)wl(6), (unsigned)wl(6)});
    if (wl(4) == 0) P->paused = true;
    std::thread c([&] { for (auto& l : plan) one_loop(*P, l.f, l.f + l.n, l.b, true, l.w, "int (pausing)"); });
    for (u64 k : ctl) { busy((unsigned)(k & 7)); P->paused = k < 8; probe("C03 paused during loops", k < 8); } busy((unsigned)wl(8)); P->paused = false; c.join(); P->wait_for_tasks(); delete P;
}

// ================================================================ C04: futures
struct TaskError { int id; };
struct Fut { int id; int kind; bool throws; std::future<int>* fi = nullptr; std::future<bool>* fb = nullptr; std::future<std::string>* fs = nullptr; std::future<std::unique_ptr<int>>* fu = nullptr; };
static int ck_throw(int id, unsigned w, bool th) { B->start(id); busy(w); (*slots)[id] = 7L * id + 3; B->end(id); if (th) throw TaskError{id}; return id; }
static Fut submit_fut(ThreadPool& P, int client, int kind, bool th, unsigned w) {
    Fut f; f.id = B->fresh(client); f.kind = kind; f.throws = th; int id = f.id;
    switch (kind) {
        case 0: { auto x = P.submit([id, w, th] { return ck_throw(id, w, th) * 11 + 1; }); f.fi = new std::future<int>(std::move(x)); break; }
        case 1: { auto x = P.submit([id, w, th] { ck_throw(id, w, th); }); f.fb = new std::future<bool>(std::move(x)); break; }
        case 2: { auto x = P.submit([](int a, unsigned b, bool c, const std::string& s) { ck_throw(a, b, c); return s + "/" + std::to_string(a); }, id, w, th, std::string(30, char('a' + id % 26))); f.fs = new std::future<std::string>(std::move(x)); break; }
        case 3: { auto x = P.submit([id, w, th] { ck_throw(id, w, th); return std::make_unique<int>(id * 5); }); f.fu = new std::future<std::unique_ptr<int>>(std::move(x)); break; }
        case 4: { auto x = P.submit([](int a, unsigned b, bool c) { ck_throw(a, b, c); }, id, w, th); f.fb = new std::future<bool>(std::move(x)); break; }
        default: { auto x = P.submit([id, w, th] { ck_throw(id, w, th); return id % 2 == 0; }); f.fb = new std::future<bool>(std::move(x)); break; }
    }
    B->accept(id); return f;
}
template <class F> static std::future_status st0(F* f) { return f->wait_for(std::chrono::seconds(0)); }
static bool is_ready(Fut& f) { auto r = std::future_status::ready; return f.fi ? st0(f.fi) == r : f.fb ? st0(f.fb) == r : f.fs ? st0(f.fs) == r : st0(f.fu) == r; }
static void get_fut(Fut& f) {
    int id = f.id; bool threw = false, ok = true; int eid = -1;
    try {
        if (f.fi) ok = f.fi->get() == id * 11 + 1; else if (f.fb) ok = f.fb->get() == (f.kind == 5 ? id % 2 == 0 : true); else if (f.fs) ok = f.fs->get() == std::string(30, char('a' + id % 26)) + "/" + std::to_string(id); else { auto u = f.fu->get(); ok = u && *u == id * 5; }
    } catch (const TaskError& e) { threw = true; eid = e.id; } catch (std::exception& e) { violate("future-exception", "future of task %d rethrew a foreign exception: %s", id, e.what()); }
    if (threw != f.throws) violate("future-exception", "task %d %s but its future %s", id, f.throws ? "threw" : "returned normally", threw ? "threw" : "returned a value");
    if (threw && eid != id) violate("future-foreign", "future of task %d rethrew the exception of task %d", id, eid);
    if (!threw && !ok) violate("future-foreign", "future of task %d delivered a wrong value", id);
    { Quiet q; if (B->t[id].end_seq == 0) violate("future-early", "future of task %d was ready before the task finished", id); }
    if ((*slots)[id] != 7L * id + 3) violate("visibility", "write of task %d not visible through its future", id);
}
SCENARIO(C04, futures, 5) {
    setup(); ThreadPool* P = make_pool((unsigned)wl_range(1, 4)); int nc = (int)wl_range(1, 3); struct S { int kind; bool th; unsigned w; int then; }; std::vector<std::vector<S>> plan(nc);
    for (auto& p : plan) for (int i = (int)wl_range(1, 6); i > 0; i--) p.push_back(S{(int)wl(6), wl(3) == 2, (unsigned)wl(8), (int)wl(6)});
    std::vector<std::vector<Fut>*> all; for (int c = 0; c < nc; c++) all.push_back(new std::vector<Fut>);
    bool swapjoin = wl_bool(); std::vector<std::thread> cl;
    for (int c = 0; c < nc; c++) cl.emplace_back([&, c] {
        for (auto& s : plan[c]) { Fut f = submit_fut(*P, c, s.kind, s.th, s.w);
            if (s.then == 0) { phase("get"); get_fut(f); continue; }
            if (s.then == 1) { bool r = is_ready(f); Quiet q; if (r && B->t[f.id].end_seq == 0) violate("future-early", "future of task %d ready before the task finished", f.id); }
            if (s.then == 2 && f.fi) { auto st = f.fi->wait_for(std::chrono::microseconds(700)); Quiet q; if (st == std::future_status::ready && B->t[f.id].end_seq == 0) violate("future-early", "future of task %d ready before the task finished", f.id); }
            if (s.then == 3) { delete f.fi; delete f.fb; delete f.fs; delete f.fu; f.fi = nullptr; f.fb = nullptr; f.fs = nullptr; f.fu = nullptr; probe("C04 futures dropped early"); continue; }
            all[c]->push_back(f); }
        if (!swapjoin) for (auto& f : *all[c]) get_fut(f); });
    for (auto& t : cl) t.join();
    int fin = (int)wl(3); if (fin == 0) { P->wait_for_tasks(); }
    if (fin == 1) { delete P; P = nullptr; }
    if (swapjoin) { if (fin <= 1) for (auto v : all) for (auto& f : *v) if (!is_ready(f)) violate("future-not-ready", "future of task %d not ready after the pool finished all tasks", f.id); for (auto v : all) for (auto& f : *v) get_fut(f); }
    delete P; check_all_ran("after destruction");
}
SCENARIO(C04, throw_mix, 2) {   // throwing tasks must not disturb the pool or its counters
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; unsigned n = (unsigned)wl_range(1, 3); ThreadPool* P = make_pool(n); std::vector<Fut> fs; int m = (int)wl_range(1, 6);
    for (int i = 0; i < m; i++) { fs.push_back(submit_fut(*P, 0, (int)wl(6), wl(3) != 0, (unsigned)wl(8))); if (wl_bool()) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8)); }
    phase("wait"); P->wait_for_tasks(); check_all_ran("after waiting"); if (P->get_tasks_total() != 0 || P->get_tasks_running() != 0) violate("counters", "counters not zero at rest after throwing tasks");
    if (P->get_thread_count() != n) violate("counters", "thread count changed"); for (auto& f : fs) { if (!is_ready(f)) violate("future-not-ready", "future not ready after wait"); get_fut(f); }
    int id = B->fresh(0); P->push_task([id] { body(id, 0); }); B->accept(id); P->wait_for_tasks(); check_all_ran("after the second wait"); delete P;
}

// ================================================================ C05: pause / resize / counters
SCENARIO(C05, pause, 5) {
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; unsigned n = (unsigned)wl_range(1, 4); int nc = (int)wl_range(0, 2); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 5, 5));
    ThreadPool* P = make_pool(n); int pre = (int)wl_range(0, 5); for (int i = 0; i < pre; i++) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8));
    std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) { submit_one(*P, c, o.how, o.w); if (o.kind > 5) busy(o.kind); } });
    int rounds = (int)wl_range(1, 3);
    for (int r = 0; r < rounds; r++) {
        busy((unsigned)wl(8)); P->paused = true; phase("paused wait"); P->wait_for_tasks(); { Quiet q; B->frozen = true; B->frozen_why = "plain pause"; }
        int extra = (int)wl(3); for (int i = 0; i < extra; i++) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(4));
        static const int us[] = {0, 5, 1200, 5000}; std::this_thread::sleep_for(std::chrono::microseconds(us[wl(4)])); probe("C05 tasks held back by a pause", P->get_tasks_queued());
        if (wl(4) == 3) { unsigned m = (unsigned)wl_range(0, 4); phase("resize while paused"); P->reset(m); unsigned want = m ? m : hw_concurrency_value(); if (P->get_thread_count() != want) violate("resize-count", "resized to %u workers, reports %u", want, (unsigned)P->get_thread_count()); if (!P->paused) violate("resize-unpauses", "resizing a paused pool unpaused it"); n = want; std::this_thread::sleep_for(std::chrono::milliseconds(3)); }
        { Quiet q; B->frozen = false; } P->paused = false;
    }
    for (auto& t : cl) t.join(); phase("destroy"); delete P; check_all_ran("after destruction");
}
SCENARIO(C05, resize, 4) {
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; unsigned n = (unsigned)wl_range(0, 4); ThreadPool* P = new ThreadPool(n); P->sleep_duration = pick_sleep(); unsigned cur = n ? n : hw_concurrency_value();
    if (P->get_thread_count() != cur) violate("resize-count", "constructed with %u workers, reports %u", cur, (unsigned)P->get_thread_count());
    int nc = (int)wl_range(0, 2); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 5, 5)); std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) submit_one(*P, c, o.how, o.w); });
    int rounds = (int)wl_range(1, 3);
    for (int r = 0; r < rounds; r++) {
        for (int i = (int)wl(4); i > 0; i--) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(8));
        bool pz = wl(3) == 2; P->paused = pz; int before_threads = threads_created(); int bl = live_threads(); unsigned m = (unsigned)wl_range(0, 5); bool dflt = m == 0 && wl_bool(); phase("resize"); if (dflt) P->reset(); else P->reset(m); cur = m ? m : hw_concurrency_value();
        (void)bl; if (P->get_thread_count() != cur) violate("resize-count", "resized to %u workers, reports %u", cur, (unsigned)P->get_thread_count());
        if (threads_created() - before_threads != (int)cur && threads_created() != before_threads) probe("C05 resize reused or over-created threads");
        if ((bool)P->paused != pz) violate("resize-pause", "resizing changed the pause state from %d to %d", pz, (int)P->paused);
        P->paused = false;
    }
    for (auto& t : cl) t.join();
    // exactly `cur` workers: `cur` tasks that wait for each other must all be able to run at once, cur+1 must not
    phase("worker count"); P->wait_for_tasks(); { auto* arrived = new std::atomic<int>(0); auto* release = new std::atomic<bool>(false); unsigned want = cur + 1; std::vector<int> ids;
        for (unsigned i = 0; i < want; i++) { int id = B->fresh(0); ids.push_back(id); P->push_task([=] { B->start(id); ++*arrived; while (!*release) std::this_thread::sleep_for(std::chrono::microseconds(100)); (*slots)[id] = 1; B->end(id); }); B->accept(id); }
        for (int k = 0; k < 4000 && *arrived < (int)cur; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1)); int a = *arrived; if (a < (int)cur) violate("resize-count", "%u workers requested, only %d tasks can run at once", cur, a);
        std::this_thread::sleep_for(std::chrono::milliseconds(20)); a = *arrived; if (a > (int)cur) violate("resize-count", "%u workers requested, %d tasks run at once", cur, a);
        if (P->get_tasks_running() != cur) violate("counters", "%u tasks are running, the counter says %u", cur, (unsigned)P->get_tasks_running()); if (P->get_tasks_queued() != 1) violate("counters", "1 task is queued, the counter says %u", (unsigned)P->get_tasks_queued()); if (P->get_tasks_total() != cur + 1) violate("counters", "%u tasks are unfinished, the counter says %u", cur + 1, (unsigned)P->get_tasks_total());
        *release = true; }
    phase("destroy"); delete P; check_all_ran("after destruction");
}
SCENARIO(C05, counters, 3) {   // an observer reads the counters while the pool works
    setup(); fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>; unsigned n = (unsigned)wl_range(1, 3); int nc = (int)wl_range(1, 2); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(1, 6, 5));
    ThreadPool* P = make_pool(n); std::atomic<bool> stop{false}; std::vector<int> gaps; for (int i = 0; i < 12; i++) gaps.push_back((int)wl(6)); bool pz = wl(3) == 2;
    std::thread obs([&] { for (int i = 0; i < 12 && !stop; i++) { unsigned long r = P->get_tasks_running(); if (r > n) violate("counters", "%lu tasks reported running on %u workers", r, n); unsigned long t = P->get_tasks_total(), q = P->get_tasks_queued(); size_t sub; { Quiet qq; sub = B->t.size(); } if (t > sub) violate("counters", "%lu tasks reported in total, only %zu were ever submitted", t, sub); if (q > sub) violate("counters", "%lu tasks reported queued, only %zu were ever submitted", q, sub); busy((unsigned)gaps[i]); } });
    if (pz) P->paused = true;
    std::vector<std::thread> cl; for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) submit_one(*P, c, o.how, o.w); });
    for (auto& t : cl) t.join();
    if (pz) { P->wait_for_tasks(); unsigned long q = P->get_tasks_queued(), t = P->get_tasks_total(), r = P->get_tasks_running(); if (r != 0 || t != q) violate("counters", "paused and at rest: total %lu, queued %lu, running %lu", t, q, r); size_t pend = 0; { Quiet qq; for (auto& x : B->t) pend += x.accepted && !x.start_seq; } if (q != pend) violate("counters", "paused and at rest: %zu tasks are pending, %lu reported queued", pend, q); P->paused = false; }
    phase("wait"); P->wait_for_tasks(); stop = true; obs.join(); if (P->get_tasks_total() || P->get_tasks_queued() || P->get_tasks_running()) violate("counters", "counters not zero at rest"); if (P->get_thread_count() != n) violate("counters", "thread count is %u, expected %u", (unsigned)P->get_thread_count(), n);
    { Quiet q; if (B->maxrunning > (int)n) violate("counters", "%d tasks ran at once on %u workers", B->maxrunning, n); }
    delete P; check_all_ran("after destruction");
}

// ================================================================ C06: failing allocations and thread creation
static void enable_c06() { enable_fault(F_ALLOC, true); enable_fault(F_THREAD, true); }
// submit with allocation faults armed on this thread; a throwing submission must not run
template <class F> static bool guarded(F f) { try { FaultScope s(SC_ALLOC | SC_THREAD); f(); return true; } catch (const std::bad_alloc&) { return false; } catch (const std::system_error&) { return false; } }
SCENARIO(C06, push, 5) {
    setup(); enable_c06(); unsigned n = (unsigned)wl_range(1, 3); int nc = (int)wl_range(1, 2); std::vector<std::vector<Op>> ops; for (int c = 0; c < nc; c++) ops.push_back(gen_ops(2, 8, 5));
    ThreadPool* P = make_pool(n); std::vector<std::thread> cl; std::vector<Fut>* futs = new std::vector<Fut>;
    for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (auto& o : ops[c]) { int id = B->fresh(c); unsigned w = o.w; Payload pl = mk(id); bool ok;
        phase("push under allocation faults");
        switch (o.how) { case 0: ok = guarded([&] { P->push_task([id, w] { body(id, w); }); }); break;
            case 1: ok = guarded([&] { P->push_task([](int a, unsigned b, const Payload& p) { argcheck(a, good(p, a)); body(a, b); }, id, w, pl); }); break;
            case 2: { std::future<int> f; ok = guarded([&] { f = P->submit([id, w] { return ck_throw(id, w, false) * 11 + 1; }); }); if (ok) { Quiet q; Fut x; x.id = id; x.kind = 0; x.throws = false; x.fi = new std::future<int>(std::move(f)); futs->push_back(x); } break; }
            case 3: { std::future<bool> f; ok = guarded([&] { f = P->submit([id, w, pl] { argcheck(id, good(pl, id)); ck_throw(id, w, false); }); }); if (ok) { Quiet q; Fut x; x.id = id; x.kind = 1; x.throws = false; x.fb = new std::future<bool>(std::move(f)); futs->push_back(x); } break; }
            default: ok = guarded([&] { P->push_task([id, w, pl] { argcheck(id, good(pl, id)); body(id, w); }); }); }
        if (ok) B->accept(id); else { Quiet q; B->t[id].expect_never = true; if (B->t[id].runs) violate("rejected-task-ran", "a task whose submission failed was executed"); probe("C06 submissions rejected"); }
        if (o.kind == 9) { phase("wait after a failed submission"); P->wait_for_tasks(); } } });
    for (auto& t : cl) t.join(); faults_stop();
    phase("wait after allocation failures"); P->wait_for_tasks(); check_all_ran("after waiting"); if (P->get_tasks_total()) violate("counters", "%u tasks still counted at rest after failed submissions", (unsigned)P->get_tasks_total());
    for (auto& f : *futs) get_fut(f);
    int id = B->fresh(0); P->push_task([id] { body(id, 0); }); B->accept(id); phase("destroy after allocation failures"); delete P; check_all_ran("after destruction");
}
SCENARIO(C06, construct, 2) {   // a constructor that cannot create all threads throws and leaves nothing behind
    setup(); enable_c06(); unsigned n = (unsigned)wl_range(1, 5); int tries = (int)wl_range(1, 3);
    for (int i = 0; i < tries; i++) { ThreadPool* P = nullptr; int before = live_threads(); phase("construct under faults"); bool ok = guarded([&] { P = new ThreadPool(n); });
        if (!ok) { probe("C06 constructions failed"); for (int k = 0; k < 100 && live_threads() > before; k++) std::this_thread::sleep_for(std::chrono::milliseconds(5)); if (live_threads() > before) violate("thread-leak", "a failed construction left %d worker thread(s) running", live_threads() - before); continue; }
        if (P->get_thread_count() != n) violate("resize-count", "thread count wrong after construction"); int id = B->fresh(0); P->push_task([id] { body(id, 1); }); B->accept(id); phase("destroy"); delete P; check_all_ran("after destruction"); if (live_threads() > before) violate("thread-leak", "destruction left threads running"); }
}
SCENARIO(C06, resize, 2) {    // a resize that fails reports it; accepted tasks are not lost and the pool can be resized again
    setup(); enable_c06(); unsigned n = (unsigned)wl_range(1, 3); ThreadPool* P = make_pool(n); bool pz = wl_bool(); if (pz) P->paused = true; fut_i = new std::vector<std::future<int>>; fut_v = new std::vector<std::future<bool>>;
    for (int i = (int)wl(4); i > 0; i--) submit_one(*P, 0, (unsigned)wl(5), (unsigned)wl(6));
    unsigned m = (unsigned)wl_range(1, 4); phase("resize under faults"); bool ok = guarded([&] { P->reset(m); });
    if (!ok) probe("C06 resizes failed"); faults_stop();
    if ((bool)P->paused != pz) violate("resize-pause", "a %s resize changed the pause state", ok ? "successful" : "failed");
    if (!ok && wl_bool()) { phase("resize again"); P->reset(m); ok = true; probe("C06 resize repeated"); }
    if (ok && P->get_thread_count() != m) violate("resize-count", "resized to %u workers, reports %u", m, (unsigned)P->get_thread_count());
    int id = B->fresh(0); P->push_task([id] { body(id, 0); }); B->accept(id); P->paused = false; phase("wait after a failed resize"); P->wait_for_tasks(); check_all_ran("after waiting"); phase("destroy after a failed resize"); delete P; check_all_ran("after destruction");
}
SCENARIO(C06, loop, 3) {       // a loop that cannot submit all its blocks throws after the submitted ones are done
    setup(); enable_c06(); unsigned n = (unsigned)wl_range(1, 3); ThreadPool* P = make_pool(n); int rounds = (int)wl_range(1, 3);
    for (int r = 0; r < rounds; r++) { int len = (int)wl_range(1, 9); unsigned nb = (unsigned)wl_range(1, 6), w = (unsigned)wl(6); auto* open = new int(0); auto* hits = new std::vector<int>(len, 0); auto* dead = new bool(false);
        phase("loop under allocation faults"); bool ok = guarded([&] { auto loop = [=](int a, int b) { { Quiet q; if (*dead) violate("loop-late", "a block ran after the failed loop returned"); ++*open; } busy(w); { Quiet q; if (*dead) violate("loop-late", "a block was still running after the failed loop returned"); for (int i = a; i < b; i++) (*hits)[i]++; --*open; } }; P->parallelize_loop(0, len, loop, nb); });
        { Quiet q; *dead = true; if (*open) violate("loop-late", "%d block(s) of a %s loop still running after it returned", *open, ok ? "finished" : "failed"); for (int h : *hits) { if (h > 1) violate("loop-overlap", "index run twice"); if (ok && h != 1) violate("loop-cover", "loop reported success but skipped an index"); } }
        if (!ok) { probe("C06 loops failed part-way"); std::this_thread::sleep_for(std::chrono::milliseconds(3)); } }
    faults_stop(); phase("wait after a failed loop"); P->wait_for_tasks(); if (P->get_tasks_total()) violate("counters", "tasks still counted at rest after a failed loop"); int id = B->fresh(0); P->push_task([id] { body(id, 0); }); B->accept(id); phase("destroy after a failed loop"); delete P; check_all_ran("after destruction");
}

// ================================================================ C07: synchronized stream
struct SlowBuf : std::streambuf {   // plain, unsynchronized sink with scheduling points between characters
    std::string* out = new std::string; int inside = -1; long plainw = 0; unsigned gran = 1; std::string last;
    void enter() { plainw++; { Quiet q; if (inside != -1 && inside != tid()) violate("stream-race", "two threads are inside the underlying stream at once"); inside = tid(); } }
    void leave() { plainw++; Quiet q; inside = -1; }
    int overflow(int c) override { enter(); yield_point(); { Quiet q; out->push_back((char)c); note((u64)c); } leave(); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { enter(); for (std::streamsize i = 0; i < n; i++) { if (i % gran == 0) yield_point(); Quiet q; out->push_back(s[i]); note((u64)s[i]); } leave(); return n; }
    int sync() override { enter(); leave(); return 0; }
};
struct Item { int client, seq; bool bomb; };
struct Bomb { int x; };
static std::ostream& operator<<(std::ostream& o, const Item& it) { o << "<" << it.client; yield_point(); o << "," << it.seq << ">"; if (it.bomb) throw Bomb{it.seq}; return o; }
SCENARIO(C07, lines, 4) {
    setup(); auto* sb = new SlowBuf; sb->gran = 1 + (unsigned)wl(4); auto* os = new std::ostream(sb); auto* ss = new mltk::synced_stream(*os); int nc = (int)wl_range(2, 5); struct M { int form; bool ln, bomb; }; std::vector<std::vector<M>> plan(nc); bool bombs = wl(4) == 3;
    for (auto& p : plan) for (int i = (int)wl_range(1, 5); i > 0; i--) p.push_back(M{(int)wl(9), wl_bool(), bombs && wl(4) == 3});
    std::vector<std::vector<std::string>> expect(nc); for (int c = 0; c < nc; c++) for (size_t i = 0; i < plan[c].size(); i++) { auto& m = plan[c][i]; std::string id = std::to_string(c) + "." + std::to_string(i), s; switch (m.form) { case 0: s = "[" + id + "]"; break; case 1: s = "[" + id + "|" + std::to_string(c * 100 + (int)i) + "]"; break; case 2: s = "[" + id + "|x|1.5|y]"; break; case 3: s = "[" + id + "<" + std::to_string(c) + "," + std::to_string(i) + ">]"; break; case 4: s = "[" + id + std::string(20, '-') + "]"; break; case 5: s = "[" + id + "a" + std::to_string(i) + "b" + std::to_string(c) + "c]"; break; case 6: s = "[" + id + "]"; break; case 7: s = "<" + std::to_string(c) + "," + std::to_string(i) + ">"; break; default: if (c) { m.form = 6; s = "[" + id + "]"; } } if (m.form == 7 && m.bomb) ; else if (m.form == 3 && m.bomb) s = "[" + id + "<" + std::to_string(c) + "," + std::to_string(i) + ">"; else if (m.ln) s += "\n"; expect[c].push_back(s); }
    std::vector<std::thread> cl; phase("printing");
    for (int c = 0; c < nc; c++) cl.emplace_back([&, c] { for (int i = 0; i < (int)plan[c].size(); i++) { auto m = plan[c][i]; std::string id; { Quiet q; id = std::to_string(c) + "." + std::to_string(i); } try {
            switch (m.form) { case 0: m.ln ? ss->println("[", id, "]") : ss->print("[", id, "]"); break; case 1: m.ln ? ss->println("[", id, "|", c * 100 + i, "]") : ss->print("[", id, "|", c * 100 + i, "]"); break; case 2: m.ln ? ss->println("[", id, '|', "x", "|", 1.5, "|y]") : ss->print("[", id, '|', "x", "|", 1.5, "|y]"); break;
                case 3: m.ln ? ss->println("[", id, Item{c, i, m.bomb}, "]") : ss->print("[", id, Item{c, i, m.bomb}, "]"); break; case 4: m.ln ? ss->println("[", id, std::string(20, '-'), "]") : ss->print("[", id, std::string(20, '-'), "]"); break; case 5: m.ln ? ss->println("[", id, "a", i, "b", c, "c]") : ss->print("[", id, "a", i, "b", c, "c]"); break; case 6: { std::string one; { Quiet q; one = "[" + id + "]"; } m.ln ? ss->println(one) : ss->print(one); break; } case 7: m.ln ? ss->println(Item{c, i, m.bomb}) : ss->print(Item{c, i, m.bomb}); break; default: m.ln ? ss->println() : ss->print(); } } catch (const Bomb&) { probe("C07 item threw while printing"); } } });
    for (auto& t : cl) t.join();
    // the output must be an interleaving of whole messages, each client's in order
    std::string& o = *sb->out; size_t pos = 0; std::vector<size_t> nx(nc, 0); size_t total = 0; for (auto& e : expect) total += e.size();
    for (size_t k = 0; k < total; k++) { bool hit = false; for (int c = 0; c < nc && !hit; c++) if (nx[c] < expect[c].size() && o.compare(pos, expect[c][nx[c]].size(), expect[c][nx[c]]) == 0) { pos += expect[c][nx[c]].size(); nx[c]++; hit = true; } if (!hit) { std::string got = o.substr(pos, 48); for (auto& ch : got) if (ch == '\n') ch = '~'; violate("interleaved", "output is not a sequence of whole messages in per-thread order; at offset %zu: \"%s\"", pos, got.c_str()); } }
    if (pos != o.size()) violate("interleaved", "output holds %zu extra bytes", o.size() - pos);
    probe("C07 messages", total);
}
SCENARIO(C07, from_pool, 1) {   // printing from pool tasks
    setup(); auto* sb = new SlowBuf; auto* os = new std::ostream(sb); auto* ss = new mltk::synced_stream(*os); ThreadPool* P = make_pool((unsigned)wl_range(2, 4)); int n = (int)wl_range(2, 10);
    P->parallelize_loop(0, n, [&](int a, int b) { for (int i = a; i < b; i++) ss->println("task ", i, " of ", n, " says ", i * i); }, (unsigned)wl_range(1, 6)); delete P;
    std::vector<int> seen(n, 0); std::istringstream in(*sb->out); std::string l; int lines = 0; while (std::getline(in, l)) { lines++; bool hit = false; for (int i = 0; i < n; i++) if (l == "task " + std::to_string(i) + " of " + std::to_string(n) + " says " + std::to_string(i * i)) { hit = true; seen[i]++; } if (!hit) violate("interleaved", "garbled line \"%s\"", l.c_str()); }
    for (int i = 0; i < n; i++) if (seen[i] != 1) violate("message-lost", "message %d appears %d times", i, seen[i]);
}
