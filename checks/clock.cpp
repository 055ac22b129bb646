// C10 timers: mltk::Timer (in any unit), a learner's elapsed time, the pool's stopwatch, against the simulated clock.
#include "common.h"
#include "ufjfmltk/core/Timer.hpp"
#include "ufjfmltk/core/ThreadPool.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
using namespace sim;
namespace {
struct Span { i64 lo = 0, hi = 0; };   // the true instant lies in [lo, hi]
const char* const un[] = {"ms", "s", "us", "ns", "min"}; const double unit[] = {1e6, 1e9, 1e3, 1, 60e9};
double read(const mltk::Timer& t, int u) {
    switch (u) { case 1: return t.elapsed<double, std::chrono::seconds>(); case 2: return t.elapsed<double, std::chrono::microseconds>(); case 3: return t.elapsed<double, std::chrono::nanoseconds>(); case 4: return t.elapsed<long, std::chrono::minutes>(); default: return t.elapsed(); }
}
// reported whole units of a true duration between d_lo and d_hi
void judge(const char* what, double v, double un_ns, const char* u, i64 d_lo, i64 d_hi) {
    if (v < 0) violate("negative", "%s reports %g %s", what, v, u);
    double tol = 1e-9 * (double)d_hi / un_ns + 1e-9;
    if (v > (double)d_hi / un_ns + tol || v < (double)d_lo / un_ns - 1 - tol) violate("elapsed", "%s reports %g %s, the true time is between %.9f s and %.9f s", what, v, u, d_lo / 1e9, d_hi / 1e9);
}
void pass_time() {
    static const i64 d[] = {1000000, 1, 999999, 1000, 1000000001LL, 61000000000LL, 3600000000000LL, 86400000000000LL * 40, 0};
    i64 x = d[wl(9)] * (i64)(1 + wl(4)); log("t=%.9f %.9f s pass", now_ns() / 1e9, x / 1e9); advance_ns(x);
}
}
SCENARIO(C10, timers, 3) {
    set_limits(200000, 2e9); static const i64 cs[] = {100, 0, 1, 1700000}; set_clock_step(cs[wl(4)]);
    enable_fault(F_CLOCK_STALL, wl_bool()); enable_fault(F_WALL_STEP, !wl_p(1, 4)); phase("timers");
    struct T { mltk::Timer t; Span r; double last[5]; }; std::vector<T> ts; int n = (int)wl_range(1, 3);
    for (int i = 0; i < n; i++) { T x; x.r.lo = now_ns(); x.t = mltk::Timer(); x.r.hi = now_ns(); for (double& l : x.last) l = 0; ts.push_back(x); }
    mltk::classifier::PerceptronPrimal<double> L; Span lr; { lr.lo = now_ns(); L.setTimer(mltk::Timer()); lr.hi = now_ns(); } double llast = 0;
    int ops = (int)wl_range(4, 40);
    for (int o = 0; o < ops; o++) {
        T& x = ts[wl((u64)n)]; int u = (int)wl(5);
        switch (wl(6)) {
        case 0: case 1: { i64 a = now_ns(); double v = read(x.t, u); i64 b = now_ns(); log("t=%.9f elapsed %g %s", b / 1e9, v, un[u]); note_d(v);
            judge("Timer::elapsed", v, unit[u], un[u], a - x.r.hi, b - x.r.lo); if (v < x.last[u]) violate("backwards", "Timer::elapsed went from %g to %g %s", x.last[u], v, un[u]); x.last[u] = v; break; }
        case 2: pass_time(); break;
        case 3: x.r.lo = now_ns(); x.t.reset(); x.r.hi = now_ns(); for (double& l : x.last) l = 0; log("reset"); break;
        case 4: { i64 a = now_ns(); double v = L.getElapsedTime(); i64 b = now_ns(); judge("Learner::getElapsedTime", v, 1e6, "ms", a - lr.hi, b - lr.lo); if (v < llast) violate("backwards", "Learner::getElapsedTime went from %g to %g ms", llast, v); llast = v; break; }
        case 5: { static const i64 w[] = {-3600000000000LL, 3600000000000LL, -1000000, 86400000000000LL * 400, -86400000000000LL * 3650}; if (fault_enabled(F_WALL_STEP)) { i64 s = w[wl(5)]; log("t=%.9f wall clock steps %.3f s", now_ns() / 1e9, s / 1e9); step_wall(s); fault_fired(F_WALL_STEP); } break; }
        }
    }
}
SCENARIO(C10, stopwatch, 1) {
    set_limits(200000, 2e9); static const i64 cs[] = {100, 0, 1, 1700000}; set_clock_step(cs[wl(4)]);
    enable_fault(F_CLOCK_STALL, wl_bool()); enable_fault(F_WALL_STEP, !wl_p(1, 4)); phase("stopwatch");
    Span st; st.lo = now_ns(); mltk::timer w; st.hi = now_ns(); i64 lo = 0, hi = 0; bool stopped = false; int ops = (int)wl_range(3, 30);
    for (int o = 0; o < ops; o++) switch (wl(5)) {
        case 0: { i64 v = w.ms(); log("t=%.9f ms() = %lld", now_ns() / 1e9, (long long)v); note((u64)v); if (!stopped) { if (v != 0) violate("elapsed", "a stopwatch that was never stopped reports %lld ms", (long long)v); } else judge("stopwatch", (double)v, 1e6, "ms", lo, hi); break; }
        case 1: st.lo = now_ns(); w.start(); st.hi = now_ns(); log("start"); break;
        case 2: { i64 a = now_ns(); w.stop(); i64 b = now_ns(); lo = a - st.hi; hi = b - st.lo; stopped = true; log("stop"); break; }
        case 3: pass_time(); break;
        case 4: { static const i64 d[] = {-3600000000000LL, 3600000000000LL, -1000000}; if (fault_enabled(F_WALL_STEP)) { step_wall(d[wl(3)]); fault_fired(F_WALL_STEP); } break; }
    }
}
