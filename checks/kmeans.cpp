// C14 k-means under simulated entropy, clock and memory contents: for every draw and time-out point a valid clustering.
#include "common.h"
#include "ufjfmltk/clusterer/KMeans.hpp"
#include <iostream>
using namespace sim; using namespace mltk::metrics::dist;
namespace {
double dist(int m, const Vec& a, const Vec& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); s = m == 0 ? s + d * d : m == 1 ? s + d : std::max(s, d); } return m == 0 ? std::sqrt(s) : s; }
template <class M> void judge(mltk::clusterer::KMeans<double, M>& k, const Cloud& c, size_t n_clusters, int m, bool converged, const char* when) {
    size_t n = c.x.size(); auto cs = k.centers(); std::vector<Vec> ctr;
    if (cs.size() != n_clusters) violate("clustering", "%s: %zu centers for k = %zu", when, cs.size(), n_clusters);
    for (auto& p : cs) { Vec v(p.X().begin(), p.X().end()); if (v.size() != c.dim) violate("clustering", "%s: a center of dimension %zu for points of dimension %zu", when, v.size(), c.dim); for (double x : v) if (!std::isfinite(x)) violate("center", "%s: center %zu of %zu is %s", when, ctr.size(), n_clusters, str(v).c_str()); ctr.push_back(v); }
    // every center is a mean of points or a point: inside the bounding box
    for (size_t j = 0; j < c.dim; j++) { double lo = INFINITY, hi = -INFINITY; for (auto& x : c.x) lo = std::min(lo, x[j]), hi = std::max(hi, x[j]); for (size_t q = 0; q < ctr.size(); q++) if (ctr[q][j] < lo - 1e-9 || ctr[q][j] > hi + 1e-9) violate("center", "%s: center %zu %s lies outside the data in feature %zu", when, q, str(ctr[q]).c_str(), j); }
    auto cl = k.clusters(); if (cl.size() != n_clusters) violate("clustering", "%s: %zu clusters for k = %zu", when, cl.size(), n_clusters);
    std::vector<int> of(n, -1);
    for (size_t q = 0; q < cl.size(); q++) for (size_t id : cl[q]) { if (id >= n) violate("clustering", "%s: cluster %zu names point %zu of %zu", when, q, id, n); if (of[id] >= 0) violate("clustering", "%s: point %zu is in the clusters %d and %zu", when, id, of[id], q); of[id] = (int)q; }
    bool tie = false, empty = false; for (auto& q : cl) if (q.size() == 0) empty = true;
    for (size_t i = 0; i < n; i++) {
        if (of[i] < 0) violate("clustering", "%s: point %zu is in no cluster", when, i);
        double best = INFINITY, own = dist(m, c.x[i], ctr[(size_t)of[i]]); int nb = 0; for (auto& q : ctr) { double d = dist(m, c.x[i], q); if (d < best - 1e-7 * (1 + d)) best = d, nb = 1; else if (d <= best + 1e-7 * (1 + d)) nb++, best = std::min(best, d); }
        if (own > best + 1e-9 * (1 + best)) violate("nearest", "%s: point %zu %s is %.12g away from the center of its cluster %d, another center is %.12g away", when, i, str(c.x[i]).c_str(), own, of[i], best);
        if (nb > 1) tie = true;
        Pt p(c.x[i].size()); for (size_t j = 0; j < c.x[i].size(); j++) p[j] = c.x[i][j]; double e = k.evaluate(p); if (e < 0 || e >= (double)n_clusters || e != std::floor(e)) violate("evaluate", "%s: evaluates point %zu to %g, k = %zu", when, i, e, n_clusters);
        if ((int)e != of[i] && std::fabs(dist(m, c.x[i], ctr[(size_t)e]) - own) > 1e-9 * (1 + own)) violate("evaluate", "%s: point %zu is in cluster %d but evaluates to %g", when, i, of[i], e);
    }
    if (empty) probe("C14 clusterings with an empty cluster");
    if (m == 0 && converged && !tie && !empty) { probe("C14 converged clusterings");
        for (size_t q = 0; q < cl.size(); q++) { Vec mean(c.dim, 0.0); for (size_t id : cl[q]) for (size_t j = 0; j < c.dim; j++) mean[j] += c.x[id][j] / (double)cl[q].size(); if (!close(mean, ctr[q], 1e-6)) violate("mean", "%s: converged with center %zu at %s, the mean of its %zu points is %s", when, q, str(ctr[q]).c_str(), cl[q].size(), str(mean).c_str()); } }
}
template <class M> void kmeans(int m) {
    bool wide = wl(5) == 4, fine = !wide && wl(24) == 23; int n = (int)(fine ? wl_range(80, 300) : wl_range(1, wide ? 70 : 14)), dim = (int)wl_range(1, wide ? 9 : fine ? 2 : 3); size_t k = (size_t)wl_range(fine ? 2 : 1, std::min(n, wide ? 24 : 5)); Cloud c; c.dim = (size_t)dim; int spread = fine ? 2000 : wl_bool() ? 3 : 40; if (fine) probe("C14 many points, small steps"); for (int i = 0; i < n; i++) { Vec x; for (int j = 0; j < dim; j++) x.push_back((double)wl_range(-spread, spread) / 2.0); if (i && wl_p(1, 6)) x = c.x[wl((u64)i)]; c.x.push_back(x); c.y.push_back(0); }
    Data* d = to_data(c, "Clustering"); bool pp = wl_bool(); size_t seed = wl(3) == 0 ? 0 : 1 + wl(1000); int verb = (int)wl_p(1, 4); static const double budgets[] = {110, 0, 1, 3}; double bud = budgets[wl(4)];
    static const i64 cost[] = {1000, 1000000, 30000000}; i64 ps = cost[wl(3)];
    if (wl_bool()) { std::vector<size_t> perm; for (int i = 0; i < n; i++) perm.push_back((size_t)i); }
    char ph[64]; snprintf(ph, sizeof ph, "k-means %s, k=%zu, metric %d", pp ? "kmeanspp" : "random", k, m); phase(ph); log_cloud(c);
    std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
    auto* km = new mltk::clusterer::KMeans<double, M>(*d, k, pp ? "kmeanspp" : "random", seed, verb); km->setMaxTime(bud);
    for (int r = 0, rounds = 1 + (int)wl_p(1, 4); r < rounds; r++) {
        i64 t0 = now_ns(); int s0 = km->getSteps(); bool ok; { Cpu cpu(ps); ok = km->train(); } i64 el = now_ns() - t0; (void)ok; int steps = km->getSteps() - s0;
        // it converged for sure when the budget never came into sight
        bool conv = (double)el / 1e6 < bud; log("round %d: k-means with k=%zu over %d points, budget %g ms, took %.6f ms, %d iterations", r, k, n, bud, el / 1e6, steps);
        if (steps < 1) violate("clustering", "training made no iteration");
        note((u64)steps); for (auto& q : km->centers()) for (double v : q.X()) note_d(v);
        Cpu cpu(0); judge(*km, c, k, m, conv, r ? "trained again" : "trained"); if (r + 1 < rounds) { bud = budgets[wl(4)]; km->setMaxTime(bud); }
    }
    std::cout.rdbuf(old);
    for (int i = 0; i < n; i++) { auto p = (*d)[i]; for (int j = 0; j < dim; j++) if ((*p)[j] != c.x[(size_t)i][(size_t)j]) violate("data", "training changed point %d of the caller's dataset", i); }
}
}
SCENARIO(C14, clustering, 1) {
    set_limits(12000000, 1e9); static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; heap_fill(f[wl(4)]); static const i64 cs[] = {100, 0, 30000}; set_clock_step(cs[wl(3)]);
    enable_fault(F_CLOCK_STALL, wl_p(1, 3)); enable_fault(F_WALL_STEP, wl_bool()); enable_fault(F_STALL, wl_bool()); cpu_stalls(0.01); enable_fault(F_ENTROPY, wl_bool());
    switch (wl(4)) { case 1: kmeans<Manhattan<double>>(1); break; case 2: kmeans<Chebyshev<double>>(2); break; default: kmeans<Euclidean<double>>(0); }
}
