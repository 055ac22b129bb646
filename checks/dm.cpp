// Parallel distance matrix and the nearest-neighbour classifier on top of it (C08), instrumented thread build.
#include "sim.h"
#include "ufjfmltk/core/Data.hpp"
#include "ufjfmltk/core/DistanceMatrix.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include <set>
using namespace sim;
typedef mltk::Data<double> Data; typedef mltk::Point<double> Pt;
namespace dist = mltk::metrics::dist;
static double ref(int metric, const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]); if (metric == 0) s += d * d; else if (metric == 1) s += d; else s = std::max(s, d); } return metric == 0 ? std::sqrt(s) : s; }
static bool same(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
struct Set { std::vector<std::vector<double>> x; std::vector<int> y; std::vector<size_t> order; Data* d; };
// points with ids 1..N (id = generation number), stored in `order`; a subset when `drop` > 0
static Set make(int n, int dim, int classes, bool shuffle, int drop) {
    Set s; bool fine = wl(3) == 2; for (int i = 0; i < n; i++) { std::vector<double> v; for (int j = 0; j < dim; j++) v.push_back(fine ? (double)wl(1000000) / 997.0 - 500 : (double)wl(1 << 16) / 64.0); s.x.push_back(v); s.y.push_back(i < classes ? i : (int)wl((u64)classes)); }
    for (int i = 0; i < n; i++) s.order.push_back((size_t)i);
    if (shuffle) for (int i = n - 1; i > 0; i--) std::swap(s.order[(size_t)i], s.order[wl((u64)i + 1)]);
    for (int i = 0; i < drop && s.order.size() > 1; i++) s.order.erase(s.order.begin() + (long)wl(s.order.size()));
    Quiet q; s.d = new Data; for (size_t o : s.order) { auto p = std::make_shared<Pt>(s.x[o].size()); for (size_t j = 0; j < s.x[o].size(); j++) (*p)[j] = s.x[o][j]; p->Y() = s.y[o]; p->Id() = o + 1; s.d->insertPoint(p, true); }
    return s;
}
static void setup() { enable_fault(F_STALL, wl(3) != 0); enable_fault(F_OVERSLEEP, wl(2)); set_limits(40000000, 2000); static const unsigned hw[] = {4, 2, 1, 6}; hw_concurrency(hw[wl(4)]); }
static void check_matrix(dist::BaseMatrix& M, const Set& s, int metric, bool diag, const char* when) {
    Quiet q; for (size_t a : s.order) for (size_t b : s.order) { if (a == b) continue; size_t i = std::max(a, b), j = std::min(a, b); if (!diag) { i = a; j = b; }
        if (i >= M.size()) violate("matrix-shape", "%s: no row for the point with id %zu", when, i + 1); if (j >= M[i].size()) violate("matrix-shape", "%s: the row of id %zu has no entry for id %zu", when, i + 1, j + 1);
        double got = M[i][j], want = ref(metric, s.x[a], s.x[b]); note_d(got); if (!same(got, want)) violate("matrix-value", "%s: distance between ids %zu and %zu is %.9g, the metric gives %.9g", when, i + 1, j + 1, got, want); }
}
template <class D> static void matrix(const Set& s, int metric, bool diag, size_t threads) {
    phase("computing the matrix"); dist::DistanceMatrix<D>* M = threads ? new dist::DistanceMatrix<D>(*s.d, diag, threads) : new dist::DistanceMatrix<D>(*s.d, diag);
    char w[96]; snprintf(w, sizeof w, "%s matrix, %zu points, %zu threads", diag ? "triangular" : "full", s.order.size(), threads); if (M->isDiagonalMatrix() != diag) violate("matrix-shape", "storage mode is wrong"); check_matrix(*M, s, metric, diag, w); probe(diag ? "C08 triangular matrices" : "C08 full matrices");
}
SCENARIO(C08, matrix, 3) {
    setup(); int n = (int)wl_range(1, wl(12) == 11 ? 36 : 8); bool sh = wl(4) != 0; int drop = wl(3) == 2 ? (int)wl_range(1, 3) : 0; Set s = make(n, (int)wl_range(1, 3), 1 + (int)wl(3), sh, drop); bool diag = wl_bool(); size_t th = wl(7); int m = (int)wl(3); if (sh) probe("C08 ids out of order"); if (drop) probe("C08 subset of a dataset");
    if (m == 0) matrix<dist::Euclidean<double>>(s, 0, diag, th); else if (m == 1) matrix<dist::Manhattan<double>>(s, 1, diag, th); else matrix<dist::Chebyshev<double>>(s, 2, diag, th);
}
SCENARIO(C08, two_matrices, 1) {   // two clients compute matrices of one dataset at once
    setup(); Set s = make((int)wl_range(2, 5), 2, 2, wl_bool(), 0); bool d0 = wl_bool(), d1 = wl_bool(); size_t t0 = (size_t)wl_range(1, 3), t1 = (size_t)wl_range(1, 3); auto* A = new dist::DistanceMatrix<>; auto* B2 = new dist::DistanceMatrix<>; phase("two matrices");
    std::thread t([&] { *A = dist::DistanceMatrix<>(*s.d, d0, t0); }); *B2 = dist::DistanceMatrix<>(*s.d, d1, t1); t.join(); check_matrix(*A, s, 0, d0, "first of two"); check_matrix(*B2, s, 0, d1, "second of two");
}
SCENARIO(C08, knn, 2) {
    setup(); int n = (int)wl_range(3, wl(12) == 11 ? 24 : 8), classes = (int)wl_range(2, 3); if (classes > n) classes = n; Set s = make(n, (int)wl_range(1, 3), classes, wl(3) != 0, 0); size_t k = (size_t)wl_range(1, n); bool diag = wl_bool(); size_t th = (size_t)wl_range(1, 3);
    auto* plain = new mltk::classifier::KNNClassifier<double>(*s.d, k); auto* pre = new mltk::classifier::KNNClassifier<double>(*s.d, k); phase("precomputing"); auto* M = new auto(pre->precomputeDistances(*s.d, diag, th)); check_matrix(*M, s, 0, diag, "precomputed"); pre->setPrecomputedDistances(*M); faults_stop();
    size_t unique_votes = 0;
    for (size_t qi = 0; qi < s.order.size(); qi++) {
        size_t id = s.order[qi]; std::vector<std::pair<double, int>> ds; bool tie = false; { Quiet q; for (size_t o : s.order) ds.push_back({ref(0, s.x[id], s.x[o]), s.y[o]}); std::sort(ds.begin(), ds.end()); for (size_t i = 1; i < ds.size(); i++) if (same(ds[i].first, ds[i - 1].first)) tie = true; }
        if (tie) { probe("C08 tied queries skipped"); continue; }
        phase("evaluating"); Quiet q; auto p = s.d->point((int)qi); double a = plain->evaluate(*p), b = pre->evaluate(*p); if (a != b) violate("knn-precomputed", "k=%zu, query id %zu: %g with %s precomputed distances, %g without", k, id + 1, b, diag ? "triangular" : "full", a);
        std::map<int, int> votes; for (size_t i = 0; i < k; i++) votes[ds[i].second]++; int best = 0, nb = 0, cls = 0; for (auto& v : votes) { if (v.second > best) { best = v.second; nb = 1; cls = v.first; } else if (v.second == best) nb++; }
        if (nb == 1) { unique_votes++; if ((int)a != cls) violate("knn-vote", "k=%zu, query id %zu: predicted %g, the majority of the nearest is %d", k, id + 1, a, cls); }
    }
    probe("C08 queries compared with the reference", unique_votes);
}
