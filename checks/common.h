// Shared by the single-threaded checks: random datasets, result snapshots.
#pragma once
#include "sim.h"
#include "steps.h"
#include "ufjfmltk/core/Data.hpp"
#include <vector>
#include <string>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <sstream>
typedef mltk::Data<double> Data; typedef mltk::Point<double> Pt; typedef std::vector<double> Vec;
struct Cloud { std::vector<Vec> x; std::vector<double> y; size_t dim = 0; };
inline Data* to_data(const Cloud& c, const char* type = "Classification") {
    Data* d = new Data; d->setType(type); for (size_t i = 0; i < c.x.size(); i++) { Pt p(c.x[i].size()); for (size_t j = 0; j < c.x[i].size(); j++) p[j] = c.x[i][j]; p.Y() = c.y[i]; d->insertPoint(p); } return d;
}
inline bool close(double a, double b, double tol = 1e-7) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
inline bool close(const Vec& a, const Vec& b, double tol = 1e-7) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(close(a[i], b[i], tol) || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
inline std::string str(const Vec& v, size_t max = 8) { std::ostringstream o; o.precision(10); o << "["; for (size_t i = 0; i < v.size() && i < max; i++) o << (i ? " " : "") << v[i]; if (v.size() > max) o << " ..."; o << "]"; return o.str(); }
inline void log_cloud(const Cloud& c) { for (size_t i = 0; i < c.x.size(); i++) sim::log("  point %zu: y %g x %s", i, c.y[i], str(c.x[i]).c_str()); }
// labels -1/1, both present. separable: there is a hyperplane with a gap of at least `gap`; otherwise two equal points disagree
inline Cloud binary_cloud(int n, int dim, bool separable, bool imbalance = false) {
    Cloud c; c.dim = (size_t)dim; Vec w((size_t)dim); double nn = 0; do { nn = 0; for (auto& v : w) { v = (double)sim::wl_range(-4, 4); nn += v * v; } if (nn == 0) w[0] = 1, nn = 1; } while (nn == 0); nn = std::sqrt(nn);
    double b = (double)sim::wl_range(-6, 6) / 2.0;
    for (int i = 0; i < n; i++) { Vec x((size_t)dim); for (auto& v : x) v = (double)sim::wl_range(-16, 16) / 2.0; double f = b; for (int j = 0; j < dim; j++) f += w[(size_t)j] * x[(size_t)j] / nn;
        double y = i == 0 ? 1 : i == 1 ? -1 : (imbalance ? (sim::wl(4) == 0 ? 1 : -1) : (f >= 0 ? 1 : -1));
        if (separable && y * f < 0.5) { double add = (0.5 + (double)sim::wl(6) / 2.0) - y * f; for (int j = 0; j < dim; j++) x[(size_t)j] += y * add * w[(size_t)j] / nn; }
        c.x.push_back(x); c.y.push_back(y); }
    if (!separable) { c.x[1] = c.x[0]; c.y[1] = -c.y[0]; }
    for (int i = n - 1; i > 0; i--) { size_t k = sim::wl((sim::u64)i + 1); std::swap(c.x[(size_t)i], c.x[k]); std::swap(c.y[(size_t)i], c.y[k]); }
    return c;
}
