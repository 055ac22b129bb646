// C24 dataset bookkeeping: random histories of operations on a few datasets, compared after every step with a small
// reference model. Simulated: std::random_device, heap contents, clocks. Oracle: the model below, written from the
// documented meaning of each operation.
#include "common.h"
#include <iostream>
using namespace sim;
namespace {
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(e.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
struct MP { Vec x; double y = 0; size_t id = 0; };
bool same(const MP& a, const MP& b) { return a.x == b.x && a.y == b.y && a.id == b.id; }
struct Model { std::vector<MP> p; std::vector<int> f; std::string type = "Classification"; bool cls() const { return type != "Regression" && type != "Clustering"; } };
struct Set { Data* d; Model m; };
std::vector<Set>* W; const char* what = "";
MP read(const Data& d, size_t i) { MP m; auto p = d[i]; m.x = Vec(p->X().begin(), p->X().end()); m.y = p->Y(); m.id = p->Id(); return m; }
std::string show(const MP& m) { char b[64]; snprintf(b, sizeof b, "(id %zu, y %g) ", m.id, m.y); return b + str(m.x); }
std::string show(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x); return s + "]"; }
void compare(const Set& s, size_t k) {
    const Data& d = *s.d; const Model& m = s.m; size_t n = m.p.size();
    if (d.size() != n) violate("points", "%s: dataset %zu holds %zu points, should hold %zu", what, k, d.size(), n);
    if (d.isEmpty() != (n == 0)) violate("empty", "%s: isEmpty() of dataset %zu is %d with %zu points", what, k, (int)d.isEmpty(), n);
    for (size_t i = 0; i < n; i++) { if (!d[i]) violate("points", "%s: point %zu of dataset %zu is null", what, i, k); MP g = read(d, i); if (!same(g, m.p[i])) violate("points", "%s: point %zu of dataset %zu is %s, should be %s", what, i, k, show(g).c_str(), show(m.p[i]).c_str()); }
    if (n && d.dim() != m.p[0].x.size()) violate("dim", "%s: dim() of dataset %zu is %zu", what, k, d.dim());
    auto lab = d.getLabels(); if (lab.size() != n) violate("labels", "%s: getLabels() has %zu entries for %zu points", what, lab.size(), n); for (size_t i = 0; i < n; i++) if (lab[i] != m.p[i].y) violate("labels", "%s: getLabels()[%zu] is %g", what, i, lab[i]);
    if (n) { size_t f = n % m.p[0].x.size(); auto col = d.getFeature((int)f); if (col.size() != n) violate("column", "%s: getFeature has %zu entries for %zu points", what, col.size(), n); for (size_t i = 0; i < n; i++) if (col[i] != m.p[i].x[f]) violate("column", "%s: getFeature(%zu)[%zu] is %g", what, f, i, col[i]); }
    if (n && d.getFeaturesNames() != m.f) violate("feature-names", "%s: the features of dataset %zu are named %s, should be %s", what, k, show(d.getFeaturesNames()).c_str(), show(m.f).c_str());
    if (d.getType() != m.type) violate("type", "%s: dataset %zu is of type %s, should be %s", what, k, d.getType().c_str(), m.type.c_str());
    auto ix = d.getIndex(); std::vector<char> seen(n, 0); if (ix.size() != n) violate("index", "%s: the index of dataset %zu has %zu entries for %zu points", what, k, ix.size(), n); for (int i : ix) { if (i < 0 || (size_t)i >= n || seen[(size_t)i]) violate("index", "%s: the index of dataset %zu is %s", what, k, show(ix).c_str()); seen[(size_t)i] = 1; }
    if (m.cls()) {
        auto cl = d.classes(); auto cd = d.classesDistribution(); auto cn = d.classesNames(); std::map<int, size_t> cnt; for (auto& p : m.p) cnt[(int)p.y]++;
        if (cl.size() != cd.size()) violate("classes", "%s: dataset %zu lists %zu classes and %zu frequencies", what, k, cl.size(), cd.size()); if (cl.size() != cn.size()) violate("classes", "%s: dataset %zu lists %zu classes and %zu class names", what, k, cl.size(), cn.size());
        std::set<int> dup; for (size_t i = 0; i < cl.size(); i++) { if (!dup.insert(cl[i]).second) violate("classes", "%s: dataset %zu lists class %d twice", what, k, cl[i]); size_t want = cnt.count(cl[i]) ? cnt[cl[i]] : 0; if (cd[i] != want) violate("classes", "%s: dataset %zu counts %zu points of class %d, holds %zu", what, k, cd[i], cl[i], want); if (cn[i] != std::to_string(cl[i])) violate("classes", "%s: dataset %zu names class %d \"%s\"", what, k, cl[i], cn[i].c_str()); }
        for (auto& c : cnt) if (!dup.count(c.first)) violate("classes", "%s: dataset %zu holds points of class %d but does not list it", what, k, c.first);
    }
}
void check_all() { for (size_t k = 0; k < W->size(); k++) compare((*W)[k], k); }
int label() { static const int l[] = {1, -1, 2, 10, 9, -10, 3, 0}; return l[wl(wl_bool() ? 3 : 8)]; }
Pt point(const Vec& x, double y, size_t id) { Pt p(x.size()); for (size_t j = 0; j < x.size(); j++) p[j] = x[j]; p.Y() = y; p.Id() = id; return p; }
Vec vals(size_t dim) { Vec x; for (size_t j = 0; j < dim; j++) x.push_back((double)wl_range(-8, 8) / 2.0); return x; }
void adopt(Data* d, Model m) { if (W->size() < 5) W->push_back({d, m}); else { size_t k = wl(5); (*W)[k] = {d, m}; } }
// a derived dataset without a prescribed order or ids: every point is one of the source's, then taken as it is
Model taken(const Data& d, const Model& src, bool ids) {
    Model m = src; m.p.clear(); for (size_t i = 0; i < d.size(); i++) { MP g = read(d, i); bool hit = false; for (auto& q : src.p) if (q.x == g.x && q.y == g.y && (!ids || q.id == g.id)) hit = true; if (!hit) violate("derived", "%s: point %s of the result is not one of the source", what, show(g).c_str()); m.p.push_back(g); } return m;
}
size_t pick() { return wl(W->size()); }
void fresh(int cap) {
    Set s; s.d = new Data; static const char* const types[] = {"Classification", "Regression", "Clustering"}; s.m.type = types[wl(5) == 4 ? 1 + wl(2) : 0]; s.d->setType(s.m.type); int n = (int)wl_range(0, cap); size_t dim = (size_t)wl_range(1, 4);
    for (int i = 0; i < n; i++) { MP q; q.x = vals(dim); q.y = s.m.cls() ? label() : (double)wl_range(-9, 9) / 2; q.id = s.m.p.size() + 1; if (!s.d->insertPoint(point(q.x, q.y, 0))) violate("insert", "a point of the right dimension was refused"); s.m.p.push_back(q); }
    for (size_t j = 0; j < dim; j++) s.m.f.push_back((int)j + 1); if (!n) s.m.f.clear(); if (W->size() < 5) W->push_back(s); else (*W)[wl(5)] = s;
}
std::vector<int> some_features(const Model& m, bool nonempty) { std::vector<int> r; for (int f : m.f) if (wl_bool()) r.push_back(f); if (nonempty && r.empty() && !m.f.empty()) r.push_back(m.f[wl(m.f.size())]); return r; }
void keep_features(Model& m, const std::vector<int>& names) { std::vector<size_t> pos; std::vector<int> f; for (size_t j = 0; j < m.f.size(); j++) if (std::count(names.begin(), names.end(), m.f[j])) { pos.push_back(j); f.push_back(m.f[j]); } for (auto& p : m.p) { Vec x; for (size_t j : pos) x.push_back(p.x[j]); p.x = x; } m.f = f; }
bool sorted_names(const Model& m) { return std::is_sorted(m.f.begin(), m.f.end()); }
void operation() {
    size_t k = pick(); Set& s = (*W)[k]; Data& d = *s.d; Model& m = s.m; size_t n = m.p.size(); bool keep = wl_bool(); static char buf[160];
    auto say = [&](const char* f, auto... a) { snprintf(buf, sizeof buf, f, a...); what = buf; log("dataset %zu: %s", k, buf); };
    switch (wl(22)) {
    case 0: case 1: { // insert a point
        MP q; bool wrong = n && wl(8) == 7; size_t dim = n ? m.p[0].x.size() + (wrong ? 1 : 0) : m.f.empty() ? (size_t)wl_range(1, 4) : m.f.size(); q.x = vals(dim); q.y = m.cls() ? label() : (double)wl_range(-9, 9) / 2; q.id = keep ? (size_t)wl_range(1, 14) : n + 1; say("insertPoint(y %g, dim %zu%s)", q.y, dim, keep ? ", own id" : "");
        bool ok = wl_bool() ? d.insertPoint(point(q.x, q.y, q.id), keep) : d.insertPoint(std::make_shared<Pt>(point(q.x, q.y, q.id)), keep); if (ok == wrong) violate("insert", "%s returned %d", what, (int)ok); if (ok) { if (m.f.empty()) for (size_t j = 0; j < dim; j++) m.f.push_back((int)j + 1); m.p.push_back(q); } break; }
    case 2: { // remove a point
        size_t id = n && wl(4) ? m.p[wl(n)].id : (size_t)wl_range(0, 15); say("removePoint(%zu)", id); if (!n) return; size_t at = 0; while (at < n && m.p[at].id != id) at++; bool ok = d.removePoint((int)id); bool can = at < n && n > 1; if (ok != can) violate("remove", "%s returned %d, the point %s", what, (int)ok, at < n ? "is in the dataset" : "is not in the dataset"); if (can) m.p.erase(m.p.begin() + (long)at); break; }
    case 3: { // remove several points, at least one left
        std::set<int> ids; if (!n) return; for (int i = (int)wl_range(1, 4); i > 0; i--) ids.insert(wl(4) ? (int)m.p[wl(n)].id : (int)wl_range(1, 15)); std::vector<MP> left; for (auto& p : m.p) if (!ids.count((int)p.id)) left.push_back(p); if (left.empty()) return; std::vector<int> v(ids.begin(), ids.end()); say("removePoints(%s)", show(v).c_str()); if (d.removePoints(v).size() != v.size()) violate("remove", "%s: one answer per id expected", what); m.p = left; break; }
    case 4: { // change a label
        if (!n) return; size_t i = wl(n + 1); double y = m.cls() ? label() : (double)wl_range(-9, 9) / 2; say("updatePointValue(%zu, %g)", i, y); bool ok = d.updatePointValue(i, y); if (ok != (i < n)) violate("update", "%s returned %d", what, (int)ok); if (i < n) m.p[i].y = y; break; }
    case 5: { // shuffle
        size_t seed = wl(40); say("shuffle(%zu)", seed); d.shuffle(seed); if (d.size() != n) violate("points", "%s: %zu points left of %zu", what, d.size(), n); std::vector<MP> now; std::vector<char> used(n, 0); for (size_t i = 0; i < n; i++) { MP g = read(d, i); size_t j = 0; while (j < n && (used[j] || !same(m.p[j], g))) j++; if (j == n) violate("points", "%s: point %s appeared or was duplicated", what, show(g).c_str()); used[j] = 1; now.push_back(g); } m.p = now; break; }
    case 6: case 7: { // join
        size_t o = pick(); if (o == k) return; Set& t = (*W)[o]; if (t.m.type != m.type) return; if (n && !t.m.p.empty() && t.m.p[0].x.size() != m.p[0].x.size()) return; say("join(dataset %zu, %zu points)", o, t.m.p.size()); d.join(*t.d); if (!n && !t.m.p.empty()) m.f = t.m.f; for (auto& p : t.m.p) m.p.push_back(p); break; }
    case 8: say("copy()"); adopt(new Data(d.copy()), m); break;
    case 9: { say("copy constructor"); Data* c = new Data(d); if (n && (!(*c == d) || *c != d)) violate("copy", "a copy of dataset %zu does not compare equal to it", k); adopt(c, m); break; }
    case 10: { // remove features, at least one left
        if (m.f.size() < 2 || !n || !sorted_names(m)) return; auto f = some_features(m, false); if (f.size() == m.f.size()) f.pop_back(); std::vector<int> rest; for (int x : m.f) if (!std::count(f.begin(), f.end(), x)) rest.push_back(x); if (wl(3) == 2) f.push_back(-1); if (wl(4) == 3) f.push_back(77); if (!f.empty() && wl(6) == 5) f.push_back(f[0]); say("removeFeatures(%s)", show(f).c_str());
        if (wl_bool()) { if (!d.removeFeatures(f)) violate("features", "%s was refused", what); keep_features(m, rest); } else { Data* c = new Data(d.removeFeatures(f, -1)); Model mm = m; keep_features(mm, rest); adopt(c, mm); } break; }
    case 11: { // reduced copy
        if (!n || !sorted_names(m)) return; auto f = some_features(m, true); say("insertFeatures(%s)", show(f).c_str()); Data* c = new Data(d.insertFeatures(f, keep)); Model mm = m; keep_features(mm, f); if (!keep) for (size_t i = 0; i < mm.p.size(); i++) mm.p[i].id = i + 1; adopt(c, mm); break; }
    case 12: { // reduced copy
        if (!n || !sorted_names(m)) return; auto f = some_features(m, true); say("selectFeatures(%s)", show(f).c_str()); std::vector<size_t> g(f.begin(), f.end()); if (wl_bool()) std::reverse(g.begin(), g.end()); Data* c = new Data(d.selectFeatures(g)); Model mm = m; keep_features(mm, f); adopt(c, mm); break; }
    case 13: { // normalize
        if (!n || m.p[0].x.size() > 6) return; double p = 1 + (double)wl(2); say("normalize(%g)", p); d.normalize(p); for (auto& q : m.p) { double s = 1; for (double x : q.x) s += std::pow(std::fabs(x), p); s = std::pow(s, 1 / p); q.x.push_back(1); }
        if (d.size() != n) violate("points", "%s: %zu points left of %zu", what, d.size(), n); for (size_t i = 0; i < n; i++) { double s = 0; for (double x : m.p[i].x) s += std::pow(std::fabs(x), p); s = std::pow(s, 1 / p); Vec w; for (double x : m.p[i].x) w.push_back(x / s); MP g = read(d, i); if (!close(g.x, w, 1e-9)) violate("points", "%s: point %zu is %s, should be %s", what, i, str(g.x).c_str(), str(w).c_str()); m.p[i].x = g.x; }
        auto f = d.getFeaturesNames(); if (f.size() != m.f.size() + 1 || !std::equal(m.f.begin(), m.f.end(), f.begin()) || std::count(f.begin(), f.end(), f.back()) != 1) violate("feature-names", "%s: the features are named %s, they were %s", what, show(f).c_str(), show(m.f).c_str()); m.f = f; if (!d.isNormalized()) violate("points", "%s: isNormalized() is false", what); break; }
    case 14: { // classes apart
        if (!m.cls() || !n) return; say("splitByClasses(%d)", (int)keep); auto cl = d.classes(); auto v = d.splitByClasses(keep); if (v.size() != cl.size()) violate("derived", "%s: %zu parts for %zu classes", what, v.size(), cl.size()); size_t tot = 0; for (size_t i = 0; i < v.size(); i++) { size_t j = 0; for (auto& p : m.p) if ((int)p.y == cl[i]) { if (j >= v[i].size()) violate("derived", "%s: class %d lost points", what, cl[i]); MP g = read(v[i], j), w = p; if (!keep) w.id = j + 1; if (!same(g, w)) violate("derived", "%s: point %zu of class %d is %s, should be %s", what, j, cl[i], show(g).c_str(), show(w).c_str()); j++; } tot += v[i].size(); } if (tot != n) violate("derived", "%s: %zu points of %zu", what, tot, n);
        size_t i = wl(v.size()); if (v[i].size()) { Data* c = new Data(v[i]); adopt(c, taken(*c, m, keep)); } break; }
    case 15: { // split
        if (!n) return; size_t parts = (size_t)wl_range(1, 4), seed = wl(9); bool strat = wl_bool(); say("splitSample(%zu, %d, %d, seed %zu)", parts, (int)strat, (int)keep, seed); auto v = d.splitSample(parts, strat, keep, seed); size_t tot = 0; for (auto& x : v) tot += x.size(); if (v.size() != parts || tot != n) violate("derived", "%s: %zu parts with %zu of %zu points", what, v.size(), tot, n); Model mm = m; Set x; for (auto& q : v) if (q.size()) { x.d = &q; x.m = taken(q, mm, keep); compare(x, 90); } size_t i = wl(v.size()); if (v[i].size()) { Data* c = new Data(v[i]); adopt(c, taken(*c, mm, keep)); } break; }
    case 16: { // sample
        if (!n || !m.cls()) return; size_t sz = (size_t)wl_range(1, (i64)n), seed = wl(9); bool rep = wl_bool(); say("sampling(%zu, %d, seed %zu)", sz, (int)rep, seed); Data* c = new Data(d.sampling(sz, rep, (int)seed)); Model mm = taken(*c, m, false); if (c->size()) adopt(c, mm); break; }
    case 17: { // points of some classes
        if (!m.cls() || !n) return; auto cl = d.classes(); std::vector<int> some; for (int c : cl) if (wl_bool()) some.push_back(c); if (some.empty()) some.push_back(cl[0]); if (wl_bool()) std::reverse(some.begin(), some.end()); say("classesCopy(%s)", show(some).c_str()); Data* c = new Data; c->classesCopy(d, some); Model mm = m; mm.p.clear(); for (auto& p : m.p) if (std::count(some.begin(), some.end(), (int)p.y)) mm.p.push_back(p); adopt(c, mm); break; }
    case 18: { // a permuted index
        if (!n) return; std::vector<int> ix; for (size_t i = 0; i < n; i++) ix.push_back((int)i); for (size_t i = n; i-- > 1;) std::swap(ix[i], ix[wl(i + 1)]); if (keep) { say("setIndex(%s)", show(ix).c_str()); d.setIndex(ix); } else { say("resetIndex()"); d.resetIndex(); auto g = d.getIndex(); for (size_t i = 0; i < g.size(); i++) if (g[i] != (int)i) violate("index", "%s left %s", what, show(g).c_str()); } break; }
    case 19: say("computeClassesDistribution()"); if (m.cls()) d.computeClassesDistribution(); break;
    case 20: if (wl(4) == 3) { say("clear()"); d.clear(); m.p.clear(); m.f.clear(); } else if (n) { say("apply()"); d.apply([](mltk::PointPointer<double> p) { (*p)[0] += 1; }); for (auto& p : m.p) p.x[0] += 1; } break;
    case 21: fresh(6); what = "a new dataset"; break;
    }
}
}
SCENARIO(C24, histories, 1) {
    set_limits(20000000, 1e9); static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; heap_fill(f[wl(4)]); enable_fault(F_ENTROPY, wl_bool()); Mute mute; W = new std::vector<Set>; W->reserve(8); phase("building datasets"); what = "a new dataset";
    for (int i = (int)wl_range(1, 3); i > 0; i--) fresh(wl(10) == 9 ? 24 : 7); check_all(); phase("operations");
    for (int o = (int)wl_range(1, wl(6) == 5 ? 40 : 12); o > 0; o--) { static char ph[200]; operation(); snprintf(ph, sizeof ph, "after %s", what); phase(ph); check_all(); u64 h = 0; for (auto& s : *W) for (auto& p : s.m.p) h = h * 31 + p.id * 7 + (u64)(i64)(p.y * 2) + p.x.size(); note(h); }
    for (auto& s : *W) if (s.m.p.size() > 3) probe("C24 datasets of four points or more at the end");
}
