// C25 feature selection: real selectors driving learners whose trainings fail, run out of time or throw at chosen points.
// Simulated: training failures, allocation failures, time. Oracle: the history of trainings as the learner saw it
// (which features, success or failure, which weights) and the dataset handed in.
#include "common.h"
#include "ufjfmltk/FeatureSelection.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include <iostream>
#include <stdexcept>
using namespace sim;
namespace {
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(e.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
struct TrainingError : std::runtime_error { TrainingError() : std::runtime_error("training aborted") {} };
struct Call { std::vector<int> names; bool ok = false; Vec w; };
struct Hist { std::vector<Call> calls; size_t n = 0, bound = 0; bool threw = false; double p_fail = 0; i64 ps = 0; } H;
std::string show(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x); return s + "]"; }
template <class L, class F> bool on_train(L* l, mltk::DataPointer<double> d, mltk::Solution& sol, F real) {
    bool top = d->size() == H.n; Call c; c.names = d->getFeaturesNames();
    if (top && H.calls.size() >= H.bound) violate("endless", "training number %zu; the search needs at most %zu", H.calls.size() + 1, H.bound);
    u64 f = fault(F_TRAIN, 4, H.p_fail);   // 1, 2: refuses at once; 3: after training; 4: throws
    if (f == 4) { fault_fired(F_TRAIN); H.threw = true; log("training on %s throws", show(c.names).c_str()); note(99); throw TrainingError(); }
    bool ok = (f == 1 || f == 2) ? false : real(); if (f) { fault_fired(F_TRAIN); ok = false; } c.ok = ok; for (size_t i = 0; i < sol.w.size(); i++) c.w.push_back(sol.w[i]);
    if (top) { log("training on features %s %s, weights %s", show(c.names).c_str(), ok ? "succeeds" : f ? "fails (injected)" : "fails", str(c.w, 12).c_str()); H.calls.push_back(c); note((u64)ok * 1000 + c.names.size()); for (int x : c.names) note((u64)x); }
    return ok;
}
template <class Base> struct Spy : Base { using Base::Base; bool train() override { return on_train(this, this->samples, this->solution, [&] { return Base::train(); }); } };
// a learner that only hands out weights: ties, zeros and either formulation
struct Stub : mltk::classifier::PrimalClassifier<double> {
    bool primal = true; int spread = 9; std::string getFormulationString() override { return primal ? "Primal" : "Dual"; }
    bool train() override { return on_train(this, this->samples, this->solution, [&] { size_t d = this->samples->dim(); this->solution.w.X().assign(d, 0); for (auto& x : this->solution.w.X()) x = (double)wl_range(-spread, spread) / 2; this->solution.bias = 0; return true; }); }
};
struct Row { Vec x; double y; size_t id; };
struct Table { std::vector<Row> r; std::vector<int> f; std::vector<int> cls; std::vector<size_t> cnt; };
Table read(const Data& d) { Table t; for (size_t i = 0; i < d.size(); i++) { auto p = d[i]; t.r.push_back({Vec(p->X().begin(), p->X().end()), p->Y(), p->Id()}); } t.f = d.getFeaturesNames(); t.cls = d.classes(); t.cnt = d.classesDistribution(); return t; }
void untouched(const Table& a, const Data& d) {
    Table b = read(d); if (a.f != b.f) violate("touched", "the caller's dataset has features %s, had %s", show(b.f).c_str(), show(a.f).c_str()); if (a.r.size() != b.r.size()) violate("touched", "the caller's dataset has %zu points, had %zu", b.r.size(), a.r.size());
    for (size_t i = 0; i < a.r.size(); i++) if (a.r[i].x != b.r[i].x || a.r[i].y != b.r[i].y || a.r[i].id != b.r[i].id) violate("touched", "point %zu of the caller's dataset changed: %s, was %s", i, str(b.r[i].x).c_str(), str(a.r[i].x).c_str()); if (a.cls != b.cls || a.cnt != b.cnt) violate("touched", "the classes of the caller's dataset changed");
}
void judge(const Table& in, const Data& out, const std::vector<int>& want) {
    if (out.getFeaturesNames() != want) violate("features", "selected features %s, the last successful training used %s", show(out.getFeaturesNames()).c_str(), show(want).c_str());
    Table o = read(out); if (o.r.size() != in.r.size()) violate("points", "the result has %zu points, the dataset %zu", o.r.size(), in.r.size()); if (out.dim() != want.size()) violate("dim", "dim() of the result is %zu with %zu features", out.dim(), want.size());
    for (size_t i = 0; i < o.r.size(); i++) { Vec x; for (int f : want) x.push_back(in.r[i].x[(size_t)(std::find(in.f.begin(), in.f.end(), f) - in.f.begin())]); if (o.r[i].x != x) violate("values", "point %zu of the result is %s, its features %s are %s in the dataset", i, str(o.r[i].x).c_str(), show(want).c_str(), str(x).c_str()); if (o.r[i].y != in.r[i].y || o.r[i].id != in.r[i].id) violate("identity", "point %zu of the result has label %g and id %zu, in the dataset %g and %zu", i, o.r[i].y, o.r[i].id, in.r[i].y, in.r[i].id); }
    if (o.cls != in.cls || o.cnt != in.cnt) violate("classes", "the result lists other classes or frequencies than the dataset"); if (out.getType() != "Classification") violate("type", "the result is of type %s", out.getType().c_str());
}
// separation score of every feature: 0 where it is undefined (the feature is constant)
std::map<int, double> scores(const Table& t, bool fisher) {
    std::map<int, double> r; for (size_t j = 0; j < t.f.size(); j++) { long double s[2] = {0, 0}, v[2] = {0, 0}; size_t n[2] = {0, 0}; for (auto& p : t.r) { s[p.y != -1] += p.x[j]; n[p.y != -1]++; } for (int k = 0; k < 2; k++) s[k] /= n[k]; for (auto& p : t.r) { int k = p.y != -1; v[k] += (p.x[j] - s[k]) * (p.x[j] - s[k]); } double sd[2], m = fabsl(s[1] - s[0]); for (int k = 0; k < 2; k++) sd[k] = std::sqrt((double)v[k] / ((double)n[k] - 1)); double x = (fisher ? m * m : m) / (sd[0] + sd[1]); r[t.f[j]] = x != x ? 0 : x; } return r;
}
// what was dropped between two trainings must weigh no more than anything kept
void ranked(const std::vector<int>& before, const std::vector<int>& after, std::map<int, double> score, const char* what) {
    for (int b : before) if (!std::count(after.begin(), after.end(), b)) for (int a : after) if (score[b] > score[a] && !close(score[b], score[a], 1e-6)) violate("ranking", "feature %d (%s %.10g) was dropped before feature %d (%s %.10g)", b, what, score[b], a, what, score[a]);
}
typedef mltk::classifier::Classifier<double> Cls;
Cls* learner(bool& stub, bool dual) {
    stub = wl_bool(); Cls* c; if (stub) { auto* s = new Stub; s->primal = !dual || wl_bool(); s->spread = (int)wl_range(1, 9); c = s; log("learner: stub, %s", s->primal ? "primal" : "dual"); }
    else { int k = (int)wl(3); if (!dual && k == 1) k = 0; c = k == 0 ? (Cls*)new Spy<mltk::classifier::IMAp<double>>() : k == 1 ? (Cls*)new Spy<mltk::classifier::IMADual<double>>(mltk::INNER_PRODUCT) : (Cls*)new Spy<mltk::classifier::PerceptronPrimal<double>>(); static const double b[] = {110, 5, 0.5, 0.02}; double t = b[wl(4)]; c->setMaxTime(t); c->setMaxIterations((int)wl_range(3, 200)); c->setMaxEpochs((int)wl_range(3, 60)); log("learner: %s, time budget %g ms", k == 0 ? "IMAp" : k == 1 ? "IMADual" : "Perceptron", t); }
    return c;
}
Data* table(Cloud& c, bool filter) {
    int dim = (int)wl_range(1, 8), n = (int)wl_range(6, 20); c = binary_cloud(n, dim, wl(4) != 3, wl(4) == 3);
    if (filter && wl(4) == 3) { size_t j = wl((u64)dim); double v = (double)wl_range(-4, 4); for (auto& x : c.x) x[j] = v; }          // a constant feature
    if (filter && wl(6) == 5) for (size_t j = 0; j + 1 < (size_t)dim; j++) if (wl_bool()) for (auto& x : c.x) x[j] = 2;
    if (wl(5) == 4 && dim > 1) for (auto& x : c.x) x[1] = x[0]; Data* d = to_data(c);
    if (dim > 2 && wl(3) == 2) { std::vector<int> f; for (int j = 1; j <= dim; j++) if (wl(3) == 2 && (int)f.size() + 2 < dim) f.push_back(j); if (!f.empty()) d->removeFeatures(f); }
    log_cloud(c); log("features %s", show(d->getFeaturesNames()).c_str()); return d;
}
void start() { static const double p[] = {0, 0.04, 0.15, 0.4}; set_limits(60000000, 4e9); H = Hist(); H.p_fail = p[wl(4)]; enable_fault(F_TRAIN, H.p_fail > 0); enable_fault(F_ALLOC, wl(6) == 5); enable_fault(F_STALL, wl(4) == 3); enable_fault(F_CLOCK_STALL, wl(6) == 5); cpu_stalls(0.002); static const i64 ps[] = {0, 1000, 100000, 5000000}; H.ps = ps[wl(4)]; phase("feature selection"); }
template <class S> bool run(S& s, Data& out) {   // false: an injected failure came out as an exception
    H.calls.clear(); H.threw = false; Mute m; FaultScope fs(SC_ALLOC); Cpu cpu(H.ps); try { out = s.selectFeatures(); return true; } catch (const TrainingError&) { return false; } catch (const std::bad_alloc&) { return false; } catch (const std::length_error&) { violate("exception", "std::length_error from selectFeatures"); } catch (const std::exception& e) { violate("exception", "%s from selectFeatures", e.what()); }
}
std::vector<int> expected(const Table& in) { std::vector<int> want = in.f; for (auto& c : H.calls) if (c.ok) want = c.names; return want; }
void trace(const Table& in, bool cv) { (void)cv; for (size_t i = 0; i < H.calls.size(); i++) { auto& a = H.calls[i].names; auto& prev = i ? H.calls[i - 1].names : in.f; for (int f : a) if (!std::count(prev.begin(), prev.end(), f)) violate("trace", "training %zu used feature %d, which the one before had not", i, f); if (i == 0 && a != in.f) violate("trace", "the first training used %s of %s", show(a).c_str(), show(in.f).c_str()); } }
}
SCENARIO(C25, filters, 3) {
    start(); Cloud c; Data* d = table(c, true); Table in = read(*d); H.n = in.r.size(); int dim = (int)in.f.size(), want = (int)wl_range(1, dim); bool stub, fisher = wl_bool(); Cls* L = learner(stub, true);
    auto sc = scores(in, fisher); log("%s, %d of %d features", fisher ? "Fisher" : "Golub", want, dim); bool setter = wl(3) == 2;
    std::unique_ptr<mltk::featselect::FeatureSelection<double>> s; if (fisher) s.reset(new mltk::featselect::Fisher<double>(*d, L, setter ? dim : want)); else s.reset(new mltk::featselect::Golub<double>(*d, L, setter ? dim : want)); if (setter) s->setFinalDimension(want); s->setVerbose((int)wl(3));
    for (int round = 0; round < 2; round++) {
        if (round && wl_bool()) { want = (int)wl_range(1, dim); s->setFinalDimension(want); log("again, %d features", want); } H.bound = (size_t)(dim - want) + 1; Data out; bool ok = run(*s, out); untouched(in, *d); if (!ok) { probe("selection_aborted"); continue; }
        trace(in, false); judge(in, out, expected(in)); bool all = true; for (size_t i = 0; i < H.calls.size(); i++) { all &= H.calls[i].ok || i == 0; ranked(in.f, H.calls[i].names, sc, "score"); }
        if (all && out.dim() != (size_t)want) violate("dim", "every training succeeded, %d features were asked for, %zu were selected", want, (size_t)out.dim()); if ((int)out.dim() < want) violate("dim", "%d features were asked for, %zu were selected", want, (size_t)out.dim()); probe(all ? "all_trainings_succeeded" : "a_training_failed"); if (!stub) probe("real_learner"); if (!round && wl_bool()) break;
    }
}
SCENARIO(C25, elimination, 3) {
    start(); Cloud c; Data* d = table(c, false); Table in = read(*d); H.n = in.r.size(); int dim = (int)in.f.size(); if (dim < 2) return; int want = (int)wl_range(1, dim - 1), jump = (int)wl_range(1, 4); bool stub; Cls* L = learner(stub, true); bool setter = wl(4) == 3, setj = wl(4) == 3;
    log("RFE, %d of %d features, %d at a time", want, dim, jump); mltk::featselect::RFE<double> s(*d, L, setter ? dim : want, nullptr, 1, setj ? 1 : jump); if (setter) { if (wl_bool()) s.setFinalDimension(want); else s.setDepth(dim - want); } if (setj) s.setJump(jump); s.setVerbose((int)wl(3));
    for (int round = 0; round < 2; round++) {
        if (round && wl_bool()) { want = (int)wl_range(1, dim - 1); s.setFinalDimension(want); log("again, %d features", want); } H.bound = (size_t)((dim - want + jump - 1) / jump) + 1; Data out; bool ok = run(s, out); untouched(in, *d); if (!ok) { probe("selection_aborted"); continue; }
        trace(in, false); judge(in, out, expected(in)); bool all = true; for (size_t i = 0; i < H.calls.size(); i++) { auto& k = H.calls[i]; all &= k.ok; if (i) { auto& q = H.calls[i - 1]; std::map<int, double> sc; for (size_t j = 0; j < q.names.size() && j < q.w.size(); j++) sc[q.names[j]] = std::fabs(q.w[j]); ranked(q.names, k.names, sc, "weight"); } }
        if (all && out.dim() != (size_t)want) violate("dim", "every training succeeded, %d features were asked for, %zu were selected", want, (size_t)out.dim()); if ((int)out.dim() < want) violate("dim", "%d features were asked for, %zu were selected", want, (size_t)out.dim()); probe(all ? "all_trainings_succeeded" : "a_training_failed"); if (!stub) probe("real_learner"); if (!round && wl_bool()) break;
    }
}
SCENARIO(C25, elimination_cv, 2) {
    start(); Cloud c; Data* d = table(c, false); Table in = read(*d); H.n = in.r.size(); int dim = (int)in.f.size(); if (dim < 2) return; int want = (int)wl_range(1, dim - 1), jump = (int)wl_range(1, 3); bool stub; Cls* L = learner(stub, false);
    mltk::validation::CrossValidation cv; cv.qtde = 1 + wl(2); cv.fold = 2; cv.jump = (int)wl_range(1, 2); cv.limit_error = (double)wl_range(0, 60); log("RFE with cross-validation, %d of %d features, %d at a time, limit %g", want, dim, jump, cv.limit_error);
    mltk::featselect::RFE<double> s(*d, L, want, &cv, 1, jump); s.setVerbose((int)wl(3));
    for (int round = 0; round < 2; round++) {
        H.bound = (size_t)((dim - want + jump - 1) / jump) + 1; Data out; bool ok = run(s, out); untouched(in, *d); if (!ok) { probe("selection_aborted"); continue; }
        trace(in, true); judge(in, out, expected(in)); if ((int)out.dim() < want) violate("dim", "%d features were asked for, %zu were selected", want, (size_t)out.dim()); if (!stub) probe("real_learner"); if (!round && wl_bool()) break;
    }
}
