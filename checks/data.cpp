// C11 seeded data operations repeat exactly, C13 cross-validation partitions and leaks, C15 oversampling, C22 random subsets.
// Simulated: std::random_device, heap and stack contents, clocks; histories of other random operations come in between.
#include "common.h"
#include "ufjfmltk/core/Datasets.hpp"
#include "ufjfmltk/core/Sampling.hpp"
#include "ufjfmltk/core/Random.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
#include <iostream>
#include <alloca.h>
using namespace sim; using namespace mltk::validation;
namespace {
void fill_stack(unsigned char c) { volatile unsigned char* p = (volatile unsigned char*)alloca(16384); for (int i = 0; i < 16384; i++) p[i] = c; }
void perturb() { static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; unsigned char c = f[wl(4)]; heap_fill(c); fill_stack(c); advance_ns((i64)wl(4) * 700000000LL); }
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(e.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
void snap(Vec& v, const Data& d) { v.push_back((double)d.size()); for (size_t i = 0; i < d.size(); i++) { v.push_back((double)d[i]->Id()); v.push_back(d[i]->Y()); for (double x : d[i]->X()) v.push_back(x); } for (int c : d.classes()) v.push_back(c); for (size_t c : d.classesDistribution()) v.push_back((double)c); for (int i : d.getIndex()) v.push_back(i); }
void snap(Vec& v, const TrainTestPair<double>& p) { snap(v, p.train); snap(v, p.test); v.push_back((double)p.fold); v.push_back((double)p.execution); }
// `nc` classes with drawn sizes; feature 0 identifies the sample
Cloud classes_cloud(int nc, int maxper, int dim, bool binary_labels, int minper = 1) {
    Cloud c; c.dim = (size_t)dim; int uid = 1; if (minper == 1 && wl(12) == 11) maxper *= 2 + (int)wl(12);
    for (int k = 0; k < nc; k++) { int cnt = (int)wl_range(minper, maxper); for (int i = 0; i < cnt; i++) { Vec x{(double)uid++}; for (int j = 1; j < dim; j++) x.push_back((double)wl_range(-8, 8) / 2.0); c.x.push_back(x); c.y.push_back(binary_labels ? (k == 0 ? -1 : 1) : k + 1); } }
    for (size_t i = c.x.size(); i-- > 1;) { size_t k = wl((u64)i + 1); std::swap(c.x[i], c.x[k]); std::swap(c.y[i], c.y[k]); }
    return c;
}
// ---- C11 -------------------------------------------------------------------------------------------------
const char* const ops[] = {"Data::shuffle", "Data::sampling", "Data::splitSample", "kfoldsplit", "kfoldsplit (repeated)", "partTrainTest", "make_spirals", "make_blobs", "make_blobs (given centers)", "make_regression", "RSM", "SMOTE", "BorderlineSMOTEOne", "random_init", "random::init + draws"};
struct Par { int op; bool a, b; size_t k; double r; int n; };
Par draw_par(int op) { Par p; p.op = op; p.a = wl_bool(); p.b = wl_bool(); p.k = 2 + wl(3); p.r = 0.25 * (double)(1 + wl(4)); p.n = (int)wl_range(1, wl(8) == 7 ? 150 : 12); return p; }
Vec perform(const Par& p, const Data& base, size_t seed) {
    Vec v; Data d = base.copy(); size_t n = d.size();
    switch (p.op) {
    case 0: d.shuffle(seed); snap(v, d); break;
    case 1: snap(v, d.sampling(std::max<size_t>(1, (size_t)((double)n * p.r)), p.a, (int)seed)); break;
    case 2: for (auto& f : d.splitSample(p.k, p.a, p.b, seed)) snap(v, f); break;
    case 3: for (auto& f : kfoldsplit(d, p.k, p.a, p.b, seed)) snap(v, f); break;
    case 4: for (auto& f : kfoldsplit(d, p.k, (size_t)2, p.a, p.b, seed)) snap(v, f); break;
    case 5: snap(v, partTrainTest(d, p.k, p.a, p.b, seed)); break;
    case 6: snap(v, mltk::datasets::make_spirals((size_t)p.n * 2, (int)p.k, p.a, p.r, 2, 0.5, seed)); break;
    case 7: { auto b = mltk::datasets::make_blobs((size_t)p.n * 2, (int)p.k, 2, p.r, -5, 5, p.a, p.b, seed); snap(v, b.dataset); for (auto& c : b.centers) for (double x : c.X()) v.push_back(x); break; }
    case 8: { std::vector<size_t> ns{(size_t)p.n}; std::vector<Pt> cs; std::vector<double> sd; for (size_t i = 0; i < p.k; i++) { Pt c(2); c[0] = (double)i; c[1] = 2; cs.push_back(c); sd.push_back(p.r); } auto b = mltk::datasets::make_blobs(ns, cs, sd, 2, p.a, p.b, seed); snap(v, b.dataset); break; }
    case 9: { auto r = mltk::datasets::make_regression((size_t)p.n, 3, 1, p.b ? 0.1 : 0, 0.01, p.k, p.a, seed); snap(v, r.dataset); for (double x : r.coef.X()) v.push_back(x); break; }
    case 10: { mltk::RSM<double> rsm(p.r, 6, seed); for (int i = 0; i < 3; i++) for (size_t f : rsm(d)) v.push_back((double)f); break; }
    case 11: { mltk::SMOTE<> s(p.k, p.r, seed); snap(v, s(d)); break; }
    case 12: { mltk::BorderlineSMOTEOne<> s(p.k, p.r, 2, seed); snap(v, s(d)); break; }
    case 13: { Pt q; mltk::random_init<double>(q, (size_t)p.n, seed); for (double x : q.X()) v.push_back(x); auto q2 = p.a ? mltk::random_init<double>((size_t)p.n, seed) : mltk::random_init<double>(-1.0, 1.0, (size_t)p.n, seed); for (double x : q2.X()) v.push_back(x); v.push_back(q2.Y()); break; }
    case 14: { mltk::random::init((unsigned)seed); for (int i = 0; i < p.n; i++) { v.push_back(mltk::random::intInRange(0, 100)); v.push_back(mltk::random::floatInRange(-1.0, 1.0)); v.push_back(mltk::random::floatInRange<double, std::normal_distribution<double>>(0.0, 1.0)); } break; }
    }
    return v;
}
std::string diff(const Vec& a, const Vec& b) { std::ostringstream o; o.precision(12); if (a.size() != b.size()) { o << a.size() << " values against " << b.size(); return o.str(); } for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) { o << "value " << i << " of " << a.size() << " is " << b[i] << ", was " << a[i]; return o.str(); } return "nothing"; }
bool identical(const Vec& a, const Vec& b) { return diff(a, b) == "nothing"; }
}
SCENARIO(C11, operations, 1) {
    set_limits(400000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); enable_fault(F_WALL_STEP, wl_bool()); set_clock_step(100);
    int op = (int)wl(15); Par p = draw_par(op); static const size_t seeds[] = {1, 2, 3, 42, 1000000007, 2147483647}; size_t seed = wl_bool() ? 1 + wl(60) : seeds[wl(6)];
    int nc = 2 + (int)wl(2); if (wl(10) == 9) nc += (int)wl(6); Cloud c = classes_cloud(nc, 8, 1 + (int)wl(3), wl_bool() && nc == 2); Data* d = to_data(c); char ph[96]; snprintf(ph, sizeof ph, "%s, seed %zu", ops[op], seed); phase(ph); log_cloud(c);
    perturb(); Vec ref; { Cpu cpu(1000); ref = perform(p, *d, seed); } for (double x : ref) note_d(x);
    for (int round = 0, rounds = 1 + (int)wl(3); round < rounds; round++) {
        std::string hist; for (int i = 0, h = (int)wl(4); i < h; i++) { Par q = draw_par((int)wl(15)); size_t s = wl(3) == 0 ? 0 : wl_bool() ? seed : 1 + wl(60); perturb(); snprintf(ph, sizeof ph, "%s, seed %zu (history)", ops[q.op], s); phase(ph); log("in between: %s with seed %zu", ops[q.op], s); hist += std::string(ops[q.op]) + " "; { Cpu cpu(1000); perform(q, *d, s); } }
        perturb(); snprintf(ph, sizeof ph, "%s, seed %zu again", ops[op], seed); phase(ph); Vec got; { Cpu cpu(1000); got = perform(p, *d, seed); }
        if (!identical(ref, got)) violate("not-repeatable", "%s with seed %zu gave another result the second time (after %s): %s", ops[op], seed, hist.empty() ? "nothing else" : hist.c_str(), diff(ref, got).c_str());
    }
    probe("C11 seeded operations repeated");
}
// ---- C13 -------------------------------------------------------------------------------------------------
namespace {
typedef std::multiset<double> Ids;   // feature 0 identifies a sample
Ids uids(const Data& d) { Ids s; for (size_t i = 0; i < d.size(); i++) s.insert((*d[i])[0]); return s; }
void same_samples(const Data& part, const Cloud& c, const char* what) { for (size_t i = 0; i < part.size(); i++) { auto& p = *part[i]; double u = p[0]; size_t k = 0; while (k < c.x.size() && c.x[k][0] != u) k++; Vec x(p.X().begin(), p.X().end()); if (k == c.x.size() || x != c.x[k] || p.Y() != c.y[k]) violate("partition", "%s holds a sample that is not in the dataset: y %g x %s", what, p.Y(), str(x).c_str()); } }
std::map<double, int> per_class(const Data& d) { std::map<double, int> m; for (size_t i = 0; i < d.size(); i++) m[d[i]->Y()]++; return m; }
void unchanged(const Data& d, const Cloud& c, const char* by) { if (d.size() != c.x.size()) violate("original", "%s changed the number of samples of the original dataset", by); for (size_t i = 0; i < d.size(); i++) { Vec x(d[i]->X().begin(), d[i]->X().end()); if (x != c.x[i] || d[i]->Y() != c.y[i] || d[i]->Id() != i + 1) violate("original", "%s changed sample %zu of the original dataset (id %zu, y %g, x %s)", by, i, (size_t)d[i]->Id(), d[i]->Y(), str(x).c_str()); } }
void keeps_ids(const Data& part, const Cloud& c, bool keep, const char* what) { if (!keep) return; for (size_t i = 0; i < part.size(); i++) { size_t id = part[i]->Id(); if (id < 1 || id > c.x.size() || c.x[id - 1][0] != (*part[i])[0]) violate("ids", "%s was told to keep the ids, but sample %g carries id %zu", what, (*part[i])[0], id); } }
void judge_pair(const TrainTestPair<double>& t, const Cloud& c, bool keep, const char* what, size_t parts, bool strat) {
    Ids all; for (auto& x : c.x) all.insert(x[0]); Ids tr = uids(t.train), te = uids(t.test), un = tr; for (double u : te) un.insert(u);
    same_samples(t.train, c, what); same_samples(t.test, c, what); keeps_ids(t.train, c, keep, what); keeps_ids(t.test, c, keep, what);
    for (double u : te) if (tr.count(u)) violate("partition", "%s: sample %g is in the training and in the test part", what, u);
    if (un != all) violate("partition", "%s: training (%zu) and test part (%zu) together are not the %zu samples of the dataset", what, tr.size(), te.size(), all.size());
    size_t n = c.x.size(); std::map<double, int> tot; for (double y : c.y) tot[y]++; size_t lo = n / parts, hi = (n + parts - 1) / parts; if (strat) { lo = hi = 0; for (auto& k : tot) lo += (size_t)k.second / parts, hi += ((size_t)k.second + parts - 1) / parts; }
    if (te.size() < lo || te.size() > hi) violate("balance", "%s: %zu of %zu samples in the test part of one of %zu folds", what, te.size(), n, parts);
    if (strat) { auto pc = per_class(t.test); for (auto& k : tot) if (pc[k.first] < k.second / (int)parts || pc[k.first] > (k.second + (int)parts - 1) / (int)parts) violate("balance", "%s: the test part has %d of the %d samples of class %g, in one of %zu folds", what, pc[k.first], k.second, k.first, parts); }
}
}
SCENARIO(C13, folds, 3) {
    set_limits(20000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); bool wide = wl(8) == 7; int nc = 2 + (int)wl(wide ? 6 : 2); size_t parts = 2 + wl(wide ? 11 : 4); bool strat = wl_bool(), keep = wl_bool();
    Cloud c; do c = classes_cloud(nc, 9, 1 + (int)wl(2), nc == 2 && wl_bool()); while (c.x.size() < parts); Data* d = to_data(c); size_t seed = wl(3) == 0 ? 0 : 1 + wl(100); size_t n = c.x.size();
    if (wl_p(1, 4)) { d->shuffle(1 + wl(50)); Cloud c2; c2.dim = c.dim; for (size_t i = 0; i < n; i++) { auto p = (*d)[i]; c2.x.push_back(Vec(p->X().begin(), p->X().end())); c2.y.push_back(p->Y()); p->Id() = i + 1; } c = c2; }
    log_cloud(c); char ph[128]; int which = (int)wl(4); static const char* const w[] = {"splitSample", "kfoldsplit", "repeated kfoldsplit", "partTrainTest"}; snprintf(ph, sizeof ph, "%s into %zu, %s, %s ids, seed %zu", w[which], parts, strat ? "stratified" : "not stratified", keep ? "keeping" : "renumbering", seed); phase(ph); log("%s", ph);
    Cpu cpu(1000); std::map<double, int> tot; for (double y : c.y) tot[y]++;
    if (which == 0) {
        auto fs = d->splitSample(parts, strat, keep, seed); if (fs.size() != parts) violate("partition", "%s: %zu parts", ph, fs.size()); Ids all, un; for (auto& x : c.x) all.insert(x[0]);
        size_t k = 0; for (auto& f : fs) { same_samples(f, c, ph); keeps_ids(f, c, keep, ph); for (double u : uids(f)) un.insert(u); note(f.size());
            if (strat) { auto pc = per_class(f); for (auto& t : tot) if (pc[t.first] < t.second / (int)parts || pc[t.first] > (t.second + (int)parts - 1) / (int)parts) violate("balance", "%s: part %zu has %d of the %d samples of class %g", ph, k, pc[t.first], t.second, t.first); }
            else if (f.size() < n / parts || f.size() > (n + parts - 1) / parts) violate("balance", "%s: part %zu has %zu of %zu samples", ph, k, f.size(), n); k++; }
        if (un != all) violate("partition", "%s: the parts together hold %zu samples (of %zu), not every sample exactly once", ph, un.size(), n);
    } else if (which == 3) { auto t = partTrainTest(*d, parts, strat, keep, seed); judge_pair(t, c, keep, ph, parts, strat); for (double u : uids(t.test)) note((u64)u); }
    else {
        size_t q = which == 2 ? 1 + wl(3) : 1; auto fs = which == 2 ? kfoldsplit(*d, parts, q, strat, keep, seed) : kfoldsplit(*d, parts, strat, keep, seed); if (fs.size() != parts * q) violate("partition", "%s: %zu folds", ph, fs.size());
        for (size_t e = 0; e < q; e++) { Ids tested, all; for (auto& x : c.x) all.insert(x[0]); for (size_t j = 0; j < parts; j++) { auto& t = fs[e * parts + j]; judge_pair(t, c, keep, ph, parts, strat); for (double u : uids(t.test)) tested.insert(u), note((u64)u); } if (tested != all) violate("partition", "%s: the test parts do not hold every sample exactly once", ph); }
    }
    cpu_stop(); unchanged(*d, c, w[which]); probe("C13 splits judged");
}
namespace {
// what a cross-validation shows to a classifier
struct Log { std::vector<Ids> shown; std::vector<double> asked; std::vector<int> right; std::vector<double> labels; std::vector<Vec> models; std::vector<size_t> at; size_t trainings = 0; };
template <class B> struct Recorder : B { Log* lg; using B::B; bool train() override { lg->trainings++; lg->shown.push_back(uids(*this->samples)); bool ok = B::train(); Vec v; for (double x : this->solution.w.X()) v.push_back(x); v.push_back(this->solution.bias); lg->models.push_back(v); return ok; }
    double evaluate(const Pt& p, bool raw = false) override { lg->asked.push_back(p[0]); lg->at.push_back(lg->trainings); double got = B::evaluate(p, raw); lg->right.push_back(got == p.Y()); lg->labels.push_back(p.Y()); return got; } };
template <class R> struct CvRun { Log lg; ValidationReport rep; };
void judge_cv(const Log& l, const char* what, const char* cls) {
    for (size_t i = 0; i < l.asked.size(); i++) { size_t t = l.at[i]; if (t == 0) violate("leak", "%s: a sample is evaluated before any training", what); if (l.shown[t - 1].count(l.asked[i])) violate(cls, "%s: training %zu saw sample %g, which is then used to test it", what, t, l.asked[i]); }
}
// the report is that of the predictions made
void judge_report(const Log& l, const ValidationReport& v, size_t folds, size_t q, bool repeated, const char* what) {
    if (l.trainings != folds * q + (repeated ? 1 : 0)) violate("partition", "%s: %zu trainings", what, l.trainings);
    std::vector<double> n(l.trainings + 1), bad(l.trainings + 1); size_t tp = 0, tn = 0, fp = 0, fn = 0; std::map<size_t, std::set<double>> tested; for (size_t i = 0; i < l.asked.size(); i++) { if (l.at[i] == 0) return; n[l.at[i]]++; bad[l.at[i]] += !l.right[i]; if (l.at[i] <= folds * q && !tested[(l.at[i] - 1) / folds].insert(l.asked[i]).second) violate("partition", "%s: sample %g is tested twice in one cross-validation", what, l.asked[i]); (l.labels[i] == -1 ? (l.right[i] ? tn : fp) : (l.right[i] ? tp : fn))++; }
    double err = 0; for (size_t t = 1; t <= folds * q; t++) err += 100 * bad[t] / n[t]; err /= (double)(folds * q);
    if (!close(v.error, err, 1e-9)) violate("report", "%s: reports error %g%%, but the predictions made have %g%%", what, v.error, err);
    if (!repeated && (v.truePositive != tp || v.trueNegative != tn || v.falsePositive != fp || v.falseNegative != fn)) violate("report", "%s: reports %zu/%zu/%zu/%zu true positives, true negatives, false positives and false negatives, but %zu/%zu/%zu/%zu were predicted", what, v.truePositive, v.trueNegative, v.falsePositive, v.falseNegative, tp, tn, fp, fn);
    if (!repeated) for (double r : {v.precision, v.recall, v.tnrate}) if (r < 0 || r > 1 + 1e-9) violate("report", "%s: reports a rate of %g", what, r);
}
template <class R> Log cross_validate(const Cloud& c, const std::function<R*(const Data&)>& mk, bool repeated, size_t q, size_t folds, bool strat, size_t seed, int verb, ValidationReport* rep) {
    Log lg; Data* d = to_data(c); R* r = mk(*d); r->lg = &lg; r->setVerbose(0); r->setMaxIterations(200); r->setMaxEpochs(40); r->setMaxTime(1e6); ValidationReport v; { Cpu cpu(1); v = repeated ? kkfold(*d, *r, q, folds, strat, seed, verb) : kfold(*d, *r, folds, strat, seed, verb); } if (rep) *rep = v; unchanged(*d, c, repeated ? "kkfold" : "kfold"); return lg;
}
template <class R> void cv(const char* name, const std::function<R*(const Data&)>& mk, const char* cls) {
    int nc = 2; size_t folds = 2 + wl(3); Cloud c = classes_cloud(nc, 7, 2, true, (int)folds); bool strat = wl(4) != 0, rep = wl_bool(); size_t q = 1 + wl(2), seed = 1 + wl(100); int verb = (int)wl_p(1, 3) * 2;
    char ph[128]; snprintf(ph, sizeof ph, "%s of %s, %zu folds, %s, seed %zu", rep ? "kkfold" : "kfold", name, folds, strat ? "stratified" : "not stratified", seed); phase(ph); log_cloud(c); log("%s", ph);
    ValidationReport v; Log a = cross_validate<R>(c, mk, rep, q, folds, strat, seed, verb, &v); if (cls) judge_cv(a, ph, cls); note((u64)(v.error * 1000)); if (a.asked.size() != c.x.size() * (rep ? q : 1) + 0 && !rep) violate("partition", "%s: %zu of %zu samples were tested", ph, a.asked.size(), c.x.size());
    if (!(v.error >= 0 && v.error <= 100 + 1e-9) || std::fabs(v.accuracy + v.error - 100) > 1e-6) violate("report", "%s: reports error %g and accuracy %g", ph, v.error, v.accuracy);
    judge_report(a, v, folds, rep ? q : 1, rep, ph);
    if (!cls) return probe("C13 cross-validations of dual classifiers judged");
    // change the features of one sample: the models that must not know it may not change
    size_t k = wl(c.x.size()); Cloud c2 = c; c2.x[k][1] += 40 * (wl_bool() ? 1 : -1); Log b = cross_validate<R>(c2, mk, rep, q, folds, strat, seed, 0, nullptr);
    if (a.models.size() != b.models.size() || a.shown != b.shown) violate("leak", "%s: the folds depend on the values of a sample", ph);
    for (size_t t = 0; t < a.models.size(); t++) if (!a.shown[t].count(c.x[k][0]) && !identical(a.models[t], b.models[t])) violate(cls, "%s: model %zu never saw sample %g in its training part and is tested on it, yet depends on it: %s against %s", ph, t + 1, c.x[k][0], str(a.models[t]).c_str(), str(b.models[t]).c_str());
    probe("C13 cross-validations judged");
}
}
SCENARIO(C13, evaluation, 2) {
    set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); using namespace mltk::classifier; int kd = (int)wl(5); mltk::random::init(7);
    switch (kd) {
    case 0: cv<Recorder<PerceptronPrimal<double>>>("PerceptronPrimal", [](const Data& d) { return new Recorder<PerceptronPrimal<double>>(d, 2.0, 0.5); }, "leak"); break;
    case 1: cv<Recorder<PerceptronFixedMarginPrimal<double>>>("PerceptronFixedMarginPrimal", [](const Data& d) { return new Recorder<PerceptronFixedMarginPrimal<double>>(d, 0.05, 2.0, 0.5); }, "leak"); break;
    case 2: cv<Recorder<BalancedPerceptron<double>>>("BalancedPerceptron", [](const Data& d) { return new Recorder<BalancedPerceptron<double>>(d, (size_t)3); }, "leak"); break;
    case 3: cv<Recorder<IMApFixedMargin<double>>>("IMApFixedMargin", [](const Data& d) { return new Recorder<IMApFixedMargin<double>>(d, 0.05); }, "leak"); break;
    case 4: cv<Recorder<IMAp<double>>>("IMAp", [](const Data& d) { return new Recorder<IMAp<double>>(d, 2); }, "leak"); break;
    }
}
namespace { void dual_cv(const char* cls) { using namespace mltk::classifier; cv<Recorder<PerceptronDual<double>>>("PerceptronDual", [](const Data& d) { return new Recorder<PerceptronDual<double>>(d, mltk::INNER_PRODUCT, 0.0, 0.5); }, cls); } }
SCENARIO(C13, dual_evaluation, 1) { set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); dual_cv(nullptr); }
// the recorded finding: kfold trains a dual classifier on test and training part together (only replayed, never searched)
SCENARIO(C13, dual_leak, 0) { set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); dual_cv("leak-dual"); }
// the recorded finding: the members of a voting ensemble keep what they learned on the other folds (only replayed, never searched)
SCENARIO(C13, ensemble_leak, 0) {
    set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); using namespace mltk::classifier; typedef Recorder<PerceptronPrimal<double>> R; size_t folds = 2 + wl(3); Cloud c = classes_cloud(2, 7, 2, true, (int)folds); size_t seed = 1 + wl(100); char ph[128]; snprintf(ph, sizeof ph, "kfold of a VotingClassifier of PerceptronPrimal, %zu folds, seed %zu", folds, seed); phase(ph); log_cloud(c);
    auto run = [&](const Cloud& cl) { Log lg; Data* d = to_data(cl); R base(*d, 2.0, 0.5); base.lg = &lg; base.setVerbose(0); base.setMaxIterations(200); base.setMaxTime(1e6); mltk::ensemble::VotingClassifier<double> v(*d, "hard", base); { Cpu cpu(1); kfold(*d, v, folds, true, seed, 0); } return lg; };
    Log a = run(c); judge_cv(a, ph, "leak-ensemble"); size_t k = wl(c.x.size()); Cloud c2 = c; c2.x[k][1] += 40 * (wl_bool() ? 1 : -1); Log b = run(c2);
    for (size_t t = 0; t < a.models.size(); t++) if (!a.shown[t].count(c.x[k][0]) && !identical(a.models[t], b.models[t])) violate("leak-ensemble", "%s: the member's model %zu never saw sample %g in its training part and is tested on it, yet depends on it: %s against %s", ph, t + 1, c.x[k][0], str(a.models[t]).c_str(), str(b.models[t]).c_str());
}
// ---- C15 -------------------------------------------------------------------------------------------------
namespace {
template <class M> double dist(const Vec& a, const Vec& b) { M m; Pt p(a.size()), q(b.size()); for (size_t i = 0; i < a.size(); i++) p[i] = a[i], q[i] = b[i]; return m(p, q); }
struct Grid { Cloud c; std::vector<double> labels; std::vector<int> cnt; };
// classes of different sizes in any order, on a small grid (ties and copies) or spread out
Grid oversample_cloud(bool binary) {
    Grid g; bool wide = wl(10) == 9; int nc = binary ? 2 : 2 + (int)wl(2); static const double lb[2][3] = {{-1, 1, 7}, {1, 2, 3}}; bool z = binary || (nc == 2 && wl_bool()); for (int i = 0; i < nc; i++) g.labels.push_back(lb[z ? 0 : 1][i]);
    for (int i = 0; i < nc; i++) { int v; do v = (int)wl_range(1, wide ? 45 : 10); while (std::find(g.cnt.begin(), g.cnt.end(), v) != g.cnt.end()); g.cnt.push_back(v); }
    size_t dim = 1 + wl(3); i64 span = wl_bool() ? 3 : 40; bool apart = wl_bool(); g.c.dim = dim;
    for (int k = 0; k < nc; k++) for (int i = 0; i < g.cnt[(size_t)k]; i++) { Vec x; for (size_t j = 0; j < dim; j++) x.push_back((double)wl_range(-span, span) / 2.0 + (apart ? 3.0 * k : 0)); g.c.x.push_back(x); g.c.y.push_back(g.labels[(size_t)k]); }
    if (wl(3) != 0) for (size_t i = g.c.x.size(); i-- > 1;) { size_t k = wl((u64)i + 1); std::swap(g.c.x[i], g.c.x[k]); std::swap(g.c.y[i], g.c.y[k]); }
    return g;
}
void originals_kept(const Data& d, const Cloud& c, const char* what) {
    if (d.size() < c.x.size()) violate("originals", "%s left %zu of %zu samples", what, d.size(), c.x.size());
    for (size_t i = 0; i < c.x.size(); i++) { Vec x(d[i]->X().begin(), d[i]->X().end()); if (x != c.x[i] || d[i]->Y() != c.y[i] || d[i]->Id() != i + 1) violate("originals", "%s changed original sample %zu: id %zu, y %g, x %s", what, i, (size_t)d[i]->Id(), d[i]->Y(), str(x).c_str()); }
    for (size_t i = c.x.size(); i < d.size(); i++) { if (d[i]->size() != c.dim) violate("synthetic", "%s made a sample of %zu features", what, d[i]->size()); for (double v : d[i]->X()) if (!std::isfinite(v)) violate("synthetic", "%s made a sample that is not finite", what); }
    std::map<double, size_t> m; for (size_t i = 0; i < d.size(); i++) m[d[i]->Y()]++; auto cl = d.classes(); auto cd = d.classesDistribution();
    for (size_t i = 0; i < cl.size() && i < cd.size(); i++) if (m[cl[i]] != cd[i]) violate("distribution", "%s: the class distribution says %zu for class %d, there are %zu", what, (size_t)cd[i], cl[i], m[cl[i]]);
}
bool on_segment(const Vec& s, const Vec& z, const Vec& q) {
    size_t b = 0; for (size_t j = 1; j < s.size(); j++) if (std::fabs(q[j] - z[j]) > std::fabs(q[b] - z[b])) b = j; if (q[b] == z[b]) return false; double a = (s[b] - z[b]) / (q[b] - z[b]); if (a < -1e-9 || a > 1 + 1e-9) return false;
    for (size_t j = 0; j < s.size(); j++) if (std::fabs(z[j] + a * (q[j] - z[j]) - s[j]) > 1e-9 * (1 + std::fabs(s[j]) + std::fabs(z[j]))) return false; return true;
}
// pairs (z, q), q among the k nearest of z within `set` (ties included), copies of z left out
template <class M> std::vector<std::pair<Vec, Vec>> neighbour_pairs(const std::vector<Vec>& set, size_t k, size_t& total) {
    std::vector<std::pair<Vec, Vec>> out; for (size_t i = 0; i < set.size(); i++) { std::vector<double> ds; for (size_t j = 0; j < set.size(); j++) { double d = dist<M>(set[i], set[j]); if (d != 0) ds.push_back(d); } std::sort(ds.begin(), ds.end()); size_t n = std::min(k, ds.size()); total += n; if (!n) continue; for (size_t j = 0; j < set.size(); j++) { double d = dist<M>(set[i], set[j]); if (d != 0 && d <= ds[n - 1]) out.push_back({set[i], set[j]}); } }
    return out;
}
template <class M> void smote_check(const char* metric) {
    Grid g = oversample_cloud(false); size_t mi = (size_t)(std::min_element(g.cnt.begin(), g.cnt.end()) - g.cnt.begin()); size_t k = 1 + wl((u64)g.cnt[mi] + 3), seed = wl(3) == 0 ? 0 : 1 + wl(100); double y = g.labels[mi], r = 0.1 * (double)wl(15);
    char ph[128]; snprintf(ph, sizeof ph, "SMOTE (%s) with k %zu, seed %zu", metric, k, seed); phase(ph); log_cloud(g.c); log("%s, minority class %g", ph, y);
    mltk::SMOTE<double, M> smote(k, r, seed); int calls = 1 + (int)wl_p(1, 4); Cloud cur = g.c; Data* d = to_data(cur);
    for (int call = 0; call < calls; call++) {
        std::vector<Vec> mins; for (size_t i = 0; i < cur.x.size(); i++) if (cur.y[i] == y) mins.push_back(cur.x[i]);
        if (call) { std::map<double, int> m; for (double v : cur.y) m[v]++; for (auto& e : m) if (e.second <= (int)mins.size() && e.first != y) return probe("C15 no longer the minority"); }
        Data out; { Cpu cpu(1000); if (wl_bool()) { out = smote(*d); } else { mltk::OverSampling<double, M>& o = smote; out = o(*d); } }
        originals_kept(*d, cur, ph); originals_kept(out, cur, ph); if (out.size() != d->size()) violate("synthetic", "%s returned %zu samples, the dataset has %zu", ph, out.size(), d->size());
        size_t total = 0; auto pairs = neighbour_pairs<M>(mins, k, total); size_t made = d->size() - cur.x.size(); if (made != total) violate("count", "%s: %zu synthetic samples from %zu minority samples, expected %zu", ph, made, mins.size(), total);
        for (size_t i = cur.x.size(); i < d->size(); i++) { Vec s((*d)[i]->X().begin(), (*d)[i]->X().end()); note_d(s[0]); if ((*d)[i]->Y() != y) violate("synthetic", "%s gave a synthetic sample the label %g", ph, (*d)[i]->Y()); bool ok = false; for (auto& p : pairs) if (on_segment(s, p.first, p.second)) { ok = true; break; } if (!ok) violate("synthetic", "%s: synthetic sample %s does not lie between a minority sample and one of its %zu nearest minority neighbours", ph, str(s).c_str(), k); }
        for (size_t i = cur.x.size(); i < d->size(); i++) { cur.x.push_back(Vec((*d)[i]->X().begin(), (*d)[i]->X().end())); cur.y.push_back((*d)[i]->Y()); }
    }
    probe("C15 SMOTE runs judged");
}
template <class M> void borderline_check(const char* metric) {
    Grid g = oversample_cloud(false); size_t ma = (size_t)(std::max_element(g.cnt.begin(), g.cnt.end()) - g.cnt.begin()); size_t k = 1 + wl(5), m = 1 + wl(6), seed = wl(3) == 0 ? 0 : 1 + wl(100); double maj = g.labels[ma];
    char ph[128]; snprintf(ph, sizeof ph, "BorderlineSMOTEOne (%s) with k %zu, m %zu, seed %zu", metric, k, m, seed); phase(ph); log_cloud(g.c); log("%s, majority class %g", ph, maj);
    mltk::BorderlineSMOTEOne<double, M> smote(k, 0.1, m, seed); Data* d = to_data(g.c); Data out; { Cpu cpu(1000); out = smote(*d); } originals_kept(*d, g.c, ph); originals_kept(out, g.c, ph); if (out.size() != d->size()) violate("synthetic", "%s returned %zu samples, the dataset has %zu", ph, out.size(), d->size());
    // which samples may count as borderline: m/2 <= majority neighbours < m, ties broken either way
    std::map<double, std::vector<Vec>> danger, certain; bool tied = false;
    for (size_t i = 0; i < g.c.x.size(); i++) { if (g.c.y[i] == maj) continue; std::vector<std::pair<double, double>> ds; for (size_t j = 0; j < g.c.x.size(); j++) { double e = dist<M>(g.c.x[i], g.c.x[j]); if (e != 0) ds.push_back({e, g.c.y[j]}); } std::sort(ds.begin(), ds.end()); size_t n = std::min(m, ds.size()), sure = 0, ty = 0, tn = 0, ahead = 0; if (n) for (auto& e : ds) { if (e.first < ds[n - 1].first) ahead++, sure += e.second == maj; else if (e.first == ds[n - 1].first) (e.second == maj ? ty : tn)++; }
        size_t need = n - ahead, lo = sure + (need > tn ? need - tn : 0), hi = sure + std::min(need, ty); bool may = false, must = true; for (size_t v = lo; v <= hi; v++) { bool in = v >= m / 2 && v < m; may |= in; must &= in; } if (may) danger[g.c.y[i]].push_back(g.c.x[i]); if (may != must) tied = true; }
    std::map<double, std::vector<Vec>> made; for (size_t i = g.c.x.size(); i < d->size(); i++) made[(*d)[i]->Y()].push_back(Vec((*d)[i]->X().begin(), (*d)[i]->X().end()));
    for (auto& e : made) { if (e.first == maj || !danger.count(e.first)) violate("synthetic", "%s made %zu samples with the label %g", ph, e.second.size(), e.first); size_t total = 0; auto pairs = neighbour_pairs<M>(danger[e.first], tied ? 1000 : k, total); for (auto& s : e.second) { note_d(s[0]); bool ok = false; for (auto& p : pairs) if (on_segment(s, p.first, p.second)) { ok = true; break; } if (!ok) violate("synthetic", "%s: synthetic sample %s (label %g) does not lie between two neighbouring borderline samples of its class", ph, str(s).c_str(), e.first); } if (e.second.size() > k * danger[e.first].size()) violate("count", "%s: %zu synthetic samples from %zu borderline samples", ph, e.second.size(), danger[e.first].size()); }
    if (!tied) for (auto& e : danger) { size_t total = 0; neighbour_pairs<M>(e.second, k, total); if (made[e.first].size() != total) violate("count", "%s: %zu synthetic samples of class %g, expected %zu", ph, made[e.first].size(), e.first, total); }
    probe("C15 BorderlineSMOTE runs judged");
}
}
SCENARIO(C15, smote, 2) { set_limits(20000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); using namespace mltk::metrics::dist; switch (wl(4)) { case 0: case 1: smote_check<Euclidean<double>>("Euclidean"); break; case 2: smote_check<Manhattan<double>>("Manhattan"); break; default: smote_check<Chebyshev<double>>("Chebyshev"); } }
SCENARIO(C15, borderline, 1) { set_limits(20000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); using namespace mltk::metrics::dist; if (wl(3)) borderline_check<Euclidean<double>>("Euclidean"); else borderline_check<Manhattan<double>>("Manhattan"); }
// ---- C22 -------------------------------------------------------------------------------------------------
SCENARIO(C22, sampling, 3) {
    set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); int nc = 1 + (int)wl(3); if (wl(10) == 9) nc += (int)wl(7); Cloud c = classes_cloud(nc, 9, 1 + (int)wl(2), nc == 2 && wl_bool()); Data* d = to_data(c); size_t n = c.x.size(), size = 1 + wl(n); bool rep = wl_bool();
    char ph[128]; snprintf(ph, sizeof ph, "sampling %zu of %zu, %s replacement", size, n, rep ? "with" : "without"); phase(ph); log_cloud(c); log("%s", ph); std::map<double, int> tot; for (double y : c.y) tot[y]++;
    bool cover = wl_p(1, 8); for (auto& t : tot) if (t.second > 9) cover = false; std::set<double> seen; int draws = cover ? 400 : 1 + (int)wl(3); Cpu cpu(1000);
    for (int k = 0; k < draws; k++) {
        int seed = cover ? k + 1 : wl_bool() ? 0 : 1 + (int)wl(1000); Data s = d->sampling(size, rep, seed); same_samples(s, c, ph); std::map<double, int> pc = per_class(s); std::set<double> u; for (double x : uids(s)) { note((u64)x); seen.insert(x); if (!u.insert(x).second && !rep) violate("duplicate", "%s drew sample %g twice", ph, x); }
        for (auto& t : tot) { double want = (double)t.second * (double)size / (double)n; int lo = std::max(1, (int)std::floor(want - 1e-9)), hi = std::max(1, (int)std::ceil(want + 1e-9)); if (pc[t.first] < lo || pc[t.first] > hi) violate("share", "%s drew %d of the %d samples of class %g", ph, pc[t.first], t.second, t.first); }
        unchanged(*d, c, ph);
    }
    // 400 seeds: a sample with a chance of at least 1/9 per draw is missed by all of them with probability < 1e-20
    if (cover) for (auto& x : c.x) if (!seen.count(x[0])) violate("unreachable", "%s never draws sample %g, for none of 400 seeds", ph, x[0]);
    probe("C22 samplings judged");
}
SCENARIO(C22, subspaces, 1) {
    set_limits(20000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); size_t dims = 1 + wl(wl(8) == 7 ? 40 : 8); double r = (double)(1 + wl(8)) / 8.0; size_t seed = wl(50); size_t want = (size_t)std::ceil(r * (double)dims); Cloud c = classes_cloud(2, 4, (int)dims, true); Data* d = to_data(c); char ph[96]; snprintf(ph, sizeof ph, "RSM of %zu dimensions, r %g, seed %zu", dims, r, seed); phase(ph); log("%s", ph);
    mltk::RSM<double> rsm(r, dims, seed); std::set<size_t> seen; bool cover = wl_p(1, 4); int draws = cover ? 400 : 1 + (int)wl(5); for (int k = 0; k < draws; k++) { auto f = rsm(*d); if (f.size() != want) violate("subspace", "%s chose %zu features", ph, f.size()); std::set<size_t> u(f.begin(), f.end()); if (u.size() != f.size()) violate("subspace", "%s chose a feature twice", ph); for (size_t x : f) { note(x); if (x >= dims) violate("subspace", "%s chose feature %zu", ph, x); seen.insert(x); } } if (cover && seen.size() != dims) violate("unreachable", "%s reached only %zu features in 400 draws", ph, seen.size());
    unchanged(*d, c, ph); probe("C22 subspaces judged");
}
SCENARIO(C22, generators, 1) {
    set_limits(60000000, 1e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); perturb(); bool sh = wl_bool(), cls = wl_bool(); size_t seed = wl(3) == 0 ? 0 : 1 + wl(100); int k = 1 + (int)wl(4); size_t n = (size_t)k + wl(20); char ph[128]; int which = (int)wl(3); Data d; Cpu cpu(1000);
    auto numbered = [&](const Data& e) { for (size_t i = 0; i < e.size(); i++) { if (e[i]->Id() != i + 1 && which != 2) violate("shape", "%s: sample %zu carries id %zu", ph, i, (size_t)e[i]->Id()); for (double x : e[i]->X()) { note_d(x); if (!std::isfinite(x)) violate("shape", "%s: not finite", ph); } } };
    if (which == 0) {
        int dims = 1 + (int)wl(3); double sd = 0.25 * (double)(1 + wl(4)); snprintf(ph, sizeof ph, "make_blobs of %zu samples, %d centers, %d dimensions, deviation %g, seed %zu", n, k, dims, sd, seed); phase(ph); auto b = mltk::datasets::make_blobs(n, k, dims, sd, -5, 5, sh, cls, seed); d = b.dataset; numbered(d);
        if (b.centers.size() != (size_t)k) violate("shape", "%s: %zu centers", ph, b.centers.size()); for (auto& q : b.centers) for (double x : q.X()) if (!(x >= -5 && x <= 5)) violate("shape", "%s: center outside the requested range: %g", ph, x);
        std::map<double, size_t> m; for (size_t i = 0; i < d.size(); i++) { auto& p = *d[i]; if (p.size() != (size_t)dims) violate("shape", "%s: a sample of %zu features", ph, p.size()); if (!cls) continue; int c = k == 2 ? (p.Y() == -1 ? 0 : p.Y() == 1 ? 1 : -1) : (int)p.Y() - 1; if (c < 0 || c >= k) violate("shape", "%s: a sample with the label %g", ph, p.Y()); m[c]++; for (int j = 0; j < dims; j++) if (std::fabs(p[(size_t)j] - b.centers[(size_t)c][(size_t)j]) > 8 * sd) violate("shape", "%s: a sample of blob %d lies %g away from its center", ph, c, p[(size_t)j] - b.centers[(size_t)c][(size_t)j]); }
        if (cls) { if (m.size() != (size_t)k) violate("shape", "%s: %zu classes", ph, m.size()); for (auto& e : m) if (e.second != m.begin()->second) violate("shape", "%s: blobs of different sizes", ph); } if (d.size() % (size_t)k || d.size() == 0) violate("shape", "%s: %zu samples", ph, d.size());
    } else if (which == 1) {
        double noise = 0.25 * (double)wl(4), margin = 0.25 * (double)(1 + wl(3)); size_t loops = 1 + wl(3); snprintf(ph, sizeof ph, "make_spirals of %zu samples, %d classes, noise %g, %zu loops, margin %g, seed %zu", n, k, noise, loops, margin, seed); phase(ph); d = mltk::datasets::make_spirals(n, k, sh, noise, loops, margin, seed); numbered(d);
        std::map<double, size_t> m; double rmax = (double)loops * 2 * M_PI * margin * k; for (size_t i = 0; i < d.size(); i++) { auto& p = *d[i]; m[p.Y()]++; if (p.size() != 2) violate("shape", "%s: a sample of %zu features", ph, p.size()); int c = k == 2 ? (p.Y() == -1 ? 0 : p.Y() == 1 ? 1 : -1) : (int)p.Y() - 1; if (c < 0 || c >= k) violate("shape", "%s: a sample with the label %g", ph, p.Y()); double rr = std::hypot(p[0], p[1]); if (rr > rmax + 2 * noise + 1e-9) violate("shape", "%s: a sample at radius %g, the spirals end at %g", ph, rr, rmax);
            if (noise == 0) { double th = rr / (margin * k), want = th + c * 2.0 * M_PI / k; if (std::fabs(rr * std::cos(want) - p[0]) > 1e-6 * (1 + rr) || std::fabs(rr * std::sin(want) - p[1]) > 1e-6 * (1 + rr)) violate("shape", "%s: a sample of spiral %d is not on it", ph, c); } }
        if (m.size() != (size_t)k) violate("shape", "%s: %zu classes", ph, m.size()); for (auto& e : m) if (e.second != n / (size_t)k) violate("shape", "%s: %zu samples of class %g", ph, e.second, e.first);
    } else {
        size_t dims = 1 + wl(4), inf = wl(6); double bias = (double)wl(4), noise = wl_bool() ? 0 : 0.25; snprintf(ph, sizeof ph, "make_regression of %zu samples, %zu dimensions, bias %g, noise %g, %zu informative, seed %zu", n, dims, bias, noise, inf, seed); phase(ph); auto r = mltk::datasets::make_regression(n, dims, bias, noise, 0.01, inf, sh, seed); d = r.dataset; numbered(d); if (d.size() != n || r.coef.size() != dims) violate("shape", "%s: %zu samples, %zu coefficients", ph, d.size(), r.coef.size());
        for (size_t j = 0; j < dims; j++) if ((j < inf) != (r.coef[j] != 0)) violate("shape", "%s: coefficient %zu is %g", ph, j, r.coef[j]); for (size_t i = 0; i < n; i++) { double y = bias; for (size_t j = 0; j < dims; j++) y += (*d[i])[j] * r.coef[j]; if (std::fabs(y - d[i]->Y()) > (noise > 0 ? 8 * noise + 0.02 : 1e-9)) violate("shape", "%s: a target off by %g", ph, y - d[i]->Y()); }
    }
    log("%s", ph); probe("C22 generated datasets judged");
}
