// C26 ensembles and multi-class wrappers: members whose trainings fail, run out of time or throw at chosen points.
// Simulated: training failures, allocation failures, time, entropy. Oracle: the history of trainings as the members saw them
// (which points under which labels) and the vote of the members, asked one by one.
#include "common.h"
#include "ufjfmltk/core/Sampling.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/OneVsAll.hpp"
#include "ufjfmltk/classifier/OneVsOne.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
#include "ufjfmltk/ensemble/AdaBoostClassifier.hpp"
#include "ufjfmltk/ensemble/PerceptronCommittee.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
#include <iostream>
#include <stdexcept>
using namespace sim; using namespace mltk::classifier; using namespace mltk::ensemble;
namespace {
typedef mltk::Learner<double> Lrn; typedef std::shared_ptr<Lrn> LP;
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(e.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
struct TrainingError : std::runtime_error { TrainingError() : std::runtime_error("training aborted") {} };
struct Row { Vec x; double y; size_t id; };
struct Table { std::vector<Row> r; std::vector<int> cls; std::vector<size_t> cnt; };
Table read(const Data& d) { Table t; for (size_t i = 0; i < d.size(); i++) { auto p = d[i]; t.r.push_back({Vec(p->X().begin(), p->X().end()), p->Y(), p->Id()}); } t.cls = d.classes(); t.cnt = d.classesDistribution(); return t; }
struct Seen { const void* who; Table t; int outcome; };   // 1 trained, 0 failed, -1 threw
struct Hist { std::vector<Seen> tr; size_t bound = 0; bool threw = false; double p_fail = 0; i64 ps = 0; u64 versions = 0; int junk = 0, odd = 0, spread = 5; } H;
template <class F> bool on_train(Lrn* l, mltk::DataPointer<double> d, F real, u64& how) {
    H.tr.push_back({l, read(*d), -1}); size_t me = H.tr.size() - 1; if (H.tr.size() > H.bound) violate("endless", "training number %zu of a member, %zu are due", H.tr.size(), H.bound);
    how = fault(F_TRAIN, 4, H.p_fail);   // 1: refuses at once; 2: after training; 3: and forgets what it knew; 4: throws
    if (how == 4) { fault_fired(F_TRAIN); H.threw = true; log("training %zu throws", me); note(99); throw TrainingError(); }
    bool ok = how == 1 ? false : real(); if (how) { fault_fired(F_TRAIN); ok = false; } H.tr[me].outcome = ok; log("training %zu on %zu points %s", me, H.tr[me].t.r.size(), ok ? "succeeds" : how ? "fails (injected)" : "fails"); note((u64)ok * 1000 + H.tr[me].t.r.size()); return ok;
}
struct Raw { virtual bool value(const Pt&, double&) { return false; } virtual ~Raw() = default; };
template <class Base> struct Spy : Base, Raw { using Base::Base; Spy() = default; bool train() override { u64 how; return on_train(this, this->samples, [&] { bool ok = Base::train(); if (ok) fits(); return ok; }, how); }
    void fits() { double v; for (size_t i = 0; i < this->samples->size(); i++) { auto& p = *(*this->samples)[i]; if (value(p, v) && v * p.Y() < -1e-9) violate("fit", "the member reports that it separates its points; point %zu (label %g) has the value %g", i, p.Y(), v); } }   // both perceptrons end with a flawless pass
    bool value(const Pt& p, double& v) override { return of(this, p, v); }
    static bool of(PerceptronPrimal<double>* c, const Pt& p, double& v) { auto s = c->getSolution(); if (s.w.size() != p.size()) return false; v = s.bias; for (size_t i = 0; i < p.size(); i++) v += s.w[i] * p[i]; return true; }
    static bool of(PerceptronDual<double>* c, const Pt& p, double& v) { auto s = c->getSolution(); auto d = c->getSamples(); if (!d || s.alpha.size() != d->size() || d->dim() != (int)p.size()) return false; v = s.bias; for (size_t i = 0; i < d->size(); i++) { double k = 0; for (size_t j = 0; j < p.size(); j++) k += (*(*d)[i])[j] * p[j]; v += s.alpha[i] * (*d)[i]->Y() * k; } return true; }
    static bool of(void*, const Pt&, double&) { return false; } };
template <class T> struct SpyPP : Spy<PerceptronPrimal<T>> {}; template <class T> struct SpyBP : Spy<BalancedPerceptron<T>> {}; template <class T> struct SpyIMAp : Spy<IMAp<T>> {}; template <class T> struct SpyPD : Spy<PerceptronDual<T>> { SpyPD() = default; SpyPD(const Data& d) : Spy<PerceptronDual<T>>(d, mltk::INNER_PRODUCT) {} };
template <class T> struct SpyKNN : Spy<KNNClassifier<T>> { SpyKNN(size_t k = 3) : Spy<KNNClassifier<T>>(k) {} };
u64 mix(u64 h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; return h ^ (h >> 33); }
// a member that predicts what the simulator chose for (this training, this point)
template <class T> struct Stub : PrimalClassifier<T> {
    u64 version = 0; std::vector<int> labels; std::string getFormulationString() override { return "Primal"; }
    bool train() override { u64 how; bool r = on_train(this, this->samples, [&] { version = ++H.versions; labels.clear(); for (size_t i = 0; i < this->samples->size(); i++) { int y = (int)(*this->samples)[i]->Y(); if (!std::count(labels.begin(), labels.end(), y)) labels.push_back(y); } return true; }, how); if (how == 3) version = 0; return r; }
    double evaluate(const mltk::Point<T>& p, bool raw = false) override { if (!version || labels.empty()) return raw ? 0 : H.junk; u64 h = version * 0x9e3779b97f4a7c15ULL; for (size_t i = 0; i < p.size(); i++) h = mix(h + (u64)(i64)(p[i] * 1024)); if (raw) return ((double)(h % (u64)(2 * H.spread + 1)) - H.spread) / 2; if (H.odd && (int)(h >> 40) % H.odd == 0) return H.junk; return labels[h % labels.size()]; }
};
template <class F> void with_member(const Data& d, bool binary, F f) {   // f gets a learner to copy
    int k = (int)wl(binary ? 8 : 4); long it = wl_range(2, 60); static const double b[] = {110, 5, 0.5, 0.02}; double t = b[wl(4)]; size_t nn = (size_t)wl_range(1, 7);
    auto set = [&](Lrn& l, const char* n) { l.setMaxTime(t); l.setMaxIterations((int)it); l.setMaxEpochs((int)it); l.setMaxUpdates((int)(it * 8)); l.setVerbose(0); log("members: %s, time budget %g ms", n, t); };
    switch (k) {
    case 3: { SpyKNN<double> s(nn); set(s, "KNN"); log("k %zu", nn); probe("real_members"); f(s); break; }
    case 4: { SpyPP<double> s; set(s, "PerceptronPrimal"); probe("real_members"); f(s); break; }
    case 5: { SpyBP<double> s; set(s, "BalancedPerceptron"); probe("real_members"); f(s); break; }
    case 6: { SpyIMAp<double> s; set(s, "IMAp"); probe("real_members"); f(s); break; }
    case 7: { bool kern = wl_bool(); std::unique_ptr<SpyPD<double>> sp(kern ? new SpyPD<double>(d) : new SpyPD<double>()); SpyPD<double>& s = *sp; set(s, kern ? "PerceptronDual with a kernel" : "PerceptronDual"); probe("real_members"); f(s); break; }
    default: { Stub<double> s; log("members: stubs"); f(s); }
    }
}
// points that differ in their features, so that a member's points can be told apart; K classes with any labels
Cloud cloud(int K, int dim, bool pm) {
    Cloud c; c.dim = (size_t)dim; std::vector<int> lab; if (pm) lab = wl_bool() ? std::vector<int>{-1, 1} : std::vector<int>{1, -1}; else for (int k = 0, v = (int)wl_range(-2, 2); k < K; k++, v += (int)wl_range(1, 3)) lab.push_back(v);
    int n = (int)wl_range(K * 2, K * 2 + 12); std::set<Vec> have; Vec w((size_t)dim); for (auto& v : w) v = (double)wl_range(1, 4);
    for (int i = 0; i < n; i++) { Vec x; do { x.clear(); for (int d = 0; d < dim; d++) x.push_back((double)wl_range(-40, 40) / 4); } while (!have.insert(x).second); size_t cl = i < K ? (size_t)i : wl((u64)K); if (pm && wl(3)) { double s = 0; for (int d = 0; d < dim; d++) s += w[(size_t)d] * x[(size_t)d]; cl = s > 0; } c.x.push_back(x); c.y.push_back(lab[i < K ? (size_t)i : cl]); }
    for (int i = n - 1; i > 0; i--) { size_t k = wl((u64)i + 1); std::swap(c.x[(size_t)i], c.x[k]); std::swap(c.y[(size_t)i], c.y[k]); } log_cloud(c); return c;
}
void untouched(const Table& a, const Data& d) {
    Table b = read(d); if (a.r.size() != b.r.size()) violate("touched", "the caller's dataset has %zu points, had %zu", b.r.size(), a.r.size());
    for (size_t i = 0; i < a.r.size(); i++) if (a.r[i].x != b.r[i].x || a.r[i].y != b.r[i].y || a.r[i].id != b.r[i].id) violate("touched", "point %zu of the caller's dataset changed: %g %s, was %g %s", i, b.r[i].y, str(b.r[i].x).c_str(), a.r[i].y, str(a.r[i].x).c_str()); if (a.cls != b.cls || a.cnt != b.cnt) violate("touched", "the classes of the caller's dataset changed");
}
long find(const Table& t, const Vec& x) { for (size_t i = 0; i < t.r.size(); i++) if (t.r[i].x == x) return (long)i; return -1; }
// the training used every point of the dataset exactly once, under its own label
void whole(const Table& in, const Seen& s, size_t k) { std::vector<int> n(in.r.size()); for (auto& r : s.t.r) { long i = find(in, r.x); if (i < 0) violate("points", "training %zu used a point %s which the dataset has not", k, str(r.x).c_str()); if (r.y != in.r[(size_t)i].y) violate("labels", "training %zu used point %ld under label %g, it has %g", k, i, r.y, in.r[(size_t)i].y); n[(size_t)i]++; } for (size_t i = 0; i < n.size(); i++) if (n[i] != 1) violate("points", "training %zu used point %zu of the dataset %d times", k, i, n[i]); }
void start() { static const double p[] = {0, 0.05, 0.2, 0.5}; set_limits(80000000, 4e9); H = Hist(); H.p_fail = p[wl(4)]; enable_fault(F_TRAIN, H.p_fail > 0); enable_fault(F_ALLOC, wl(6) == 5); enable_fault(F_STALL, wl(4) == 3); enable_fault(F_CLOCK_STALL, wl(6) == 5); enable_fault(F_ENTROPY, wl(4) == 3); cpu_stalls(0.002); static const i64 ps[] = {0, 1000, 100000, 5000000}; H.ps = ps[wl(4)]; static const int junk[] = {0, 77, -9, 1}; H.junk = junk[wl(4)]; H.odd = wl(3) == 2 ? (int)wl_range(2, 6) : 0; H.spread = (int)wl_range(1, 9); phase("ensemble"); }
bool train(Lrn& l, size_t due) {   // false: an injected failure came out as an exception
    H.tr.clear(); H.threw = false; H.bound = due; Mute m; FaultScope fs(SC_ALLOC); Cpu cpu(H.ps); try { l.train(); return true; } catch (const TrainingError&) { } catch (const std::bad_alloc&) { } catch (const std::exception& e) { violate("exception", "%s from train()", e.what()); } return false;
}
double ask(Lrn& l, const Pt& p, bool faults) { Mute m; if (faults) { FaultScope fs(SC_ALLOC); Cpu cpu(H.ps); try { return l.evaluate(p); } catch (const std::bad_alloc&) { probe("evaluation_aborted"); } } Cpu cpu(H.ps); try { return l.evaluate(p); } catch (const std::exception& e) { violate("exception", "%s from evaluate()", e.what()); } }
std::vector<Pt> queries(const Table& t) { std::vector<Pt> q; for (size_t i = 0; i < t.r.size(); i++) { Pt p(t.r[i].x.size()); for (size_t j = 0; j < t.r[i].x.size(); j++) p[j] = t.r[i].x[j]; q.push_back(p); } for (int i = 0; i < 4; i++) { Pt p(t.r[0].x.size()); for (size_t j = 0; j < p.size(); j++) p[j] = (double)wl_range(-60, 60) / 4; q.push_back(p); } return q; }
// sums: the score of every class at a point, or empty when only the range of the prediction is to be judged
template <class F> void judge(Lrn& l, const Table& in, F sums) {
    auto q = queries(in); Vec first; size_t nq = q.size(); std::vector<size_t> ord; for (size_t i = 0; i < nq; i++) ord.push_back(i);
    for (size_t i = 0; i < nq; i++) {
        double g = ask(l, q[i], true); first.push_back(g); note_d(g); size_t pos = (size_t)(std::find(in.cls.begin(), in.cls.end(), g) - in.cls.begin()); if (pos == in.cls.size()) violate("range", "the prediction %g is none of the %zu classes of the dataset", g, in.cls.size());
        Vec s = sums(q[i]); if (s.empty()) continue; double mx = *std::max_element(s.begin(), s.end()); if (s[pos] < mx && !close(s[pos], mx, 1e-8)) { Vec c(in.cls.begin(), in.cls.end()); violate("vote", "the members give classes %s the scores %s at %s, the prediction is %g", str(c).c_str(), str(s).c_str(), str(Vec(q[i].X().begin(), q[i].X().end())).c_str(), g); }
    }
    for (size_t i = nq; i-- > 0;) { double g = ask(l, q[i], false); if (g != first[i]) violate("history", "the prediction at %s was %g and is %g after other evaluations", str(Vec(q[i].X().begin(), q[i].X().end())).c_str(), first[i], g); }
    Data b; for (size_t i = 0; i < in.r.size(); i++) { Pt p = q[i]; p.Y() = in.r[i].y; b.insertPoint(p); } Mute m; auto v = l.batchEvaluate(b); for (size_t i = 0; i < in.r.size(); i++) if (v[i] != first[i]) violate("batch", "batchEvaluate gives point %zu the class %g, evaluate %g", i, (double)v[i], first[i]);
}
size_t at(const Table& t, double c) { return (size_t)(std::find(t.cls.begin(), t.cls.end(), c) - t.cls.begin()); }
double member(Lrn& l, const Pt& p, bool raw = false) { Mute m; return l.evaluate(p, raw); }
template <class E> Vec majority(E& e, const Table& in, const Pt& p, const Vec* w = nullptr) { Vec s(in.cls.size(), 0); size_t i = 0; for (auto& l : e.learners()) { size_t k = at(in, member(*l, p)); if (k < s.size()) s[k] += w ? (*w)[i] : 1; i++; } return s; }
bool pm(const Table& t) { for (auto& r : t.r) if (r.y != 1 && r.y != -1) return false; return true; }
struct Input { Data* d; Table t; int dim, K; bool binary; };
Input input(bool binary, int K, int dim) { Input i; i.binary = binary; i.K = K; i.dim = dim; Cloud c = cloud(K, dim, binary); i.d = to_data(c); i.t = read(*i.d); return i; }
Input input() { bool b = wl_bool(); int dim = (int)wl_range(1, 3); return input(b, b ? 2 : (int)wl_range(1, 5), dim); }
// a later dataset: other points, labels, sizes; classes kept in number when the learner was built for them
Input another(Lrn& l, const Input& o, bool keepK) { Input n = input(o.binary, o.binary ? 2 : keepK ? o.K : (int)wl_range(1, 5), o.dim); log("another dataset"); Mute m; l.setSamples(mltk::make_data<double>(*n.d)); return n; }
}
SCENARIO(C26, voting, 3) {
    start(); Input in = input(); std::unique_ptr<VotingClassifier<double>> v; std::string type = wl_bool() ? "hard" : "soft"; size_t nm = (size_t)wl_range(1, 5);
    with_member(*in.d, in.binary, [&](auto& s) { typedef std::decay_t<decltype(s)> S; switch (wl(3)) { case 0: nm = 1; v.reset(new VotingClassifier<double>(*in.d, type, s)); break; case 1: { S b = s; Stub<double> c; nm = 3; v.reset(new VotingClassifier<double>(*in.d, type, s, b, c)); break; } default: { v.reset(new VotingClassifier<double>(*in.d, type)); std::vector<LP> ls; for (size_t i = 0; i < nm; i++) ls.push_back(std::make_shared<S>(s)); v->setLearners(ls); } } });
    if (v->size() != nm) violate("members", "%zu members, %zu were given", v->size(), nm); Vec w; auto weigh = [&] { w.clear(); for (size_t i = 0; i < nm; i++) w.push_back((double)wl_range(-2, 8) / 2); v->setWeights(w); log("weights %s", str(w).c_str()); }; if (type == "soft" || wl_bool()) weigh(); log("%s voting of %zu", type.c_str(), nm); v->setSeed(wl(5));
    for (int round = 0, ready = 0, nr = 1 + (int)wl(3); round < nr; round++) {
        if (round && wl_bool()) { in = another(*v, in, false); ready = 0; } auto given = v->learners(); bool ok = train(*v, nm); if (v->learners() != given) violate("members", "training replaced members"); untouched(in.t, *in.d); ready |= ok; if (ok) { if (H.tr.size() != nm) violate("trainings", "%zu trainings of %zu members", H.tr.size(), nm); for (size_t i = 0; i < nm; i++) whole(in.t, H.tr[i], i); } else probe("training_aborted");
        if (ready) for (int k = 0, nk = 1 + (int)wl(3); k < nk; k++) {
            if (k && wl_bool()) { type = !w.empty() && wl_bool() ? "soft" : "hard"; v->setVotingType(type); log("now %s", type.c_str()); } if (k && wl(4) == 3) weigh();
            VotingClassifier<double> other; bool copy = wl(4) == 3; if (copy) { if (wl_bool()) other = *v; else { VotingClassifier<double> c(*v); other = c; } log("asking a copy"); probe("copied"); } VotingClassifier<double>& a = copy ? other : *v;
            if (!w.empty()) { auto g = a.getWeights(); for (size_t i = 0; i < nm; i++) if (g.size() != nm || g[i] != w[i]) violate("weights", "the weights set were %s, getWeights() disagrees", str(w).c_str()); }
            judge(a, in.t, [&](const Pt& p) { return majority(a, in.t, p, type == "soft" ? &w : nullptr); }); probe(type == "soft" ? "soft" : "hard");
        }
    }
}
SCENARIO(C26, bagging, 3) {
    start(); Input in = input(); size_t nm = (size_t)wl_range(1, 6), seed = wl(4); std::unique_ptr<BaggingClassifier<double>> b; bool late = wl_bool(); with_member(*in.d, in.binary, [&](auto& s) { b.reset(new BaggingClassifier<double>(*in.d, s, nm, late ? 0 : seed)); }); if (late) b->setSeed(seed); log("bagging of %zu, seed %zu", nm, seed);
    for (int round = 0, ready = 0, nr = 1 + (int)wl(3); round < nr; round++) {
        if (round && wl_bool()) { in = another(*b, in, false); ready = 0; } bool ok = train(*b, nm); untouched(in.t, *in.d); ready |= ok; if (ok) { if (H.tr.size() != nm) violate("trainings", "%zu trainings of %zu members", H.tr.size(), nm); for (size_t k = 0; k < nm; k++) { if (H.tr[k].t.r.empty()) violate("points", "training %zu got no points", k); for (auto& r : H.tr[k].t.r) { long i = find(in.t, r.x); if (i < 0) violate("points", "training %zu used a point %s which the dataset has not", k, str(r.x).c_str()); if (r.y != in.t.r[(size_t)i].y) violate("labels", "training %zu used point %ld under label %g, it has %g", k, i, r.y, in.t.r[(size_t)i].y); } } } else probe("training_aborted");
        if (ready) judge(*b, in.t, [&](const Pt& p) { return majority(*b, in.t, p); });
    }
}
SCENARIO(C26, boosting, 3) {
    start(); Input in = input(); size_t nm = (size_t)wl_range(1, 6); std::unique_ptr<AdaBoostClassifier<double>> b; with_member(*in.d, in.binary, [&](auto& s) { b.reset(new AdaBoostClassifier<double>(*in.d, s, nm)); }); b->setSeed(wl(5)); log("boosting of %zu", nm);
    for (int round = 0, ready = 0, nr = 1 + (int)wl(3); round < nr; round++) {
        if (round && wl_bool()) { in = another(*b, in, false); ready = 0; } bool ok = train(*b, nm); untouched(in.t, *in.d); ready |= ok; Vec alpha; bool sure = ok; if (!ok) probe("training_aborted");
        if (ok) {
            if (H.tr.size() != nm) violate("trainings", "%zu trainings of %zu members", H.tr.size(), nm); for (size_t i = 0; i < nm; i++) whole(in.t, H.tr[i], i); size_t n = in.t.r.size(); double K = (double)in.t.cls.size(); Vec w(n, 1.0 / (double)n); auto q = queries(in.t);
            for (auto& l : b->learners()) { double e = 0, z = 0; std::vector<bool> bad(n); for (size_t i = 0; i < n; i++) { bad[i] = member(*l, q[i]) != in.t.r[i].y; z += w[i]; if (bad[i]) e += w[i]; } e /= z; if ((e > 0 && e < 1e-9) || (e < 1 && e > 1 - 1e-9)) sure = false; size_t nb = (size_t)std::count(bad.begin(), bad.end(), true); double a = nb == n ? 0 : nb ? std::log((1 - e) / e) + std::log(K - 1) : 1 + std::log(K - 1); alpha.push_back(a); double s = 0; for (size_t i = 0; i < n; i++) s += w[i] = bad[i] ? w[i] * std::exp(a) : w[i]; for (auto& x : w) x /= s; if (nb == n) probe("member_always_wrong"); }
            log("weights of the members %s", str(alpha).c_str()); if (K < 2) sure = false;
        }
        if (ready) judge(*b, in.t, [&](const Pt& p) { return sure ? majority(*b, in.t, p, &alpha) : Vec(); }); if (sure) probe("vote_judged");
    }
}
SCENARIO(C26, committee, 1) {
    start(); H.p_fail = 0; enable_fault(F_TRAIN, false); Input in = input(true, 2, (int)wl_range(1, 3)); if (H.ps < 100000) H.ps = 100000; size_t nm = (size_t)wl_range(1, 4); PerceptronCommittee<double> b(*in.d, nm); b.setSeed(wl(5)); log("committee of %zu", nm);
    for (int round = 0, ready = 0, nr = 1 + (int)wl(2); round < nr; round++) { if (round && wl_bool()) { in = another(b, in, false); ready = 0; } bool ok = train(b, nm); untouched(in.t, *in.d); ready |= ok; if (ok && b.size() != nm) violate("members", "%zu members of %zu", b.size(), nm); if (!ok) { probe("training_aborted"); continue; } judge(b, in.t, [&](const Pt& p) { return majority(b, in.t, p); }); }
}
namespace {
// the training used exactly the points of the given classes, one of them (returned) as 1 and the others as -1; oversampling may add points
long relabelled(const Table& in, const Seen& s, size_t k, bool extra, std::vector<size_t>* others) {
    std::vector<int> n(in.r.size()); std::vector<double> as(in.cls.size(), 0); for (auto& r : s.t.r) { if (r.y != 1 && r.y != -1) violate("labels", "training %zu has a point labelled %g, not 1 or -1", k, r.y); long i = find(in, r.x); if (i < 0) { if (!extra) violate("points", "training %zu used a point %s which the dataset has not", k, str(r.x).c_str()); continue; } size_t c = at(in, in.r[(size_t)i].y); if (as[c] && as[c] != r.y && !extra) violate("labels", "training %zu has class %d both as 1 and as -1", k, in.cls[c]); if (!as[c] || !n[(size_t)i]) as[c] = r.y; n[(size_t)i]++; }
    long pos = -1; for (size_t c = 0; c < as.size(); c++) { if (as[c] == 1) { if (pos >= 0) violate("labels", "training %zu has classes %d and %d as 1", k, in.cls[(size_t)pos], in.cls[c]); pos = (long)c; } if (as[c] == -1 && others) others->push_back(c); if (as[c]) for (size_t i = 0; i < n.size(); i++) if (at(in, in.r[i].y) == c && (n[i] < 1 || (n[i] > 1 && !extra))) violate("points", "training %zu used point %zu of class %d %d times", k, i, in.cls[c], n[i]); }
    if (pos < 0) violate("labels", "training %zu has no class as 1", k); return pos;
}
}
SCENARIO(C26, one_vs_all, 3) {
    start(); Input in = input(); in.binary = false; std::unique_ptr<OneVsAll<double>> o; int K = in.K; bool over = K > 1 && wl(4) == 3; mltk::SMOTE<double> sm(2, 0.1, 1 + wl(9)); with_member(*in.d, true, [&](auto& s) { o.reset(new OneVsAll<double>(*in.d, s, over ? &sm : nullptr)); }); log("one versus all, %d classes%s", K, over ? ", SMOTE" : ""); std::map<size_t, const void*> who;
    for (int round = 0, ready = 0, nr = 1 + (int)wl(3); round < nr; round++) {
        if (round && wl_bool()) { in = another(*o, in, true); who.clear(); ready = 0; } bool ok = train(*o, (size_t)K); untouched(in.t, *in.d); ready |= ok; if (ok && H.tr.size() != (size_t)K) violate("trainings", "%zu trainings for %d classes", H.tr.size(), K); if (!ok) probe("training_aborted"); std::map<size_t, const void*> now;
        for (size_t k = 0; k < H.tr.size(); k++) { std::vector<size_t> rest; long c = relabelled(in.t, H.tr[k], k, over, &rest); if (rest.size() + 1 != (size_t)K) violate("points", "training %zu has %zu classes of %d", k, rest.size() + 1, K); if (now.count((size_t)c)) violate("trainings", "class %d was trained against the rest twice", in.t.cls[(size_t)c]); now[(size_t)c] = H.tr[k].who; } for (auto& x : now) who[x.first] = x.second; bool sure = who.size() == (size_t)K; std::set<const void*> d; for (auto& x : who) d.insert(x.second); if (d.size() != who.size()) { if (ok) violate("trainings", "one member was trained for two classes"); sure = false; }
        if (ready) judge(*o, in.t, [&](const Pt& p) { Vec s; if (!sure) return s; for (int c = 0; c < K; c++) { Lrn* l = (Lrn*)who[(size_t)c]; double v = member(*l, p, true), x; if (auto* r = dynamic_cast<Raw*>(l)) if (r->value(p, x)) { if (!close(v, x, 1e-9)) violate("value", "the decision value at %s is %g, evaluate(p, true) of the member gives %g", str(Vec(p.X().begin(), p.X().end())).c_str(), x, v); probe("decision_value"); } s.push_back(v); } return s; }); if (sure) probe("vote_judged");
    }
}
SCENARIO(C26, one_vs_one, 3) {
    start(); Input in = input(); in.binary = false; int K = in.K; if (K > 4) return; std::unique_ptr<OneVsOne<double>> o; bool over = K > 1 && wl(4) == 3; mltk::SMOTE<double> sm(2, 0.1, 1 + wl(9)); with_member(*in.d, true, [&](auto& s) { if (wl(4) == 3) { s.setSamples(*in.d); o.reset(new OneVsOne<double>(s, over ? &sm : nullptr)); } else o.reset(new OneVsOne<double>(*in.d, s, over ? &sm : nullptr)); }); log("one versus one, %d classes%s", K, over ? ", SMOTE" : ""); typedef std::pair<size_t, size_t> Pair; std::map<Pair, const void*> who; size_t due = (size_t)(K * (K - 1));
    for (int round = 0, ready = 0, nr = 1 + (int)wl(3); round < nr; round++) {
        if (round && wl_bool()) { in = another(*o, in, true); who.clear(); ready = 0; } bool ok = train(*o, due); untouched(in.t, *in.d); ready |= ok; if (ok && H.tr.size() != due) violate("trainings", "%zu trainings for %zu pairs", H.tr.size(), due); if (!ok) probe("training_aborted"); std::map<Pair, const void*> now;
        for (size_t k = 0; k < H.tr.size(); k++) { std::vector<size_t> rest; long c = relabelled(in.t, H.tr[k], k, over, &rest); if (rest.size() != 1) violate("points", "training %zu has %zu classes, not 2", k, rest.size() + 1); Pair pr((size_t)c, rest[0]); if (now.count(pr)) violate("trainings", "classes %d and %d were trained against each other twice", in.t.cls[pr.first], in.t.cls[pr.second]); now[pr] = H.tr[k].who; } for (auto& x : now) who[x.first] = x.second; bool sure = who.size() == due; std::set<const void*> d; for (auto& x : who) d.insert(x.second); if (d.size() != who.size()) { if (ok) violate("trainings", "one member was trained for two pairs"); sure = false; }
        if (ready) judge(*o, in.t, [&](const Pt& p) { Vec s; if (!sure) return s; s.assign((size_t)K, 0); for (auto& x : who) s[member(*(Lrn*)x.second, p) == 1 ? x.first.first : x.first.second]++; return s; }); if (sure) probe("vote_judged");
    }
}
