// C12 seeded learners, ensembles and evaluations repeat exactly. Simulated: entropy, heap and stack contents, clocks; other random work comes in between.
#include "train.h"
#include "ufjfmltk/core/Datasets.hpp"
#include "ufjfmltk/core/Random.hpp"
#include "ufjfmltk/core/Sampling.hpp"
#include "ufjfmltk/classifier/OneVsAll.hpp"
#include "ufjfmltk/classifier/OneVsOne.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/ensemble/BaggingClassifier.hpp"
#include "ufjfmltk/ensemble/AdaBoostClassifier.hpp"
#include "ufjfmltk/ensemble/PerceptronCommittee.hpp"
#include "ufjfmltk/ensemble/VotingClassifier.hpp"
#include "ufjfmltk/valid/Validation.hpp"
#include <iostream>
#include <alloca.h>
#include <cstdlib>
using namespace sim; using namespace mltk::classifier; using namespace mltk::ensemble;
namespace {
void fill_stack(unsigned char c) { volatile unsigned char* p = (volatile unsigned char*)alloca(16384); for (int i = 0; i < 16384; i++) p[i] = c; }
void perturb() { static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; unsigned char c = f[wl(4)]; heap_fill(c); fill_stack(c); advance_ns((i64)wl(4) * 700000000LL); }
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(e.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
enum { BAGGING = NKIND, BAGGING_KNN, ADABOOST, COMMITTEE, VOTING, ONEVSALL, ONEVSONE, KFOLD, KKFOLD, KFOLD_ENSEMBLE, NLEARN };
const char* const extra[] = {"BaggingClassifier of BalancedPerceptron", "BaggingClassifier of KNN", "AdaBoostClassifier", "PerceptronCommittee", "VotingClassifier", "OneVsAll with SMOTE", "OneVsOne with SMOTE", "kfold", "kkfold", "kfold of a bagging classifier"};
const char* name_of(int k) { return k < NKIND ? kind_names[k] : extra[k - NKIND]; }
struct Job { int kind; Spec s; size_t members; size_t folds, q; bool strat, late_seed; Cloud c, many; std::vector<Vec> queries; };
Job draw_job(int kind) {
    Job j; j.kind = kind; j.s.kind = (Kind)(kind < NKIND ? kind : (int)BAL); j.s.rate = 0.25 * (double)(1 + wl(4)); j.s.gamma = 0.05 * (double)wl(3); j.s.q = 2; j.s.ktype = (int)wl(3); j.s.kparam = 1 + (double)wl(2); j.s.max_it = 3 + (long)wl(20); j.s.max_up = 200; j.s.budget = 1e9; j.s.kpp = wl_bool(); j.s.k = 1 + wl(3); j.s.seed = 1 + wl(60);
    j.members = 1 + wl(4); j.folds = 2 + wl(3); j.q = 1 + wl(2); j.strat = wl(4) != 0; j.late_seed = wl_bool(); int dim = 1 + (int)wl(3); j.c = binary_cloud((int)wl_range(8, wl(12) == 11 ? 60 : 16), dim, kind == COMMITTEE || wl_bool());
    j.many.dim = (size_t)dim; int nc = 2 + (int)wl(wl(8) == 7 ? 6 : 2); for (int k = 0; k < nc; k++) for (int i = 0, m = (int)wl_range(4, 7); i < m; i++) { Vec x; for (int d = 0; d < dim; d++) x.push_back((double)wl_range(-8, 8) / 2.0 + 3 * k); j.many.x.push_back(x); j.many.y.push_back(k + 1); }
    for (int i = 0; i < 6; i++) { Vec x; for (int d = 0; d < dim; d++) x.push_back((double)wl_range(-16, 16) / 2.0); j.queries.push_back(x); }
    if (kind == COMMITTEE) { for (auto* set : {&j.c.x, &j.queries}) for (auto& x : *set) x.push_back(1); j.c.dim++; }   // its members have no limits of their own: give them data they separate through the origin
    return j;
}
void settings(const Job& j, mltk::Learner<double>& l) { l.setMaxTime(1e9); l.setMaxIterations((int)j.s.max_it); l.setMaxEpochs((int)j.s.max_it); l.setMaxUpdates(200); l.setVerbose(0); }
template <class L> void ask(const Job& j, L& l, Vec& v) { auto one = [&](const Vec& x) { Pt p(x.size()); for (size_t i = 0; i < x.size(); i++) p[i] = x[i]; v.push_back(l.evaluate(p, false)); }; for (auto& x : j.c.x) one(x); for (auto& x : j.queries) one(x); }
void report(const mltk::validation::ValidationReport& r, Vec& v) { for (double d : {r.accuracy, r.error, r.precision, r.recall, r.tnrate, (double)r.falsePositive, (double)r.falseNegative, (double)r.trueNegative, (double)r.truePositive}) v.push_back(d); }
Vec perform(const Job& j, size_t seed) {
    Vec v; Data* d = to_data(j.c); BalancedPerceptron<double> bp(*d, 0); settings(j, bp); PerceptronPrimal<double> pp(*d, 2.0, j.s.rate); settings(j, pp);
    if (j.kind < NKIND) { Spec s = j.s; s.seed = seed; if (s.kind == LMSP) for (size_t i = 0; i < d->size(); i++) (*d)[i]->Y() = (double)((int)i % 3); Trainer t(s, *d); Snap r = t.snap(t.L->train()); v = r.v; v.push_back(r.ok); v.push_back((double)r.steps); v.push_back((double)r.ctot); if (t.C) ask(j, *t.C, v); else if (t.K) ask(j, *t.K, v); return v; }
    switch (j.kind) {
    case BAGGING: { BaggingClassifier<double> b(*d, bp, j.members, j.late_seed ? 0 : seed); if (j.late_seed) b.setSeed(seed); v.push_back(b.train()); ask(j, b, v); break; }
    case BAGGING_KNN: { KNNClassifier<double> knn(1); BaggingClassifier<double> b(*d, knn, j.members, j.late_seed ? 0 : seed); if (j.late_seed) b.setSeed(seed); v.push_back(b.train()); ask(j, b, v); break; }
    case ADABOOST: { AdaBoostClassifier<double> b(*d, bp, j.members); b.setSeed(seed); v.push_back(b.train()); ask(j, b, v); break; }
    case COMMITTEE: { PerceptronCommittee<double> b(*d, j.members); settings(j, b); b.setSeed(seed); v.push_back(b.train()); ask(j, b, v); break; }
    case VOTING: { VotingClassifier<double> b(*d, "hard", bp, pp, bp); b.setSeed(seed); v.push_back(b.train()); ask(j, b, v); break; }
    case ONEVSALL: { Data* m = to_data(j.many); mltk::SMOTE<double> sm(2, 0.1, seed); BalancedPerceptron<double> base(*m, seed); settings(j, base); OneVsAll<double> o(*m, base, j.strat ? &sm : nullptr); v.push_back(o.train()); ask(j, o, v); break; }
    case ONEVSONE: { Data* m = to_data(j.many); mltk::SMOTE<double> sm(2, 0.1, seed); BalancedPerceptron<double> base(*m, seed); settings(j, base); OneVsOne<double> o(*m, base, j.strat ? &sm : nullptr); v.push_back(o.train()); ask(j, o, v); break; }
    case KFOLD: report(mltk::validation::kfold(*d, bp, j.folds, j.strat, seed, 0), v); ask(j, bp, v); break;
    case KKFOLD: report(mltk::validation::kkfold(*d, bp, j.q, j.folds, j.strat, seed, 0), v); ask(j, bp, v); break;
    case KFOLD_ENSEMBLE: { BaggingClassifier<double> b(*d, bp, j.members, 0); report(mltk::validation::kfold(*d, b, j.folds, j.strat, seed, 0), v); ask(j, b, v); break; }
    }
    return v;
}
std::string diff(const Vec& a, const Vec& b) { std::ostringstream o; o.precision(12); if (a.size() != b.size()) { o << a.size() << " values against " << b.size(); return o.str(); } for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) { o << "value " << i << " of " << a.size() << " is " << b[i] << ", was " << a[i]; return o.str(); } return ""; }
// random work of other parts of the toolkit, and of the process
void other_work(const Job& j, int kind) {
    switch (kind) {
    case 0: mltk::random::init((unsigned)wl(50)); for (int i = 0; i < 3; i++) mltk::random::intInRange(0, 9); break;
    case 1: mltk::datasets::make_blobs(6, 2, 2, 1.0, -5, 5, true, true, wl(20)); break;
    case 2: srand((unsigned)wl(1000)); for (u64 i = 0; i < wl(5); i++) rand(); break;
    case 3: { Data* d = to_data(j.c); d->shuffle(wl(9)); break; }
    case 4: { Pt p; mltk::random_init<double>(p, 4, wl(9)); break; }
    }
}
}
SCENARIO(C12, learners, 12) {
    set_limits(80000000, 4e9); Mute mute; enable_fault(F_ENTROPY, wl_bool()); enable_fault(F_WALL_STEP, wl_bool()); set_clock_step(100);
    int kind = (int)wl(NLEARN); Job j = draw_job(kind); static const size_t odd[] = {1, 2, 3, 42, 1000000007, 2147483647}; size_t seed = wl_bool() ? 1 + wl(60) : odd[wl(6)]; char ph[128]; snprintf(ph, sizeof ph, "%s, seed %zu", name_of(kind), seed); phase(ph); log_cloud(j.c); log("%s", ph);
    perturb(); Vec ref; { Cpu cpu(100); ref = perform(j, seed); } for (double x : ref) note_d(x);
    for (int round = 0, rounds = 1 + (int)wl(2); round < rounds; round++) {
        for (int i = 0, h = (int)wl(3); i < h; i++) { perturb(); if (wl_bool()) { Job q = draw_job((int)wl(NLEARN)); size_t s = wl(3) == 0 ? 0 : 1 + wl(60); log("in between: %s with seed %zu", name_of(q.kind), s); snprintf(ph, sizeof ph, "%s (history)", name_of(q.kind)); phase(ph); if (q.kind == KM || s) { Cpu cpu(100); perform(q, s ? s : 1); } else { Cpu cpu(100); perform(q, 0); } } else other_work(j, (int)wl(5)); }
        perturb(); snprintf(ph, sizeof ph, "%s, seed %zu again", name_of(kind), seed); phase(ph); Vec got; { Cpu cpu(wl_bool() ? 100 : 20000); got = perform(j, seed); } std::string df = diff(ref, got);
        if (!df.empty()) violate("not-repeatable", "%s with seed %zu gave another model, prediction or report the second time: %s", name_of(kind), seed, df.c_str());
    }
    probe("C12 learners repeated");
}
