// Trainers with a time budget, behind one face.
#pragma once
#include "common.h"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/regressor/LMS.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
enum Kind { PP, FMP, PD, FMD, BAL, IMAPFM, IMAP, IMAD, LMSP, KM, SMOK, NKIND };
static const char* const kind_names[] = {"PerceptronPrimal", "PerceptronFixedMarginPrimal", "PerceptronDual", "PerceptronFixedMarginDual", "BalancedPerceptron", "IMApFixedMargin", "IMAp", "IMADual", "LMSPrimal", "KMeans", "SMO"};
struct Spec { Kind kind; double rate = 0.5, gamma = 0, q = 2, kparam = 1; int ktype = 0; size_t seed = 1, k = 2; bool kpp = false; long max_it = 0, max_up = 0; double budget = 110; int verbose = 0; };
struct Snap { long steps = 0, ctot = 0; Vec v; bool ok = false; };
struct Trainer {
    Spec s; mltk::Learner<double>* L = nullptr; mltk::classifier::Classifier<double>* C = nullptr; mltk::classifier::DualClassifier<double>* D = nullptr; mltk::regressor::LMSPrimal<double>* R = nullptr; mltk::clusterer::KMeans<double>* K = nullptr; mltk::classifier::BalancedPerceptron<double>* B = nullptr;
    Trainer(const Spec& sp, const Data& d) : s(sp) {
        using namespace mltk::classifier; auto kt = (mltk::KernelType)s.ktype;
        switch (s.kind) {
        case PP: { auto* p = new PerceptronPrimal<double>(d, s.q, s.rate); L = p; C = p; break; }
        case FMP: { auto* p = new PerceptronFixedMarginPrimal<double>(d, s.gamma, s.q, s.rate); L = p; C = p; break; }
        case PD: { auto* p = new PerceptronDual<double>(d, kt, s.kparam, s.rate); L = p; C = p; D = p; break; }
        case FMD: { auto* p = new PerceptronFixedMarginDual<double>(d, kt, s.kparam, s.gamma, s.rate); L = p; C = p; D = p; break; }
        case BAL: { auto* p = new BalancedPerceptron<double>(d, s.seed); p->setLearningRate(s.rate); L = p; C = p; B = p; break; }
        case IMAPFM: { auto* p = new IMApFixedMargin<double>(d, s.gamma); p->setqNorm(s.q); p->setLearningRate(s.rate); L = p; C = p; break; }
        case IMAP: { auto* p = new IMAp<double>(d, (int)s.q); L = p; C = p; break; }
        case IMAD: { auto* p = new IMADual<double>(d, kt, s.kparam, s.rate); L = p; C = p; D = p; break; }
        case LMSP: { auto* p = new mltk::regressor::LMSPrimal<double>(d, s.rate, 0); L = p; R = p; break; }
        case KM: { auto* p = new mltk::clusterer::KMeans<double>(d, s.k, s.kpp ? "kmeanspp" : "random", s.seed, 0); L = p; K = p; break; }
        case SMOK: { auto* p = new SMO<double>(d, kt, s.kparam, 0); L = p; C = p; D = p; break; }
        default: break;
        }
        L->setSeed(s.seed); limits(s.max_it, s.max_up); L->setMaxTime(s.budget); L->setVerbose(s.verbose);
    }
    void limits(long it, long up) { if (it) { L->setMaxIterations((int)it); L->setMaxEpochs((int)it); } if (up) L->setMaxUpdates((int)up); }
    Snap snap(bool ok) {
        Snap r; r.ok = ok; r.steps = L->getSteps(); r.ctot = L->getCtot();
        if (C) { auto sol = C->getSolution(); for (size_t i = 0; i < sol.w.size(); i++) r.v.push_back(sol.w[i]); r.v.push_back(sol.bias); if (D) for (double a : sol.alpha) r.v.push_back(a); }
        else if (R) { auto sol = R->getSolution(); for (size_t i = 0; i < sol.w.size(); i++) r.v.push_back(sol.w[i]); r.v.push_back(sol.bias); }
        else if (K) for (auto& c : K->centers()) for (size_t i = 0; i < c.size(); i++) r.v.push_back(c[i]);
        return r;
    }
};
inline bool same_snap(const Snap& a, const Snap& b) { return a.ok == b.ok && a.steps == b.steps && a.ctot == b.ctot && close(a.v, b.v, 1e-9); }
