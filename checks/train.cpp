// C09 time budgets, C20 success claims: real trainers on a simulated CPU and clock.
#include "train.h"
using namespace sim;
static Spec draw_spec(Kind k) {
    Spec s; s.kind = k; static const double rates[] = {0.5, 1, 0.25, 0.1}; s.rate = rates[wl(4)]; s.seed = 1 + wl(50);
    static const double qs[] = {2, 1, 3}; s.q = k == IMAP ? 2 : qs[wl_p(1, 3) ? wl(3) : 0];
    if (k == FMP || k == FMD || k == IMAPFM) { static const double g[] = {0, 0.05, 0.25}; s.gamma = g[wl(3)]; }
    if (k == PD || k == FMD || k == IMAD || k == SMOK) { s.ktype = (int)wl(3); static const double gp[] = {0.5, 1, 2}; s.kparam = s.ktype == 2 ? gp[wl(3)] : s.ktype == 1 ? 2 : 0; }
    if (k == LMSP) s.rate = s.rate * 0.001;
    s.k = 2 + wl(2); s.kpp = wl_bool();
    return s;
}
static void mutate_fill() { static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; heap_fill(f[wl(4)]); }
// number of blocks a run with one pass takes, clock frozen (same data, same parameters)
static u64 calibrate(const Spec& s, const Data& d) {
    Spec c = s; c.max_it = 1; c.budget = s.kind == KM ? 0 : 1000000; set_clock_step(0); auto t = new Trainer(c, d.copy()); u64 b0 = cpu_blocks(); { Cpu cpu(0); if (s.kind == KM) set_clock_step(2000000); t->L->train(); } set_clock_step(100); return cpu_blocks() - b0;
}
// number of blocks a run limited to j passes takes, clock frozen (budget 0: set-up and finish only)
static u64 blocks_of_passes(Spec c, const Data& d, long j, u64* after_first_read = nullptr) { c.max_it = j ? j : 1; c.budget = j ? 1e9 : 0; set_clock_step(j ? 0 : 2000000); auto t = new Trainer(c, d.copy()); u64 b0 = cpu_blocks(), at = 0; if (after_first_read) cpu_deadline(now_ns() + 1); { Cpu cpu(0); t->L->train(); } set_clock_step(100); if (after_first_read) { *after_first_read = cpu_deadline_hit(&at) ? cpu_blocks() - at : cpu_blocks() - b0; cpu_deadline(INT64_MAX); } return cpu_blocks() - b0; }
static bool counts_passes(Kind k) { return k == PP || k == FMP || k == PD || k == FMD || k == BAL || k == IMAPFM || k == LMSP; }
static i64 g_t_setup;
// trainers whose train() tells whether it converged
static bool C09_converges(Kind k) { return k != LMSP && k != KM; }
SCENARIO(C09, budget, 7) {
    set_limits(60000000, 1e9); mutate_fill();
    static const Kind kinds[] = {PP, FMP, PD, FMD, BAL, IMAPFM, IMAP, IMAD, LMSP, KM}; Kind k = kinds[wl(10)]; Spec s = draw_spec(k);
    int n = (int)(wl(4) == 0 ? wl_range(30, 80) : wl_range(2, 10)), dim = (int)wl_range(1, 4); bool sep = wl_bool(); Cloud c = binary_cloud(n, dim, sep); if (k == LMSP) for (auto& y : c.y) y = (double)wl_range(-9, 9);
    if ((int)s.k > n) s.k = 2; Data* d = to_data(c, k == KM ? "Clustering" : k == LMSP ? "Regression" : "Classification");
    static const double budgets[] = {20, 0, 1, 2, 5, 110, 1000, 60000, 300, 5000}; s.budget = budgets[wl(10)]; bool limited = wl_bool(); if (limited) { if (k == IMAP || k == IMAD || k == LMSP || wl_bool()) s.max_it = (long)wl_range(1, 120); if (s.max_it == 0 || wl_bool()) s.max_up = (long)wl_range(1, 300); }
    char ph[96]; snprintf(ph, sizeof ph, "calibrating %s", kind_names[k]); phase(ph);
    u64 U = calibrate(s, *d), F = U, fin = U, lop = 0;
    if (counts_passes(k)) { // F: no less than what set-up and finishing cost (an expired budget's run, unless the clock is read too late)
        u64 b1 = blocks_of_passes(s, *d, 1), b2 = blocks_of_passes(s, *d, 2), b3 = blocks_of_passes(s, *d, 3); lop = std::min(b2 - b1, b3 - b2) / 2; F = std::min(blocks_of_passes(s, *d, 0, &fin), b1 - std::min(b1, lop)); fin = std::min(fin, F); }
    // how many blocks the budget buys: from well under one pass to several hundred passes
    static const double mult[] = {10, 0.3, 1.5, 3, 40, 200, 0.8, 2.2, 5, 15}; double blocks = (double)U * mult[wl(10)]; if (blocks > 3e6) blocks = 3e6; double bud = s.budget > 0 ? s.budget : 1; i64 ps = (i64)(bud * 1e9 / blocks); if (ps < 1) ps = 1; static const i64 cs[] = {100, 0, 30000, 1000}; set_clock_step(cs[wl(4)]);
    auto t = new Trainer(s, d->copy()); bool again = wl_p(1, 4);
    Snap ref; bool have_ref = false;
    if (limited || k == KM || (k == LMSP && sep)) { // the same training with time standing still
        Spec r = s; r.budget = 1e9; if (k == LMSP && !limited) r.max_it = 0; phase("reference run with a frozen clock"); i64 st = 0; set_clock_step(st); auto rt = new Trainer(r, d->copy()); u64 b0 = cpu_blocks(); bool ok; if (k == LMSP && !limited) { rt->limits(20000, 0); } { Cpu cpu(0); ok = rt->L->train(); } ref = rt->snap(ok); have_ref = !(k == LMSP && !limited && ref.steps >= 20000) && cpu_blocks() - b0 < 8000000; set_clock_step(cs[1] + 100);
    }
    if (again) advance_ns((i64)wl(5) * 700000000LL);   // the trainer is built long before it is trained
    enable_fault(F_CLOCK_STALL, wl(3) == 2); enable_fault(F_WALL_STEP, wl_bool()); enable_fault(F_STALL, wl_bool()); cpu_stalls(0.3 / (blocks / 64 + 1));
    i64 budget_ns = (i64)(s.budget * 1e6);
    snprintf(ph, sizeof ph, "training %s, budget %g ms", kind_names[k], s.budget); phase(ph); log("%d points, dim %d, %s, limits it=%ld up=%ld, one pass is at most %llu blocks, %lld ps per block", n, dim, sep ? "separable" : "inseparable", s.max_it, s.max_up, (unsigned long long)U, (long long)ps);
    i64 t0 = now_ns(); u64 b0 = cpu_blocks(); cpu_deadline(INT64_MAX); static i64 bn; static bool nested; nested = k == IMAP || k == IMAD; bn = budget_ns + (nested ? 2000000 : 1000000); // the timer counts whole milliseconds, twice in the nested trainers
    cpu_after(F, [] { g_t_setup = now_ns(); cpu_deadline(now_ns() - (nested ? stalled_ns() : 0) + bn, nested); });
    bool ok; { Cpu cpu(ps); ok = t->L->train(); } faults_stop();
    i64 el = now_ns() - t0; u64 used = cpu_blocks() - b0; u64 at = 0; bool hit = cpu_deadline_hit(&at); cpu_deadline(INT64_MAX);
    Snap got = t->snap(ok); note((u64)got.steps); note((u64)got.ctot); for (double x : got.v) note_d(x);
    u64 slack = nested ? 3 * U + 60 * (u64)n * (u64)(n + dim) + 4000 : 2 * U + 1500; log("%s after %.6f s, %llu blocks, steps %ld, updates %ld, ok=%d", kind_names[k], el / 1e9, (unsigned long long)used, got.steps, got.ctot, ok);
    if (hit) { u64 over = cpu_blocks() - at; probe("C09 runs that outlived the budget"); if (over > slack) violate("over-budget", "%s: %llu blocks of work after the %g ms budget (and the timer's resolution) had passed, one pass with set-up is %llu", kind_names[k], (unsigned long long)over, s.budget, (unsigned long long)U); }
    if (hit && counts_passes(k) && used < 1500000) { // which pass was under way when the budget ran out? Training has to be over when that pass is.
        u64 rel = at - b0, over = used - rel; phase("looking for the pass in which the budget ran out");
        if (over > lop + 200) {
            u64 need = rel + fin + 128; long lo = 0, hi = 1, cap = s.max_it ? s.max_it : 1L << 20; u64 bh = 0, prev = 0; bool end = false;
            while ((bh = blocks_of_passes(s, *d, std::min(hi, cap))) < need) { if (hi >= cap || bh == prev) { end = true; break; } prev = bh; lo = hi; hi *= 2; }
            if (!end) {
                hi = std::min(hi, cap); while (hi - lo > 1) { long m = lo + (hi - lo) / 2; u64 bm = blocks_of_passes(s, *d, m); if (bm >= need) { hi = m; bh = bm; } else lo = m; }
                log("the budget ran out at block %llu; the pass under way ends at block %llu, training ended at block %llu", (unsigned long long)rel, (unsigned long long)bh, (unsigned long long)used); probe("C09 judged against the pass under way");
                if (used > bh + 300) violate("over-budget", "%s: the %g ms budget ran out at block %llu, the pass then under way was over by block %llu, training went on to block %llu (steps %ld)", kind_names[k], s.budget, (unsigned long long)rel, (unsigned long long)bh, (unsigned long long)used, got.steps);
            }
        }
    }
    if (el < budget_ns) {
        bool natural = have_ref ? same_snap(got, ref) : false;
        if (have_ref && !natural) violate("early-stop", "%s gave up after %.6f s of a %g ms budget: %ld steps, %ld updates, result %d; with time standing still the same training takes %ld steps, %ld updates, result %d", kind_names[k], el / 1e9, s.budget, got.steps, got.ctot, got.ok, ref.steps, ref.ctot, ref.ok);
        if (!have_ref && C09_converges(k) && !ok && !limited) violate("early-stop", "%s reported failure after %.6f s of a %g ms budget without reaching any limit (%ld steps, %ld updates)", kind_names[k], el / 1e9, s.budget, got.steps, got.ctot);
        probe("C09 stopped by convergence or a limit"); if (have_ref) probe("C09 equal to the run without a clock");
    } else probe("C09 stopped at the budget");
}
// k-means counts its passes in calls of the metric it is given
static u64 g_calls, g_setup_calls, g_late_calls; static i64 g_t_late, g_late_after;
struct CountMetric { double operator()(const mltk::Point<double>& a, const mltk::Point<double>& b) const {
    if (g_calls++ == g_setup_calls) g_t_late = now_ns() + g_late_after;   // the loop has begun
    if (g_calls > g_setup_calls && now_ns() >= g_t_late) g_late_calls++;
    double s = 0; for (size_t i = 0; i < a.size(); i++) s += (a[i] - b[i]) * (a[i] - b[i]); return sqrt(s);
} };
SCENARIO(C09, metric_passes, 1) {
    set_limits(60000000, 1e9); mutate_fill(); int n = (int)wl_range(4, 60), dim = (int)wl_range(1, 3); Cloud c = binary_cloud(n, dim, wl_bool()); size_t k = 2 + wl(4); if ((int)k > n) k = 2; Data* d = to_data(c, "Clustering"); bool kpp = wl_bool(); size_t seed = 1 + wl(50);
    static const double budgets[] = {20, 0, 1, 5}; double budget = budgets[wl(4)]; static const double passes[] = {1.5, 0.3, 2.5, 0.8, 5};
    auto run = [&](double bud, i64 ps) { auto* K = new mltk::clusterer::KMeans<double, CountMetric>(*d, k, kpp ? "kmeanspp" : "random", seed, 0); K->setMaxTime(bud); g_calls = g_late_calls = 0; g_late_after = (i64)(bud * 1e6) + 1000000; g_t_late = INT64_MAX; Cpu cpu(ps); K->train(); return std::max<long>(K->getSteps(), 1); };
    phase("k-means, frozen clock, counted metric"); g_setup_calls = kpp ? (u64)n * (k - 1) : 0; set_clock_step(0); u64 b0 = cpu_blocks(); u64 steps = (u64)run(1e9, 0), one = (g_calls + steps - 1) / steps, U = (cpu_blocks() - b0) / steps;
    if (g_calls <= g_setup_calls) g_setup_calls = 0;
    enable_fault(F_CLOCK_STALL, wl(3) == 2); enable_fault(F_WALL_STEP, wl_bool()); static const i64 cs[] = {100, 0, 30000, 1000}; set_clock_step(cs[wl(4)]);
    double bud = budget > 0 ? budget : 1; i64 ps = (i64)(bud * 1e9 / (passes[wl(5)] * (double)U)); if (ps < 1) ps = 1;
    char ph[80]; snprintf(ph, sizeof ph, "k-means on a counted metric, budget %g ms", budget); phase(ph); run(budget, ps); faults_stop(); note(g_calls); log("%llu metric calls, %llu of them late, a pass takes about %llu", (unsigned long long)g_calls, (unsigned long long)g_late_calls, (unsigned long long)one);
    if (g_late_calls) probe("C09 k-means passes cut by the budget");
    if (g_late_calls > one + one / 4) violate("over-budget", "KMeans: %llu calls of the metric after the %g ms budget had passed, one pass is about %llu", (unsigned long long)g_late_calls, budget, (unsigned long long)one);
}
// ---- C20: what a trainer that reports success claims, checked on the recorded training set ----
struct Model { Vec w, alpha; double bias = 0, norm = 0, margin = 0; };
static double kern(const Spec& s, const Vec& a, const Vec& b) { double v = 0; if (s.ktype == 2) { for (size_t i = 0; i < a.size(); i++) v += (a[i] - b[i]) * (a[i] - b[i]); return exp(-v * s.kparam); } for (size_t i = 0; i < a.size(); i++) v += a[i] * b[i]; if (s.ktype == 1 && s.kparam > 1) v = pow(v, s.kparam); return v; }
static bool finite(const Vec& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
static void judge_claim(Trainer& t, bool ok, const char* when) {
    const Spec& s = t.s; const char* nm = kind_names[s.kind]; auto smp = t.L->getSamples(); size_t n = smp->size(); std::vector<Vec> x(n); Vec y(n); Model m;
    for (size_t i = 0; i < n; i++) { auto p = (*smp)[i]; for (size_t j = 0; j < p->size(); j++) x[i].push_back((*p)[j]); y[i] = p->Y(); }
    auto sol = t.C->getSolution(); for (size_t i = 0; i < sol.w.size(); i++) m.w.push_back(sol.w[i]); m.bias = sol.bias; m.norm = sol.norm; m.margin = sol.margin; m.alpha = sol.alpha;
    if (!finite(m.w) || !finite(m.alpha) || !std::isfinite(m.bias) || !std::isfinite(m.norm) || (!std::isfinite(m.margin) && !(s.kind == SMOK && !ok))) violate("not-finite", "%s %s: result %d, bias %g, norm %g, margin %g, weights [%s], multipliers [%s]", nm, when, ok, m.bias, m.norm, m.margin, str(m.w).c_str(), str(m.alpha).c_str());
    size_t dim = x[0].size(); if (t.D ? m.alpha.size() != n : m.w.size() != dim) violate("unusable", "%s %s: a solution with %zu weights and %zu multipliers for %zu points of dimension %zu", nm, when, m.w.size(), m.alpha.size(), n, dim);
    for (size_t i = 0; i < n; i++) { double e = t.C->evaluate(*(*smp)[i]); if (e != 1 && e != -1) violate("unusable", "%s %s: evaluates to %g", nm, when, e); }
    if (!ok) return; probe("C20 success claims judged");
    double amin = 0, asum = 0; for (size_t i = 0; i < m.alpha.size(); i++) { amin = std::min(amin, m.alpha[i]); asum += m.alpha[i] * y[i]; }
    double gap_p = INFINITY, gap_n = -INFINITY, fmin = INFINITY;
    for (size_t i = 0; i < n; i++) {
        double f = m.bias, sc = fabs(m.bias); if (t.D) for (size_t j = 0; j < n; j++) { double c = m.alpha[j] * y[j] * kern(s, x[j], x[i]); f += c; sc += fabs(c); } else for (size_t j = 0; j < dim; j++) { f += m.w[j] * x[i][j]; sc += fabs(m.w[j] * x[i][j]); }
        double tol = 1e-9 * (sc + (t.D && s.kind != SMOK ? s.rate : 0)); double yf = y[i] * f; fmin = std::min(fmin, fabs(f)); if (y[i] > 0) gap_p = std::min(gap_p, f); else gap_n = std::max(gap_n, f);
        if (s.kind == SMOK) { if (m.alpha[i] < 9998 && yf < 1 - 0.02 - tol) violate("margin", "SMO %s: reports success, but point %zu has y*f = %.9g with multiplier %g", when, i, yf, m.alpha[i]); if (m.alpha[i] >= 9998) continue; }
        else if (yf < -tol || (yf <= 0 && sc == 0)) violate("misclassified", "%s %s: reports success, but training point %zu of %zu (label %g) has f = %.12g", nm, when, i, n, y[i], f);
        if ((s.kind == FMP || s.kind == FMD || s.kind == IMAPFM) && yf < s.gamma * m.norm * (1 - 1e-9) - tol) violate("margin", "%s %s: reports success, but training point %zu has margin %.12g under the fixed margin %g * norm %.12g", nm, when, i, yf, s.gamma, m.norm);
        double e = t.C->evaluate(*(*smp)[i]); if (fabs(f) > tol + 1e-300 && e != y[i]) violate("misclassified", "%s %s: reports success, but evaluates training point %zu of %zu (label %g, f = %.12g) to %g", nm, when, i, n, y[i], f, e);
    }
    if ((s.kind == SMOK || s.kind == PD) && amin < -1e-12) violate("margin", "%s %s: a negative multiplier %g", nm, when, amin);
    if (s.kind == SMOK && fabs(asum) > 1e-6 * (1 + 9999)) violate("margin", "SMO %s: the multipliers do not balance: %g", when, asum);
    if (s.kind == IMAP) { double half = (gap_p - gap_n) / 2 / m.norm, nn = 0; for (double v : m.w) nn += v * v; nn = sqrt(nn); if (fabs(nn - m.norm) > 1e-6 * (1 + nn)) violate("margin", "IMAp %s: reports norm %.12g, the weights have norm %.12g", when, m.norm, nn); if (fabs(half - m.margin) > 1e-6 * (1 + fabs(half))) violate("margin", "IMAp %s: reports margin %.12g, half the gap between the classes is %.12g", when, m.margin, half); }
    if (s.kind == IMAD && !(m.margin > 0)) violate("margin", "IMADual %s: reports success with margin %g", when, m.margin);
}
SCENARIO(C20, claims, 1) {
    set_limits(1000000000, 1e9); mutate_fill(); static const Kind kinds[] = {PP, FMP, PD, FMD, BAL, IMAPFM, IMAP, IMAD, SMOK}; Kind k = kinds[wl(9)]; Spec s = draw_spec(k);
    int n = (int)(wl(4) == 0 ? (k == SMOK ? wl_range(11, 20) : wl_range(30, 80)) : wl_range(2, 10)), dim = (int)wl_range(1, 4); bool sep = !wl_p(1, 3); Cloud c = binary_cloud(n, dim, sep); Data* d = to_data(c, "Classification");
    static const double budgets[] = {20, 0, 1, 2, 5, 110, 1000}; s.budget = budgets[wl(7)]; if (k == SMOK || wl_p(1, 3)) s.max_it = (long)wl_range(1, k == SMOK ? 300 : 60); if (wl_p(1, 3)) s.max_up = (long)wl_range(1, 200);
    u64 U = k == SMOK ? 20000 : calibrate(s, *d); static const double mult[] = {200, 0.3, 1.5, 3, 10, 40}; double blocks = std::min((double)U * mult[wl(6)], 3e6), bud = s.budget > 0 ? s.budget : 1; i64 ps = std::max<i64>(1, (i64)(bud * 1e9 / blocks)); static const i64 cs[] = {100, 0, 30000}; set_clock_step(cs[wl(3)]);
    char ph[96]; snprintf(ph, sizeof ph, "%s", kind_names[k]); phase(ph); log_cloud(c); log("rate %g, gamma %g, q %g, kernel %d(%g), budget %g ms, limits it=%ld up=%ld", s.rate, s.gamma, s.q, s.ktype, s.kparam, s.budget, s.max_it, s.max_up);
    Data own = d->copy(); Trainer t(s, own); Trainer* other = nullptr;
    enable_fault(F_CLOCK_STALL, wl(3) == 2); enable_fault(F_WALL_STEP, wl_bool()); enable_fault(F_STALL, wl_bool()); cpu_stalls(0.3 / (blocks / 64 + 1));
    int rounds = 1 + (wl_p(1, 3) ? (int)wl(3) : 0);
    for (int r = 0; r < rounds; r++) {
        Trainer* cur = other ? other : &t; bool ok; { Cpu cpu(ps); ok = cur->L->train(); } log("round %d: %s %s, %d points of dim %d, %s: result %d, steps %ld, updates %ld", r, kind_names[k], r ? "again" : "first", n, dim, sep ? "separable" : "inseparable", ok, (long)cur->L->getSteps(), (long)cur->L->getCtot());
        note(ok); { Cpu cpu(0); judge_claim(*cur, ok, r ? (other ? "(second trainer on the same data)" : "(trained again)") : "(first training)"); }
        Snap sn = cur->snap(ok); for (double v : sn.v) note_d(v); probe(ok ? "C20 successful trainings" : "C20 failed trainings");
        if (r + 1 == rounds) break;
        switch (wl(4)) {   // what happens between two trainings
        case 0: break;                                                        // nothing: train once more
        case 1: cur->limits(3000, 3000); cur->L->setMaxTime(1e6); break;  // more time and more iterations
        case 2: { int n2 = (int)wl_range(2, 10); bool same = n2 == n; int dim2 = wl_bool() ? dim : (int)wl_range(1, 4); sep = !wl_p(1, 3); Cloud c2 = binary_cloud(n2, dim2, sep); n = n2; dim = dim2; Data* d2 = to_data(c2, "Classification"); cur->L->setSamples(*d2); if (cur->D && (same || wl_bool())) cur->D->recomputeKernel(); log("the trainer gets other samples"); break; }
        case 3: if (!other) { other = new Trainer(s, own); log("another trainer on the same data"); } break;
        }
    }
}
