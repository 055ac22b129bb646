// C23 a visualization session works only in files of its own and shows exactly the data it was given. Real code: mltk's
// Visualization and Gnuplot. Simulated: the working directory (folders, listings, removal, renaming, other processes), the plotter.
#include "common.h"
#include "core.h"
#include "disk.h"
#include "plotter.h"
#include "ufjfmltk/visual/Visualization.hpp"
#include <iostream>
#include <memory>
using namespace sim;
namespace {
typedef mltk::visualize::Visualization<double> Vis;
typedef std::vector<Vec> Table;
struct Sample { Data* d = nullptr; bool cls = true; std::vector<int> classes; std::vector<std::string> names; size_t dim = 0; Table x; Vec y;
    Table rows(size_t c) const { Table t; for (size_t i = 0; i < x.size(); i++) { if (!cls) { t.push_back(x[i]); t.back().push_back(y[i]); } else if (y[i] == classes[c]) t.push_back(x[i]); } return t; } };
struct Load { std::string folder; const Sample* s; bool whole; std::map<std::string, std::string> files; };   // one sample's data files
struct Sess { Vis* v = nullptr; bool shared, keep; size_t plotter = 0; const Sample* s = nullptr; std::string folder; std::map<std::string, std::string> files; std::vector<Load> loads; bool mine_failed = false; };
std::ostringstream* g_err; std::ostringstream* g_out; std::vector<Sess*>* g_all;
std::string take_err() { std::string s = g_err->str(); g_err->str(""); g_out->str(""); return s; }
u64 failures() { u64 n = 0; for (FaultKind k : {F_OPEN, F_WRITE_ERR, F_WRITE_FULL, F_CLOSE_ERR, F_EINTR, F_MKDIR, F_LIST, F_STAT, F_SPAWN, F_PIPE, F_RENAME, F_UNLINK, F_FOREIGN, F_CLOSE_CHILD, F_TMP}) n += R->faults[k]; return n; }
u64 stuck() { u64 n = 0; for (FaultKind k : {F_LIST, F_STAT, F_RENAME, F_UNLINK, F_FOREIGN}) n += R->faults[k]; return n; }
std::string show(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; if (o.size() > 240) { o += "..."; break; } } return o; }
double number() { switch (wl(4)) { case 0: return (double)wl_range(-50, 50); case 1: return (double)wl_range(-9999, 9999) / 64.0; case 2: return (double)wl_range(-999, 999) * 1e5; default: return (double)wl_range(-999, 999) * 1e-5; } }
Sample* draw_sample() {
    Sample* s = new Sample; s->cls = wl(4) != 0; s->dim = 1 + wl(5); size_t k = s->cls ? 1 + wl(4) : 0, n = std::max<size_t>(std::max<size_t>(k, 1), 1 + wl(wl(6) == 0 ? 800 : 24));
    static const std::vector<std::string> pool = {"Iris-setosa", "a.b", "my_class", "class one", "v1.0_beta", "data", "x.plt", "\xc3\xa9t\xc3\xa9", "_", "100%", "plottemp", "positive", "negative"};
    std::vector<int> lab; while (lab.size() < k) { int c = (int)wl_range(-3, 9); if (std::find(lab.begin(), lab.end(), c) == lab.end()) lab.push_back(c); }
    Cloud c; c.dim = s->dim; for (size_t i = 0; i < n; i++) { Vec x; for (size_t j = 0; j < s->dim; j++) x.push_back(number()); c.x.push_back(x); c.y.push_back(s->cls ? lab[i < k ? i : wl(k)] : number()); }
    s->d = to_data(c, s->cls ? "Classification" : "Regression"); if (wl_bool()) s->d->setName(wl_bool() ? "iris" : "my data.v2");
    if (s->cls) { s->classes = s->d->classes(); s->names = s->d->classesNames(); if (wl(3)) { for (auto& nm : s->names) { std::string w; do { w = pool[wl(pool.size())]; } while (std::count(s->names.begin(), s->names.end(), w)); nm = w; } s->d->setClassesNames(s->names); } }
    s->x = c.x; s->y = c.y; if (s->cls && k > 1 && wl(4) == 3) { int gone = s->classes[wl(k)]; for (size_t i = 0; i < s->y.size(); i++) if (s->y[i] == gone && s->y.size() > 1) { if (!s->d->removePoint((int)i + 1)) violate("harness", "removePoint failed"); s->x.erase(s->x.begin() + (long)i); s->y.erase(s->y.begin() + (long)i); for (size_t j = 0; j < s->d->size(); j++) (*s->d)(j).Id() = j + 1; i--; } log("no point of class %d is left", gone); }
    log("sample: %s, %zu points, %zu dims, %zu classes", s->cls ? "classification" : "regression", n, s->dim, s->classes.size()); for (size_t i = 0; i < s->names.size(); i++) log("  class %d is called %s", s->classes[i], s->names[i].c_str()); return s;
}
void same_table(const std::string& text, const Table& want, const char* what, const std::string& file, double tol = 1e-5) {
    std::istringstream in(text); std::string line; size_t i = 0; while (std::getline(in, line)) { if (line.empty()) continue; if (i >= want.size()) violate("data", "%s: %s holds more than the %zu rows it stands for", what, file.c_str(), want.size()); std::istringstream l(line); double v; size_t j = 0; for (; l >> v; j++) if (j >= want[i].size() || !close(v, want[i][j], tol)) violate("data", "%s: row %zu of %s is \"%s\", not %s", what, i, file.c_str(), line.c_str(), str(want[i]).c_str()); if (j != want[i].size()) violate("data", "%s: row %zu of %s has %zu of %zu values", what, i, file.c_str(), j, want[i].size()); i++; }
    if (i != want.size()) violate("data", "%s: %s holds %zu of the %zu rows it stands for", what, file.c_str(), i, want.size());
}
std::set<std::string> own() { std::set<std::string> r; for (auto& p : disk_list(false)) r.insert(p); return r; }
std::map<std::string, std::string> inside(const std::string& folder) { std::map<std::string, std::string> r; for (auto& p : disk_list(false)) if (p.size() > folder.size() && !p.compare(0, folder.size(), folder)) { std::string b; disk_get(p, &b); r[p.substr(folder.size())] = b; } return r; }
// every live session's files are as it left them, whatever the others do
void siblings(const Sess* who, const char* what) {
    for (auto* s : *g_all) { if (s == who || !s->v || s->folder.empty()) continue; if (!disk_is_dir(s->folder)) violate("sibling", "%s in one session removes the folder %s of another", what, s->folder.c_str()); auto now = inside(s->folder); if (now != s->files) violate("sibling", "%s in one session changes the data files in %s of another", what, s->folder.c_str()); }
    for (auto& f : disk_list(true)) if (f.back() != '/' && f.find("theirs") != std::string::npos) { std::string b; disk_get(f, &b); if (b != "1 2 3\n" && b != "theirs\n") violate("foreign", "%s changes %s, which belongs to somebody else", what, f.c_str()); }
}
// after a sample was handed to a session: which folder it made for it
void loaded(Sess* s, const Sample* smp, const std::set<std::string>& before, u64 f0, const char* what) {
    s->s = smp; s->folder.clear(); s->files.clear(); std::vector<std::string> made; for (auto& p : own()) if (!before.count(p) && p.back() == '/' && p.find("_saved_") == std::string::npos) made.push_back(p);
    for (auto& p : own()) if (!before.count(p) && p.back() != '/' && p.find('/') == std::string::npos) violate("stray", "%s leaves the file %s outside its folder", what, p.c_str());
    if (made.size() > 1) violate("stray", "%s creates %zu folders", what, made.size()); std::string err = take_err(); if (made.empty()) { if (failures() == f0) violate("missing", "%s creates no folder though nothing went wrong", what); if (err.empty()) violate("silent", "%s cannot create its folder and says nothing", what); probe("C23 folders that could not be created"); return; }
    s->folder = made[0]; s->files = inside(s->folder); s->loads.push_back(Load{s->folder, smp, failures() == f0, s->files}); log("  -> %s (%zu files)", s->folder.c_str(), s->files.size());
}
bool start(Sess* s, const Sample* smp) {
    size_t k = plotter_sessions().size(); u64 f0 = failures(); auto before = own(); take_err(); log("session %zu: constructed %s%s%s", g_all->size(), smp ? "with a sample" : "without a sample", s->shared ? ", shared" : "", s->keep ? ", keeping its files" : ""); phase("constructing a session"); std::string why;
    try { Cpu cpu(20); s->v = smp ? new Vis(*smp->d, s->shared, s->keep) : new Vis(s->shared, s->keep); } catch (const std::exception& e) { why = e.what(); }
    phase("checking"); siblings(s, "constructing"); note(s->v != nullptr);
    if (!s->v) { log("  -> %s", why.c_str()); if (failures() == f0) violate("spurious", "a session cannot be constructed though nothing went wrong: %s", why.c_str()); if (own() != before) violate("stray", "a session that could not be constructed leaves files behind"); for (size_t i = k; i < plotter_sessions().size(); i++) if (plotter_sessions()[i].open) violate("leak", "a session that could not be constructed leaves its plotter running"); probe("C23 sessions that could not be constructed"); return false; }
    if (s->shared) { if (plotter_sessions().size() != k + 1) violate("start", "a shared session starts %zu plotters", plotter_sessions().size() - k); s->plotter = k; } if (smp) loaded(s, smp, before, f0, "constructing a session"); else if (own() != before) violate("stray", "a session without a sample creates files"); return true;
}
void set_sample(Sess* s, const Sample* smp) {
    u64 f0 = failures(); auto before = own(); take_err(); log("setSample"); phase("setting a sample"); std::string old = s->folder, why; bool threw = false; try { Cpu cpu(20); s->v->setSample(*smp->d); } catch (const std::exception& e) { threw = true; why = e.what(); } phase("checking"); siblings(s, "setSample");
    if (threw) { log("  -> %s", why.c_str()); if (failures() == f0) violate("spurious", "setSample fails though nothing went wrong: %s", why.c_str()); probe("C23 setSample failed"); s->s = nullptr; s->folder = disk_is_dir(old) ? old : ""; return; }
    std::string err = g_err->str(); loaded(s, smp, before, f0, "setSample"); if (!old.empty()) { bool there = own().count(old); if (there && failures() == f0) violate("left", "setSample leaves the folder %s of the previous sample", old.c_str()); if (there && err.empty()) violate("silent", "setSample cannot %s %s and says nothing", s->keep ? "rename" : "remove", old.c_str()); if (there) probe("C23 folders that could not be removed at once"); }
}
void finish(Sess* s) {
    auto before = own(); u64 f0 = failures(); take_err(); log("end of the session in %s", s->folder.c_str()); phase("ending a session"); { Cpu cpu(20); delete s->v; } s->v = nullptr; phase("checking"); siblings(s, "ending"); std::string err = take_err();
    for (auto& p : own()) if (!before.count(p) && p.find("_saved_") == std::string::npos) violate("stray", "ending a session creates %s", p.c_str());
    for (auto& p : before) if (!own().count(p)) { bool his = false; for (auto& l : s->loads) if (!p.compare(0, l.folder.size(), l.folder)) his = true; if (!his) violate("foreign", "ending a session removes %s, which is not one of its files", p.c_str()); }
    for (auto& l : s->loads) { auto now = own(); bool there = now.count(l.folder); 
        if (there && !(s->keep && stuck())) { if (failures() == f0) violate("left", "the session is over and %s is still there", l.folder.c_str()); if (err.empty() && before.count(l.folder)) violate("silent", "the folder %s cannot be removed and nothing is said", l.folder.c_str()); probe("C23 folders that could not be removed"); }
        if (s->keep) { std::string at = there ? l.folder : ""; std::string stem = l.folder.substr(0, l.folder.size() - 1) + "_saved_"; if (at.empty()) for (auto& p : now) if (p.back() == '/' && !p.compare(0, stem.size(), stem)) { if (!at.empty()) violate("kept", "the files of %s were kept twice", l.folder.c_str()); at = p; }
            if (at.empty()) violate("kept", "the files in %s were to be kept and are gone", l.folder.c_str()); auto have = inside(at); for (auto& f : l.files) if (!have.count(f.first) || have[f.first] != f.second) violate("kept", "%s was to be kept: %s%s is %s", l.folder.c_str(), at.c_str(), f.first.c_str(), have.count(f.first) ? "changed" : "gone"); probe("C23 folders kept"); } }
}
struct Item { std::string file, use, title; bool titled = false; Seen* seen = nullptr; };
double level(double x, double y) { return std::floor((x + 2 * y) / 7); }
bool on_edge(double x, double y) { double v = (x + 2 * y) / 7, tol = 1e-5 * (1 + std::fabs(x) + std::fabs(y)); return std::fabs(v - std::round(v)) < tol; }
struct Learner { int calls = 0; bool trained = false; size_t n = 0; void setSamples(const Data& d) { n = d.size(); } bool train() { trained = true; return true; } double evaluate(const Pt& p) { calls++; return level(p[0], p[1]); } };
struct Want { bool used = true, notitles = false, lastonly = false; std::string dims; bool decision = false, bare = false; Table table; std::string title, xl, yl, zl, fmt; bool save = false; Vec plane; size_t grid = 0; };
template <class F> void plot(Sess* s, const std::string& what, const Want& w, F fn) {
    size_t k = plotter_sessions().size(), from = s->shared ? plotter_sessions()[s->plotter].bytes.size() : 0, seen0 = s->shared ? plotter_sessions()[s->plotter].seen.size() : 0; bool told0 = s->shared && plotter_sessions()[s->plotter].told; u64 f0 = failures(); take_err(); log("%s", what.c_str()); phase(what.c_str()); std::string ret, why; bool threw = false; auto before = own();
    try { Cpu cpu(20); ret = fn(*s->v); } catch (const std::exception& e) { threw = true; why = e.what(); } phase("checking"); std::string err = take_err(), sent; bool told = false; Session* ss = nullptr; if (s->shared) ss = &plotter_sessions()[s->plotter]; else if (plotter_sessions().size() > k) ss = &plotter_sessions().back(); if (ss) { sent = ss->bytes.substr(from); told = ss->told; if (!s->shared && ss->open) violate("leak", "%s leaves a plotter running", what.c_str()); }
    note(threw); note(sent.size()); siblings(s, what.c_str()); const char* n = what.c_str();
    if (!s->shared) for (int i = 0; i < 2; i++) { size_t nl = sent.find('\n'); if (nl != std::string::npos && !sent.compare(0, 4, "set ") && sent.find("plot") > nl) sent.erase(0, nl + 1); } if (!s->shared && sent == "exit\n") sent.clear();
    for (auto& p : own()) if (!before.count(p) && p.compare(0, s->folder.size() ? s->folder.size() : 1, s->folder.size() ? s->folder : "?") && p.compare(0, 7, "output/")) violate("stray", "%s creates %s outside its folder", n, p.c_str());
    if (!s->folder.empty()) { auto now = inside(s->folder); for (auto& f : s->files) if (!now.count(f.first)) violate("data", "%s removes the data file %s", n, f.first.c_str()); s->files = now; for (auto& l : s->loads) if (l.folder == s->folder) l.files = now; }
    bool plotted = sent.find("plot ") != std::string::npos;
    if (threw) { log("  -> %s", why.c_str()); probe("C23 plots refused"); if (plotted && !told) violate("silent", "%s fails (%s) and the plot is sent all the same", n, why.c_str()); if (failures() == 0) violate("spurious", "%s fails though nothing went wrong: %s", n, why.c_str()); return; }
    if (!plotted) { if (err.empty() && !told) violate("silent", "%s sends no plot and says nothing", n); if (failures() == 0) violate("spurious", "%s sends no plot though nothing went wrong: %s", n, show(err).c_str()); probe("C23 plots reported and not sent"); return; }
    if (told) { if (!told0) violate("silent", "%s: the plotter died while it was told and nothing is reported", n); return; }
    probe("C23 plots sent"); if (!sent.empty() && sent.back() == '\n') sent.pop_back(); std::string lines = sent; std::replace(lines.begin(), lines.end(), ';', '\n'); if (ret != lines) violate("script", "%s returns \"%s\", the script sent is \"%s\"", n, show(ret).c_str(), show(lines).c_str());
    auto has = [&](const std::string& t) { if (sent.find(t) == std::string::npos) violate("script", "%s: the script does not say \"%s\": %s", n, t.c_str(), show(sent).c_str()); };
    auto setting = [&](const char* key, const std::string& v) { std::string k = std::string("set ") + key + " '"; if (!v.empty()) has(k + v + "'"); else for (size_t at = 0; (at = sent.find(k, at)) != std::string::npos; at += k.size()) if (at + k.size() < sent.size() && sent[at + k.size()] != '\'') violate("script", "%s: no %s was asked for, and the script says \"%s\"", n, key, show(sent.substr(at, 60)).c_str()); };
    setting("title", w.title); setting("xlabel", w.xl); setting("ylabel", w.yl); setting("zlabel", w.zl); if (w.save) { has("set terminal " + w.fmt); has("." + w.fmt + "'"); has("set output '"); } else if (sent.find("set output '") != std::string::npos) violate("script", "%s: the script writes to a file though the plot is not to be saved", n);
    std::vector<Item> items; size_t p = sent.find("plot '"); if (p == std::string::npos) violate("script", "%s: no data file is plotted: %s", n, show(sent).c_str()); p += 5; size_t seen = seen0;
    while (p < sent.size()) { while (p < sent.size() && (sent[p] == ' ' || sent[p] == ',' || sent[p] == ';')) p++; if (p >= sent.size() || sent[p] != '\'') break; Item it; size_t e = sent.find('\'', p + 1); if (e == std::string::npos) violate("script", "%s: the script is cut short: %s", n, show(sent).c_str()); it.file = sent.substr(p + 1, e - p - 1); p = e + 1; bool done = false;
        while (!done && p < sent.size()) { if (sent[p] == ' ') { p++; continue; } if (sent[p] == ',' || sent[p] == ';') { done = true; break; } size_t q = p; while (q < sent.size() && sent[q] != ' ' && sent[q] != ',' && sent[q] != ';') q++; std::string word = sent.substr(p, q - p); p = q; if (word == "using") { while (p < sent.size() && sent[p] == ' ') p++; q = sent.find_first_of(" ,;", p); it.use = sent.substr(p, q == std::string::npos ? q : q - p); p = q == std::string::npos ? sent.size() : q; } else if (word == "title") { while (p < sent.size() && sent[p] == ' ') p++; if (sent[p] != '\'') violate("script", "%s: a title without quotes", n); q = sent.find('\'', p + 1); it.title = sent.substr(p + 1, q - p - 1); it.titled = true; p = q + 1; } }
        while (seen < ss->seen.size() && ss->seen[seen].file != it.file) seen++; if (seen >= ss->seen.size()) violate("script", "%s: %s is not a file in one of the session's folders", n, it.file.c_str()); it.seen = &ss->seen[seen++]; items.push_back(it); }
    for (auto& it : items) { if (!it.seen->there) violate("data", "%s: the data file %s does not exist when the script arrives", n, it.file.c_str()); if (!w.bare && (s->folder.empty() || it.file.compare(0, s->folder.size(), s->folder))) violate("data", "%s: %s is not in the session's folder %s", n, it.file.c_str(), s->folder.c_str()); }
    size_t i0 = w.decision ? 1 : 0; if (w.decision) { if (items.empty()) violate("data", "%s: no decision surface", n); Table t; std::istringstream in(items[0].seen->bytes); std::string line; size_t rows = 0; std::set<double> xs, ys; while (std::getline(in, line)) { if (line.empty()) continue; std::istringstream l(line); double x, y, z; if (!(l >> x >> y >> z)) violate("data", "%s: a row of the decision surface is \"%s\"", n, line.c_str()); if (!on_edge(x, y) && z != level(x, y)) violate("data", "%s: the surface at (%g, %g) is %g, the learner says %g", n, x, y, z, level(x, y)); rows++; xs.insert(x); ys.insert(y); } if (rows != w.grid * w.grid) violate("data", "%s: the decision surface has %zu of %zu rows", n, rows, w.grid * w.grid); }
    size_t nitems = items.size() - i0, want = w.bare ? 1 : s->s->cls ? s->s->classes.size() : 1; if (nitems != want) violate("data", "%s: the script plots %zu data files for %zu classes", n, nitems, want);
    std::vector<bool> hit(want, false); for (size_t i = i0; i < items.size(); i++) { Item& it = items[i]; if (!w.decision && it.use != w.dims) violate("script", "%s plots columns %s of %s, not %s", n, it.use.c_str(), it.file.c_str(), w.dims.c_str());
        if (w.bare || w.decision) {} size_t c = 0; if (!w.bare && s->s->cls) { c = (size_t)(std::find(s->s->names.begin(), s->s->names.end(), it.title) - s->s->names.begin()); if (!it.titled || c == want) violate("label", "%s: %s is labelled \"%s\"", n, it.file.c_str(), it.title.c_str()); } if (hit[c]) violate("label", "%s: two data files are labelled \"%s\"", n, it.title.c_str()); hit[c] = true;
        same_table(it.seen->bytes, w.bare ? w.table : w.decision ? [&] { Table t; for (size_t r = 0; r < s->s->x.size(); r++) if (s->s->y[r] == s->s->classes[c]) t.push_back({s->s->x[r][(size_t)w.plane[0]], s->s->x[r][(size_t)w.plane[1]], s->s->y[r]}); return t; }() : s->s->rows(c), n, it.file); }
    if (!w.decision && !w.plane.empty()) { size_t d = w.plane.size() - 1; const char* fn = d == 1 ? "f(x) = " : "f(x,y) = "; size_t at = sent.find(fn); if (at == std::string::npos) violate("script", "%s: no hyperplane in the script", n); at += strlen(fn); Vec got; const char* c = sent.c_str() + at; for (size_t i = 0; i <= d; i++) { char* e; got.push_back(strtod(c, &e)); if (e == c) violate("script", "%s: the hyperplane is \"%s\"", n, show(sent.substr(at, 60)).c_str()); c = e; if (i < d) { const char* v = i == 0 ? "*x + " : "*y + "; if (strncmp(c, v, strlen(v))) violate("script", "%s: the hyperplane is \"%s\"", n, show(sent.substr(at, 60)).c_str()); c += strlen(v); } } if (!close(got, w.plane, 1e-5)) violate("script", "%s: the hyperplane drawn is %s, not %s", n, str(got).c_str(), str(w.plane).c_str()); }
    (void)f0;
}
std::string word() { static const std::vector<std::string> w = {"", "Iris dataset", "a;b", "100%", "height (cm)", "\xc3\xa9t\xc3\xa9"}; return w[wl(w.size())]; }
mltk::Solution solution(size_t dim, bool flat, Vec* v, double* b) { mltk::Solution s; s.w.resize(dim); for (size_t i = 0; i < dim; i++) { double x; do { x = (double)wl_range(-64, 64) / 8; } while (x == 0); s.w[i] = x; v->push_back(x); } s.bias = *b = (double)wl_range(-64, 64) / 8; s.margin = flat ? 0 : (double)wl_range(0, 8) / 4; s.norm = 1 + (double)wl(4); return s; }
void one_plot(Sess* s) {
    const Sample& m = *s->s; Want w; w.title = word(); w.xl = word(); w.yl = word(); w.zl = word(); w.save = wl(3) == 0; w.fmt = wl_bool() ? "svg" : "png"; double scale = wl_bool() ? 1.0 : 1.25; size_t x = wl(m.dim), y = wl(m.dim), z = wl(m.dim); auto D = [](size_t a) { return std::to_string(a + 1); }; bool sv = w.save; Vec sw; double b;
    switch (wl(6)) {
    case 0: { bool d3 = wl_bool(); size_t n = 1 + wl(wl(5) == 0 ? 1000 : 20); Pt a(n), c(n), d(n); for (size_t i = 0; i < n; i++) { a[i] = number(); c[i] = number(); d[i] = number(); w.table.push_back(d3 ? Vec{a[i], c[i], d[i]} : Vec{a[i], c[i]}); } if (wl(4) == 0) w.title = "run/1"; w.bare = true; w.dims = d3 ? "1:2:3" : "1:2"; if (!d3) w.zl = ""; 
        if (d3) plot(s, "plot3D of vectors", w, [&](Vis& v) { return v.plot3D(a, c, d, sv, scale, w.title, w.fmt, w.xl, w.yl, w.zl); }); else plot(s, "plot2D of vectors", w, [&](Vis& v) { return v.plot2D(a, c, sv, scale, w.title, w.fmt, w.xl, w.yl); }); return; }
    default: break; }
    if (!m.cls) { w.dims = D(x) + ":" + std::to_string(m.dim + 1); switch (wl(4)) {
        case 0: w.zl = ""; plot(s, "plot1DRegresion", w, [&](Vis& v) { return v.plot1DRegresion((int)x, sv, scale, w.title, w.fmt, w.xl, w.yl); }); break;
        case 1: { w.zl = ""; auto sol = solution(m.dim, true, &sw, &b); w.plane = {sw[x], b}; plot(s, "plot1DRegresionHyperplane", w, [&](Vis& v) { return v.plot1DRegresionHyperplane((int)x, sol, sv, scale, w.title, w.fmt, w.xl, w.yl); }); break; }
        case 2: w.dims = D(x) + ":" + D(y) + ":" + std::to_string(m.dim + 1); plot(s, "plot2DRegresion", w, [&](Vis& v) { return v.plot2DRegresion((int)x, (int)y, sv, scale, w.title, w.fmt, w.xl, w.yl, w.zl); }); break;
        default: { w.dims = D(x) + ":" + D(y) + ":" + std::to_string(m.dim + 1); auto sol = solution(m.dim, true, &sw, &b); w.plane = {sw[x], sw[y], b}; plot(s, "plot2DRegresionHyperplane", w, [&](Vis& v) { return v.plot2DRegresionHyperplane((int)x, (int)y, sol, sv, scale, w.title, w.fmt, w.xl, w.yl, w.zl); }); break; } } return; }
    switch (wl(6)) {
    case 0: case 1: w.zl = ""; w.dims = D(x) + ":" + D(y); plot(s, "plot2D", w, [&](Vis& v) { return v.plot2D((int)x, (int)y, sv, scale, w.title, w.fmt, w.xl, w.yl); }); break;
    case 2: w.dims = D(x) + ":" + D(y) + ":" + D(z); plot(s, "plot3D", w, [&](Vis& v) { return v.plot3D((int)x, (int)y, (int)z, sv, scale, w.title, w.fmt, w.xl, w.yl, w.zl); }); break;
    case 3: { w.zl = ""; auto sol = solution(m.dim, wl_bool(), &sw, &b); w.plane = {-sw[x] / sw[y], -b / sw[y]}; w.dims = D(x) + ":" + D(y); plot(s, "plot2DwithHyperplane", w, [&](Vis& v) { return v.plot2DwithHyperplane((int)x, (int)y, sol, sv, scale, w.title, w.fmt, w.xl, w.yl); }); break; }
    case 4: { auto sol = solution(m.dim, wl_bool(), &sw, &b); w.plane = {-sw[x] / sw[z], -sw[y] / sw[z], -b / sw[z]}; w.dims = D(x) + ":" + D(y) + ":" + D(z); plot(s, "plot3DwithHyperplane", w, [&](Vis& v) { return v.plot3DwithHyperplane((int)x, (int)y, (int)z, sol, sv, scale, w.title, w.fmt, w.xl, w.yl, w.zl); }); break; }
    default: { if (x == y) return; size_t lo = std::min(x, y), hi = std::max(x, y); w.decision = true; w.grid = 2 + wl(12); w.zl = ""; w.plane = {(double)lo, (double)hi}; Learner l; bool tr = wl_bool(); plot(s, "plotDecisionSurface2D", w, [&](Vis& v) { return v.plotDecisionSurface2D(l, (int)lo, (int)hi, tr, w.grid, sv, scale, w.title, w.fmt, w.xl, w.yl); }); break; }
    }
}
void surroundings() {
    plotter_reset(); disk_reset(); plotter_env(true, "/usr/bin"); plotter_install("/usr/bin/gnuplot", 1); disk_cwd(true); static const std::vector<std::string> there = {"plottemp0/", "plottemp1/", "plottemp2/", "plottemp3/", "plottemp5/", "plottemp0"};
    for (auto& f : there) if (wl(4) == 3) { log("there already: %s", f.c_str()); if (f.back() != '/') { if (!disk_is_dir(f)) disk_foreign(f, "theirs\n"); continue; } disk_foreign(f, ""); if (wl_bool()) disk_foreign(f + "theirs.plt", "1 2 3\n"); if (wl(3) == 2) { disk_foreign(f + "deeper/", ""); disk_foreign(f + "deeper/theirs.csv", "1 2 3\n"); } }
    if (wl(3) == 2) { disk_foreign("output/", ""); disk_foreign("output/theirs.dat", "1 2 3\n"); } disk_shared("output"); disk_foreign("theirs.data", "1 2 3\n"); if (wl(4) == 3) step_wall((i64)wl(3) * 3600000000000LL);
}
void menu(unsigned level) { for (u32 k = 0; k < F_NKINDS; k++) enable_fault((FaultKind)k, false); enable_fault(F_DIRORDER, wl(4) != 0); enable_fault(F_WRITE_SHORT, wl(3) == 0); if (!level) return;
    for (FaultKind k : {F_MKDIR, F_LIST, F_UNLINK, F_RENAME, F_STAT, F_OPEN, F_WRITE_ERR, F_WRITE_FULL, F_CLOSE_ERR}) enable_fault(k, level > 1 && wl(4) == 0); enable_fault(F_FOREIGN, wl_bool()); enable_fault(F_SPAWN, level > 2 && wl(3) == 0); enable_fault(F_PIPE, level > 2 && wl(3) == 0); enable_fault(F_CLOSE_CHILD, level > 2 && wl(3) == 0); enable_fault(F_CLOCK_STALL, wl_bool()); }
// a point is added to a sample, or one is removed, and every session that shows it is told
void regrow(std::vector<Sample*>& smp, Sample* old) {
    Sample* m = new Sample(*old); bool add = m->x.size() < 2 || wl_bool(); size_t n = 1 + wl(3);
    while (n--) { if (add) { Vec x; for (size_t j = 0; j < m->dim; j++) x.push_back(number()); double y = m->cls ? (double)m->classes[wl(m->classes.size())] : number(); Pt p(m->dim); for (size_t j = 0; j < m->dim; j++) p[j] = x[j]; p.Y() = y; if (!m->d->insertPoint(p)) violate("harness", "insertPoint failed"); m->x.push_back(x); m->y.push_back(y); }
        else if (m->x.size() > 1) { size_t i = wl(m->x.size()); if (!m->d->removePoint((int)(*m->d)(i).Id())) violate("harness", "removePoint failed"); m->x.erase(m->x.begin() + (long)i); m->y.erase(m->y.begin() + (long)i); } for (size_t j = 0; j < m->d->size(); j++) (*m->d)(j).Id() = j + 1; }
    log("a sample now has %zu points", m->x.size()); for (auto*& s : smp) if (s == old) s = m; probe("C23 samples that changed and were set again");
    for (auto* s : *g_all) if (s->v && s->s == old) set_sample(s, m);
}
void run(unsigned level) {
    set_limits(40000000, 9000); surroundings(); menu(level); g_all = new std::vector<Sess*>; g_err = new std::ostringstream; g_out = new std::ostringstream; std::cerr.rdbuf(g_err->rdbuf()); std::cout.rdbuf(g_out->rdbuf());
    std::vector<Sample*> smp; for (int i = 0, n = 1 + (int)wl(3); i < n; i++) smp.push_back(draw_sample()); auto pick = [&] { return smp[wl(smp.size())]; };
    auto open = [&] { Sess* s = new Sess; s->shared = wl_bool(); s->keep = wl(3) == 2; bool bare = wl(4) == 3; if (start(s, bare ? nullptr : pick())) g_all->push_back(s); else return; if (bare && wl(3)) set_sample(s, pick()); };
    for (int i = 0, n = 1 + (int)wl(2); i < n; i++) open();
    for (int i = 0, n = 1 + (int)wl(10); i < n; i++) { std::vector<Sess*> live; for (auto* s : *g_all) if (s->v) live.push_back(s); if (live.empty() || wl(12) == 11) { open(); continue; } Sess* s = live[wl(live.size())]; u64 k = wl(12); if (k == 1) regrow(smp, pick()); else if (k < 2) set_sample(s, pick()); else if (k == 2) finish(s); else if (k == 3) s->v->setTerminal(wl_bool() ? "dumb" : "qt"); else if (s->s) one_plot(s); if (wl(6) == 5) advance_ns((i64)wl(3) * 700000000LL); }
    for (auto* s : *g_all) if (s->v) finish(s);
    for (auto& s : plotter_sessions()) if (s.open) violate("leak", "a plotter was started and never closed"); if (disk_open_handles()) violate("leak", "%u files or folders are still open", disk_open_handles());
    bool kept = false; for (auto* s : *g_all) kept |= s->keep; for (auto& p : own()) { if (!p.compare(0, 6, "output")) continue; if (p.find("_saved_") != std::string::npos && kept) continue; if (stuck()) continue; violate("left", "every session is over and %s is still there", p.c_str()); }
    note(own().size());
}
SCENARIO(C23, calm, 3) { run(0); }
SCENARIO(C23, neighbours, 3) { run(1); }
SCENARIO(C23, failing_disk, 4) { run(2); }
SCENARIO(C23, everything, 2) { run(3); }
}
