// C16 datasets survive write and re-load, C17 damaged or failing files load cleanly or truthfully, C18 a failed write is reported.
// Simulated: the disk (every read, write, open, close: short, interrupted, failing, full, crashing, changing underneath), memory.
#include "common.h"
#include "disk.h"
#include <iostream>
#include <alloca.h>
#include <cstring>
using namespace sim;
namespace {
struct Mute { std::ostringstream o, e; std::streambuf *a, *b, *c; Mute() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); c = std::clog.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); std::clog.rdbuf(c); } };
void perturb() { static const unsigned char f[] = {0xbe, 0, 0xff, 0x01}; heap_fill(f[wl(4)]); }
void read_patterns(bool on) { enable_fault(F_READ_SHORT, on && wl(4) != 0); enable_fault(F_EINTR, on && wl_bool()); }
enum Fmt { CSV, DATA, ARFF, TXT, NFMT };
const char* const exts[] = {"csv", "data", "arff", "txt"};
struct Table { bool classification = true, named = false, at_end = false; char deli = ','; size_t dim = 0; std::vector<Vec> x; std::vector<std::string> y; std::vector<int> fn; };
double draw_value() {
    switch (wl(6)) { case 0: case 1: return (double)wl_range(-20, 20); case 2: return (double)wl_range(-4000, 4000) / 8.0; case 3: return (double)wl_range(-999999, 999999) / 1e4; case 4: { static const double s[] = {1e-12, 1e-7, 1e-5, 1e-4, 1e5, 1e6, 1e9, 1e20}; return (double)wl_range(-999, 999) * s[wl(8)]; } default: { static const double o[] = {0, 0.1, 1.0 / 3, -2.0 / 3, 123456.789, 1e-300, 1e300}; return o[wl(7)]; } }
}
std::string num(double v) { char b[64]; snprintf(b, sizeof b, "%g", v); return b; }
bool g_unlabelled = false;   // .txt files have no classes
Table draw_table(Fmt f, int maxn = 10, bool plain = false) {
    if (f == TXT) g_unlabelled = true; Table t; bool wide = wl(14) == 13; if (wide) maxn = 40 + (int)wl(300); t.dim = 1 + wl(wide ? 14 : 4); size_t n = wl((u64)maxn + 1); t.classification = wl(4) != 0; t.named = f != TXT && !plain && t.classification && wl(3) == 0; t.at_end = f == ARFF ? true : f == DATA || f == CSV ? (!plain && wl_bool()) : false; if (f == CSV && !plain && wl(4) == 0) t.deli = ';';
    static const std::vector<std::vector<std::string>> sets = {{"1", "-1"}, {"-1", "1"}, {"1", "2", "3"}, {"-1", "0", "1"}, {"2", "-1", "1"}, {"0", "1"}, {"5", "-3"}, {"7"}, {"100", "-250", "31"}, {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"}}; static const std::vector<std::string> names = {"Iris-setosa", "Iris-virginica", "pos", "neg", "x1", "c6", "c7", "c8", "c9", "c10", "c11"};
    const auto& set = sets[wl(sets.size())]; bool big = wl(3) == 0;
    for (size_t i = 0; i < n; i++) { Vec x; for (size_t j = 0; j < t.dim; j++) x.push_back(big ? draw_value() : (double)wl_range(-40, 40) / 4.0); t.x.push_back(x); if (t.named) t.y.push_back(names[wl(names.size())]); else if (t.classification) t.y.push_back(set[wl(set.size())]); else t.y.push_back(num(wl_bool() ? (double)wl_range(-9, 9) : (double)wl_range(-9999, 9999) / 16.0)); }
    for (size_t j = 0; j < t.dim; j++) t.fn.push_back((int)j + 1); if (f == DATA && wl(3) == 0) { int k = 1 + (int)wl(9); for (auto& v : t.fn) { v = k; k += 1 + (int)wl(12); } }
    return t;
}
// the text of a table in a format the loaders document
std::string text_of(const Table& t, Fmt f) {
    std::string s; bool crlf = wl(6) == 0, last = wl(4) != 0; size_t n = t.x.size();
    for (size_t i = 0; i < n; i++) {
        std::string r; auto add = [&](const std::string& v, const char* sep) { if (!r.empty()) r += sep; r += v; }; char d[2] = {t.deli, 0};
        if (f == CSV || f == ARFF) { if (!t.at_end) add(t.y[i], d); for (double v : t.x[i]) add(num(v), d); if (t.at_end) add(t.y[i], d); }
        else if (f == DATA) { if (!t.at_end) add(t.y[i], " "); for (size_t j = 0; j < t.dim; j++) add(std::to_string(t.fn[j]) + ":" + num(t.x[i][j]), " "); if (t.at_end) add(t.y[i], " "); if (wl(6) == 0) r += " "; }
        else { add("\"id" + std::to_string(i) + "\"", " "); add(std::to_string(i + 1), " "); for (double v : t.x[i]) add(num(v), " "); }
        s += r; if (i + 1 < n || last) s += crlf ? "\r\n" : "\n";
    }
    return s;
}
void log_text(const char* what, const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); o += b; } else o += c; if (o.size() > 3000) break; } log("%s (%zu bytes): %s", what, s.size(), o.c_str()); }
bool six(double got, double want) { return got == want || std::fabs(got - want) <= 6e-6 * std::fabs(want); }
struct Loaded { bool ok = false, threw = false; std::string what; };
Loaded load(Data& d, const std::string& path, int mode) { Loaded r; Cpu cpu(100); try { r.ok = mode == 0 ? d.load(path) : d.load(path, mode == 2); } catch (const std::bad_alloc&) { r.threw = true; r.what = "bad_alloc"; } catch (const std::exception& e) { r.threw = true; r.what = e.what(); } return r; }
int mode_of(const Table& t, Fmt f) { if (f == ARFF) return wl_bool() ? 0 : 2; if (f == TXT || f == DATA) return 0; return t.at_end ? 2 : (wl_bool() ? 0 : 1); }
void snap(Vec& v, const Data& d) { v.push_back((double)d.size()); v.push_back((double)d.dim()); for (size_t i = 0; i < d.size(); i++) { v.push_back((double)d[i]->Id()); v.push_back(d[i]->Y()); for (double x : d[i]->X()) v.push_back(x); } for (int c : d.classes()) v.push_back(c); for (size_t c : d.classesDistribution()) v.push_back((double)c); for (int i : d.getFeaturesNames()) v.push_back(i); for (int i : d.getIndex()) v.push_back(i); for (auto& s : d.classesNames()) { u64 h = 7; for (char c : s) h = h * 131 + (unsigned char)c; v.push_back((double)(h % 1000003)); } }
// whatever a loader did, what is in the object can be walked
void walk(const Data& d, const char* what, bool strict = false) {
    size_t n = d.size(), dim = d.dim(); std::map<double, size_t> cnt; for (size_t i = 0; i < n; i++) { if (!d[i]) violate("malformed", "%s: sample %zu of %zu does not exist", what, i, n); if (d[i]->size() != dim) violate("malformed", "%s: sample %zu has %zu features, the dataset has dimension %zu", what, i, d[i]->size(), dim); for (double v : d[i]->X()) if (v != v) violate("malformed", "%s: a feature of sample %zu is not a number", what, i); cnt[d[i]->Y()]++; }
    if (d.isClassification() && n && !(g_unlabelled && d.classes().empty())) { auto cl = d.classes(); auto di = d.classesDistribution(); if (cl.size() != di.size()) violate("malformed", "%s: %zu classes, but a distribution over %zu", what, cl.size(), di.size()); size_t tot = 0; for (size_t i = 0; i < cl.size(); i++) { tot += di[i]; if (cnt[cl[i]] != di[i] && !(!strict && cl[i] == 0 && di[i] < cnt[0])) violate("malformed", "%s: class %d has %zu samples, its distribution says %zu", what, cl[i], cnt[cl[i]], di[i]); }
        size_t nolabel = cnt[0]; for (size_t i = 0; i < cl.size(); i++) if (cl[i] == 0) nolabel -= di[i]; if (tot + (strict ? 0 : nolabel) != n) violate("malformed", "%s: the class distribution adds up to %zu of %zu samples", what, tot, n); }
    Data c = d.copy(); if (c.size() != n) violate("malformed", "%s: its copy has %zu of %zu samples", what, c.size(), n);
}
void same_table(const Data& d, const Table& t, Fmt f, const char* what) {
    if (d.size() != t.x.size()) violate("lost", "%s: %zu samples loaded, %zu are in the file", what, d.size(), t.x.size()); walk(d, what, true); if (t.x.empty()) return; if (d.dim() != t.dim) violate("lost", "%s: dimension %zu, the file has %zu", what, d.dim(), t.dim); std::map<std::string, double> map; std::map<double, std::string> back;
    for (size_t i = 0; i < d.size(); i++) { for (size_t j = 0; j < t.dim; j++) if (!six((*d[i])[j], t.x[i][j])) violate("altered", "%s: feature %zu of sample %zu is %.10g, was %.10g", what, j, i, (*d[i])[j], t.x[i][j]); double y = d[i]->Y(); if (f == TXT) continue; if (t.named) { if (map.count(t.y[i]) && map[t.y[i]] != y) violate("altered", "%s: class %s is %g and %g", what, t.y[i].c_str(), map[t.y[i]], y); if (back.count(y) && back[y] != t.y[i]) violate("altered", "%s: %g is class %s and %s", what, y, back[y].c_str(), t.y[i].c_str()); map[t.y[i]] = y; back[y] = t.y[i]; } else if (!six(y, atof(t.y[i].c_str()))) violate("altered", "%s: the label of sample %zu is %.10g, was %s", what, i, y, t.y[i].c_str()); if (d[i]->Id() != i + 1) violate("altered", "%s: sample %zu has id %zu", what, i, (size_t)d[i]->Id()); }
    if (f == DATA) { auto fn = d.getFeaturesNames(); if (std::vector<int>(fn.begin(), fn.end()) != t.fn) violate("altered", "%s: the feature names changed", what); }
}
Data* fresh(const Table& t) { Data* d = new Data; if (!t.classification) d->setType("Regression"); return d; }
Data* table_data(const Table& t) { Data* d = fresh(t); for (size_t i = 0; i < t.x.size(); i++) { Pt p(t.dim); for (size_t j = 0; j < t.dim; j++) p[j] = t.x[i][j]; p.Y() = atof(t.y[i].c_str()); d->insertPoint(p); } if (t.x.size()) d->setFeaturesNames(t.fn); return d; }
}
// ---- C16 -------------------------------------------------------------------------------------------------
SCENARIO(C16, write_and_load, 3) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Fmt f = wl_bool() ? CSV : DATA; Table t = draw_table(f, 10, true); Data* d = table_data(t); read_patterns(true); enable_fault(F_WRITE_SHORT, wl_bool()); char ph[128]; snprintf(ph, sizeof ph, "write as .%s and load", exts[f]); phase(ph); log_cloud(Cloud{t.x, Vec(t.x.size()), t.dim}); for (auto& y : t.y) log("  label %s", y.c_str());
    if (f == DATA && t.x.size() && wl(4) == 0) { d->shuffle(1 + wl(9)); for (size_t i = 0; i < d->size(); i++) { t.x[i] = Vec((*d)[i]->X().begin(), (*d)[i]->X().end()); t.y[i] = num((*d)[i]->Y()); } }
    if (t.x.size() > 2 && wl(4) == 0) { size_t k = 1 + wl(t.x.size()); size_t pos = 0; while (pos < d->size() && (*d)[pos]->Id() != k) pos++; if (d->removePoint((int)k) && pos < t.x.size()) { t.x.erase(t.x.begin() + (long)pos); t.y.erase(t.y.begin() + (long)pos); } }
    { Cpu cpu(100); d->write("/sim/dir.v1/set", exts[f]); } if (!mute.e.str().empty()) violate("spurious-report", "%s: nothing failed, but writing reports: %s", ph, mute.e.str().c_str()); std::string path = std::string("/sim/dir.v1/set.") + exts[f], text; if (!disk_get(path, &text)) violate("lost", "%s: there is no file", ph); log_text("written", text); u64 h = 1; for (char c : text) h = h * 31 + (unsigned char)c; note(h);
    Data* a = fresh(t); Loaded r = load(*a, path, wl_bool() ? 0 : 1); if (!r.ok) violate("rejected", "%s: a file just written is not loaded back: %s%s", ph, r.what.c_str(), mute.e.str().c_str()); same_table(*a, t, f, ph); Vec va; snap(va, *a);
    Data* b = wl_bool() ? fresh(t) : a; read_patterns(true); r = load(*b, path, 0); if (!r.ok) violate("rejected", "%s: the second load of the same bytes fails", ph); Vec vb; snap(vb, *b); if (va != vb) violate("not-repeatable", "%s: %s gives another dataset", ph, a == b ? "loading the same file again into the same object" : "another read pattern");
    if (t.x.size()) { Cpu cpu(100); b->write("/sim/again", exts[f]); } std::string again; if (t.x.size() && (!disk_get(std::string("/sim/again.") + exts[f], &again) || again != text)) violate("altered", "%s: writing what was loaded gives another file", ph);
    if (disk_open_handles()) violate("handle-leak", "%s: %u files are still open", ph, disk_open_handles()); probe("C16 datasets written and loaded");
}
SCENARIO(C16, read_patterns, 3) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Fmt f = (Fmt)wl(NFMT); Table t = draw_table(f); std::string text = text_of(t, f), path = std::string("/sim/") + (wl_bool() ? "set." : "a.b/my.set.") + exts[f]; disk_put(path, text); log_text("file", text); char ph[128]; snprintf(ph, sizeof ph, "load of a .%s file%s", exts[f], t.at_end ? ", class last" : ""); phase(ph);
    int m = mode_of(t, f); Data* a = fresh(t); read_patterns(false); Loaded r = load(*a, path, m); if (!r.ok) violate("rejected", "%s: a good file is not loaded: %s%s", ph, r.what.c_str(), mute.e.str().c_str()); same_table(*a, t, f, ph); Vec va; snap(va, *a); for (double x : va) note_d(x);
    for (int k = 0, K = 1 + (int)wl(3); k < K; k++) {
        read_patterns(true); Data* b = fresh(t); int h = (int)wl(4);
        if (h == 1) { Table o = draw_table(CSV, 6); o.classification = t.classification; for (auto& y : o.y) y = std::to_string(1 + wl(3)); o.named = false; disk_put("/sim/other.csv", text_of(o, CSV)); log("the object held another dataset before"); load(*b, "/sim/other.csv", o.at_end ? 2 : 0); }
        else if (h == 2) { log("the object held the same dataset before"); load(*b, path, m); } else if (h == 3) { Pt p(t.dim + wl(2)); p.Y() = 3; b->insertPoint(p); log("the object held a point before"); }
        r = load(*b, path, m); if (!r.ok) violate("rejected", "%s: the same bytes, read in other pieces, are not loaded: %s", ph, r.what.c_str()); Vec vb; snap(vb, *b); if (va != vb) { size_t i = 0; while (i < va.size() && i < vb.size() && va[i] == vb[i]) i++; violate("not-repeatable", "%s: loading the same bytes %s gives another dataset: entry %zu of %zu is %g, was %g of %zu", ph, h == 0 ? "in other pieces" : "into a used object", i, vb.size(), i < vb.size() ? vb[i] : 0, i < va.size() ? va[i] : 0, va.size()); }
    }
    if (disk_open_handles()) violate("handle-leak", "%s: %u files are still open", ph, disk_open_handles()); probe("C16 read patterns compared");
}
SCENARIO(C16, plot_format, 1) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Table t = draw_table(CSV, 8, true); if (t.x.empty()) { note(1); return; } Data* d = table_data(t); enable_fault(F_WRITE_SHORT, wl_bool()); enable_fault(F_EINTR, wl_bool()); phase("write as .plt"); { Cpu cpu(100); d->write("/sim/p", "plt"); } std::string text; if (!disk_get("/sim/p.plt", &text)) violate("lost", "there is no .plt file"); log_text("written", text); std::istringstream in(text); std::string l; size_t i = 0;
    while (std::getline(in, l)) { std::istringstream r(l); double y, v; if (i >= t.x.size() || !(r >> y) || !six(y, atof(t.y[i].c_str()))) violate("altered", "line %zu of the .plt file is not sample %zu: %s", i, i, l.c_str()); for (size_t j = 0; j < t.dim; j++) if (!(r >> v) || !six(v, t.x[i][j])) violate("altered", "line %zu of the .plt file is not sample %zu: %s", i, i, l.c_str()); if (r >> v) violate("altered", "line %zu of the .plt file has too many values", i); i++; }
    if (i != t.x.size()) violate("lost", "the .plt file has %zu of %zu samples", i, t.x.size()); probe("C16 plot files compared");
}
// ---- C17 -------------------------------------------------------------------------------------------------
namespace {
std::string trim(const std::string& s) { size_t a = 0, b = s.size(); while (a < b && isspace((unsigned char)s[a])) a++; while (b > a && isspace((unsigned char)s[b - 1])) b--; return s.substr(a, b - a); }
std::vector<std::string> pieces(const std::string& s, char d, bool skip) { std::vector<std::string> v; std::istringstream in(s); std::string i; while (std::getline(in, i, d)) if (!skip || !i.empty()) v.push_back(i); return v; }
bool strict_num(const std::string& s, double* v) { if (s.empty() || s.size() > 40) return false; for (char c : s) if (!(isdigit((unsigned char)c) || c == '.' || c == '-' || c == '+' || c == 'e')) return false; char* e; *v = strtod(s.c_str(), &e); if (*e || !std::isfinite(*v)) return false; size_t ex = s.find('e'); std::string m = s.substr(0, ex); int dots = 0, dig = 0; for (size_t i = 0; i < m.size(); i++) { dots += m[i] == '.'; dig += isdigit((unsigned char)m[i]) != 0; } return dots <= 1 && dig >= 1 && dig <= 17; }
bool strict_int(const std::string& s, double* v) { size_t i = s[0] == '-'; if (s.size() == i || s.size() > 7) return false; for (size_t k = i; k < s.size(); k++) if (!isdigit((unsigned char)s[k])) return false; if (s[i] == '0' && s.size() > i + 1) return false; *v = atof(s.c_str()); return true; }
bool name_like(const std::string& s) { if (s.empty()) return false; bool alpha = false; for (char c : s) { if (!(isalnum((unsigned char)c) || c == '_' || c == '-')) return false; if (isalpha((unsigned char)c) && c != 'e') alpha = true; } return alpha; }
// does the loaded dataset say what these bytes say? Empty string: yes
std::string compare(const Data& d, const std::string& bytes, Fmt f, bool at_end, bool classification) {
    std::vector<std::string> lines = pieces(bytes, '\n', false); char b[300]; if (d.size() != lines.size()) { snprintf(b, sizeof b, "%zu samples for %zu rows", d.size(), lines.size()); return b; }
    char deli = ','; if (f == CSV && !lines.empty()) for (char c : trim(lines[0])) if (c == ',' || c == ';') { deli = c; break; }
    std::map<std::string, double> names; bool all_names = true; for (size_t i = 0; i < lines.size(); i++) {
        std::string l = trim(lines[i]); std::vector<std::string> it; std::vector<double> x; std::vector<char> known; std::string lab; size_t n = 0; bool have_lab = false;
        if (f == CSV || f == ARFF) { it = pieces(l, f == CSV ? deli : ',', false); n = it.size() ? it.size() - 1 : 0; if (d.dim() != n) { snprintf(b, sizeof b, "dimension %zu, but row %zu has %zu entries", d.dim(), i, it.size()); return b; } if (it.empty() || l.back() == deli) continue; have_lab = true; lab = at_end ? it.back() : it[0]; it.erase(at_end ? it.end() - 1 : it.begin()); }
        else if (f == DATA) { it = pieces(l, ' ', true); for (auto& s : it) s = trim(s); it.erase(std::remove(it.begin(), it.end(), std::string()), it.end()); std::vector<std::string> o; size_t labs = 0; bool bad = false; for (auto& s : it) { size_t c = s.find(':'); if (c == std::string::npos) { labs++; lab = trim(s); } else { if (s.find(':', c + 1) != std::string::npos || c + 1 == s.size()) bad = true; o.push_back(s.substr(c + 1)); } } if (it.size() ? d.dim() != it.size() - 1 : d.dim() != 0) { snprintf(b, sizeof b, "dimension %zu, but row %zu has %zu entries", d.dim(), i, it.size()); return b; } if (labs != 1 || bad) { snprintf(b, sizeof b, "row %zu is not in the .data format, yet it was loaded", i); return b; } have_lab = true; it = o; }
        else { it = pieces(l, ' ', false); size_t k = it.size() > 2 ? it.size() - 2 : 0; if (d.dim() != k) { snprintf(b, sizeof b, "dimension %zu, but row %zu has %zu entries", d.dim(), i, it.size()); return b; } it.erase(it.begin(), it.begin() + (long)std::min<size_t>(2, it.size())); }
        for (size_t j = 0; j < it.size() && j < d.dim(); j++) { double v; if (strict_num(it[j], &v) && !close((*d[i])[j], v, 1e-9) && !(std::fabs(v) > 1e290 || (v != 0 && std::fabs(v) < 1e-290))) { snprintf(b, sizeof b, "feature %zu of sample %zu is %.10g, the row says %.60s", j, i, (*d[i])[j], it[j].c_str()); return b; } }
        if (have_lab) { double v; double y = d[i]->Y(); if (classification && strict_int(lab, &v)) { all_names = false; if (y != v) { snprintf(b, sizeof b, "sample %zu has label %g, the row says %.60s", i, y, lab.c_str()); return b; } } else if (!classification && strict_num(lab, &v)) { if (!close(y, v, 1e-9)) { snprintf(b, sizeof b, "sample %zu has label %g, the row says %.60s", i, y, lab.c_str()); return b; } } else if (classification && name_like(lab)) { if (names.count(lab) && names[lab] != y) { snprintf(b, sizeof b, "class %.60s is %g and %g", lab.c_str(), names[lab], y); return b; } names[lab] = y; } else all_names = false; }
    }
    if (all_names) { std::set<double> s; for (auto& k : names) if (!s.insert(k.second).second) { snprintf(b, sizeof b, "two classes are both %g", k.second); return b; } }
    return "";
}
std::string damage(std::string s, Fmt f, int times) {
    for (; times > 0 && !s.empty(); times--) { size_t n = s.size(), p = wl(n), len = 1 + wl(std::min<size_t>(n - p, wl_bool() ? 8 : 64)); switch (wl(9)) {
        case 0: s.resize(p); log("damage: cut at byte %zu", p); break;
        case 1: s.erase(p, len); log("damage: bytes %zu+%zu lost", p, len); break;
        case 2: for (size_t i = p; i < p + len; i++) s[i] = '\0'; log("damage: bytes %zu+%zu are zero", p, len); break;
        case 3: { std::string c = s.substr(p, len); s.insert(p, c); log("damage: bytes %zu+%zu are there twice", p, len); break; }
        case 4: { static const char g[] = " ,;:.\n-+e0179\"ax\t\r"; s[p] = g[wl(sizeof g - 1)]; log("damage: byte %zu becomes 0x%02x", p, (unsigned char)s[p]); break; }
        case 5: { static const char* const g[] = {"\n", "\n\n", ",", ":", " ", "1:2:3:4", ",,", "e", "-", "99999999999", "\xff\xfe", "?", " 3 ", ";"}; const char* x = g[wl(14)]; s.insert(p, x); log("damage: %zu bytes inserted at %zu", strlen(x), p); break; }
        case 6: { size_t q = s.find('\n', p); if (q != std::string::npos) { s.erase(q, 1); log("damage: the line end at %zu is lost", q); } break; }
        case 7: { std::string drop = wl_bool() && f == DATA ? ":" : f == DATA || f == TXT ? " " : ","; size_t q = s.find(drop, p); if (q != std::string::npos) { s.erase(q, 1); log("damage: the separator at %zu is lost", q); } break; }
        case 8: { for (size_t i = p; i < p + len; i++) s[i] = (char)wl(256); log("damage: bytes %zu+%zu are garbage", p, len); break; } } }
    return s;
}
// judge a load against what the disk showed
void judge(Data& d, const Loaded& r, const std::string& path, Fmt f, bool at_end, bool classification, const char* ph) {
    if (!classification && d.isClassification()) violate("altered", "%s: the dataset was set to regression, the load made it a classification dataset", ph);
    if (f == DATA) classification = d.isClassification();   // a label with a fraction, last in the row, makes a .data file a regression dataset
    if (r.threw && r.what != "bad_alloc") violate("load-threw", "%s: load threw: %s", ph, r.what.c_str()); walk(d, ph); note(r.ok); if (!r.ok) { probe("C17 loads that reported failure"); if (r.threw) probe("C17 loads out of memory"); return; }
    std::string why = "no pass over the file reached its end"; bool good = false; for (auto& s : disk_streams()) { if (s.path != path || !s.eof || s.failed) continue; std::string w = compare(d, s.bytes, f, at_end, classification); if (w.empty()) { good = true; break; } why = w; }
    if (!good) violate("false-success", "%s: load reports success, but %s", ph, why.c_str()); probe("C17 loads that reported success");
}
}
SCENARIO(C17, damaged_file, 4) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Fmt f = (Fmt)wl(NFMT); Table t = draw_table(f, 7); std::string text = damage(text_of(t, f), f, 1 + (int)wl(3)), path = std::string("/sim/set.") + exts[f]; disk_put(path, text); log_text("file", text); int m = f == ARFF ? (wl(4) == 0 ? 1 : 0) : f == CSV ? (t.at_end ? 2 : 0) : 0; char ph[128]; snprintf(ph, sizeof ph, "load of a damaged .%s file%s", exts[f], m == 2 ? ", class last" : m == 1 ? ", class first" : ""); phase(ph);
    read_patterns(true); Data* d = fresh(t); if (wl(5) == 0) { disk_put("/sim/old.csv", "1,2,3\n-1,3,4\n"); load(*d, "/sim/old.csv", 0); } if (wl(6) == 0) { enable_fault(F_READ_ERR, true); log("reads may fail"); } disk_streams().clear(); Loaded r = load(*d, path, m); judge(*d, r, path, f, f == ARFF ? m != 1 : t.at_end, t.classification, ph); if (disk_open_handles()) violate("handle-leak", "%s: %u files are still open", ph, disk_open_handles());
    faults_stop(); if (wl_bool()) { disk_put("/sim/new.csv", "1,2,3\n-1,3,4\n1,0,5\n"); log("the same object loads a good file afterwards"); phase("load of a good file after a damaged one"); Loaded q = load(*d, "/sim/new.csv", 0); if (!q.ok || d->size() != 3 || d->dim() != 2) violate("stuck", "after that load the same object cannot load a good file"); walk(*d, "load of a good file after a damaged one"); }
    probe("C17 damaged files loaded");
}
SCENARIO(C17, failing_disk, 4) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Fmt f = (Fmt)wl(NFMT); bool large = wl(12) == 0; Table t = draw_table(f, 7); std::string text = text_of(t, f); if (large && !t.x.empty()) { if (text.back() != '\n') text += '\n'; std::string one = text; int reps = 2 + (int)(wl(3) * 9000 / one.size()); for (int i = 0; i < reps; i++) text += one; } std::string path = std::string("/sim/set.") + exts[f]; disk_put(path, text); log_text("file", text); int m = mode_of(t, f); char ph[128]; snprintf(ph, sizeof ph, "load of a .%s file from a failing disk", exts[f]); phase(ph);
    read_patterns(true); enable_fault(F_READ_ERR, wl_bool()); enable_fault(F_OPEN, wl(4) == 0); enable_fault(F_TRUNC, wl(3) == 0); if (wl(3) == 0) { Table o = draw_table(f, 7); if (wl_bool()) { o = t; for (int i = 0; i < 3; i++) { o.x.push_back(Vec(t.dim, (double)i)); o.y.push_back(t.named ? "pos" : "1"); } } std::string alt = text_of(o, f); disk_alternative(path, alt); log_text("may become", alt); enable_fault(F_SWAP, true); }
    bool mem = wl(5) == 0; enable_fault(F_ALLOC, mem); Data* d = fresh(t); Loaded r; { Cpu cpu(100); FaultScope fs(mem ? SC_ALLOC : 0); try { r.ok = m == 0 ? d->load(path) : d->load(path, m == 2); } catch (const std::bad_alloc&) { r.threw = true; r.what = "bad_alloc"; } catch (const std::exception& e) { r.threw = true; r.what = e.what(); } }
    enable_fault(F_ALLOC, false); faults_stop(); judge(*d, r, path, f, f == ARFF || t.at_end, t.classification, ph); if (disk_open_handles()) violate("handle-leak", "%s: %u files are still open", ph, disk_open_handles());
    if (wl_bool()) { disk_put(path, text); Data* e = wl_bool() ? d : fresh(t); phase("load of the same file once the disk works again"); disk_streams().clear(); Loaded q = load(*e, path, m); if (!q.ok) violate("stuck", "%s: the file is not loaded once the disk works again", ph); judge(*e, q, path, f, f == ARFF || t.at_end, t.classification, ph); }
    probe("C17 loads from a failing disk");
}
SCENARIO(C17, crash_while_writing, 2) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); Fmt f = wl_bool() ? CSV : DATA; Table t = draw_table(f, 9, true); Data* d = table_data(t); std::string path = std::string("/sim/set.") + exts[f]; if (wl(3) == 0) disk_put(path, "1,1,2\n"); enable_fault(F_CRASH, true); enable_fault(F_WRITE_SHORT, true); enable_fault(F_WRITE_FULL, wl_bool()); phase("write, torn by a crash"); { Cpu cpu(100); d->write("/sim/set", exts[f]); } faults_stop(); std::string text; disk_get(path, &text); log_text("after the crash", text); if (wl(3) == 0 && text.size() > 1) { text = damage(text, f, 1); disk_put(path, text); }
    char ph[128]; snprintf(ph, sizeof ph, "load of a .%s file torn by a crash", exts[f]); phase(ph); disk_streams().clear(); Data* e = fresh(t); Loaded r = load(*e, path, 0); judge(*e, r, path, f, false, t.classification, ph); if (disk_crashed()) probe("C17 crashed writes loaded");
}
SCENARIO(C17, file_names, 1) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); static const char* const odd[] = {"/sim/nodots", "/sim/", "", ".", "/sim/x.", "a", "/sim/x.plt", "/sim/dir.csv/", "/sim/x.dat", "/sim/.csv", "/sim/missing.csv", "/sim/missing.data", "/sim/missing.arff", "/sim/missing.txt", "csv", "/", "v", "//", "/sim/q.CSV", "/sim/q.csv.bak"}; const char* p = odd[wl(20)]; char ph[128]; snprintf(ph, sizeof ph, "load of \"%s\"", p); phase(ph); std::string path(p); disk_put("/sim/.csv", "1,2\n"); Data* d = new Data; Loaded r = load(*d, path, (int)wl(3)); if (r.threw) violate("load-threw", "%s threw: %s", ph, r.what.c_str()); walk(*d, ph); note(r.ok); note(wl(50)); std::string b; if (r.ok && !disk_get(path, &b)) violate("false-success", "%s: there is no such dataset, but load reports success", ph); probe("C17 odd file names");
}
// ---- C18 -------------------------------------------------------------------------------------------------
SCENARIO(C18, failing_write, 1) {
    set_limits(60000000, 1e6); disk_reset(); Mute mute; perturb(); static const char* const ex[] = {"csv", "data", "plt"}; int f = (int)wl(3); bool large = wl(4) == 0; Table t = draw_table(f == 1 ? DATA : CSV, 9, true); if (t.x.empty()) { note(wl(100)); } Data* d = table_data(t); if (large && t.x.size()) { int n = 100 + (int)wl(900); for (int i = 0; i < n; i++) { Pt p(t.dim); for (size_t j = 0; j < t.dim; j++) p[j] = i + (double)j / 4; p.Y() = atof(t.y[(size_t)i % t.y.size()].c_str()); d->insertPoint(p); } }
    // what the file must hold: the same write on a disk that works
    { Cpu cpu(100); d->write("/sim/want", ex[f]); } std::string want; if (!disk_get(std::string("/sim/want.") + ex[f], &want)) violate("lost", "a working disk holds no file"); mute.e.str(""); mute.o.str("");
    char ph[128]; snprintf(ph, sizeof ph, "write of %zu samples as .%s to a failing disk", d->size(), ex[f]); phase(ph); std::string path = std::string("/sim/got.") + ex[f]; bool old = wl(3) == 0; if (old) disk_put(path, "1,5,5\n-1,6,6\n"); unsigned before = disk_write_errors();
    enable_fault(F_OPEN, wl(4) == 0); enable_fault(F_WRITE_ERR, wl(3) == 0); enable_fault(F_WRITE_SHORT, wl_bool()); enable_fault(F_EINTR, wl_bool()); enable_fault(F_WRITE_FULL, wl(3) == 0); enable_fault(F_CLOSE_ERR, wl(3) == 0); if (wl(4) == 0) { disk_capacity((long long)wl(want.size() + 2)); log("the disk is nearly full"); } bool mem = wl(8) == 0; enable_fault(F_ALLOC, mem); bool threw = false;
    { Cpu cpu(100); FaultScope fs(mem ? SC_ALLOC : 0); try { d->write("/sim/got", ex[f]); } catch (const std::exception&) { threw = true; } } faults_stop(); disk_capacity(-1); bool reported = threw || !mute.e.str().empty(); std::string got; bool have = disk_get(path, &got); note(reported); note(got.size()); log("%s; the file has %zu of %zu bytes", reported ? "reported" : "nothing reported", got.size(), want.size());
    if (!reported && disk_write_errors() > before) violate("silent-failure", "%s: the disk reported %u error(s), the caller was told nothing and the file has %zu of %zu bytes", ph, disk_write_errors() - before, got.size(), want.size());
    if (!reported && (!have || got != want)) violate("silent-failure", "%s: the caller was told nothing, but the file has %zu of %zu bytes", ph, got.size(), want.size());
    if (disk_open_handles()) violate("handle-leak", "%s: %u files are still open", ph, disk_open_handles());
    if (reported) probe("C18 failed writes reported"); else probe("C18 complete writes");
    // and once the disk works, the same object writes the complete file
    mute.e.str(""); { Cpu cpu(100); d->write("/sim/got", ex[f]); } disk_get(path, &got); if (got != want) violate("stuck", "%s: once the disk works the file has %zu of %zu bytes", ph, got.size(), want.size()); if (!mute.e.str().empty()) violate("spurious-report", "%s: a write that worked reports: %s", ph, mute.e.str().c_str());
}
