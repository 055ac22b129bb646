// C19 plot commands reach the plotter whole and in order, or fail loudly. Real code: mltk's Gnuplot session class. Simulated: the
// plotter process (spawn, pipe writes, death at any byte, close), the environment it is found through, the disk of its data files.
#include "common.h"
#include "disk.h"
#include "plotter.h"
#include "ufjfmltk/visual/gnuplot_i.hpp"
#include <csignal>
#include <pthread.h>
#include <memory>
#include <new>
#include <climits>
using namespace sim;
namespace {
std::string show(const std::string& s) { std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else o += c; if (o.size() > 160) { o += "..."; break; } } return o; }
std::string unblank(const std::string& s) { std::string o; char q = 0; for (char c : s) { if (q) { o += c; if (c == q) q = 0; } else if (c == '"' || c == '\'') { q = c; o += c; } else if (c != ' ') o += c; } return o; }   // blanks between words do not matter
// the process around the session
int g_host; volatile sig_atomic_t g_handled; void on_pipe(int) { g_handled = g_handled + 1; }
void host_setup() {
    g_host = (int)wl(6); struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = g_host == 1 ? SIG_IGN : g_host == 2 ? on_pipe : SIG_DFL; sigaction(SIGPIPE, &sa, nullptr); sigset_t s; sigemptyset(&s); sigaddset(&s, SIGPIPE);
    if (g_host >= 3 && g_host <= 4) pthread_sigmask(SIG_BLOCK, &s, nullptr); else pthread_sigmask(SIG_UNBLOCK, &s, nullptr); if (g_host == 4) pthread_kill(pthread_self(), SIGPIPE); static const char* const n[] = {"default", "ignored", "handled by the program", "blocked", "blocked, one pending", "default"}; log("SIGPIPE: %s", n[g_host]);
}
void host_check(const char* after) {
    struct sigaction sa; sigaction(SIGPIPE, nullptr, &sa); auto want = g_host == 1 ? SIG_IGN : g_host == 2 ? on_pipe : SIG_DFL; if (sa.sa_handler != want) violate("signals", "%s changed what the process does on SIGPIPE", after);
    sigset_t m; pthread_sigmask(SIG_BLOCK, nullptr, &m); bool b = g_host >= 3 && g_host <= 4; if ((bool)sigismember(&m, SIGPIPE) != b) violate("signals", "%s left SIGPIPE %s", after, b ? "unblocked" : "blocked"); sigpending(&m); if (g_host != 3 && (bool)sigismember(&m, SIGPIPE) != (g_host == 4)) violate("signals", "%s %s", after, g_host == 4 ? "swallowed a SIGPIPE that was already pending" : "left a SIGPIPE pending");
}
struct Env { bool disp, reachable, found; std::string dir; };
std::string g_home; std::string g_manual; bool g_manual_set;   // what the program told the library about the plotter's directory
// draw where the plotter is installed and how it can be found; says whether a session can be started
bool draw_env(bool plain) {
    plotter_reset(); disk_reset(); static const std::vector<std::string> dirs = {"/usr/bin", "/opt/gnuplot/bin", "/usr/local/bin", "/home/me/my tools", "/opt/plot's", "/opt/a$b", "/opt/x;y", "/opt/(x86)"};
    bool disp = plain || wl(6) != 0; size_t home = plain ? wl(3) : wl(dirs.size()); bool installed = plain || wl(8) != 0, exec = plain || wl(8) != 0; g_home = dirs[home]; if (installed) plotter_install(dirs[home] + "/gnuplot", exec); if (fault(F_NOENV, 1, plain ? 0 : 0.1)) { fault_fired(F_NOENV); disp = false; }
    std::string path; bool inpath = false, haspath = plain || wl(8) != 0; size_t parts = wl(4); for (size_t i = 0; i <= parts; i++) { size_t d = wl(dirs.size()); bool here = i == parts && (plain || wl(4) != 0); if (here) d = home; if (d == home) inpath = true; path += (path.empty() ? "" : ":") + dirs[d]; }
    if (!plain && wl(6) == 0) { plotter_install("/sbin/gnuplot", 0); path = "/sbin:" + path; } plotter_env(disp, haspath ? path.c_str() : nullptr); log("DISPLAY %s, PATH %s, gnuplot %s in %s", disp ? ":0" : "(not set)", haspath ? path.c_str() : "(not set)", installed ? exec ? "installed" : "not executable" : "missing", dirs[home].c_str());
    bool found = installed && exec && (dirs[home] == "/usr/local/bin" || (haspath && inpath));
    if (!plain && wl(4) == 0) { std::string where = wl_bool() ? dirs[home] : dirs[wl(dirs.size())]; bool r = Gnuplot::set_GNUPlotPath(where), ok = installed && exec && where == dirs[home]; log("set_GNUPlotPath(%s) = %d", where.c_str(), r); if (r != ok) violate("path", "set_GNUPlotPath(%s) says %d, the plotter %s there", where.c_str(), r, ok ? "is" : "is not"); found = ok || (installed && exec && haspath && inpath); }
    return disp && found;
}
void fault_menu(bool spawn) { enable_fault(F_SPAWN, spawn && wl_bool()); enable_fault(F_PIPE, wl(3) != 0); enable_fault(F_CLOSE_CHILD, wl_bool()); enable_fault(F_EINTR, wl(3) == 0); enable_fault(F_TMP, wl(3) == 0); enable_fault(F_ALLOC, false); bool d = wl(3) == 0; for (FaultKind k : {F_OPEN, F_WRITE_ERR, F_WRITE_FULL, F_CLOSE_ERR}) enable_fault(k, d && wl_bool()); enable_fault(F_WRITE_SHORT, wl(3) == 0); }
struct Plotter {
    Gnuplot* g = nullptr; size_t id = 0; std::string exp; bool two = false, broken = false, poisoned = false; int nplots = 0; std::string style = "points", smooth, name; std::vector<std::string> used;
    Session& s() { return plotter_sessions()[id]; }
    const char* head(bool d2) const { return nplots > 0 && two == d2 ? "replot " : d2 ? "plot " : "splot "; }
    void track(const std::string& c) { if (c.find("replot") != std::string::npos) return; if (c.find("splot") != std::string::npos) { two = false; nplots++; } else if (c.find("plot") != std::string::npos) { two = true; nplots++; } }
};
struct Rows { std::vector<Vec> r; };
void same_rows(const std::string& text, const Rows& want, const char* what) {
    std::istringstream in(text); std::string line; size_t i = 0; while (std::getline(in, line)) { if (line.empty()) continue; if (i >= want.r.size()) violate("data", "%s: the plotter is given more than %zu rows of data", what, want.r.size()); std::istringstream l(line); double v; size_t j = 0; for (; l >> v; j++) if (j >= want.r[i].size() || !(close(v, want.r[i][j], 1e-5))) violate("data", "%s: row %zu of the data the plotter is given is \"%s\"", what, i, line.c_str()); if (j != want.r[i].size()) violate("data", "%s: row %zu of the data the plotter is given has %zu of %zu values", what, i, j, want.r[i].size()); i++; }
    if (i != want.r.size()) violate("data", "%s: the plotter is given %zu of %zu rows of data", what, i, want.r.size());
}
// the bytes delivered by one operation against the commands it stands for; '@' in a command stands for a data file's name
void delivered(Plotter& p, size_t from, size_t seen0, const std::vector<std::string>& lines, const Rows* rows, const char* what) {
    std::string got = p.s().bytes.substr(from); if (p.broken && from && p.s().bytes[from - 1] != '\n' && !got.empty() && got[0] == '\n') got.erase(0, 1); else if (!lines.empty() && p.broken && from && p.s().bytes[from - 1] != '\n') violate("torn", "session %zu: %s succeeds and is glued to a command that was cut short", p.id, what);
    std::string want; for (auto& l : lines) want += l + "\n"; size_t at = want.find('@'); if (at != std::string::npos && rows) { size_t q = got.find("/tmp/gnuploti"); size_t e = q == std::string::npos ? q : got.find_first_of("\"'", q); if (e == std::string::npos) violate("lost", "session %zu: %s: the plotter got \"%s\"", p.id, what, show(got).c_str()); want.replace(at, 1, got.substr(q, e - q)); }
    if (got != want && unblank(got) != unblank(want)) violate(got.size() < want.size() ? "lost" : "altered", "session %zu: %s succeeds: the plotter got \"%s\" (%zu bytes), not \"%s\" (%zu bytes)", p.id, what, show(got).c_str(), got.size(), show(want).c_str(), want.size());
    if (rows) { auto& seen = p.s().seen; if (seen.size() != seen0 + 1) violate("data", "session %zu: %s names %zu data files", p.id, what, seen.size() - seen0); Seen& x = seen.back(); if (!x.there) violate("data", "session %zu: %s: the data file named in the command does not exist when the command arrives", p.id, what); same_rows(x.bytes, *rows, what); for (auto& u : p.used) if (u == x.file) violate("data", "session %zu: %s overwrites the data file of an earlier plot", p.id, what); p.used.push_back(x.file); }
}
template <class F> bool apply(Plotter& p, const std::string& what, const std::vector<std::string>& lines, const Rows* rows, F fn) {
    size_t from = p.s().bytes.size(), seen0 = p.s().seen.size(); unsigned de = disk_write_errors(); bool threw = false, told0 = p.s().told, bad = false; std::string why; log("session %zu: %s", p.id, what.c_str()); phase(what.substr(0, 60).c_str());
    try { fn(); } catch (const std::bad_alloc&) { threw = bad = p.poisoned = true; why = "bad_alloc"; } catch (const GnuplotException& e) { threw = true; why = e.what(); } catch (const std::exception& e) { threw = true; why = e.what(); }
    phase("checking"); host_check(what.substr(0, 60).c_str()); note(threw); std::string want; for (auto& l : lines) want += l + "\n";
    if (!threw) { delivered(p, from, seen0, lines, rows, what.c_str()); p.exp = p.s().bytes; for (auto& l : lines) p.track(l); note(p.exp.size()); return true; }
    log("  -> %s", why.c_str()); probe("C19 operations that failed loudly"); if (!bad && !p.s().told && disk_write_errors() == de && !p.broken) violate("spurious", "session %zu: %s fails though nothing went wrong: %s", p.id, what.c_str(), why.c_str());
    std::string got = p.s().bytes.substr(from); if (!rows && !p.broken && want.compare(0, got.size(), got) && unblank(want).compare(0, unblank(got).size(), unblank(got))) violate("altered", "session %zu: %s fails after the plotter got \"%s\"", p.id, what.c_str(), show(got).c_str());
    if (p.s().told && !told0) p.broken = true; if (p.s().told) p.broken = true; p.exp = p.s().bytes; return false;
}
std::string text(size_t max) { static const std::vector<std::string> w = {"set grid", "%s%n%d", "sin(x)", "plot", "splot", "replot", "a b", "\\n", "", "unset key", "100%", "'q'", "é", "set title \"x\"", ";", "#", "\t"}; std::string s; size_t k = 1 + wl(3); for (size_t i = 0; i < k; i++) s += (i ? " " : "") + w[wl(w.size())]; switch (wl(12)) { case 0: s += std::string(1 + wl(max), 'x'); break; case 1: s += "\nset y2tics"; break; case 2: { size_t n = wl(400); for (size_t i = 0; i < n; i++) s += " " + std::to_string(i); break; } default: break; } return s; }
std::string word() { static const std::vector<std::string> w = {"height", "a b", "100%", "", "x'", "Iris-setosa", "été"}; return wl(10) == 0 ? std::string(200 + wl(5000), 't') : w[wl(w.size())]; }
double number() { switch (wl(4)) { case 0: return (double)wl_range(-50, 50); case 1: return (double)wl_range(-9999, 9999) / 64.0; case 2: return (double)wl_range(-999, 999) * 1e9; default: return (double)wl_range(-999, 999) * 1e-9; } }
std::string n2(double v) { std::ostringstream o; o << v; return o.str(); }
std::string titled(const std::string& t) { return t.empty() ? " notitle " : " title \"" + t + "\" "; }
std::string last(const Plotter& p) { return p.smooth.empty() ? "with " + p.style : "smooth " + p.smooth; }
Vec draw_vec(size_t n) { Vec v; for (size_t i = 0; i < n; i++) v.push_back(number()); return v; }
size_t draw_n() { return wl(5) == 0 ? 200 + wl(1800) : 1 + wl(12); }
std::string g_terminal = "x11";
std::vector<std::string> opening() { return {"set output", "set terminal " + g_terminal}; }
// open a session through one of the constructors; null when it reports a failure
Plotter* open_session(bool able, int how) {
    Plotter* p = new Plotter; size_t k = plotter_sessions().size(), n = draw_n(); Vec x = draw_vec(n), y = draw_vec(n), z = draw_vec(n); std::string title = word(), lx = word(), ly = word(), lz = word(), why; static const std::vector<std::string> styles = {"points", "lines", "linespoints", "dots", "sausages", "boxes"}; std::string st = styles[wl(styles.size())]; p->style = st == "sausages" ? "points" : st; p->id = k;
    std::vector<std::string> lines = opening(); Rows rows; if (how) { lines.push_back("set xlabel \"" + lx + "\""); lines.push_back("set ylabel \"" + ly + "\""); if (how == 3) lines.push_back("set zlabel \"" + lz + "\""); for (size_t i = 0; i < n; i++) { Vec r{x[i]}; if (how > 1) r.push_back(y[i]); if (how > 2) r.push_back(z[i]); rows.r.push_back(r); } lines.push_back(how == 1 ? "plot \"@\" using 1" + titled(title) + "with " + p->style : how == 2 ? "plot \"@\" using 1:2" + titled(title) + "with " + p->style : "splot \"@\" using 1:2:3" + titled(title) + "with " + p->style); }
    unsigned de = disk_write_errors(); plotter_clear_refused(); bool threw = false, bad = false; phase("opening a session"); log("open a session (constructor %d, %zu values)", how, n);
    try { Cpu cpu(50); p->g = how == 0 ? new Gnuplot(st) : how == 1 ? new Gnuplot(x, title, st, lx, ly) : how == 2 ? new Gnuplot(x, y, title, st, lx, ly) : new Gnuplot(x, y, z, title, st, lx, ly, lz); } catch (const std::bad_alloc&) { threw = bad = true; why = "bad_alloc"; } catch (const std::exception& e) { threw = true; why = e.what(); }
    phase("checking"); host_check("opening a session"); auto& all = plotter_sessions(); bool started = all.size() > k; note(threw * 2 + started); if (threw) log("  -> %s", why.c_str());
    if (!threw && (!able || !started)) violate("start", "a session opens though %s", !able ? "no plotter can be reached" : "none was started"); if (started && all[k].program.empty()) violate("start", "the command given to the shell does not name the plotter: %s", all[k].command.c_str());
    bool told = started && all[k].told; if (threw && able && !bad && !plotter_refused() && !told && disk_write_errors() == de) violate("spurious", "opening a session fails though nothing went wrong: %s", why.c_str()); if (threw && started && all[k].open) violate("leak", "opening a session fails and the plotter process it started is never closed: %s", why.c_str());
    if (threw) { probe("C19 sessions that could not be started"); delete p; return nullptr; }
    if (!p->g->is_valid()) violate("start", "an open session says it is not valid"); delivered(*p, 0, 0, lines, how ? &rows : nullptr, "opening a session"); p->exp = p->s().bytes; for (auto& l : lines) p->track(l); if (how) { p->two = how != 3; } return p;
}
void close_session(Plotter* p) {
    size_t id = p->id; log("close session %zu", id); phase("closing a session"); std::string before = p->s().bytes; delete p->g; phase("checking"); host_check("closing a session"); Session& s = plotter_sessions()[id]; if (s.open) violate("leak", "session %zu: the plotter process is not closed with the session", id); if (s.closes != 1) violate("close", "session %zu is closed %d times", id, s.closes); if (!p->broken && !p->poisoned && s.bytes != before && unblank(s.bytes.substr(before.size())) != "exit\n" && unblank(s.bytes.substr(before.size())) != "quit\n") violate("late", "session %zu: \"%s\" reaches the plotter only when the session is closed", id, show(s.bytes.substr(before.size())).c_str()); delete p;
}
void one_op(Plotter& p, bool data) {
    Gnuplot& g = *p.g; switch (wl(data ? 30 : 22)) {
    case 0: case 1: case 2: case 3: { std::string c = text(20000); bool sh = wl_bool(); apply(p, "cmd(\"" + show(c) + "\")", {c}, nullptr, [&] { if (sh) g << c; else g.cmd(c); }); break; }
    case 4: { std::string t = word(); int w = (int)wl(4); static const char* const a[] = {"xlabel", "ylabel", "zlabel", "title"}; apply(p, std::string("set_") + a[w], {std::string("set ") + a[w] + " \"" + t + "\""}, nullptr, [&] { w == 0 ? g.set_xlabel(t) : w == 1 ? g.set_ylabel(t) : w == 2 ? g.set_zlabel(t) : g.set_title(t); }); break; }
    case 5: { double a = number(), b = number(); int w = (int)wl(4); static const char* const n[] = {"xrange", "yrange", "zrange", "cbrange"}; apply(p, std::string("set_") + n[w], {std::string("set ") + n[w] + "[" + n2(a) + ":" + n2(b) + "]"}, nullptr, [&] { w == 0 ? g.set_xrange(a, b) : w == 1 ? g.set_yrange(a, b) : w == 2 ? g.set_zrange(a, b) : g.set_cbrange(a, b); }); break; }
    case 6: { double a = number(), b = number(); std::string t = word(), f = n2(a) + " * x + " + n2(b); apply(p, "plot_slope", {p.head(true) + f + " title \"" + (t.empty() ? "f(x) = " + f : t) + "\" with " + p.style}, nullptr, [&] { g.plot_slope(a, b, t); }); break; }
    case 7: { static const std::vector<std::string> e = {"sin(x)", "x**2 % 3", "exp(-x*x)"}; std::string f = e[wl(e.size())], t = word(); apply(p, "plot_equation", {p.head(true) + f + " title \"" + (t.empty() ? "f(x) = " + f : t) + "\" with " + p.style}, nullptr, [&] { g.plot_equation(f, t); }); break; }
    case 8: { std::string f = wl_bool() ? "x*y" : "sin(x)*cos(y)", t = word(); apply(p, "plot_equation3d", {p.head(false) + f + " title \"" + (t.empty() ? "f(x,y) = " + f : t) + "\" with " + p.style}, nullptr, [&] { g.plot_equation3d(f, t); }); break; }
    case 9: { if (p.broken) break; std::vector<std::string> l; if (p.nplots > 0) l.push_back("replot"); apply(p, "replot", l, nullptr, [&] { g.replot(); }); break; }
    case 10: { if (apply(p, "reset_all", {"reset", "clear", "set output", "set terminal " + g_terminal}, nullptr, [&] { g.reset_all(); })) { p.nplots = 0; p.style = "points"; p.smooth = ""; } break; }
    case 11: { if (apply(p, "reset_plot", {}, nullptr, [&] { g.reset_plot(); })) p.nplots = 0; break; }
    case 12: { static const std::vector<std::string> w = {"lines", "points", "dots", "impulses", "spaghetti"}; std::string s = w[wl(w.size())]; if (apply(p, "set_style " + s, {}, nullptr, [&] { g.set_style(s); })) p.style = s == "spaghetti" ? "points" : s; break; }
    case 13: { static const std::vector<std::string> w = {"csplines", "bezier", "unique", "nothing"}; std::string s = w[wl(w.size())]; if (apply(p, "set_smooth " + s, {}, nullptr, [&] { if (s == "nothing") g.unset_smooth(); else g.set_smooth(s); })) p.smooth = s == "nothing" ? "" : s; break; }
    case 14: { std::string f = word(); apply(p, "savetops", {"set terminal postscript color", "set output \"" + f + ".ps\""}, nullptr, [&] { g.savetops(f); }); break; }
    case 15: { double v = number(); int w = (int)wl(4); static const char* const n[] = {"logscale x ", "logscale y ", "logscale z ", "pointsize "}; apply(p, std::string("set ") + n[w], {std::string("set ") + n[w] + n2(v)}, nullptr, [&] { w == 0 ? g.set_xlogscale(v) : w == 1 ? g.set_ylogscale(v) : w == 2 ? g.set_zlogscale(v) : g.set_pointsize(v); }); break; }
    case 16: { int v = (int)wl_range(1, 500); bool w = wl_bool(); apply(p, w ? "set_samples" : "set_isosamples", {std::string(w ? "set samples " : "set isosamples ") + std::to_string(v)}, nullptr, [&] { if (w) g.set_samples(v); else g.set_isosamples(v); }); break; }
    case 17: { int w = (int)wl(8); static const char* const n[] = {"set grid", "unset grid", "set multiplot", "unset multiplot", "set hidden3d", "unset hidden3d", "set surface", "unset key"}; apply(p, n[w], {n[w]}, nullptr, [&] { switch (w) { case 0: g.set_grid(); break; case 1: g.unset_grid(); break; case 2: g.set_multiplot(); break; case 3: g.unset_multiplot(); break; case 4: g.set_hidden3d(); break; case 5: g.unset_hidden3d(); break; case 6: g.set_surface(); break; default: g.unset_legend(); } }); break; }
    case 18: { static const std::vector<std::string> w = {"base", "surface", "both", "top"}; std::string s = w[wl(w.size())]; apply(p, "set_contour", {"set contour " + (s == "top" ? std::string("base") : s)}, nullptr, [&] { g.set_contour(s); }); break; }
    case 19: { std::string s = wl_bool() ? "inside" : "left top"; apply(p, "set_legend", {"set key " + s}, nullptr, [&] { g.set_legend(s); }); break; }
    case 20: apply(p, "showonscreen", opening(), nullptr, [&] { g.showonscreen(); }); break;
    case 21: { bool there = wl(3) != 0; std::string f = "/sim/mydata.dat", t = word(); if (there) disk_put(f, "1 2 3\n"); else f = "/sim/nowhere.dat"; int w = (int)wl(4); size_t from = p.s().bytes.size(); unsigned a = 1 + (unsigned)wl(3), b = 1 + (unsigned)wl(3), c = 1 + (unsigned)wl(3);
        auto call = [&] { w == 0 ? g.plotfile_x(f, a, t) : w == 1 ? g.plotfile_xy(f, a, b, t) : w == 2 ? g.plotfile_xy_err(f, a, b, c, t) : g.plotfile_xyz(f, a, b, c, t); }; std::string u = std::to_string(a), v = u + ":" + std::to_string(b), z = v + ":" + std::to_string(c);
        if (!there) { bool threw = false; try { call(); } catch (const std::exception&) { threw = true; } if (!threw) violate("silent", "plotting a file that does not exist is not reported"); if (p.s().bytes.size() != from) violate("altered", "plotting a file that does not exist reaches the plotter"); break; }
        apply(p, "plotfile", {w == 0 ? p.head(true) + ("\"" + f + "\" using " + u + titled(t) + last(p)) : w == 1 ? p.head(true) + ("\"" + f + "\" using " + v + titled(t) + last(p)) : w == 2 ? p.head(true) + ("\"" + f + "\" using " + z + " with errorbars " + titled(t)) : p.head(false) + ("\"" + f + "\" using " + z + titled(t) + "with " + p.style)}, nullptr, call); break; }
    default: { int w = (int)wl(6); size_t n = draw_n(); Vec x = draw_vec(n), y = draw_vec(n), z = draw_vec(n); Rows r; std::string t = word(); if (p.used.size() > 50) return;
        if (w == 5) { size_t m = wl_bool() ? 0 : n + 1; Vec o = draw_vec(m); size_t from = p.s().bytes.size(); bool threw = false; try { if (m == 0) g.plot_xy(o, o, t); else g.plot_xyz(x, o, z, t); } catch (const std::exception&) { threw = true; } if (!threw) violate("silent", "plotting %s is not reported", m ? "vectors of different lengths" : "no points at all"); if (p.s().bytes.size() != from) violate("altered", "an invalid plot reaches the plotter"); break; }
        if (w == 4) { unsigned iw = 1 + (unsigned)wl(9), ih = 1 + (unsigned)wl(9); std::vector<unsigned char> px; for (unsigned i = 0; i < iw * ih; i++) px.push_back((unsigned char)wl(256)); for (unsigned i = 0; i < ih; i++) for (unsigned j = 0; j < iw; j++) r.r.push_back({(double)j, (double)i, (double)px[i * iw + j]}); apply(p, "plot_image", {p.head(true) + std::string("\"@\"") + (t.empty() ? "" : " title \"" + t + "\"") + " with image"}, &r, [&] { g.plot_image(px.data(), iw, ih, t); }); break; }
        for (size_t i = 0; i < n; i++) { Vec v{x[i]}; if (w > 0) v.push_back(y[i]); if (w > 1) v.push_back(z[i]); r.r.push_back(v); }
        apply(p, w == 0 ? "plot_x" : w == 1 ? "plot_xy" : w == 2 ? "plot_xy_err" : "plot_xyz", {w == 0 ? p.head(true) + ("\"@\" using 1" + titled(t) + last(p)) : w == 1 ? p.head(true) + ("\"@\" using 1:2" + titled(t) + last(p)) : w == 2 ? p.head(true) + ("\"@\" using 1:2:3 with errorbars " + titled(t)) : p.head(false) + ("\"@\" using 1:2:3" + titled(t) + "with " + p.style)}, &r, [&] { w == 0 ? g.plot_x(x, t) : w == 1 ? g.plot_xy(x, y, t) : w == 2 ? g.plot_xy_err(x, y, z, t) : g.plot_xyz(x, y, z, t); }); break; }
    }
}
void run(bool data, bool start) {
    set_limits(40000000, 4000); g_terminal = "x11"; fault_menu(true); bool able = draw_env(!start); host_setup();
    if (wl(4) == 0) { static const std::vector<std::string> t = {"qt", "dumb", "wxt", "x11 enhanced"}; std::string term = t[wl(t.size())]; bool threw = false; try { Gnuplot::set_terminal_std(term); } catch (const std::exception&) { threw = true; } if (!threw) g_terminal = term; else if (term.find("x11") == std::string::npos) violate("spurious", "set_terminal_std(%s) fails", term.c_str()); }
    std::vector<Plotter*> ps; int tries = start ? 1 + (int)wl(3) : 1 + (int)wl(3); int ops = start ? (int)wl(4) : 1 + (int)wl(14);
    for (int i = 0; i < tries; i++) { if (start && i && able && wl(4) == 0) { log("the plotter in %s is not executable any more", g_home.c_str()); plotter_install(g_home + "/gnuplot", 0); able = false; } if (Plotter* p = open_session(able, wl(data ? 2 : 4) ? (int)wl(4) : 0)) ps.push_back(p); }
    for (int i = 0; i < ops && !ps.empty(); i++) { size_t k = wl(ps.size()); if (wl(12) == 0) { close_session(ps[k]); ps.erase(ps.begin() + (long)k); continue; } one_op(*ps[k], data); if (ps[k]->poisoned) { close_session(ps[k]); ps.erase(ps.begin() + (long)k); continue; } if (wl(16) == 0) { if (Plotter* p = open_session(able, 0)) ps.push_back(p); } }
    for (size_t i = 0; i < ps.size(); i++) if (wl(6) == 0) { phase("removing temporary files"); ps[i]->g->remove_tmpfiles(); for (auto& f : ps[i]->used) if (disk_get(f, nullptr)) violate("data", "remove_tmpfiles leaves %s", f.c_str()); }
    for (auto* p : ps) close_session(p); if (disk_open_handles()) violate("leak", "%u files are still open when every session is closed", disk_open_handles());
    for (auto& s : plotter_sessions()) if (s.open) violate("leak", "a plotter process was started and never closed");
}
SCENARIO(C19, commands, 5) { run(false, false); }
SCENARIO(C19, data_files, 5) { run(true, false); }
SCENARIO(C19, starting, 3) { run(false, true); }
}
