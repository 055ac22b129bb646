#pragma once
#include "sim.h"
#include <string>
#include <vector>
// Simulated plotter process: popen() starts a session whose far end is under the simulator's control, and the environment it is
// found through (DISPLAY, PATH, installed executables) is simulated as well.
namespace sim {
struct Seen { std::string file, bytes; bool there; };           // a data file as it was when the line naming it arrived
struct Session { std::string command, program, bytes; bool open = true, dead = false; long long dies_after = -1; bool told = false; int closes = 0; std::vector<Seen> seen; };
void plotter_reset();
void plotter_env(bool display, const char* path);               // path null: PATH is not set
void plotter_install(const std::string& executable, int mode);  // 0: present but not executable, 1: executable
std::vector<Session>& plotter_sessions();
bool plotter_refused();                                         // a spawn failed since the last reset of this flag
void plotter_clear_refused();
}
