#pragma once
#include "sim.h"
#include <stdio.h>
static const u64 COVSZ = 1u<<20;
struct RunCfg {
  std::string scenario; u64 seed = 0; bool replay = false;
  std::map<u32,u64> tape[NSTREAMS];
  FILE *tracef = nullptr; std::string viol_class, viol_detail; bool deadlock = false;
  u64 step_cap = 6000000, time_cap = 40000*SEC;
  std::string outdir; std::string note; std::vector<std::string> samples;
};
extern RunCfg RC; extern u8 *g_cov;
void choices_init(u64 seed); u64 run_hash(); u64 inter_hash(); const std::set<u64>& run_states();
std::string blocked_summary(); [[noreturn]] void unwind_next(); Fiber *fiber_by_id(int); const std::vector<Fiber*>& all_fibers();
ScenFn find_scenario(const std::string&);
