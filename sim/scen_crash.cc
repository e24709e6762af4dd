#include "full.h"
// Killed at any step, restarted, works again (C16).
SCENARIO(crash){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(); int cycles = 1 + draw(S_PLAN, 4); static const u64 fd_[] = {0, 3*MS, 100*MS}; w->f1->delay_max = fd_[draw(S_PLAN, 3)];
  for(int cy=0; cy<cycles; cy++){
    Proc *n = full_boot(w); w->quit = false; bool early = draw(S_FAULT, 4) == 3; static const double ds[] = {0, 0.05}; n->io.on = true; n->io.p_stall = ds[draw(S_PLAN, 2)]; n->io.stall_max = 20*MS;
    if(early){ fault_fired("crash_in_startup"); crash_after_ops(n, draw(S_FAULT, 400)); wait_for([&]{ return !n->alive || exists("n0/run/nbspd.pid"); }, 20*SEC, 1*MS); }
    else if(!wait_for([&]{ return !n->alive || exists("n0/run/nbspd.pid"); }, 20*SEC, 1*MS) || !n->alive) violation("boot", "the daemon did not start%s: %s", cy ? " again after a crash" : "", n->logs.empty() ? "" : n->logs.back().c_str());
    full_noise(w, draw(S_PLAN, 4)); bool feeding = true;
    actor(new_proc(strf("src%d", cy), 0x0A000070 + cy), "src", [&]{ while(!w->quit){ full_send(w, draw(S_PLAN, 4) == 3 ? 60000 : 6000); sim_sleep(draw(S_PLAN, 3) ? draw(S_PLAN, 200*MS) : 0, false); } feeding = false; });
    if(n->alive){ u64 t = draw(S_FAULT, 3) == 2 ? draw(S_FAULT, 70*SEC) : draw(S_FAULT, 4*SEC); sim_sleep(t, false); if(draw(S_FAULT, 6) == 5){ fault_fired("crash_while_stopping"); signal_proc(n, SIGTERM); sim_sleep(draw(S_FAULT, 2) ? draw(S_FAULT, 3*SEC) : 0, false); }
      if(n->alive){ crash_after_ops(n, 1 + draw(S_FAULT, 1ull << (1 + draw(S_FAULT, 11)))); wait_for([&]{ return !n->alive; }, 5*SEC, 1*MS); if(n->alive) crash_proc(n); } fault_fired("crash"); }
    w->quit = true; wait_for([&]{ return !feeding; }, 200*SEC, 10*MS); for(auto k : w->cl) k->stop = true; w->cl.clear(); if(w->m) w->m->q.clear(); w->inq.clear(); sim_sleep(draw(S_FAULT, 2) ? 1*SEC : 100*MS, false);
    full_check(w, false); unlink("n0/run/nbspd.pid");
    if(draw(S_FAULT, 4) == 3){ probe("panic_clean"); for(auto &f : list_files("n0/db")){ std::string b = f.substr(f.rfind('/')+1); if(b.substr(0,4) == "__db" || b[0] == 'q' || b.substr(0,4) == "pctl") unlink(f.c_str()); } for(auto &f : list_files("n0/run")) unlink(f.c_str()); } }
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "the daemon did not start again after a crash: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  full_flow(w, 120*SEC, "after a crash and a restart"); expect_alive(n, "after a crash and a restart"); size_t before = w->f1->notes.size();
  std::vector<u32> q; for(int i=0;i<20;i++){ q.push_back(full_send(w, 20000)); sim_sleep(draw(S_PLAN, 300*MS), false); } sim_sleep(30*SEC, false); size_t miss = 0; for(u32 s : q) if(!full_has(w, s)) miss++;
  if(miss && w->modes == 1) violation("lost-after-restart", "%zu of 20 products sent after the restart are not announced", miss); if(w->f1->notes.size() <= before && miss == 20) violation("no-progress", "no product is announced after the restart");
  clean_stop(n, 60*SEC, "after a crash and a restart"); full_check(w, false);
  sample(strf("feed mode %d, services %d, %d crashes, %zu products announced", w->modes, w->types, cycles, w->f1->notes.size()));
}
