#include "full.h"
// Stopping at any moment in any state (C15).
SCENARIO(stop){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(); int cycles = 1 + draw(S_PLAN, 3); static const u64 fd_[] = {0, 3*MS, 200*MS}; w->f1->delay_max = fd_[draw(S_PLAN, 3)];
  if(draw(S_PLAN, 3) == 2) g_emw.delay_max = 2*SEC;
  for(int cy=0; cy<cycles; cy++){
    Proc *n = full_boot(w); bool early = draw(S_PLAN, 3) == 2;
    if(!wait_for([&]{ return !n->alive || exists("n0/run/nbspd.pid"); }, 20*SEC, 1*MS) || !n->alive) violation("boot", "the daemon did not start%s: %s", cy ? " again after it was stopped" : "", n->logs.empty() ? "" : n->logs.back().c_str());
    if(!early) sim_sleep(300*MS, false);
    static const double st[] = {0, 0.2, 0.6}, ds[] = {0, 0.05, 0.3}; n->io.on = true; n->io.p_tcp_short = st[draw(S_PLAN, 3)]; n->io.p_stall = ds[draw(S_PLAN, 3)]; n->io.stall_max = draw(S_PLAN, 2) ? 20*MS : 1*SEC;
    w->quit = false; int nc = draw(S_PLAN, 5); full_noise(w, nc); bool feeding = true;
    actor(new_proc(strf("src%d", cy), 0x0A000070 + cy), "src", [&]{ while(!w->quit){ full_send(w, draw(S_PLAN, 4) == 3 ? 60000 : 6000); sim_sleep(draw(S_PLAN, 3) ? draw(S_PLAN, 300*MS) : 0, false); } feeding = false; });
    int k = draw(S_FAULT, 9); switch(k){ case 1: if(w->m){ fault_fired("master_mute"); w->m->mute = true; } break; case 2: if(w->m){ fault_fired("partition"); net_partition(0x0A000001, 0x0A00000A, true); } break; case 3: fault_fired("net_stall"); N.p_stall = 0.3; N.stall_max = 30*SEC; break; case 4: for(auto f : w->ff){ fault_fired("fifo_blocked"); f->stall_until = NEVER; } break;
      case 5: if(w->types & 4){ g_emw.hang = true; } break; case 6: for(auto f : w->ff) f->stop = true; break; case 7: fault_fired("clients_cut"); break; default: break; }
    u64 t = early ? draw(S_FAULT, 50*MS) : draw(S_FAULT, 3) == 2 ? draw(S_FAULT, 60*SEC) : draw(S_FAULT, 6*SEC); sim_sleep(t, false);
    expect_alive(n, "before it was told to stop"); if(k == 7) tcp_reset_all(0x0A000001, 0); if(draw(S_FAULT, 4) == 3){ fault_fired("hangup"); signal_proc(n, SIGHUP); sim_sleep(draw(S_FAULT, 2) ? draw(S_FAULT, 5*SEC) : 0, false); }
    n->io.stall_max = std::min<u64>(n->io.stall_max, 20*MS); signal_proc(n, SIGTERM); u64 t0 = g_now; if(draw(S_FAULT, 4) == 3){ sim_sleep(draw(S_FAULT, 1*SEC), false); if(n->alive) signal_proc(n, SIGTERM); }
    u64 bound = 60*SEC; if(!wait_exit(n, bound)) violation("shutdown-hang", "the daemon did not exit within %.0f s of the termination request: %s", bound/1e9, blocked_summary().c_str());
    R.probes["stop_ms_max"] = std::max<u64>(R.probes["stop_ms_max"], (g_now-t0)/MS); w->quit = true; wait_for([&]{ return !feeding; }, 200*SEC, 10*MS);
    if(n->exit_code != 0) violation("shutdown-status", "exit status %d after a termination request: %s", n->exit_code, n->logs.empty() ? "" : n->logs.back().c_str());
    if(exists("n0/run/nbspd.pid")) violation("pidfile-left", "the process-id file is still there after a clean stop");
    N.p_stall = 0; net_partition(0x0A000001, 0x0A00000A, false); for(auto k : w->cl) k->stop = true; w->cl.clear(); if(w->m){ w->m->q.clear(); w->m->mute = false; } for(auto f : w->ff) f->stall_until = 0; g_emw.hang = false; sim_sleep(1*SEC, false);
    full_check(w, false); full_files_whole(w); probe("stops"); }
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "the daemon did not start again after it was stopped: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  full_flow(w, 120*SEC, "after a stop and a start"); expect_alive(n, "after a stop and a start"); clean_stop(n, 60*SEC, "at the end"); full_check(w, false);
  sample(strf("feed mode %d, services %d, %d stops, %zu products announced", w->modes, w->types, cycles, w->f1->notes.size()));
}
