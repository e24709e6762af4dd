#include "feed.h"
// One daemon on the NOAAPort multicast feed with a pipe filter.
SCENARIO(smoke){
  pick_sched_knobs(); net_knobs_lossless(); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; g_pf["f1"] = new PipeFilter; RxModel rx;
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  u32 sbn[16] = {0};
  for(int i=0;i<10;i++){ Prod p = rand_prod(1000+i, draw(S_PLAN,3), 9000); prod_build(p, sbn[p.chan]); rx.add(p); for(auto &f : p.frames){ inject_frame(p.chan, f); sim_sleep(50*US + draw(S_PLAN, 3)*MS, false);} }
  drain_feed(n); rx.check(g_pf["f1"]->notes, "n0");
  clean_stop(n, 60*SEC, "idle");
}
SCENARIO(recv){
  pick_sched_knobs(); bool faults = draw(S_PLAN, 4) != 3; pick_net_knobs(faults); install_pipe_filters();
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; RxModel rx; recv_conf(c, rx.o);
  static const u64 fd[] = {0, 3*MS, 200*MS}; f1->delay_max = fd[draw(S_PLAN, 3)];
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  if(draw(S_PLAN, 3) == 2){ static const double ds[] = {0.01, 0.1}; n->io.on = true; n->io.p_stall = ds[draw(S_PLAN, 2)]; n->io.stall_max = draw(S_PLAN, 2) ? 50*MS : 2*SEC; }
  run_feed(rx, 1 + draw(S_PLAN, 7), 2 + draw(S_PLAN, 10), draw(S_PLAN, 5) == 4 ? 90000 : 9000, faults, faults);
  N.p_drop = N.p_dup = N.p_reorder = 0; n->io.on = false; f1->delay_max = 0;
  drain_feed(n); expect_alive(n, "while receiving"); if(!f1->bad.empty()) violation("announce-format", "malformed filter line: %s", hexs(f1->bad[0], 200).c_str());
  rx.check(f1->notes, "n0"); sample(strf("%zu products, %zu accepted starts, %zu announced", rx.prods.size(), rx.insts.size(), f1->notes.size()));
  clean_stop(n, 60*SEC, "after reception");
}
