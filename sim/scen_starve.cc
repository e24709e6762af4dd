#include "full.h"
// Episodes of full or failing disk, no memory, no threads, no descriptors, and their end (C18).
SCENARIO(starve){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new((draw(S_PLAN, 3) == 2 ? 0 : FULL_SBN) | FULL_NOEMWIN | FULL_NOFIFO | (draw(S_PLAN, 2) ? FULL_SERVE : 0)); w->rx.o.lenient = true;
  Proc *n = full_boot(w); if(!node_ready(n)) violation("boot", "daemon did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str()); sim_sleep(2*SEC, false); static std::string all; all.clear(); static std::set<std::string> stored; stored.clear(); g_fs_hook = [n](Proc *p, const std::string& op, const std::string& f){ if(p == n && op == "close") stored.insert(f); }; g_log_hook = [n](Proc *p, const std::string& l){ if(p == n) all += l + "\n"; };
  std::vector<std::string> kinds; if(w->types & 1) kinds.push_back("NBS1"); if(w->types & 2) kinds.push_back("NBS2"); std::vector<Client*> cl; bool stop = false, feeding = true; static const u64 gp[] = {600*MS, 2*SEC, 150*MS}; u64 gap = gp[draw(S_PLAN, 3)];
  auto add_client = [&]{ if(kinds.empty()) return; Client *k = client_new(kinds[draw(S_PLAN, kinds.size())], 0x0A000200 + cl.size(), strf("g%zu", cl.size())); cl.push_back(k); actor(k->p, "client", [k]{ client_run(k, 0x0A000001); }); };
  add_client(); actor(new_proc("src", 0x0A000070), "src", [&]{ while(!stop){ full_send(w, draw(S_PLAN, 6) == 5 ? 60000 : 4000); sim_sleep(draw(S_PLAN, gap), false); } feeding = false; });
  std::vector<std::pair<u64,u64>> ep; int ne = 1 + draw(S_FAULT, 4), base_fd = n->fd_limit; std::string what;
  for(int i=0;i<ne;i++){ sim_sleep(draw(S_FAULT, 4*SEC), false); u64 k = draw(S_FAULT, 8); u64 t0 = g_now; IoFaults& io = n->io; io.on = true; static const double pr[] = {1, 0.3, 0.05}; double p = pr[draw(S_FAULT, 3)]; const char *nm = "";
    switch(k){ case 0: nm = "disk_full"; io.disk_full = true; break; case 1: nm = "enospc"; io.p_enospc = p; break; case 2: nm = "eio"; io.p_eio = p; break; case 3: nm = "short"; io.p_short_write = p; break; case 4: nm = "open"; io.p_open_fail = p; break; case 5: nm = "memory"; io.p_malloc = p; break; case 6: nm = "threads"; io.p_thread = p; break; default: nm = "descriptors"; n->fd_limit = open_fds(n) + draw(S_FAULT, 2); }
    what += std::string(" ") + nm; fault_fired(strf("starve_%s", nm).c_str()); if(k >= 5) add_client(); if(draw(S_FAULT, 4) == 3) signal_proc(n, SIGHUP); u64 d = draw(S_FAULT, 3) == 2 ? draw(S_FAULT, 70*SEC) : draw(S_FAULT, 6*SEC); sim_sleep(d, false); expect_alive(n, strf("during a shortage (%s)", nm).c_str()); io = IoFaults(); n->fd_limit = base_fd; ep.push_back({t0, g_now}); }
  if(all.find("Could not load filters") != std::string::npos){ signal_proc(n, SIGHUP); sim_sleep(65*SEC, false); }                                              // a reload that failed is repeated
  if(draw(S_PLAN, 2)) sim_sleep(5*SEC, false); stop = true; wait_for([&]{ return !feeding; }, 60*SEC, 10*MS);
  w->f1->delay_max = 0; full_flow(w, 180*SEC, strf("after shortages of%s", what.c_str()).c_str()); drain_feed(n); expect_alive(n, "after the shortages"); full_check(w, false, true); full_files_whole(w);
  { std::set<u32> got; for(auto &t : w->f1->notes) got.insert(t.seq); size_t unread = 0; for(size_t k = 0; (k = all.find("Cannot retrieve element from pctldb", k)) != std::string::npos; k++) unread++;   // these are reported without their number
    std::vector<std::string> bad; for(auto &m : read_missing("n0/stats/missing", &bad)) got.insert(m.seq);
    for(auto &i : w->rx.insts){ const Prod& p = w->rx.prods[i.prod]; if(i.must && !i.loose && !got.count(p.seq) && all.find(std::to_string(p.seq)) == std::string::npos && all.find(p.fname) == std::string::npos && !stored.count("n0/spool/" + p.fname.substr(0,4) + "/" + p.fbasename) && unread-- == 0) violation("unreported", "product %u (%s) was received whole, neither announced nor recorded as missing, and no message tells of it%s", p.seq, p.fname.c_str(), what.c_str()); } }
  sample(strf("shortages%s, %zu products, %zu announced", what.c_str(), w->sent.size(), w->f1->notes.size())); probe("announced", w->f1->notes.size()); probe("sent", w->sent.size());
  for(auto k : cl) k->stop = true; clean_stop(n, 60*SEC, "after the shortages");
}
