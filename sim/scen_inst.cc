#include "full.h"
// Several daemons started on the same configuration (C20).
SCENARIO(inst){
  pick_sched_knobs(); net_knobs_lossless(); Full *w = full_new(FULL_NOEMWIN | FULL_NOFIFO | (draw(S_PLAN, 2) ? FULL_SBN : 0) | (draw(S_PLAN, 2) ? FULL_SERVE : 0)); w->rx.o.lenient = true; std::string cf = w->c.write(); int starts = 0; std::vector<Proc*> all; Proc *run = nullptr; const std::string pf = "n0/run/nbspd.pid";
  spew("n0/bad1.conf", slurp(cf) + "set fifo_write_timeout_ms {-3}\nset spooldir {n0/nosuch}\n"); spew("n0/bad2.conf", slurp(cf) + "set nosuchoption 5\nthis is no {command\n");
  static std::vector<std::string> touched; touched.clear(); static Proc *cur_run; cur_run = nullptr;
  g_fs_hook = [](Proc *p, const std::string& op, const std::string& f){ if(op == "unlink" && cur_run && p != cur_run && p->name.compare(0, 2, "n0") == 0) touched.push_back(p->name + " removed " + f); };
  auto start = [&](int kind){ std::string nm = starts ? strf("n0.%d", starts) : "n0"; starts++; std::vector<std::string> a = {"nbspd", "-F", "-c", cf}; if(kind == 1) a[3] = "n0/bad1.conf"; if(kind == 2) a[3] = "n0/bad2.conf"; if(kind == 3) a = {"nbspd", "-F", "-C", "-c", cf}; if(kind == 4) a = {"nbspd", "-F", "-Z", "-c", cf}; if(kind == 5) a[3] = "n0/missing.conf"; Proc *p = start_node("nbspd", nm, 0x0A000001, a); all.push_back(p); return p; };
  auto alive = [&]{ std::vector<Proc*> v; for(auto p : all) if(p->alive) v.push_back(p); return v; };
  auto who = [&]{ std::string s; for(auto p : all) s += strf("%s %s; ", p->name.c_str(), p->alive ? "alive" : strf("exit %d", p->exit_code).c_str()); return s; };
  auto pidok = [&](const char *when){ bool ok; std::string s = slurp(pf, &ok); if(!ok) violation("pidfile-gone", "%s runs but %s is not there %s: %s", run->name.c_str(), pf.c_str(), when, touched.empty() ? "" : touched[0].c_str()); if(s != strf("%d\n", run->pid)) violation("pidfile-wrong", "process %d runs but its process-id file holds \"%s\" %s", run->pid, hexs(s).c_str(), when); };
  auto intact = [&](const char *when){ expect_alive(run, when); pidok(when); for(auto &s : touched) violation("disturbed", "%s, which is in use by the daemon that runs, %s", s.c_str(), when); if(!exists("n0/run/nbspd.fifo")) violation("disturbed", "the state pipe of the daemon that runs is gone %s", when); if((w->modes & 4) && !exists("n0/run/infeed.fifo")) violation("disturbed", "the input pipe of the daemon that runs is gone %s", when); };
  Client *k = nullptr; int nc = 0; auto client = [&]{ if(!(w->types & 3)) return; k = client_new(w->types & 1 ? "NBS1" : "NBS2", 0x0A000200 + nc, strf("g%d", nc)); nc++; Client *q = k; actor(q->p, "client", [q]{ client_run(q, 0x0A000001); }); };
  // rounds: some start at once; later others try; then the one that runs is stopped or crashes, perhaps while others are starting
  int rounds = 1 + draw(S_PLAN, 2); size_t losers = 0;
  for(int r=0;r<rounds && starts<6;r++){
    int m = std::min<int>(2 + draw(S_PLAN, 3), 8 - starts - 2*(rounds-1-r)); if(m < 1) m = 1; bool fault = draw(S_FAULT, 4) == 3; std::vector<Proc*> v; for(int i=0;i<m;i++){ Proc *p = start(0); v.push_back(p); if(i == 0) w->rx.install(p); if(fault && draw(S_FAULT, 2)){ p->io.on = true; p->io.p_enospc = 0.5; p->io.p_open_fail = 0.1; fault_fired("start_with_full_disk"); } sim_sleep(draw(S_FAULT, 3) ? draw(S_FAULT, 30*MS) : draw(S_FAULT, 2*SEC), false); }
    wait_for([&]{ return alive().size() <= 1 && (alive().empty() || exists(pf)); }, 20*SEC, 20*MS); sim_sleep(fault ? 10*SEC : 2*SEC, false); for(auto p : v) p->io.on = false; auto a = alive(); if(a.size() > 1) violation("many-instances", "%zu daemons run on the same configuration: %s", a.size(), who().c_str());
    for(auto p : v) if(!fault && !p->alive && p->exit_code == 0) violation("loser-status", "%s did not run and exited with status 0: %s", p->name.c_str(), p->logs.empty() ? "" : p->logs.back().c_str());
    if(a.empty()){ if(!fault) violation("no-instance", "none of %d daemons started at once runs: %s %s", m, who().c_str(), v[0]->logs.empty() ? "" : v[0]->logs.back().c_str()); bool said = false; for(auto p : v) if(has_log(p, "Could not remove pidfile")) said = true; if(said) unlink(pf.c_str()); if(exists(pf)) violation("pidfile-left", "no daemon runs and the process-id file is there, so that none can start: %s", hexs(slurp(pf)).c_str()); probe("none_started"); if(starts >= 8) break; a.push_back(start(0)); if(!wait_for([&]{ return !a[0]->alive || exists(pf); }, 20*SEC, 20*MS) || !a[0]->alive) violation("no-instance", "the daemon does not start: %s", a[0]->logs.empty() ? "" : a[0]->logs.back().c_str()); sim_sleep(500*MS, false); }
    losers += v.size() - 1; run = cur_run = a[0]; run->io.on = false; touched.clear(); w->n = run; pidok("after the start");
    full_flow(w, 60*SEC, "after several were started"); client(); intact("after several were started");
    // others try while it runs
    int o = draw(S_PLAN, 3); bool busy = true, fin = false; actor(new_proc(strf("src%d", r), 0x0A000070 + r), "src", [&]{ while(busy){ full_send(w, 4000); sim_sleep(draw(S_PLAN, 300*MS), false); } fin = true; });
    for(int i=0;i<o && starts<7;i++){ int kind = draw(S_PLAN, 7); if(kind == 6) kind = 0; Proc *p = start(kind); fault_fired(kind == 0 ? "second_instance" : kind == 3 ? "print_options" : "invalid_start"); int sg = draw(S_FAULT, 4); if(sg == 3){ sim_sleep(draw(S_FAULT, 10*MS), false); if(p->alive) signal_proc(p, draw(S_FAULT, 2) ? SIGTERM : SIGINT); } if(!wait_exit(p, 20*SEC)) violation("many-instances", "%s was started while %s ran and still runs after 20 s", p->name.c_str(), run->name.c_str()); if(kind != 3 && kind != 5 && p->exit_code == 0 && !p->crashed && sg != 3) violation("loser-status", "%s could not run and exited with status 0: %s", p->name.c_str(), p->logs.empty() ? "" : p->logs.back().c_str()); losers++; intact("after another was started"); sim_sleep(draw(S_PLAN, 2*SEC), false); }
    sim_sleep(6*SEC, false); busy = false; wait_for([&]{ return fin; }, 30*SEC, 10*MS); full_flow(w, 60*SEC, "after others were started"); intact("after others were started"); if(k && k->eof) violation("disturbed", "a client of the daemon that runs was disconnected");
    // the end of it
    cur_run = nullptr; if(k) k->stop = true; k = nullptr; bool crash = draw(S_FAULT, 3) == 2; if(crash){ crash_proc(run); fault_fired("crash"); sim_sleep(100*MS, false); if(starts < 8 && draw(S_PLAN, 2)){ Proc *p = start(0); if(!wait_exit(p, 20*SEC)){ pidok("after a crash"); run = p; clean_stop(p, 60*SEC, "after a crash"); } else if(p->exit_code == 0) violation("loser-status", "%s could not run and exited with status 0", p->name.c_str()); } unlink(pf.c_str()); unlink("n0/run/nbspd.fifo"); for(auto &f : list_files("n0/db")) if(f.find("/__db") != std::string::npos) unlink(f.c_str()); continue; }
    signal_proc(run, SIGTERM); Proc *over = nullptr; if(starts < 8 && draw(S_PLAN, 2)){ sim_sleep(draw(S_FAULT, 2) ? draw(S_FAULT, 6*SEC) : draw(S_FAULT, 50*MS), false); over = start(0); fault_fired("start_during_stop"); }
    if(!wait_exit(run, 60*SEC)) violation("shutdown-hang", "%s did not exit: %s", run->name.c_str(), blocked_summary().c_str()); if(run->exit_code) violation("shutdown-status", "exit status %d", run->exit_code);
    if(over){ sim_sleep(8*SEC, false); if(over->alive){ run = over; w->n = over; pidok("when it started while another was stopping"); if(!exists("n0/run/nbspd.fifo")) violation("disturbed", "the state pipe of a daemon started while another was stopping is gone"); full_flow(w, 60*SEC, "when started while another was stopping"); clean_stop(over, 60*SEC, "when started while another was stopping"); probe("started_during_stop"); } else if(over->exit_code == 0) violation("loser-status", "%s could not run and exited with status 0", over->name.c_str()); }
    if(exists(pf)) violation("pidfile-left", "the process-id file is still there after the daemon exited: %s", hexs(slurp(pf)).c_str()); }
  full_check(w, false, true); probe("losers", losers); sample(strf("%d starts in %d rounds, %zu products", starts, rounds, w->f1->notes.size()));
}
