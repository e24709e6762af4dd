#include "cli.h"
// A chain of daemons: a master on the broadcast feed, slaves fed by the file service (C11).
static void check_slave(const char *who, const std::vector<Note>& sn, const std::vector<Note>& mn, const RxModel& rx, const std::string& root, bool strict_dup, bool mcrash, bool scrash){
  std::map<u32,const Note*> seen; std::map<u32,size_t> mpos; for(size_t i=0;i<mn.size();i++) if(!mpos.count(mn[i].seq)) mpos[mn[i].seq] = i; size_t last = 0; std::set<std::string> files;
  for(auto &t : sn){
    auto it = rx.byseq.find(t.seq); if(it == rx.byseq.end()) violation("slave-unknown", "%s announced %s which was never broadcast", who, t.raw.c_str()); const Prod& p = rx.prods[it->second];
    std::string path = root + "/spool/" + p.fname.substr(0,4) + "/" + p.fbasename; files.insert(path);
    if(!mpos.count(t.seq) && !mcrash && strict_dup) violation("slave-unknown", "%s announced %u which the master did not", who, t.seq);
    if(t.fname != p.fname || t.fpath != path) violation("slave-name", "%s announced %u as %s at %s, broadcast as %s, expected at %s", who, t.seq, t.fname.c_str(), t.fpath.c_str(), p.fname.c_str(), path.c_str());
    if((t.type & 255) != p.type || (t.cat & 255) != p.cat || (t.code & 255) != (p.code & 0xff) || t.chan != p.chan) violation("slave-codes", "%s announced %u with %d/%d/%d/%d, broadcast with %d/%d/%d/%d", who, t.seq, t.type, t.cat, t.code, t.chan, p.type, p.cat, p.code, p.chan);
    std::string want = rx.content(p); if(!t.read_ok) violation("slave-nofile", "%s announced %u but %s does not exist", who, t.seq, t.fpath.c_str());
    if(t.content != want) violation("slave-content", "%s: product %u: stored %zu bytes that differ from the %zu of the master", who, t.seq, t.content.size(), want.size());
    if(slurp(path) != want) violation("slave-content", "%s: product %u: the stored file changed after the announcement", who, t.seq);
    if(seen.count(t.seq)){ u64 dt = t.t - seen[t.seq]->t; if(strict_dup || dt > 5*SEC) violation("slave-duplicate", "%s announced %u again after %.3f s", who, t.seq, dt/1e9); }
    else if(mpos.count(t.seq)) { if(strict_dup && mpos[t.seq] < last) violation("slave-order", "%s announced %u out of the order of the master", who, t.seq); last = mpos[t.seq]; } seen[t.seq] = &t; }
  for(auto &f : list_files(root + "/spool")) if(!files.count(f) && !scrash) violation("slave-stray", "%s is in the spool of %s but was not announced", f.c_str(), who);
}
static Conf *slave_conf(const std::string& root, const std::string& filter, const std::vector<std::string>& masters, std::string opts){
  Conf *c = new Conf(root); (*c)["filterlist"] = filter; (*c)["feedmode"] = "2"; std::string m; for(auto &x : masters) m += (m.empty() ? "" : (draw(S_PLAN, 2) ? "|" : " \n ")) + strf("1,%s,2210", x.c_str()) + opts; (*c)["masterservers"] = m; g_pf[filter] = new PipeFilter; return c; }
SCENARIO(slave){
  pick_sched_knobs(); net_knobs_lossless(); install_pipe_filters(); for(int i=0;i<4;i++) sim_add_host(strdup(strf("n%d", i).c_str()), 0x0A000001 + i);
  bool faults = draw(S_PLAN, 4) != 3, chain = draw(S_PLAN, 2), two = draw(S_PLAN, 4) == 3;
  Conf c("n0"); c["filterlist"] = "f1"; auto f1 = g_pf["f1"] = new PipeFilter; RxModel rx; server_conf(c, 3); if(draw(S_PLAN, 4) == 3){ c["spoolsavefmt"] = "1"; rx.o.savefmt = 1; } static const char *qt[] = {"10000", "500", "50"}; c["client_queue_read_timeout_ms"] = qt[draw(S_PLAN, 3)]; static const char *wt[] = {"5000","500"}; c["client_write_timeout_ms"] = wt[draw(S_PLAN, 2)];
  static const char *so[] = {"", ",10,0", ",5,2,5", ",,x,3,8192"}; std::string opts = so[draw(S_PLAN, 4)];
  Proc *n = boot(c); rx.install(n); if(!node_ready(n)) violation("boot", "master did not start: %s", n->logs.empty() ? "" : n->logs.back().c_str());
  Conf *cb = nullptr; Proc *nb = nullptr; std::vector<std::string> ms = {"n0"};
  if(two){ cb = new Conf(c); cb->root = "n3"; for(auto &k : cb->o){ size_t p; while((p = k.second.find("n0/")) != std::string::npos) k.second.replace(p, 3, "n3/"); } (*cb)["filterlist"] = "b1"; g_pf["b1"] = new PipeFilter; nb = boot(*cb); if(!node_ready(nb)) violation("boot", "second master did not start"); ms.push_back("n3"); }
  // which datagrams the second master takes does not matter: its feed is the same multicast
  Conf *c1 = slave_conf("n1", "s1", ms, opts); server_conf(*c1, 3); static const char *mb[] = {"8192","1024","65536"}; (*c1)["memfileminsize"] = mb[draw(S_PLAN, 3)]; (*c1)["client_queue_read_timeout_ms"] = c["client_queue_read_timeout_ms"];
  Proc *n1 = boot(*c1); if(!node_ready(n1)) violation("boot", "slave did not start: %s", n1->logs.empty() ? "" : n1->logs.back().c_str()); int inc0 = 0, inc1 = 0;
  Conf *c2 = nullptr; Proc *n2 = nullptr; if(chain){ c2 = slave_conf("n2", "t1", {"n1"}, opts); n2 = boot(*c2); if(!node_ready(n2)) violation("boot", "second slave did not start"); }
  static const double st[] = {0, 0.2, 0.6}; double ts = st[draw(S_PLAN, 3)]; auto ioset = [&]{ for(Proc *p : {n, n1, n2, nb}) if(p){ p->io.on = true; p->io.p_tcp_short = ts; } }; ioset();
  PipeFilter *s1 = g_pf["s1"], *t1 = chain ? g_pf["t1"] : nullptr; Feed fd(&rx); std::set<u32> must; bool mastercrash = false, slavecrash = false;
  auto has = [](PipeFilter *f, u32 seq){ for(size_t i=f->notes.size(); i-- > 0;) if(f->notes[i].seq == seq) return true; return false; };
  auto sync = [&](const char *when){ // products flow again to the end of the chain within a bounded time
    u64 bound = 260*SEC, t0 = g_now; for(;;){
      Prod p = fd.make(0, 800); fd.send(p, 0); bool ok = wait_for([&]{ return has(s1, p.seq) && (!t1 || has(t1, p.seq)); }, 4*SEC, 100*MS); if(ok){ probe("resynced"); probe("resync_s", (g_now - t0)/SEC); return; }
      if(!n->alive || !n1->alive || (n2 && !n2->alive)) break; if(g_now > t0 + bound) violation("slave-stuck", "%.0f s %s no product reaches the slave%s: log of n1: %s; n0: %s", (g_now-t0)/1e9, when, has(s1, p.seq) ? " of the slave" : "", n1->logs.empty() ? "" : n1->logs.back().c_str(), n->logs.empty() ? "" : n->logs.back().c_str()); }
    expect_alive(n, when); expect_alive(n1, when); if(n2) expect_alive(n2, when); };
  sync("after the start");
  int rounds = 1 + draw(S_PLAN, 4); std::string hist;
  for(int r=0;r<rounds;r++){
    if(faults && draw(S_FAULT, 4)){ // disturbed round
      u64 k = draw(S_FAULT, 8); int np = 2 + draw(S_PLAN, 6); u64 when = draw(S_FAULT, 2*SEC), len = draw(S_FAULT, 3) == 2 ? draw(S_FAULT, 100*SEC) : draw(S_FAULT, 8*SEC); bool fin = false; hist += strf(" %d", (int)k);
      actor(new_proc("chaos", 0x0A000060 + r), "chaos", [&, k, when, len]{ sim_sleep(when, false); u32 a = 0x0A000001, b = chain && draw(S_FAULT, 2) ? 0x0A000003 : 0x0A000002; if(b == 0x0A000003) a = 0x0A000002;
        switch(k){ case 0: fault_fired("tcp_reset"); tcp_reset_all(a, b); break; case 1: fault_fired("partition"); net_partition(a, b, true); sim_sleep(len, false); net_partition(a, b, false); break;
          case 2: fault_fired("master_crash"); mastercrash = true; crash_proc(n); sim_sleep(len, false); unlink("n0/run/nbspd.pid"); n = boot(c, ++inc0); break; case 3: fault_fired("master_stop"); mastercrash = true; signal_proc(n, SIGTERM); wait_exit(n, 60*SEC); sim_sleep(len, false); n = boot(c, ++inc0); break;
          case 4: fault_fired("slave_crash"); slavecrash = true; crash_proc(n1); sim_sleep(len, false); unlink("n1/run/nbspd.pid"); n1 = boot(*c1, ++inc1); break; case 5: fault_fired("net_stall"); N.p_stall = 0.2; N.stall_max = 20*SEC; sim_sleep(len, false); N.p_stall = 0; break;
          case 6: fault_fired("slow_slave"); n1->io.p_stall = 0.3; n1->io.stall_max = 500*MS; sim_sleep(len, false); n1->io.p_stall = 0; break; default: for(int i=0;i<4;i++){ fault_fired("tcp_reset"); tcp_reset_all(a, b); sim_sleep(draw(S_FAULT, 3*SEC), false); } }
        fin = true; });
      for(int i=0;i<np;i++){ fd.send(fd.make(draw(S_PLAN, 3), draw(S_PLAN, 4) == 3 ? 200000 : 9000), 300*US); sim_sleep(draw(S_PLAN, 1*SEC), false); }
      wait_for([&]{ return fin; }, 400*SEC, 100*MS); ioset(); if(!node_ready(n)) violation("restart", "the master did not start again: %s", n->logs.empty() ? "" : n->logs.back().c_str()); if(!node_ready(n1)) violation("restart", "the slave did not start again: %s", n1->logs.empty() ? "" : n1->logs.back().c_str());
      rx.install(n); sync("after the disturbance"); }
    else { int np = 2 + draw(S_PLAN, 12); size_t m0 = f1->notes.size(), q0 = s1->notes.size(), t0 = t1 ? t1->notes.size() : 0; std::vector<u32> sent; u64 tr0 = g_now; int to1 = count_log(n1, "Timed out receiving"), to2 = n2 ? count_log(n2, "Timed out receiving") : 0;
      for(int i=0;i<np;i++){ Prod p = fd.make(draw(S_PLAN, 3), draw(S_PLAN, 5) == 4 ? 40000 : 9000); sent.push_back(p.seq); fd.send(p, 2*MS); if(draw(S_PLAN, 2)) sim_sleep(draw(S_PLAN, 1*SEC), false); }
      bool ok = wait_for([&]{ return s1->notes.size() >= q0 + np && (!t1 || t1->notes.size() >= t0 + np); }, 60*SEC, 200*MS); sim_sleep(1*SEC, false); (void)m0; if((count_log(n1, "Timed out receiving") != to1 || (n2 && count_log(n2, "Timed out receiving") != to2)) && g_now - tr0 > 6*SEC){ probe("calm_round_timed_out"); continue; } // a slow processor: the slave gave the connection up by configuration
      for(auto s : sent){ if(!has(f1, s)){ probe("master_dropped"); continue; } if(!has(s1, s)) violation("slave-missed", "product %u was announced by the master over an undisturbed connection but not by the slave%s", s, ok ? "" : " (waited 60 s)"); if(t1 && !has(t1, s)) violation("slave-missed", "product %u was announced by the slave over an undisturbed connection but not by its own slave", s); }
      probe("calm_products", np); }
  }
  sim_sleep(8*SEC, false); // whatever is still on its way to a filter arrives
  for(Proc *p : {n, n1, n2, nb}) if(p) expect_alive(p, "at the end");
  if(!s1->bad.empty()) violation("slave-format", "malformed line from the slave: %s", hexs(s1->bad[0], 100).c_str());
  check_slave("the slave", s1->notes, f1->notes, rx, "n1", !two, mastercrash, slavecrash); if(t1) check_slave("the slave's slave", t1->notes, f1->notes, rx, "n2", !two, mastercrash, false);
  if(!mastercrash) rx.check(f1->notes, "n0"); sample(strf("%s%s%zu products, slave announced %zu, disturbances:%s", chain ? "chain of 3, " : "", two ? "two masters, " : "", f1->notes.size(), s1->notes.size(), hist.c_str()));
  std::vector<Proc*> all = {n, n1}; if(n2) all.push_back(n2); if(nb) all.push_back(nb); while(!all.empty()){ size_t i = draw(S_PLAN, all.size()); clean_stop(all[i], 60*SEC, "as part of a chain"); all.erase(all.begin()+i); }
}
